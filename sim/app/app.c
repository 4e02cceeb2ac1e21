#include "App.h"
#include <stdarg.h>
#include <string.h>
static TApp the_app = { .LogLevel = { 4,4,4,4,4,4,4,4,4,4,4,4,4,4,4 } };
TApp *App = &the_app;
void (*sim_log_hook)(int lib, int lvl, const char *msg);
void Lib_Log(TApp_Lib lib, TApp_LogLevel lvl, const char *fmt, ...) {
    /* formatting is always done, so that a bad format or argument is exercised */
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (sim_log_hook) sim_log_hook((int)lib, (int)lvl, b);
}
static const char *names[] = { "ALWAYS","FATAL","SYSTEM","ERROR","WARNING","INFO","STAT","TRIVIAL","DEBUG","EXTRA","QUIET" };
int Lib_LogLevel(TApp_Lib lib, char *val) {
    int old = App->LogLevel[lib];
    if (val) for (int i = 0; i < 11; i++) if (!strncasecmp(val, names[i], strlen(names[i]))) App->LogLevel[lib] = i;
    return old;
}
int Lib_LogLevelNo(TApp_Lib lib, TApp_LogLevel v) {
    int old = App->LogLevel[lib];
    if ((int)v >= -1 && v <= APP_QUIET) App->LogLevel[lib] = v;
    return old;
}
void sim_app_log(int lib, int lvl, int n, const char *msg) { Lib_Log((TApp_Lib)lib, (TApp_LogLevel)lvl, "%.*s", n, msg); }
