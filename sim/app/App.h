// Stand-in for the App submodule (empty in this checkout): only what librmn uses.
#ifndef SIM_APP_H
#define SIM_APP_H
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { APP_MAIN, APP_LIBRMN, APP_LIBFST, APP_LIBBRP, APP_LIBWB, APP_LIBGMM, APP_LIBVGRID, APP_LIBINTERPV, APP_LIBGEOREF, APP_LIBRPNMPI, APP_LIBIRIS, APP_LIBIO, APP_LIBMDLUTIL, APP_LIBSPSDYN, APP_LIBMETA, APP_MAXLIB } TApp_Lib;
typedef enum { APP_VERBATIM = -1, APP_ALWAYS, APP_FATAL, APP_SYSTEM, APP_ERROR, APP_WARNING, APP_INFO, APP_STAT, APP_TRIVIAL, APP_DEBUG, APP_EXTRA, APP_QUIET } TApp_LogLevel;
typedef struct { int LogLevel[APP_MAXLIB]; } TApp;
extern TApp *App;
void Lib_Log(TApp_Lib lib, TApp_LogLevel lvl, const char *fmt, ...);
int Lib_LogLevel(TApp_Lib lib, char *val);
int Lib_LogLevelNo(TApp_Lib lib, TApp_LogLevel val);
#ifdef __cplusplus
}
#endif
#endif
