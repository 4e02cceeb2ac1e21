// Dates (moduledate.f90, datec/jdatec, system_time.F90) against an independent model of the
// calendars: D01. The date sources are compiled as in the OpenMP build of the library, with
// every access to shared memory a pre-emption point; the threads of a parallel region are
// simulated ones.
#include "sim.h"
#include <pthread.h>
#include <time.h>
#include <algorithm>
#include <cmath>
using namespace sim;
extern "C" {
int newdate_(int* d1, int* d2, int* d3, int* mode);
void incdatr_(int*, int*, double*); void incdati_(int*, int*, double*);
void difdatr_(int*, int*, double*); void difdati_(int*, int*, double*);
int idatmg2_(int*); void datmgp2_(int*);
void newdate_options_(char* v, char* c, size_t lv, size_t lc);
void get_calendar_status_(int*, int*); void ignore_leapyear_(); void accept_leapyear_(); void get_leapyear_status_(int*);
void datec_(int*, int*, int*, int*); void jdatec_(int*, int*, int*, int*);
void system_time_(int*, int*); int c_time_(); double f_gettimeofday_(); long long f_gettimeofday_micro_();
void world_date_and_time_(int*, int*, int*, int*, int*, int*, int*, int*);
// what the OpenMP run-time library gives a parallel region
static thread_local int my_number;
static pthread_mutex_t crit_ = PTHREAD_MUTEX_INITIALIZER; static int last_ = -1, run_;
int omp_get_thread_num_() { return my_number; }
void GOMP_critical_start() {
    // a thread that spins lets the others run
    if (last_ == my_number) { if (++run_ > 6) { run_ = 0; struct timespec ts = { 0, 1000 }; nanosleep(&ts, nullptr); } } else { last_ = my_number; run_ = 0; }
    pthread_mutex_lock(&crit_);
}
void GOMP_critical_end() { pthread_mutex_unlock(&crit_); }
}
enum { K_BAD = O_USER, K_DID };
static void bad(const std::string& s, long a = 0, long b = 0) { obs(K_BAD, { a, b }, s.substr(0, 62).c_str()); }

// ------------------------------------------------------------------ the model
typedef long long ll;
struct Civ { ll y; int m, d; };
static ll fdiv(ll a, ll b) { ll q = a / b; return q - ((a % b) && ((a < 0) != (b < 0))); }
static ll dayno(ll y, int m, int d) { ll p = y - 1; ll n = p * 365 + fdiv(p, 4) - fdiv(p, 100) + fdiv(p, 400); static const int c[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 }; bool lp = (y % 4 == 0 && y % 100) || y % 400 == 0; return n + c[m - 1] + (lp && m > 2) + d; }   // 0001-01-01 is day 1
static bool leap(ll y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
static int mlen(ll y, int m) { static const int c[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return c[m - 1] + (m == 2 && leap(y)); }
static Civ civ(ll n) { ll y = fdiv(n * 400, 146097) + 1; while (dayno(y, 1, 1) > n) y--; while (dayno(y + 1, 1, 1) <= n) y++; Civ c{ y, 1, 0 }; ll r = n - dayno(y, 1, 1); while (r >= mlen(y, c.m)) { r -= mlen(y, c.m); c.m++; } c.d = (int)r + 1; return c; }
static const ll D0 = dayno(0, 1, 1), D1900 = dayno(1900, 1, 1), D1980 = dayno(1980, 1, 1), D2000 = dayno(2000, 1, 1), D2236 = dayno(2236, 1, 1), D10K = dayno(10000, 1, 1), D1970 = dayno(1970, 1, 1);
struct T { ll day; int sec; };   // an instant
static ll td(T t) { return (t.day - D1980) * 17280 + t.sec / 5; }
static T of_td(ll v) { ll d = fdiv(v, 17280); return { D1980 + d, (int)(v - d * 17280) * 5 }; }
static ll hr(T t) { return (t.day - D0) * 24 + t.sec / 3600; }
static T of_hr(ll h) { ll d = fdiv(h, 24); return { D0 + d, (int)(h - d * 24) * 3600 }; }
enum { S_OLD, S_NEW, S_EXT };
static int st_new(T t) { ll v = td(t); return (int)(123200000 + v / 8 * 10 + v % 8); }
static int st_old(T t, int run) { Civ c = civ(t.day); return c.m * 10000000 + c.d * 100000 + (int)(c.y - 1900) * 1000 + t.sec / 3600 * 10 + run; }
static int st_ext(T t) { ll v = hr(t); return (int)(uint32_t)(3000000000ll + v / 8 * 10 + v % 8); }
static int stamp(T t, int style, int run) { return style == S_OLD ? st_old(t, run) : style == S_NEW ? st_new(t) : st_ext(t); }
static bool inner(T t) { return t.day >= D1900 && t.day < D2236; }
// the instant moved to where a style can say it
static void fit(T& t, int& style) {
    t.day = std::max(D0, std::min(D10K - 1, t.day)); t.sec = std::max(0, std::min(86399, t.sec)) / 5 * 5;
    if (style == S_OLD && (t.day < D1900 || t.day >= D2000)) style = S_NEW;
    if (style == S_NEW && (t.day < D1980 || t.day >= D2236)) style = S_EXT;
    if (style != S_NEW) t.sec = t.sec / 3600 * 3600;
    Civ c = civ(t.day); if (style != S_EXT && c.y == 1901 && c.m == 1 && c.d == 1) t.sec = 0;
}
static int ymd(T t) { Civ c = civ(t.day); return (int)(c.y * 10000 + c.m * 100 + c.d); }
static int hms(T t) { return t.sec / 3600 * 1000000 + t.sec / 60 % 60 * 10000 + t.sec % 60 * 100; }
// the stamp true dates and extended true dates turn into
static int st_of(T t, int run) { if (t.day >= D2000 || t.sec % 3600) return st_new(t); return st_old(t, run); }
// calendars without leap days / of twelve thirty-day months, as numbers of days
enum { GREG, C365, C360 };
static ll cnum(Civ c, int cal) {
    if (cal == C365) { static const int k[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 }; return c.y * 365 + k[c.m - 1] + c.d - 1; }
    int n = c.m == 1 ? c.d : c.m == 2 ? 31 + c.d : c.m == 3 ? 59 + c.d : (c.m - 1) * 30 + c.d; return c.y * 360 + n - 1;
}
static Civ cof(ll n, int cal) {
    ll y = fdiv(n, cal == C365 ? 365 : 360); int r = (int)(n - y * (cal == C365 ? 365 : 360)); Civ c{ y, 1, 0 };
    if (cal == C365) { while (r >= mlen(1, c.m)) { r -= mlen(1, c.m); c.m++; } c.d = r + 1; return c; }
    if (r < 31) { c.d = r + 1; } else if (r < 59) { c.m = 2; c.d = r - 30; } else if (r < 90) { c.m = 3; c.d = r - 58; } else { c.m = r / 30 + 1; c.d = r % 30 + 1; }
    return c;
}
static bool legal(T t, int cal) { Civ c = civ(t.day); if (cal == GREG) return true; if (c.m == 2 && c.d == 29) return false; return cal == C365 || !(c.m > 3 && c.d > 30); }
static T plus5(T t, ll n, int cal) {   // n units of 5 s later
    ll s = t.sec / 5 + n; ll dd = fdiv(s, 17280); T r; r.sec = (int)(s - dd * 17280) * 5;
    if (cal == GREG) r.day = t.day + dd; else { Civ c = cof(cnum(civ(t.day), cal) + dd, cal); r.day = dayno(c.y, c.m, c.d); }
    return r;
}
static ll minus5(T a, T b, int cal) { ll dd = cal == GREG ? a.day - b.day : cnum(civ(a.day), cal) - cnum(civ(b.day), cal); return dd * 17280 + (a.sec - b.sec) / 5; }
static const char* cname(int c) { return c == GREG ? "gregorian" : c == C365 ? "365_day" : "360_day"; }

// ------------------------------------------------------------------ calls and their answers
// The calendars a call may have met: the one in force when it began and those chosen while it ran.
static int cal_ = 1; static bool locked_; static int active_[16]; static int setting_[16], over_[16];   // masks of calendars
static int begin(int t) { int m = cal_; for (int k = 0; k < 16; k++) m |= setting_[k]; active_[t] = m; return 0; }
static void chosen(int m) { for (auto& a : active_) a |= m; }
static std::string hrs(double h) { char b[40]; snprintf(b, sizeof b, "%.6f", h); return b; }
static void conv(const Op& o) {
    int t = (int)o.A(0), mode = (int)o.A(1), style = (int)o.A(4); T x{ o.A(2), (int)o.A(3) }; fit(x, style); int run = (int)o.A(5), odd = (int)o.A(6);
    if (style != S_OLD) run = 0;
    int a = -7777, b = -7777, r; int arr[14]; for (int& v : arr) v = -7777;
    auto call = [&](int m) { begin(t); r = newdate_(&a, arr, &b, &m); };
    auto want = [&](ll w, ll g, const char* what) { if (w != g) bad(std::string(what) + " " + std::to_string(ymd(x)) + "." + std::to_string(hms(x)) + " mode " + std::to_string(mode), w, g); };
    bool ext = style == S_EXT; int run_out = style == S_OLD ? run : 0;
    if (odd && mode >= -7 && mode <= 7) {
        // dates and arguments that do not exist are refused
        static const int od[][2] = { { 20011301, 0 }, { 20010001, 0 }, { 20010132, 0 }, { 20010100, 0 }, { 20010229, 0 }, { 19000229, 0 }, { 20010431, 0 }, { 20010101, 24000000 }, { 21000229, 0 }, { 20040230, 0 }, { 19990931, 12000000 } };
        auto& q = od[odd % 11]; arr[0] = q[0]; b = q[1]; int m = mode;
        if (m == 2 || m == 3 || m == 5 || m == 7) { call(m); if (r != 1 && !(q[0] == 20010431 || q[0] == 19990931)) bad("a date that does not exist was converted, mode " + std::to_string(m), q[0], r); return; }
        if (m == 4) { for (int& v : arr) v = 0; arr[1] = q[0] / 100 % 100; arr[2] = q[0] % 100; arr[3] = q[0] / 10000; arr[4] = q[1] / 1000000; begin(t); if (q[0] == 20010431 || q[0] == 19990931) return; r = idatmg2_(arr); if (r != 101010101 || arr[13] != 101010101) bad("idatmg2 gave a date that does not exist a stamp", q[0], r); return; }
        if (m == -2 || m == -1) { a = -504904320 - 720 * odd; if (odd & 1) a = -504904320 + 720 * odd + 1; b = 0; call(m); if (r != 1) bad("a true date that does not exist was converted, mode " + std::to_string(m), a, r); return; }
        if (m == 1 || m == 6) { m = odd & 1 ? 0 : odd & 2 ? 8 : -8; call(m); if (r != 1) bad("an unknown mode was accepted", m, r); return; }
        if (m == -3) { a = odd & 1 ? 1301010 * 100 : odd & 2 ? 0 : 13101011; if (a == 13101011) a = 130990000 - 10000000 + 990; if (a > 123200000) a = 0; call(m); if (r != 1) bad("a stamp that does not exist was converted", a, r); return; }
        return;
    }
    switch (mode) {
        case 3: case 5: {
            // minutes and seconds may be there whatever the style
            T y = x; y.sec = std::max(0, std::min(86399, (int)o.A(3))); bool exc = ymd(y) == 19010101 && hms(y) == 1000000;
            arr[0] = ymd(y); b = hms(y); call(mode); want(0, r, "newdate refused"); int w;
            if (mode == 5 || exc || !inner(y)) w = st_ext(y); else if (y.day >= D2000 || (y.day >= D1980 && y.sec % 3600)) w = st_new(y); else { T z = y; z.sec = z.sec / 3600 * 3600; w = st_old(z, 0); }
            want(w, a, "stamp of"); break;
        }
        case -3: case -5: if (mode == -5 && !ext) { T y = x; y.sec = y.sec / 3600 * 3600; x = y; } a = mode == -5 ? st_ext(x) : stamp(x, style, run); call(mode); want(0, r, "newdate refused"); want(ymd(x), arr[0], "date of stamp"); want(hms(x), b, "time of stamp"); break;
        case 2: if (!inner(x)) { arr[0] = ymd(x); b = hms(x); call(2); want(1, r, "true date of a far date"); break; } if (ymd(x) == 19010101) break; arr[0] = ymd(x); b = hms(x); call(2); want(0, r, "newdate refused"); want(td(x), a, "true date of"); break;
        case -2: if (!inner(x)) break; a = (int)td(x); call(-2); want(0, r, "newdate refused"); want(ymd(x), arr[0], "date of true date"); want(hms(x), b, "time of true date"); break;
        case 1: if (ext) { arr[0] = st_ext(x); call(1); want(1, r, "basic true date of an extended stamp"); break; } arr[0] = stamp(x, style, run); call(1); want(0, r, "newdate refused"); want(td(x), a, "true date of stamp"); want(run_out, b, "run of stamp"); break;
        case -1: if (!inner(x)) break; a = (int)td(x); b = run = (int)o.A(5); call(-1); want(0, r, "newdate refused"); want(st_of(x, run), arr[0], "stamp of true date"); break;
        case 6: arr[0] = stamp(x, style, run); call(6); want(0, r, "newdate refused"); want(hr(x), a, "extended true date of stamp"); want(run_out, b, "run of stamp"); break;
        case -6: { T y = x; y.sec = y.sec / 3600 * 3600; a = (int)hr(y); call(-6); want(0, r, "newdate refused"); bool exc = ymd(y) == 19010101 && hms(y) == 1000000; want(inner(y) && !exc ? st_of(y, 0) : st_ext(y), arr[0], "stamp of extended true date"); break; }
        case 7: arr[0] = ymd(x); b = hms(x); call(7); want(0, r, "newdate refused"); want(hr(x), a, "extended true date of"); break;
        case -7: { T y = x; y.sec = y.sec / 3600 * 3600; x = y; a = (int)hr(y); call(-7); want(0, r, "newdate refused"); want(ymd(x), arr[0], "date of extended true date"); want(hms(x), b, "time of extended true date"); break; }
        case 4: case -4: case 14: case 15: {
            Civ c = civ(x.day); static const char* mn[] = { "JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC" }; static const char* dn[] = { "SUN", "MON", "TUE", "WED", "THU", "FRI", "SAT" };
            int wd = (int)((x.day % 7 + 7) % 7);   // 0001-01-01 was a Monday
            if (mode == 4 || mode == 14) {
                if (c.y < 100) break; if (ymd(x) == 19010101) break;
                arr[1] = c.m; arr[2] = c.d; arr[3] = (int)c.y; if (o.A(5) & 1 && c.y >= 1900 && c.y < 2000) arr[3] -= 1900; arr[4] = x.sec / 3600; arr[5] = x.sec % 3600 * 100;
                int w = !inner(x) ? st_ext(x) : x.day >= D2000 || (x.day >= D1980 && x.sec % 3600) ? st_new(x) : st_old(x, 0);
                if (mode == 4) { int m = 4; begin(t); r = newdate_(&a, arr, &b, &m); want(0, r, "newdate refused"); } else { begin(t); a = idatmg2_(arr); }
                want(w, a, "stamp of date array"); want(w, arr[13], "stamp in date array"); break;
            }
            int s = stamp(x, style, run); if (mode == -4) { a = s; int m = -4; begin(t); r = newdate_(&a, arr, &b, &m); want(0, r, "newdate refused"); } else { arr[13] = s; begin(t); datmgp2_(arr); }
            want(wd + 1, arr[0], "day of the week of"); want(c.m, arr[1], "month of"); want(c.d, arr[2], "day of"); want(c.y, arr[3], "year of"); want(x.sec / 3600, arr[4], "hour of"); want(x.sec % 3600 * 100, arr[5], "part of the hour of");
            char txt[40], yy[8]; snprintf(yy, sizeof yy, "%02lld", c.y); snprintf(txt, sizeof txt, " %s %s %02d %4s %02dZ%02d:%02d.00", dn[wd], mn[c.m - 1], c.d, yy, x.sec / 3600, x.sec / 60 % 60, x.sec % 60);
            if (memcmp(txt, arr + 6, 28)) bad("text of " + std::string(txt), ymd(x), hms(x));
        }
    }
    active_[t] = 0;
}
static bool judged(T a, T b, int cals) { for (int c = 0; c < 3; c++) if (cals >> c & 1) if (!legal(a, c) || !legal(b, c)) return false; return true; }
static void inc(const Op& o) {
    int t = (int)o.A(0), style = (int)o.A(3); T x{ o.A(1), (int)o.A(2) }; fit(x, style); ll n = o.A(4); int run = style == S_OLD ? (int)o.A(5) : 0; bool whole = o.A(6) & 1, alias = o.A(6) & 2;
    if (style != S_NEW) n = n / 720 * 720;
    int s = stamp(x, style, run), out = -1; double h = n / 720.0;
    if (whole && n % 720 % 360 == 0 && n % 720) return;
    begin(t);
    int in = s; if (alias) { out = s; if (whole) incdati_(&out, &out, &h); else incdatr_(&out, &out, &h); } else { if (whole) incdati_(&out, &in, &h); else incdatr_(&out, &in, &h); if (in != s) bad("incdat changed the date it was given", s, in); }
    int m = active_[t]; active_[t] = 0;
    if (!judged(x, x, m)) return;
    bool ok = false; ll w0 = 0;
    for (int c = 0; c < 3 && !ok; c++) if (m >> c & 1) {
        T b = x; ll k = n;
        if (whole) { k = fdiv(n + 360, 720) * 720; if (style == S_NEW) { ll v = td(x); v = fdiv(v + 360, 720) * 720; b = of_td(v); if (!legal(b, c) || b.day >= D2236) return; } }
        T r = plus5(b, k, c); if (r.day < D0 + 400 || r.day >= D10K - 400) return;
        int e;
        // parts of an hour before 1980 and at the very ends of the range are not judged
        if (llabs(r.day - D1900) < 2 || llabs(r.day - D2236) < 2 || r.day == dayno(1901, 1, 1)) return;
        if (style == S_EXT) e = inner(r) ? st_of(r, 0) : st_ext(r);
        else {
            ll un = td(b) + k;   // the basic dates are left as soon as the gregorian sum or the sum itself leaves them
            if (un >= -504904320 && un <= 1615714548 && inner(r)) { if (r.day < D1980 && r.sec % 3600) return; e = st_of(r, run); }
            else { if (k % 720 || n % 720 || x.sec % 3600) return; e = inner(r) ? st_of(r, 0) : st_ext(r); }
        }
        w0 = e; if (e == out) ok = true;
    }
    if (!ok) bad("incdat " + std::to_string(ymd(x)) + "." + std::to_string(x.sec) + " + " + hrs(h) + " cal " + std::to_string(m), w0, out); else probe("date added");
}
static void dif(const Op& o) {
    int t = (int)o.A(0), s1 = (int)o.A(3), s2 = (int)o.A(6); T x{ o.A(1), (int)o.A(2) }, y{ o.A(4), (int)o.A(5) }; fit(x, s1); fit(y, s2); bool whole = o.A(7) & 1;
    int a = stamp(x, s1, 0), b = stamp(y, s2, 0); double h = -1; begin(t); int a0 = a, b0 = b;
    if (whole) difdati_(&a, &b, &h); else difdatr_(&a, &b, &h);
    int m = active_[t]; active_[t] = 0; if (a != a0 || b != b0) bad("difdat changed the dates it was given");
    if (!judged(x, y, m)) return;
    bool e = s1 == S_EXT || s2 == S_EXT, ok = false; double w0 = 0;
    for (int c = 0; c < 3 && !ok; c++) if (m >> c & 1) {
        T p = x, q = y; if (e) { p.sec = p.sec / 3600 * 3600; q.sec = q.sec / 3600 * 3600; }
        else if (whole) { if (p.sec % 3600 == 1800 || q.sec % 3600 == 1800) return; p = of_td(fdiv(td(p) + 360, 720) * 720); q = of_td(fdiv(td(q) + 360, 720) * 720); if (!legal(p, c) || !legal(q, c) || p.day >= D2236 || q.day >= D2236) return; }
        w0 = minus5(p, q, c) / 720.0; if (std::fabs(w0 - h) < 1e-6) ok = true;
    }
    if (!ok) bad("difdat " + std::to_string(ymd(x)) + "." + std::to_string(x.sec) + " - " + std::to_string(ymd(y)) + "." + std::to_string(y.sec) + " cal " + std::to_string(m), (ll)std::llround(w0 * 720), (ll)std::llround(h * 720)); else probe("dates subtracted");
}
static void opt(const Op& o) {
    int t = (int)o.A(0), how = (int)o.A(1), c = (int)o.A(2), nw = 0;
    if (how == 1) c = C365; if (how == 2) c = GREG;
    nw = 1 << c;
    if (how == 3) { c = C365; if (cal_ == 1 << C360) return; nw = 1 << GREG; }
    if (locked_) nw = cal_;
    over_[t] = 0; for (int k = 0; k < 16; k++) if (setting_[k]) { over_[t] |= setting_[k]; over_[k] |= nw; }
    setting_[t] = nw; chosen(nw);
    char v[32], k[8]; const char* cmd = how == 3 ? "unset" : "set"; memset(v, ' ', 32); std::string s = std::string("year=") + cname(c);
    if (o.A(3) & 1) for (char& ch : s) ch = (char)toupper(ch);
    memcpy(v, s.data(), s.size()); memcpy(k, cmd, strlen(cmd));
    if (how == 1) ignore_leapyear_(); else if (how == 2) accept_leapyear_(); else newdate_options_(v, k, s.size() + (o.A(3) & 2 ? 3 : 0), strlen(cmd));
    chosen(nw); cal_ = nw | over_[t]; setting_[t] = 0;
}
static void get(const Op& o) {
    int t = (int)o.A(0), how = (int)o.A(1); begin(t); int got = 0;
    if (how == 0) { char v[20]; memset(v, ' ', 20); memcpy(v, "year", 4); newdate_options_(v, (char*)"get", 20, 3); std::string s(v, 20); while (!s.empty() && s.back() == ' ') s.pop_back(); for (int c = 0; c < 3; c++) if (s == cname(c)) got |= 1 << c; if (!got) bad("calendar name: " + s); }
    else if (how == 1) { int nl = 7, cc = 7; get_calendar_status_(&nl, &cc); got = cc ? 1 << C360 : nl ? 1 << C365 : 1 << GREG; if (cc && !nl) bad("a 360-day calendar has leap years"); }
    else { int nl = 7; get_leapyear_status_(&nl); got = nl ? 1 << C365 | 1 << C360 : 1 << GREG; }
    int m = active_[t]; active_[t] = 0; if (!(got & m)) bad("the calendar in force is reported wrongly", m, got);
}
static const struct { const char* tz; int off; } TZ[] = { { "UTC0", 0 }, { "EST5", -300 }, { "NST3:30", -210 }, { "IST-5:30", 330 }, { "NPT-5:45", 345 }, { "LINT-14", 840 }, { "BIT12", -720 }, { "CHADT-13:45", 825 }, { "MART9:30", -570 } };
static void now(const Plan& p, const Op& o) {
    auto at = [] { int64_t n = now_ns(); return (ll)1700000000 * 1000 + n / 1000000; };   // milliseconds
    ll t0 = at(); int off = TZ[p.C("tz") % 9].off; ll f0 = 0, f1 = 0;
    auto parts = [&](ll ms, int of, int* v) { ll s = fdiv(ms, 1000) + of * 60; ll d = fdiv(s, 86400); Civ c = civ(D1970 + d); int q = (int)(s - d * 86400); v[0] = (int)c.y; v[1] = c.m; v[2] = c.d; v[3] = q / 3600; v[4] = q / 60 % 60; v[5] = q % 60; v[6] = (int)(ms - fdiv(ms, 1000) * 1000); };
    int g[7] = {}, w0[7], w1[7]; (void)f0; (void)f1;
    switch (o.A(0)) {
        case 0: { int a = 0, b = 0; system_time_(&a, &b); ll t1 = at(); parts(t0, 0, w0); parts(t1, 0, w1); auto is = [&](int* w) { return a == w[0] * 10000 + w[1] * 100 + w[2] && b == w[3] * 1000000 + w[4] * 10000 + w[5] * 100; }; if (!is(w0) && !is(w1)) bad("system_time differs from the clock: " + std::to_string(a) + "." + std::to_string(b), w1[0] * 10000 + w1[1] * 100 + w1[2], w1[3] * 10000 + w1[4] * 100 + w1[5]); break; }
        case 1: case 2: { int gm = o.A(0) == 1; world_date_and_time_(g, g + 1, g + 2, g + 3, g + 4, g + 5, g + 6, &gm); ll t1 = at(); parts(t0, gm ? 0 : off, w0); parts(t1, gm ? 0 : off, w1); if (memcmp(g, w0, sizeof g) && memcmp(g, w1, sizeof g)) bad(std::string(gm ? "GMT" : "local time") + " differs from the clock: " + std::to_string(g[2]) + " " + std::to_string(g[3]) + ":" + std::to_string(g[4]), w1[2], w1[3] * 100 + w1[4]); break; }
        case 3: { int v = c_time_(); ll t1 = at(); if (v != t0 / 1000 && v != t1 / 1000) bad("c_time differs from the clock", t0 / 1000, v); break; }
        case 4: { long long v = f_gettimeofday_micro_(); ll t1 = at(); if (v / 1000 != t0 && v / 1000 != t1) bad("f_gettimeofday_micro differs from the clock", t0, v); break; }
        default: { double v = f_gettimeofday_(); ll t1 = at(); if (std::fabs(v * 1000 - t0) > 1.5 && std::fabs(v * 1000 - t1) > 1.5) bad("f_gettimeofday differs from the clock", t0, (ll)(v * 1000)); }
    }
    probe("clock read");
}
static void jul(const Op& o) {
    T x{ o.A(1), 0 }; x.day = std::max(D0, std::min(D10K - 1, x.day)); int jd = (int)(x.day + 1721425), y, m, d; datec_(&jd, &y, &m, &d); Civ c = civ(x.day);
    if (y != c.y || m != c.m || d != c.d) bad("datec", ymd(x), y * 10000 + m * 100 + d); int k = -1, cy = (int)c.y; jdatec_(&k, &cy, &c.m, &c.d); if (k != jd) bad("jdatec", jd, k);
}
static void work(const Op& o) { set_op(o.id); if (o.name == "conv") conv(o); else if (o.name == "inc") inc(o); else if (o.name == "dif") dif(o); else if (o.name == "opt") opt(o); else if (o.name == "get") get(o); else if (o.name == "jul") jul(o); else return; obs(K_DID, { o.A(0) }); }

struct H : Harness {
    std::vector<std::string> props() override { return { "D01" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; p.sched_seed = r.next(); static const std::vector<double> ps = { 0.5, 0.3, 0.15, 0.05 }; p.sched_p = r.pick(ps);
        long nt = p.cfg["nt"] = r.chance(0.4) ? r.range(2, th ? 6 : 4) : 0; long T1 = std::max(1l, nt); p.cfg["tz"] = r.below(9);
        long calm = r.weighted({ 3, 2, 2, 3 });   // 3: changes
        for (int k = 0; k < 4; k++) p.cfg["env" + std::to_string(k)] = r.chance(0.75) ? 0 : r.range(1, 8);
        auto day = [&]() -> long {
            switch (r.weighted({ 6, 3, 3, 2, 2, 2, 2 })) {
                case 0: return r.range(D1980, D2236 - 1); case 1: return r.range(D1900, D2000); case 2: return r.range(D0, D10K - 1);
                case 3: { static const std::vector<long> e = { D0, D1900, D1980, D2000, D2236, D10K, (long)dayno(1901, 1, 1) }; return r.pick(e) + r.range(-2, 2); }
                case 4: { long y = r.chance(0.7) ? r.range(1900, 2235) : r.range(0, 9999); return dayno(y, r.chance(0.6) ? 3 : 1, 1) + r.range(-3, 2); }
                case 5: { static const std::vector<long> e = { 1600, 1700, 1896, 1900, 1904, 1996, 2000, 2004, 2096, 2100, 2104, 2200, 2400, 4, 0, 9996 }; return dayno(r.pick(e), r.chance(0.7) ? 3 : 12, r.range(1, 31)) + r.range(-4, 1); }
                default: return r.range(D2000 - 400, D2000 + 12000);
            }
        };
        auto sec = [&]() -> long { return r.chance(0.4) ? r.below(24) * 3600 : r.chance(0.15) ? 86395 : r.chance(0.3) ? r.below(1440) * 60 : r.below(86400); };
        auto span = [&]() -> long { long s = r.chance(0.4) ? -1 : 1; switch (r.weighted({ 3, 3, 3, 2, 1 })) { case 0: return s * r.below(720 * 48); case 1: return s * r.range(0, 60) * 17280; case 2: return s * r.below(17280l * 365 * 8); case 3: return s * r.below(17280l * 365 * 200); default: return s * r.below(720l * 24 * 365 * 4000); } };
        long n = nt ? r.range(8, th ? 40 : 24) : r.range(10, th ? 70 : 40);
        auto choose = [&](long c) { long how = c == C365 && r.chance(0.3) ? 1 : c == GREG && r.chance(0.3) ? 2 : 0; p.add("opt", { 0, how, c, r.below(4) }); };
        if (calm < 3 && (calm || r.chance(0.3))) choose(calm);
        for (long i = 0; i < n; i++) {
            long t = r.below(T1);
            switch (r.weighted({ 8, 7, 7, calm == 3 ? 3 : 0, 2, 1, nt ? 0 : 2, nt ? 0 : 1, nt ? 0 : (i ? 1 : 0) })) {
                case 0: { static const std::vector<long> ms = { 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6, 7, -7, 14, 15, 3, -3 }; p.add("conv", { t, r.pick(ms), day(), sec(), r.below(3), r.below(10), r.chance(0.12) ? r.range(1, 22) : 0 }); break; }
                case 1: if (r.chance(0.12)) { long d = day(), e = (r.chance(0.5) ? D1900 : D2236) + r.range(-1000, 1000); p.add("inc", { t, d, sec(), r.weighted({ 2, 4, 2 }), (e - d) * 17280 + r.below(24) * 720, r.below(10), r.weighted({ 4, 1, 2 }) }); break; }
                    if (r.chance(0.35)) {   // a sum that ends exactly at the beginning or at the end of a day, often around a leap day
                        static const std::vector<int> sv = { 0, 5, 86395, 86390, 82800, 3600 }; T x{ day(), (int)sec() }; int st = (int)r.weighted({ 2, 5, 1 }); fit(x, st); long y = r.chance(0.4) ? civ(x.day).y + r.range(-6, 6) : r.range(1980, 2235);
                        T e{ r.chance(0.6) ? dayno(y, 3, 1) + r.range(-3, 1) : r.chance(0.6) ? dayno(y, (int)r.range(1, 12), 1) + r.range(-2, 1) : day(), r.pick(sv) }; int c = calm < 3 ? (int)calm : (int)r.below(3);
                        p.add("inc", { t, (long)x.day, x.sec, st, (long)minus5(e, x, c), r.below(10), r.weighted({ 5, 1, 2 }) }); break;
                    }
                    p.add("inc", { t, day(), sec(), r.weighted({ 2, 4, 2 }), span(), r.below(10), r.weighted({ 4, 1, 2 }) }); break;
                case 2: { long d = day(); long e = r.chance(0.5) ? day() : d + r.range(-900, 900); p.add("dif", { t, d, sec(), r.weighted({ 2, 4, 2 }), e, sec(), r.weighted({ 2, 4, 2 }), r.chance(0.2) }); break; }
                case 3: { long c = r.below(3); if (!nt && r.chance(0.15)) p.add("opt", { t, 3, C365, r.below(4) }); else { long how = c == C365 && r.chance(0.3) ? 1 : c == GREG && r.chance(0.3) ? 2 : 0; p.add("opt", { t, how, c, r.below(4) }); } break; }
                case 4: p.add("get", { t, r.below(3) }); break;
                case 5: p.add("jul", { t, day() }); break;
                case 6: p.add("now", { r.below(6) }); if (r.chance(0.3)) p.faults.push_back({ (int)p.ops.size() - 1, 1, F_CLOCKJUMP, r.chance(0.5) ? r.range(-4000000, 90000000) : r.range(-1000, 5000) }); break;
                case 7: p.add("advance", { r.chance(0.5) ? r.below(86400000l * 2) : r.below(86400000l * 365 * 5) }); break;
                default: if (r.chance(0.4)) p.add("restart");
            }
        }
        if (nt) p.add("go");
        // the simulated clock stays within what 32 bits of seconds can say
        long left = 86400000l * 365 * 13; for (auto& o : p.ops) if (o.name == "advance") { o.a[0] = std::min(o.a[0], left); left -= o.a[0]; }
        return p;
    }
    void child_begin(const Plan& p) override {
        setenv("TZ", TZ[p.C("tz") % 9].tz, 1); tzset(); my_number = 0; cal_ = 1 << GREG; locked_ = false; if (!incarnation()) advance_ns(1000000000000000); memset(active_, 0, sizeof active_); memset(setting_, 0, sizeof setting_);
        static const struct { const char* v; int cal; } E[] = { { nullptr, -1 }, { "year=360_day", C360 }, { "year=365_day", C365 }, { "YEAR=365_DAY", C365 }, { "year=gregorian", GREG }, { "year=lunar", -1 }, { "", -1 }, { "other,year=360_day,more", C360 }, { "Year=Gregorian,x", GREG } };
        auto& e = E[p.C("env" + std::to_string(std::min(3, incarnation()))) % 9]; if (e.v) setenv("NEWDATE_OPTIONS", e.v, 1); else unsetenv("NEWDATE_OPTIONS"); if (e.cal >= 0) { cal_ = 1 << e.cal; locked_ = true; }
    }
    void exec(const Plan& p, const Op& o) override {
        int nt = (int)p.C("nt");
        if (o.name == "go") {
            for (int t = 0; t < nt; t++) spawn([&, t] { my_number = t; for (auto& q : p.ops) if (q.name != "go" && q.A(0) == t) work(q); });
            join_all(); return;
        }
        if (o.name == "now") now(p, o); else if (o.name == "advance") advance_ns(o.A(0) * 1000000); else if (!nt) work(o);
    }
    void oracle(const Plan& p, Result& r) override {
        bool done = false;
        for (auto& o : r.hist) switch (o.kind) {
            case O_SIGNAL: r.violate("signal", std::string("killed by a signal: ") + o.s); return;
            case O_HANG: r.violate("hang", "no progress"); return;
            case O_DEADLOCK: r.violate("deadlock", "threads wait for ever"); return;
            case O_HEAP: r.violate("heap", o.s); return;
            case O_EXIT: r.violate("exit", "the library ended the process"); return;
            case K_BAD: { std::string w = o.s; r.violate(w.substr(0, w.find(' ')), w + " (" + std::to_string(o.v[0]) + ", " + std::to_string(o.v[1]) + ")"); return; }
            case O_DONE: done = true; break;
        }
        if (!done) r.violate("no-end", "the run did not end normally");
    }
    bool nontrivial(const Plan& p, const Result& r) override { int n = 0; for (auto& o : r.hist) if (o.kind == K_DID) n++; return n > 3; }
};
int main(int argc, char** argv) { H h; return sim::main(argc, argv, h); }
