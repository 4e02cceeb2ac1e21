// Grid specifications, definitions, queries and the answers of a fresh process, shared by h_ez and h_ezf.
#pragma once
#include "sim.h"
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
extern "C" {
#include "rmn/ezscint.h"
void cxgaig_(const char*, int32_t*, int32_t*, int32_t*, int32_t*, float*, float*, float*, float*, long);
}
using namespace sim;
enum { K_DEF = O_USER, K_RES, K_OPT, K_RLS, K_SAVE, K_ASK };

// ------------------------------------------------------------------ grids
struct Spec { char t[2] = { 0, 0 }, r[2] = { ' ', 0 }; int32_t ni = 0, nj = 0, ig[4] = { 0, 0, 0, 0 }; std::vector<float> ax, ay; bool axes = false; };
static const int NFAM = 29;                        // 26 and 27: yin and yang, 28: both together
static void enc(Spec& s, char t, float a, float b, float c, float d) { char g[2] = { t, 0 }; cxgaig_(g, &s.ig[0], &s.ig[1], &s.ig[2], &s.ig[3], &a, &b, &c, &d, 1); }
static Spec spec(long k) {
    Spec s;
    if (k < 1000 && k % NFAM >= 26) {
        long f = k % NFAM, v = k / NFAM; int w = v % 2;       // w: overlap of one and two points
        s.t[0] = 'Z'; s.r[0] = 'E'; s.axes = true; s.ni = w ? 21 : 19; s.nj = w ? 9 : 7;
        if (f == 27) enc(s, 'E', 0.f, 0.f, v == 2 ? 70.f : 90.f, 0.f); else if (v == 2) enc(s, 'E', 0.f, 180.f, 20.f, 270.f); else enc(s, 'E', 0.f, 180.f, 0.f, 270.f);
        for (int i = 0; i < s.ni; i++) s.ax.push_back((w ? 30.f : 45.f) + 15.f * i);
        for (int j = 0; j < s.nj; j++) s.ay.push_back((w ? -60.f : -45.f) + 15.f * j);
        if (f == 28) { s.t[0] = 'U'; s.nj *= 2; }
        return s;
    }
    if (k >= 10000) { // tiles of the grids with axes below: the same region as a grid of its own
        long t = k % 1000; s = spec((k - 10000) / 1000); int i0 = t % 4, j0 = t / 4 % 3; s.ni = 5 + t / 12 % 2; s.nj = 4;
        s.ax = std::vector<float>(s.ax.begin() + i0, s.ax.begin() + i0 + s.ni); s.ay = std::vector<float>(s.ay.begin() + j0, s.ay.begin() + j0 + s.nj); return s;
    }
    if (k >= 5000 && k < 6000) { long v = k - 5000; s.t[0] = 'Z'; s.r[0] = 'E'; s.axes = true; s.ni = 9; s.nj = 7; enc(s, 'E', v & 1 ? 31.f : 12.f, v & 2 ? 110.f : 250.f, v & 4 ? 45.f : -20.f, v & 8 ? 20.f : 330.f); for (int i = 0; i < s.ni; i++) s.ax.push_back(150.f + 6.f * i + (i % 2)); for (int j = 0; j < s.nj; j++) s.ay.push_back(-30.f + 9.f * j + (j % 3)); return s; }   // poles and origins of their own
    if (k >= 4000 && k < 5000) { long v = k - 4000; s.t[0] = 'Z'; s.r[0] = 'L'; s.axes = true; s.ni = 9 + v; s.nj = 7; enc(s, 'L', 10.f, 20.f, .5f, 2.f); for (int i = 0; i < s.ni; i++) s.ax.push_back(3.f + v + 2.f * i + .5f * (i % 2)); for (int j = 0; j < s.nj; j++) s.ay.push_back(-20.f + 9.f * j + (j % 3)); return s; }   // a reference with its own origin and unit
    if (k >= 3000 && k < 4000) { long v = k - 3000; s.t[0] = 'G'; s.ni = 16; s.nj = 8 + 2 * (v / 3); s.ig[0] = v % 3; s.ig[1] = 1; s.axes = true; return s; }   // from north to south
    if (k >= 2000) { // more grids with axes
        long v = k - 2000; s.t[0] = 'Z'; s.axes = true; s.ni = 10; s.nj = 8; s.r[0] = v == 0 ? 'S' : 'L';
        if (v == 0) enc(s, 'S', 5.f, 5.f, 500000.f, 10.f); else enc(s, 'L', 0.f, 0.f, 1.f, 1.f);
        if (v == 3) { s.ni = 16; s.nj = 9; } if (v == 4) { s.ni = 17; s.nj = 9; }
        for (int i = 0; i < s.ni; i++) s.ax.push_back(v == 0 ? 1.f + 1.1f * i : v == 1 ? -12.5f + 2.5f * i : v == 2 ? 260.f + 2.5f * i : 22.5f * i);
        for (int j = 0; j < s.nj; j++) s.ay.push_back(v == 0 ? 1.f + 1.2f * j : v >= 3 ? -90.f + 22.5f * j : -12.f + 3.f * j + 0.25f * (j % 2));
        return s;
    }
    if (k >= 1000) { // many small grids
        long i = k - 1000; s.t[0] = 'L'; s.ni = 4; s.nj = 3; enc(s, 'L', -60.f + (i % 100) * 0.5f, (float)(i / 100) * 7.f, 1.f, 2.f); return s;
    }
    long f = k % NFAM, v = k / NFAM;
    auto sz = [&](int ni, int nj) { s.ni = ni; s.nj = nj; };
    auto L = [&](float a, float b, float c, float d) { s.t[0] = 'L'; enc(s, 'L', a, b, c, d); };
    switch (f) {
        case 0: sz(9, 7); L(20.f + v, 200.f + 3 * v, 1.f, 1.5f); break;
        case 1: sz(7, 9); L(20.f + v, 200.f + 3 * v, 1.f, 1.5f); break;      // same hash as family 0
        case 2: sz(12, 7); L(-90.f, 0.f, 30.f, 30.f); if (v) { sz(24, 13 + (v > 1)); L(-90.f, 10.f * v, 15.f, 15.f); } break;
        case 3: sz(13, 7); L(-90.f, 0.f, 30.f, 30.f); if (v) { sz(17, 9); L(-90.f, 15.f * v, 22.5f, 22.5f); } break;
        case 4: s.t[0] = 'A'; sz(16 + 2 * v, 8 + v); break;
        case 5: s.t[0] = 'A'; sz(16 + 2 * v, 8 + v); s.ig[0] = 1; break;
        case 6: s.t[0] = 'A'; sz(16 + 2 * v, 8 + v); s.ig[0] = 2; break;
        case 7: s.t[0] = 'A'; sz(16 + 2 * v, 8 + v); s.ig[1] = 1; break;      // same hash as family 5
        case 8: s.t[0] = 'B'; sz(15 + 2 * v, 9 + v); break;
        case 9: s.t[0] = 'B'; sz(15 + 2 * v, 9 + v); s.ig[0] = 1; break;
        case 10: s.t[0] = 'B'; sz(15 + 2 * v, 9 + v); s.ig[0] = 2; break;
        case 11: s.t[0] = 'G'; sz(16 + 2 * v, 8 + 2 * v); s.axes = true; break;
        case 12: s.t[0] = 'G'; sz(16 + 2 * v, 8 + 2 * v); s.ig[0] = 1; s.axes = true; break;
        case 13: s.t[0] = 'G'; sz(16 + 2 * v, 8 + 2 * v); s.ig[0] = 2; s.axes = true; break;
        case 14: s.t[0] = 'N'; sz(10, 10 + v); enc(s, 'N', 5.f, 5.5f + v, 400000.f, 21.f + v); break;
        case 15: s.t[0] = 'S'; sz(10, 10 + v); enc(s, 'S', 5.f, 5.5f + v, 400000.f, 21.f + v); break;
        case 16: case 17: case 18: case 19: case 20: case 21: case 24: {
            s.t[0] = 'Z'; s.axes = true;
            if (f == 16 || f == 17 || f == 24) { s.r[0] = 'E'; sz(10, 8); enc(s, 'E', 10.f + v, 250.f, 40.f, 330.f); }
            if (f == 18) { s.r[0] = 'E'; sz(17, 9); enc(s, 'E', 0.f, 180.f, v ? 20.f * v : 0.f, 270.f); }
            if (f == 19 || f == 20) { s.r[0] = 'L'; sz(9, 9); enc(s, 'L', 0.f, 0.f, 1.f, 1.f); }
            if (f == 21) { s.r[0] = 'N'; sz(9, 8); enc(s, 'N', 5.f, 5.f + v, 500000.f, 10.f); }
            for (int i = 0; i < s.ni; i++) s.ax.push_back(f == 18 ? 22.5f * i : f == 21 ? 1.f + 1.1f * i : 20.f + 2.5f * i + 0.5f * (i * i % 3) + v);
            for (int j = 0; j < s.nj; j++) s.ay.push_back(f == 18 ? -80.f + 20.f * j : f == 21 ? 1.f + 1.2f * j : -12.f + 3.f * j + 0.25f * (j % 2));
            if (f == 17) s.ax[s.ni - 1] += 0.5f;                                // one axis point differs from family 16
            if (f == 24) s.ay[s.nj - 1] += 0.5f;
            if (f == 20) { std::swap(s.ax, s.ay); }                             // same hash as family 19
            break;
        }
        case 22: case 23: {
            s.t[0] = 'Y'; s.r[0] = 'L'; s.axes = true; sz(6, 5 + v); enc(s, 'L', 0.f, 0.f, 1.f, 1.f);
            for (int i = 0; i < s.ni * s.nj; i++) { s.ax.push_back((float)((i * 37 + v * 11) % 350) + 0.5f); s.ay.push_back(-70.f + (float)((i * 53) % 140)); }
            if (f == 23) { s.ay[s.ay.size() - 1] += 1.f; }
            break;
        }
        case 25: s.t[0] = 'E'; sz(17, 8 + v); enc(s, 'E', 10.f + v, 250.f, 40.f, 330.f); break;
    }
    return s;
}
static bool ftn;
static std::vector<std::pair<long, int32_t>>& SUB_ = *new std::vector<std::pair<long, int32_t>>;   // subgrids defined by define()
static bool is_u(long k) { return k < 1000 && k % NFAM == 28; }
static int32_t define(long k) {
    Spec s = spec(k); float z[1] = { 0 };
    if (is_u(k)) {
        int32_t sub[2] = { define(k - 2), define(k - 1) }; SUB_.push_back({ k - 2, sub[0] }); SUB_.push_back({ k - 1, sub[1] });
        int32_t nj = s.nj / 2, one = 1, two = 2; char u[2] = "U", f[2] = "F";
        return ftn ? ezgdef_supergrid_(&s.ni, &nj, u, f, &one, &two, sub, 1, 1) : c_ezgdef_supergrid(s.ni, nj, u, f, 1, 2, sub);
    }
    float *ax = s.ax.empty() ? z : s.ax.data(), *ay = s.ay.empty() ? z : s.ay.data();
    if (ftn) return ezgdef_fmem_(&s.ni, &s.nj, s.t, s.r, &s.ig[0], &s.ig[1], &s.ig[2], &s.ig[3], ax, ay, 1, 1);
    if (!s.axes && k % 2) return c_ezqkdef(s.ni, s.nj, s.t, s.ig[0], s.ig[1], s.ig[2], s.ig[3], 0);
    return c_ezgdef_fmem(s.ni, s.nj, s.t, s.r, s.ig[0], s.ig[1], s.ig[2], s.ig[3], ax, ay);
}
static bool is_y(long k) { return spec(k).t[0] == 'Y'; }

// ------------------------------------------------------------------ options
struct Opts { long v[4] = { 2, 3, 1, 0 }; bool operator<(const Opts& o) const { return std::lexicographical_compare(v, v + 4, o.v, o.v + 4); } };
static const char* DEG[] = { "nearest", "linear", "cubic" };
static const char* EXT[] = { "nearest", "linear", "cubic", "maximum", "minimum", "value", "abort" };
static int setopt(const char* o, const char* v) { char a[32], b[32]; snprintf(a, 32, "%s", o); snprintf(b, 32, "%s", v); if (ftn) return ezsetopt_(a, b, strlen(a), strlen(b)); return c_ezsetopt(a, b); }
static int set_option(long w, long v) {
    switch (w) {
        case 0: return setopt("interp_degree", DEG[v]);
        case 1: return setopt("extrap_degree", EXT[v]);
        case 2: return setopt("polar_correction", v ? "yes" : "no");
        default: { char a[32] = "extrap_value"; float f = (float)v; return ftn ? ezsetval_(a, &f, strlen(a)) : c_ezsetval(a, f); }
    }
}

// ------------------------------------------------------------------ queries
// op "q": {what, k, k2, seed}
enum { Q_PRM, Q_LL, Q_XYFLL, Q_LLFXY, Q_LLSVAL, Q_XYSVAL, Q_LLVVAL, Q_XYWDVAL, Q_XPNCF, Q_LLWDVAL, Q_XYVVAL, Q_WDFUV, Q_UVFWD, Q_SINT, Q_UVINT, Q_WDINT, NQ };
struct Ans { int32_t rc = 0; bool touched = false; std::vector<float> f; };   // touched: the caller's input was changed
static long CUR_[2] = { -1, -1 };                     // target and source of the last ezdefset
static float fld(long seed, long i) { uint64_t z = (uint64_t)seed * 0x9e3779b97f4a7c15ull + (uint64_t)i * 0xbf58476d1ce4e5b9ull; z ^= z >> 29; z *= 0x94d049bb133111ebull; z ^= z >> 32; return (float)((long)(z % 20001) - 10000) / 128.f; }
static void put(Ans& a, const void* p, size_t nwords) { const float* f = (const float*)p; a.f.insert(a.f.end(), f, f + nwords); }
template <class G> static Ans query(long what, long k, long k2, long seed, G handle, bool again = false) {
    Ans a; Spec s = spec(k); int32_t g = handle(k); long n = (long)s.ni * s.nj;
    if (what >= Q_SINT) {
        Spec o = spec(k2); int32_t go = handle(k2); long m = (long)o.ni * o.nj;
        std::vector<float> in(n), in2(n), out(m, -1.f), out2(m, -1.f); for (long i = 0; i < n; i++) { in[i] = fld(seed, i); in2[i] = fld(seed + 7, i); }
        auto ci = in, ci2 = in2;
        if (!again) { int e = ftn ? ezdefset_(&go, &g) : c_ezdefset(go, g); if (e < 0) { a.rc = -1000 + e; return a; } CUR_[0] = k2; CUR_[1] = k; }
        if (what == Q_SINT) a.rc = ftn ? ezsint_(out.data(), in.data()) : c_ezsint(out.data(), in.data());
        else if (what == Q_UVINT) a.rc = ftn ? ezuvint_(out.data(), out2.data(), in.data(), in2.data()) : c_ezuvint(out.data(), out2.data(), in.data(), in2.data());
        else a.rc = ftn ? ezwdint_(out.data(), out2.data(), in.data(), in2.data()) : c_ezwdint(out.data(), out2.data(), in.data(), in2.data());
        a.touched = ci != in || ci2 != in2;
        put(a, out.data(), m); if (what != Q_SINT) put(a, out2.data(), m);
        return a;
    }
    int32_t np = 12; std::vector<float> x(np, 0.f), y(np, 0.f), la(np), lo(np), z(np, -1.f), z2(np, -1.f);
    for (int i = 0; i < np; i++) { la[i] = -85.f + (float)((seed * 31 + i * 47) % 171); lo[i] = (float)((seed * 17 + i * 71) % 360); }
    auto pos = [&] { for (int i = 0; i < np; i++) { x[i] = 1.f + (float)((seed * 13 + i * 29) % ((s.ni - 1) * 4)) * .25f; y[i] = 1.f + (float)((seed * 7 + i * 19) % ((s.nj - 1) * 4)) * .25f; } };
    std::vector<float> in(n), in2(n); for (long i = 0; i < n; i++) { in[i] = fld(seed, i); in2[i] = fld(seed + 7, i); }
    if (what == Q_XYSVAL || what == Q_XYWDVAL || what == Q_XYVVAL || what == Q_LLFXY) pos();
    auto cin = in, cin2 = in2, cx = x, cy = y, cla = la, clo = lo; bool outxy = what == Q_XYFLL;
    switch (what) {
        case Q_PRM: {
            char t[8] = "      "; char r[8] = "  "; int32_t v[16] = { 0 };
            a.rc = ftn ? ezgprm_(&g, t, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], 1) : c_ezgprm(g, t, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5]);
            v[6] = t[0]; put(a, v, 7); char t2[8] = " ";
            int32_t w[10] = { 0 }; int e = ftn ? ezgxprm_(&g, &w[0], &w[1], t2, &w[2], &w[3], &w[4], &w[5], r, &w[6], &w[7], &w[8], &w[9], 1, 1) : c_ezgxprm(g, &w[0], &w[1], t2, &w[2], &w[3], &w[4], &w[5], r, &w[6], &w[7], &w[8], &w[9]);
            put(a, w, 10); put(a, &e, 1);
            if (s.axes && s.t[0] != 'G' && s.t[0] != 'U') { std::vector<float> ax(s.ax.size(), -9.f), ay(s.ay.size(), -9.f); int q = ftn ? gdgaxes_(&g, ax.data(), ay.data()) : c_gdgaxes(g, ax.data(), ay.data()); put(a, ax.data(), ax.size()); put(a, ay.data(), ay.size()); put(a, &q, 1); }
            break;
        }
        case Q_LL: { std::vector<float> A(n, -1.f), B(n, -1.f); a.rc = ftn ? gdll_(&g, A.data(), B.data()) : c_gdll(g, A.data(), B.data()); put(a, A.data(), n); put(a, B.data(), n); break; }
        case Q_XYFLL: a.rc = ftn ? gdxyfll_(&g, x.data(), y.data(), la.data(), lo.data(), &np) : c_gdxyfll(g, x.data(), y.data(), la.data(), lo.data(), np); put(a, x.data(), np); put(a, y.data(), np); break;
        case Q_LLFXY: a.rc = ftn ? gdllfxy_(&g, z.data(), z2.data(), x.data(), y.data(), &np) : c_gdllfxy(g, z.data(), z2.data(), x.data(), y.data(), np); put(a, z.data(), np); put(a, z2.data(), np); break;
        case Q_LLSVAL: a.rc = ftn ? gdllsval_(&g, z.data(), in.data(), la.data(), lo.data(), &np) : c_gdllsval(g, z.data(), in.data(), la.data(), lo.data(), np); put(a, z.data(), np); break;
        case Q_XYSVAL: a.rc = ftn ? gdxysval_(&g, z.data(), in.data(), x.data(), y.data(), &np) : c_gdxysval(g, z.data(), in.data(), x.data(), y.data(), np); put(a, z.data(), np); break;
        case Q_LLVVAL: a.rc = ftn ? gdllvval_(&g, z.data(), z2.data(), in.data(), in2.data(), la.data(), lo.data(), &np) : c_gdllvval(g, z.data(), z2.data(), in.data(), in2.data(), la.data(), lo.data(), np); put(a, z.data(), np); put(a, z2.data(), np); break;
        case Q_XYWDVAL: a.rc = ftn ? gdxywdval_(&g, z.data(), z2.data(), in.data(), in2.data(), x.data(), y.data(), &np) : c_gdxywdval(g, z.data(), z2.data(), in.data(), in2.data(), x.data(), y.data(), np); put(a, z.data(), np); put(a, z2.data(), np); break;
        case Q_LLWDVAL: a.rc = ftn ? gdllwdval_(&g, z.data(), z2.data(), in.data(), in2.data(), la.data(), lo.data(), &np) : c_gdllwdval(g, z.data(), z2.data(), in.data(), in2.data(), la.data(), lo.data(), np); put(a, z.data(), np); put(a, z2.data(), np); break;
        case Q_XYVVAL: a.rc = ftn ? gdxyvval_(&g, z.data(), z2.data(), in.data(), in2.data(), x.data(), y.data(), &np) : c_gdxyvval(g, z.data(), z2.data(), in.data(), in2.data(), x.data(), y.data(), np); put(a, z.data(), np); put(a, z2.data(), np); break;
        case Q_WDFUV: a.rc = ftn ? gdwdfuv_(&g, z.data(), z2.data(), in.data(), in2.data(), la.data(), lo.data(), &np) : c_gdwdfuv(g, z.data(), z2.data(), in.data(), in2.data(), la.data(), lo.data(), np); put(a, z.data(), np); put(a, z2.data(), np); break;
        case Q_UVFWD: a.rc = ftn ? gduvfwd_(&g, z.data(), z2.data(), in.data(), in2.data(), la.data(), lo.data(), &np) : c_gduvfwd(g, z.data(), z2.data(), in.data(), in2.data(), la.data(), lo.data(), np); put(a, z.data(), np); put(a, z2.data(), np); break;
        case Q_XPNCF: { int32_t v[4] = { 0 }; a.rc = ftn ? gdxpncf_(&g, &v[0], &v[1], &v[2], &v[3]) : c_gdxpncf(g, &v[0], &v[1], &v[2], &v[3]); put(a, v, 4); break; }
    }
    a.touched = cin != in || cin2 != in2 || cla != la || clo != lo || (!outxy && (cx != x || cy != y));
    return a;
}
// what a grid of this type may be asked
static bool allowed(long what, long k, long k2) {
    if (what == Q_SINT) return k != k2;
    if (what == Q_UVINT || what == Q_WDINT) return k != k2 && !is_y(k) && !is_y(k2);
    if (is_u(k)) return what != Q_XPNCF && what != Q_WDFUV && what != Q_UVFWD;
    if (is_y(k)) return what == Q_PRM || what == Q_LL;
    return true;
}
struct Sum { int32_t rc; uint64_t h; float f[4]; int32_t n; int32_t touched; };
static Sum sum(const Ans& a) {
    Sum s; memset(&s, 0, sizeof s); s.rc = a.rc; s.n = (int32_t)a.f.size(); s.touched = a.touched; uint64_t h = 0xcbf29ce484222325ull;
    for (size_t i = 0; i < a.f.size(); i++) { uint32_t w; memcpy(&w, &a.f[i], 4); h = (h ^ w) * 0x100000001b3ull; h ^= h >> 31; }
    s.h = h; for (int i = 0; i < 4 && i < s.n; i++) s.f[i] = a.f[i];
    return s;
}
static __attribute__((noinline)) void scrub_stack() { volatile char b[196608]; memset((void*)b, 0x5a, sizeof b); asm volatile("" ::"r"(b) : "memory"); }

// ------------------------------------------------------------------ a fresh process asked the same thing
struct Ref { bool ok; int st; Sum s; };
static Ref fresh(const Opts& o, bool f, long what, long k, long k2, long seed) {
    typedef std::pair<std::vector<long>, Opts> Key;
    static std::map<Key, Ref>& memo = *new std::map<Key, Ref>;
    static Sum* shm = nullptr; if (!shm) shm = (Sum*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Key key = { { f, what, k, what >= Q_SINT ? k2 : 0, seed }, o };
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    pid_t pid = fork();
    if (pid == 0) {
        struct itimerval tv = { { 0, 0 }, { 5, 0 } }; setitimer(ITIMER_VIRTUAL, &tv, nullptr); alarm(60);
        int dn = open("/dev/null", O_RDWR); dup2(dn, 1); dup2(dn, 2);
        ftn = f; for (int w = 0; w < 4; w++) set_option(w, o.v[w]);
        std::map<long, int32_t> h; scrub_stack();
        Ans a = query(what, k, k2, seed, [&](long q) { auto i = h.find(q); if (i == h.end()) i = h.insert({ q, define(q) }).first; return i->second; });
        *shm = sum(a); _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Ref r; r.st = st; r.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0; if (r.ok) r.s = *shm; else memset(&r.s, 0, sizeof r.s);
    if (memo.size() > 200000) memo.clear();
    memo[key] = r; return r;
}

static std::map<long, int32_t>& H_ = *new std::map<long, int32_t>;   // this process's live handles
static std::map<long, int>& C_ = *new std::map<long, int>;           // how often each was defined
static void subs() { for (auto& s : SUB_) { H_[s.first] = s.second; C_[s.first]++; obs(K_DEF, { s.first, s.second }); } SUB_.clear(); }
static int32_t handle_of(long k) {
    auto i = H_.find(k); if (i != H_.end()) return i->second;
    int32_t h = define(k); H_[k] = h; C_[k] = 1; subs(); obs(K_DEF, { k, h }); return h;
}
