// Interpolation package (src/interp): the answers of different calls about one grid agree with each other and with what the grid is.
#include "ezutil.h"
enum { K_BAD = K_ASK + 100, K_OK };
static std::string S(double x) { char b[40]; snprintf(b, 40, "%.6g", x); return b; }
static void bad(const std::string& what, long k, double a = 0, double b = 0) { obs(K_BAD, { k, (int64_t)(a * 1e4), (int64_t)(b * 1e4) }, what.substr(0, 62).c_str()); }
static const double R = M_PI / 180;
static double dist(double la, double lo, double lb, double mo) {   // degrees on the sphere
    double x = cos(la * R) * cos(lo * R) - cos(lb * R) * cos(mo * R), y = cos(la * R) * sin(lo * R) - cos(lb * R) * sin(mo * R), z = sin(la * R) - sin(lb * R);
    return 2 * asin(std::min(1., sqrt(x * x + y * y + z * z) / 2)) / R;
}
struct Grid { long k; int32_t g; Spec s; long n; std::vector<float> la, lo; };
struct H : Harness {
    std::vector<std::string> props() override { return { "E03" }; }
    static bool usable(long k) { long f = k < 1000 ? k % NFAM : -1; return !is_y(k) && !is_u(k) && f != 7; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; p.cfg["ftn"] = r.chance(.3);
        double rot = r.chance(.3) ? .5 : .05; long base = r.below(16);
        auto any = [&](bool north = false) { for (;;) { long k = r.chance(.1) ? 1000 + r.below(300) : r.chance(.15) ? 2000 + r.below(5) : north && r.chance(.1) ? 3000 + r.below(6) : r.chance(.05) ? 4000 + r.below(4) : r.chance(rot) ? 5000 + (base ^ (r.chance(.6) ? 1 << r.below(4) : 0)) : r.chance(.1) ? 10000 + 1000 * r.pick(std::vector<long>{ 16, 17, 19, 21 }) + r.below(24) : r.below(NFAM) + NFAM * r.below(3); if (usable(k)) return k; } };
        for (long n = r.range(2, th ? 16 : 8); n > 0; n--) switch (r.weighted({ 6, 3, 4, 3, 3, 2, 2 })) {
            case 0: p.add("geo", { any(true), (long)r.below(1000) }); break;
            case 1: p.add("opt", { 0, (long)r.below(3) }); break;
            case 2: p.add("val", { any(), (long)r.below(1000) }); break;
            case 3: { long a = any(), b = any(); if (a != b) p.add("sint", { a, b, (long)r.below(1000) }); break; }
            case 4: p.add("wind", { any(), (long)r.below(1000) }); break;
            case 5: p.add("opt", { 1, (long)r.below(6) }); break;
            default: p.add("opt", { 2, (long)r.below(2) });
        }
        return p;
    }
    std::map<long, int32_t> H_; Opts op;
    void child_begin(const Plan& p) override { H_.clear(); SUB_.clear(); ftn = p.C("ftn"); op = Opts(); }
    Grid grid(long k) {
        Grid a; a.k = k; a.s = spec(k); if (!H_.count(k)) H_[k] = define(k); a.g = H_[k]; a.n = (long)a.s.ni * a.s.nj; a.la.assign(a.n, -999); a.lo = a.la;
        int e = ftn ? gdll_(&a.g, a.la.data(), a.lo.data()) : c_gdll(a.g, a.la.data(), a.lo.data()); if (a.g < 0 || e) bad("a grid or its latitudes refused", k, a.g, e); return a;
    }
    // the position of a point of a grid, when its description gives it at once
    static bool truth(bool k4, const Spec& s, int i, int j, double& la, double& lo) {
        double w = 0, h = s.nj; int k = s.t[0];
        if (k == 'L') { float a, b, c, d; int32_t g[4] = { s.ig[0], s.ig[1], s.ig[2], s.ig[3] }; static char t[2] = "L"; extern void cigaxg(char*, float*, float*, float*, float*, int32_t*, int32_t*, int32_t*, int32_t*, long) asm("cigaxg_"); cigaxg(t, &a, &b, &c, &d, &g[0], &g[1], &g[2], &g[3], 1); la = a + c * j; lo = b + d * i; return true; }
        if (k == 'A') { lo = 360. / s.ni * i; double d = s.ig[0] ? 90. / h : 180. / h; la = (s.ig[0] == 1 ? 0 : s.ig[0] == 2 ? -90 : -90) + d * (j + .5); if (s.ig[0] == 1) la = d * (j + .5); (void)w; return s.ig[1] == 0; }
        if (k == 'B') { lo = 360. / (s.ni - 1) * i; double d = (s.ig[0] ? 90. : 180.) / (h - 1); la = (s.ig[0] == 1 ? 0 : -90) + d * j; return s.ig[1] == 0; }
        if (k == 'Z' && s.r[0] == 'L') { la = s.ay[j] * (k4 ? .5 : 1) + (k4 ? 10 : 0); lo = s.ax[i] * (k4 ? 2 : 1) + (k4 ? 20 : 0); return true; }
        auto ci = [&](const char* T, float* v) { int32_t g[4] = { s.ig[0], s.ig[1], s.ig[2], s.ig[3] }; char t[2] = { T[0], 0 }; extern void cigaxg(char*, float*, float*, float*, float*, int32_t*, int32_t*, int32_t*, int32_t*, long) asm("cigaxg_"); cigaxg(t, v, v + 1, v + 2, v + 3, &g[0], &g[1], &g[2], &g[3], 1); };
        float c[4];
        if (k == 'Z' && s.r[0] == 'E') {   // the first point given is at the middle of the turned equator, which goes through the second
            ci("E", c); auto P = [](double la, double lo, double* v) { v[0] = cos(la * R) * cos(lo * R); v[1] = cos(la * R) * sin(lo * R); v[2] = sin(la * R); };
            auto X = [](const double* a, const double* b, double* v) { v[0] = a[1] * b[2] - a[2] * b[1]; v[1] = a[2] * b[0] - a[0] * b[2]; v[2] = a[0] * b[1] - a[1] * b[0]; };
            double a[3], b[3], Z[3], Y[3], q[3], v[3]; P(c[0], c[1], a); P(c[2], c[3], b); X(a, b, Z); double m = sqrt(Z[0] * Z[0] + Z[1] * Z[1] + Z[2] * Z[2]); for (double& z : Z) z /= m;
            X(a, Z, Y); P(s.ay[j], s.ax[i], q); for (int i = 0; i < 3; i++) v[i] = -a[i] * q[0] + Y[i] * q[1] + Z[i] * q[2];
            la = asin(v[2]) / R; lo = atan2(v[1], v[0]) / R; return true;
        }
        if (k == 'N' || k == 'S' || (k == 'Z' && s.r[0] == 'N')) {   // polar stereographic, true at 60 degrees
            ci(k == 'S' ? "S" : "N", c); double x = (k == 'Z' ? s.ax[i] : i + 1) - c[0], y = (k == 'Z' ? s.ay[j] : j + 1) - c[1], re = 1.866025 * 6371000 / c[2], q = x * x + y * y;
            la = asin((re * re - q) / (re * re + q)) / R; lo = atan2(y, x) / R - c[3]; if (k == 'S') { la = -la; lo = -lo; } return true;
        }
        return false;
    }
    int xyfll(int32_t g, float* x, float* y, float* la, float* lo, int32_t n) { return ftn ? gdxyfll_(&g, x, y, la, lo, &n) : c_gdxyfll(g, x, y, la, lo, n); }
    int llfxy(int32_t g, float* la, float* lo, float* x, float* y, int32_t n) { return ftn ? gdllfxy_(&g, la, lo, x, y, &n) : c_gdllfxy(g, la, lo, x, y, n); }
    void exec(const Plan& p, const Op& o) override {
        if (o.name == "opt") { set_option(o.A(0), o.A(1)); op.v[o.A(0)] = o.A(1); return; }
        Grid a = grid(o.A(0)); long k = a.k; const Spec& s = a.s; int n = (int)a.n; Rng r(o.A(1) + 7919 * k);
        if (o.name == "geo") {
            std::vector<float> x(n), y(n), la(n, -999), lo(n, -999);
            for (int i = 0; i < n; i++) { x[i] = 1 + i % s.ni; y[i] = 1 + i / s.ni; }
            if (llfxy(a.g, la.data(), lo.data(), x.data(), y.data(), n)) bad("gdllfxy refused", k);
            for (int i = 0; i < n; i++) {
                double d = dist(a.la[i], a.lo[i], la[i], lo[i]), A, B; if (!(d < .01)) { bad("gdll and gdllfxy differ by (degrees) " + S(d) + " at " + S(i), k, a.la[i], la[i]); return; }
                if (truth(k >= 4000 && k < 5000, s, i % s.ni, i / s.ni, A, B) && !((d = dist(A, B, a.la[i], a.lo[i])) < .01)) { bad("a point of a grid is not where it should by " + S(d) + " at " + S(i), k, A, a.la[i]); return; }
            }
            // points anywhere in the grid
            for (int i = 0; i < n; i++) { x[i] = 1 + r.range(1, 999) / 1000. * (s.ni - 1); y[i] = 1 + r.below(1000) / 1000. * (s.nj - 1); }
            std::vector<float> X(n, -999), Y(n, -999); llfxy(a.g, la.data(), lo.data(), x.data(), y.data(), n);
            if (xyfll(a.g, X.data(), Y.data(), la.data(), lo.data(), n)) bad("gdxyfll refused", k);
            for (int i = 0; i < n; i++) {
                if (fabs(la[i]) > 89.9) continue; double c = cos(la[i] * R); if (s.t[0] != 'L' && s.t[0] != 'A' && s.t[0] != 'B' && s.t[0] != 'G') c = 1;
                double dx = fabs(X[i] - x[i]); if (s.t[0] == 'A' || s.t[0] == 'G') dx = std::min(dx, fabs(dx - s.ni)); else if (s.t[0] == 'B') dx = std::min(dx, fabs(dx - s.ni + 1));
                if (!(dx * c < .02 && fabs(Y[i] - y[i]) < .02)) { bad("gdxyfll does not undo gdllfxy at " + S(x[i]) + " " + S(y[i]) + " -> " + S(X[i]) + " " + S(Y[i]), k, la[i], lo[i]); return; }
            }
        } else if (o.name == "val") {
            std::vector<float> f(n), x(n), y(n), z(n, -999), w(n, -999); double al = r.range(1, 9) * .1, be = r.range(1, 9) * .1; int32_t N = n;
            for (int i = 0; i < n; i++) f[i] = 100 * sin(al * (i % s.ni)) + 30 * cos(be * (i / s.ni)) + (i % s.ni) * 3;
            bool whole = r.chance(.5); int cub = op.v[0] == 2 && s.ni > 4 && s.nj > 4;
            // round the globe: columns repeat after per of them, and with them the values
            int per = s.t[0] == 'B' || (s.t[0] == 'Z' && (s.r[0] == 'L' || s.r[0] == 'E') && k < 4000 && s.ax[s.ni - 1] - s.ax[0] == 360) ? s.ni - 1 : s.t[0] == 'A' || s.t[0] == 'G' ? s.ni : 0;
            if (s.ni < 7 || !r.chance(.5)) per = 0;
            if (per) for (int j = 0; j < s.nj && per < s.ni; j++) f[j * s.ni + s.ni - 1] = f[j * s.ni];
            auto col = [&](int i) { return per ? (i + per) % per : i; }; double tour = s.t[0] == 'Z' || s.t[0] == 'G' ? 360 : s.t[0] == 'B' ? s.ni - 1 : s.ni;
            for (int i = 0; i < n; i++) { x[i] = (per ? 1 + r.below(per) : 1 + r.range(1, s.ni - 3)) + (whole ? 0 : r.range(1, 9) * .1 + .01); y[i] = 1 + r.range(cub, s.nj - 2 - cub) + (whole ? 0 : r.range(1, 9) * .1 + .01); }
            // a grid of the northern hemisphere goes on, mirrored, to the other pole
            bool north = strchr("ABG", s.t[0]) && s.ig[0] == 1 && s.ig[1] == 0 && op.v[0] < 2 && r.chance(.5); auto row = [&](int j) { return j >= 0 ? j : s.t[0] == 'B' ? -j : -1 - j; };
            if (north) for (int i = 0; i < n; i++) y[i] = 1 - r.range(1, s.nj - 2) + (whole ? 0 : r.range(1, 9) * .1 + .01);
            auto c = f; int e = ftn ? gdxysval_(&a.g, z.data(), f.data(), x.data(), y.data(), &N) : c_gdxysval(a.g, z.data(), f.data(), x.data(), y.data(), N); if (e || c != f) bad("gdxysval refused or changed the field", k, e);
            std::vector<float> la(n), lo(n); llfxy(a.g, la.data(), lo.data(), x.data(), y.data(), n);
            e = ftn ? gdllsval_(&a.g, w.data(), f.data(), la.data(), lo.data(), &N) : c_gdllsval(a.g, w.data(), f.data(), la.data(), lo.data(), N); if (e || c != f) bad("gdllsval refused or changed the field", k, e);
            for (int i = 0; i < n; i++) {
                int I = (int)x[i] - 1, J = (int)floor(y[i]) - 1; double p = x[i] - 1 - I, q = y[i] - 1 - J, v; float F[2] = { f[row(J) * s.ni + col(I)], f[row(J) * s.ni + col(I + 1)] }, G[2] = { f[row(J + 1) * s.ni + col(I)], f[row(J + 1) * s.ni + col(I + 1)] };
                if (op.v[0] == 0) v = (q > .5 ? G : F)[p > .5]; else v = (1 - q) * ((1 - p) * F[0] + p * F[1]) + q * ((1 - p) * G[0] + p * G[1]);
                bool small = op.v[0] == 2 && (s.ni < 5 || s.nj < 5); if (small) continue;
                if (op.v[0] == 2 && !whole) {
                    auto ax = [&](int i) { return s.t[0] == 'Z' ? s.ax[col(i)] + (per && i >= per ? tour : per && i < 0 ? -tour : 0) : (double)i; }; auto ay = [&](int j) { return s.t[0] == 'Z' ? (double)s.ay[j] : s.t[0] == 'G' ? (double)a.la[j * s.ni] : (double)j; };
                    auto lag = [](const double* X, const double* Y, double t) { double r = 0; for (int a = 0; a < 4; a++) { double w = Y[a]; for (int b = 0; b < 4; b++) if (b != a) w *= (t - X[b]) / (X[a] - X[b]); r += w; } return r; };
                    double X[4], Yx[4], c[4], d[4]; for (int j = 0; j < 4; j++) { Yx[j] = ay(J - 1 + j); for (int i = 0; i < 4; i++) { X[i] = ax(I - 1 + i); c[i] = f[(J - 1 + j) * s.ni + col(I - 1 + i)]; } d[j] = lag(X, c, ax(I) + p * (ax(I + 1) - ax(I))); }
                    v = lag(Yx, d, ay(J) + q * (ay(J + 1) - ay(J)));
                    if (!(fabs(z[i] - v) < .2)) { bad("wrong cubic value " + S(z[i]) + " for " + S(v) + " at " + S(x[i]) + " " + S(y[i]), k, z[i], v); return; }
                }
                if (whole || op.v[0] < 2) if (!(fabs(z[i] - v) < .05)) { bad("wrong value " + S(z[i]) + " for " + S(v) + " at " + S(x[i]) + " " + S(y[i]) + " degree " + S(op.v[0]), k, z[i], v); return; }
                if (!north && fabs(la[i]) < 89 && (op.v[0] > 0 || (fabs(p - .5) > .05 && fabs(q - .5) > .05))) if (!(fabs(z[i] - w[i]) < 3)) { bad("gdllsval " + S(w[i]) + " gdxysval " + S(z[i]) + " at " + S(x[i]) + " " + S(y[i]) + " degree " + S(op.v[0]), k, z[i], w[i]); return; }
            }
        } else if (o.name == "sint") {
            Grid b = grid(o.A(1)); int m = (int)b.n; int32_t M = m; std::vector<float> f(n), out(m, -999), w(m, -999), x(m), y(m); double v0 = r.range(-99, 99);
            if (r.chance(.4)) {   // winds: to the components of the other grid, or to speed and direction
                std::vector<float> g(n), u(m, -999), v(m, -999), sp(m), di(m), sq(m, -999), dq(m, -999), sw(m, -999), dw(m, -999); double al = r.range(0, 628) * .01; for (int i = 0; i < n; i++) { double t = al + .1 * (i % s.ni) - .07 * (i / s.ni); f[i] = 20 * cos(t); g[i] = 20 * sin(t); }
                int e = ftn ? ezdefset_(&b.g, &a.g) : c_ezdefset(b.g, a.g); if (e < 0) { bad("ezdefset refused", k, e); return; }
                e = ftn ? ezuvint_(u.data(), v.data(), f.data(), g.data()) : c_ezuvint(u.data(), v.data(), f.data(), g.data()); if (e < 0) { bad("ezuvint refused", k, e); return; }
                e = ftn ? ezwdint_(sw.data(), dw.data(), f.data(), g.data()) : c_ezwdint(sw.data(), dw.data(), f.data(), g.data()); if (e < 0) { bad("ezwdint refused", k, e); return; }
                c_gdwdfuv(b.g, sp.data(), di.data(), u.data(), v.data(), b.la.data(), b.lo.data(), m);
                ftn ? gdllwdval_(&a.g, sq.data(), dq.data(), f.data(), g.data(), b.la.data(), b.lo.data(), &M) : c_gdllwdval(a.g, sq.data(), dq.data(), f.data(), g.data(), b.la.data(), b.lo.data(), M);
                xyfll(a.g, x.data(), y.data(), b.la.data(), b.lo.data(), m);
                auto far = [](double s, double d, double S, double D) { return hypot(s * cos(d * R) - S * cos(D * R), s * sin(d * R) - S * sin(D * R)); };
                for (int i = 0; i < m; i++) {
                    double q = op.v[0] == 2 ? 1.6 : .3; bool in = x[i] > 1 + q && x[i] < s.ni - q && y[i] > 1 + q && y[i] < s.nj - q; if (!in || fabs(b.la[i]) > 80) continue;
                    double d = far(sp[i], di[i], sw[i], dw[i]); if (!(d < .1)) { bad("ezuvint and ezwdint differ: " + S(sp[i]) + "@" + S(di[i]) + " " + S(sw[i]) + "@" + S(dw[i]), k, b.k, i); return; }
                    if (op.v[0] == 0 && (fabs(x[i] - floor(x[i]) - .5) < .02 || fabs(y[i] - floor(y[i]) - .5) < .02)) continue;
                    d = far(sw[i], dw[i], sq[i], dq[i]); if (!(d < .3)) { bad("ezwdint and gdllwdval differ: " + S(sw[i]) + "@" + S(dw[i]) + " " + S(sq[i]) + "@" + S(dq[i]), k, b.k, i); return; }
                }
                obs(K_OK, { k }); return;
            }
            bool flat = r.chance(.4); for (int i = 0; i < n; i++) f[i] = flat ? v0 : 50 * sin(.3 * (i % s.ni)) + 20 * cos(.4 * (i / s.ni));
            int e = ftn ? ezdefset_(&b.g, &a.g) : c_ezdefset(b.g, a.g); if (e < 0) { bad("ezdefset refused", k, e); return; }
            e = ftn ? ezsint_(out.data(), f.data()) : c_ezsint(out.data(), f.data()); if (e < 0) { bad("ezsint refused", k, e); return; }
            ftn ? gdllsval_(&a.g, w.data(), f.data(), b.la.data(), b.lo.data(), &M) : c_gdllsval(a.g, w.data(), f.data(), b.la.data(), b.lo.data(), M);
            xyfll(a.g, x.data(), y.data(), b.la.data(), b.lo.data(), m);
            for (int i = 0; i < m; i++) {
                double m = op.v[0] == 2 ? 1.6 : .02; bool in = !(s.t[0] == 'E' && x[i] > s.ni - 1.6) && x[i] > 1 + std::max(m, .3) && x[i] < s.ni - std::max(m, .3) && y[i] > 1 + m && y[i] < s.nj - m; if (!in || fabs(b.la[i]) > 88) continue;
                if (flat && !(fabs(out[i] - v0) < .01)) { bad("a flat field is not flat: " + S(out[i]) + " for " + S(v0) + " degree " + S(op.v[0]), k, x[i], y[i]); return; }
                if (op.v[0] == 0 && (fabs(x[i] - floor(x[i]) - .5) < .02 || fabs(y[i] - floor(y[i]) - .5) < .02)) continue;
                if (!(fabs(out[i] - w[i]) < .3)) { bad("ezsint " + S(out[i]) + " gdllsval " + S(w[i]) + " at " + S(x[i]) + " " + S(y[i]) + " degree " + S(op.v[0]), k, b.k, i); return; }
            }
        } else {
            int32_t N = n; std::vector<float> u(n), v(n), sp(n, -999), di(n, -999), U(n, -999), V(n, -999);
            for (int i = 0; i < n; i++) { u[i] = r.range(-400, 400) * .25; v[i] = r.range(-400, 400) * .25; }
            ftn ? gdwdfuv_(&a.g, sp.data(), di.data(), u.data(), v.data(), a.la.data(), a.lo.data(), &N) : c_gdwdfuv(a.g, sp.data(), di.data(), u.data(), v.data(), a.la.data(), a.lo.data(), N);
            ftn ? gduvfwd_(&a.g, U.data(), V.data(), sp.data(), di.data(), a.la.data(), a.lo.data(), &N) : c_gduvfwd(a.g, U.data(), V.data(), sp.data(), di.data(), a.la.data(), a.lo.data(), N);
            bool north = s.t[0] == 'L' || s.t[0] == 'A' || s.t[0] == 'B' || s.t[0] == 'G' || (s.t[0] == 'Z' && s.r[0] == 'L');
            for (int i = 0; i < n; i++) {
                double h = hypot(u[i], v[i]); if (!(fabs(sp[i] - h) < .02) || di[i] < -.01 || di[i] > 360.01) { bad("wrong speed " + S(sp[i]) + " for " + S(h) + " direction " + S(di[i]), k, u[i], v[i]); return; }
                if (north && h > 1) { double d = atan2(-u[i], -v[i]) / R; d = fabs(fmod(d - di[i] + 720 + 180, 360) - 180); if (!(d < .1)) { bad("wrong direction " + S(di[i]) + " of " + S(u[i]) + " " + S(v[i]), k, a.la[i]); return; } }
                if (h > 1 && fabs(a.la[i]) < 80 && i % s.ni && i % s.ni < s.ni - 1 && i / s.ni && i / s.ni < s.nj - 1) {   // the directions in which the two indices grow
                    float x[4], y[4], A[4], B[4]; for (int j = 0; j < 4; j++) { x[j] = 1 + i % s.ni + (j == 0 ? -.2f : j == 1 ? .2f : 0); y[j] = 1 + i / s.ni + (j == 2 ? -.2f : j == 3 ? .2f : 0); } llfxy(a.g, A, B, x, y, 4);
                    double c = cos(a.la[i] * R), E[2], N[2]; for (int j = 0; j < 2; j++) { N[j] = A[2 * j + 1] - A[2 * j]; E[j] = (fmod(B[2 * j + 1] - B[2 * j] + 540., 360.) - 180) * c; double l = hypot(N[j], E[j]); N[j] /= l; E[j] /= l; }
                    double d = atan2(-(u[i] * E[0] + v[i] * E[1]), -(u[i] * N[0] + v[i] * N[1])) / R; d = fabs(fmod(d - di[i] + 720 + 180, 360) - 180); if (!(d < 3)) { bad("wrong direction " + S(di[i]) + " of " + S(u[i]) + " " + S(v[i]) + " by " + S(d), k, a.la[i], i); return; }
                }
                if (fabs(a.la[i]) > 89.9) continue;
                if (!(fabs(U[i] - u[i]) < .1 && fabs(V[i] - v[i]) < .1)) { bad("gduvfwd does not undo gdwdfuv: " + S(U[i]) + " " + S(V[i]) + " for " + S(u[i]) + " " + S(v[i]), k, a.la[i], a.lo[i]); return; }
            }
        }
        obs(K_OK, { k });
    }
    void child_end(const Plan&) override {}
    void oracle(const Plan& p, Result& r) override {
        for (auto& o : r.hist) switch (o.kind) {
            case O_SIGNAL: r.violate("signal", std::string("process killed by a signal: ") + o.s); return;
            case O_EXIT: r.violate("exit", "the library ended the process, op " + std::to_string(o.op)); return;
            case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress"); return;
            case O_HEAP: r.violate("heap", o.s); return;
            case K_BAD: { std::string c = o.s; size_t e = c.find_first_of("-0123456789"); std::string t = c.substr(0, e); r.violate(t, c + " (grid " + std::to_string(o.v[0]) + " family " + std::to_string(o.v[0] < 1000 ? o.v[0] % NFAM : o.v[0]) + " " + S(o.v[1] / 1e4) + " " + S(o.v[2] / 1e4) + " op " + std::to_string(o.op) + ")"); return; }
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { for (auto& o : r.hist) if (o.kind == K_OK) return true; return false; }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
