// Grids defined from the positional records of standard files (src/interp/ezgdef_ffile.c, ez_lireEnrPositionnels.c).
// What such a grid answers is compared with a fresh process that is given the same axes in memory.
#include "ezutil.h"
extern "C" {
#include "rmn/fnom.h"
#include "rmn/fstd98.h"
int32_t F_ezgdef_(int32_t*, int32_t*, char*, char*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, long, long) asm("ezgdef_");
int32_t F_ezgdef_ffile_(int32_t*, int32_t*, char*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, long) asm("ezgdef_ffile_");
int32_t F_ezqkdef_(int32_t*, int32_t*, char*, int32_t*, int32_t*, int32_t*, int32_t*, int32_t*, long) asm("ezqkdef_");
int32_t ezget_nsubgrids_(int32_t*); int32_t ezget_subgridids_(int32_t*, int32_t*);
int32_t c_ezget_nsubgrids(int32_t); int32_t c_ezget_subgridids(int32_t, int32_t*);
}
enum { K_FDEF = K_ASK + 1, K_REC, K_ERA, K_PRM, K_FRLS };
static bool tile(long k) { return k >= 10000; }
static long base(long k) { return tile(k) ? (k - 10000) / 1000 : k; }
static void tags(long k, int32_t g[4]) { long b = base(k), t = k % 1000; g[0] = 100 + b / 2; g[1] = 1 + b % 2; g[2] = 5 * (b % 5); g[3] = 0; if (tile(k)) { g[2] = 1 + t % 4; g[3] = 1 + t / 4 % 3; } }
static char ftype(long k) { return tile(k) ? '#' : is_u(k) ? 'U' : spec(k).t[0]; }

// ------------------------------------------------------------------ records
// what: 0 both, 1 both, the other way round, 2 the first only, 3 the second only, 4 and 5 a first and a second of another
// length, 6 both under another ip3, 7 a field under the same ip's, 8 records of other names
enum { N_X, N_Y, N_U, N_OTHER };
struct Rec { int name; bool main; int dip3, nx, ny; char ref; std::vector<float> v; const char* nv; };
static std::vector<Rec> recs(long k, int what) {
    std::vector<Rec> l; Spec s = spec(k); bool y = s.t[0] == 'Y';
    auto shift = [](std::vector<float> v, int more) { while (more-- > 0) v.push_back(v.back() + 1.f); for (auto& f : v) f += .125f; return v; };
    if (is_u(k)) {
        Spec a = spec(k - 2); int n = 2 * (a.ni + a.nj + 10) + 5; long v = k / NFAM; std::vector<float> u(n, 0.f);
        u[0] = 'F'; u[1] = 1; u[2] = 2; u[3] = 1; u[5] = a.ni; u[6] = a.nj;
        float yin[4] = { 0.f, 180.f, v == 2 ? 20.f : 0.f, 270.f }, yan[4] = { 0.f, 0.f, v == 2 ? 70.f : 90.f, 0.f };
        for (int i = 0; i < 4; i++) { u[11 + i] = yin[i]; u[15 + a.ni + a.nj + 6 + i] = yan[i]; }
        for (int h = 0; h < 2; h++) { int o = 15 + h * (a.ni + a.nj + 10); for (int i = 0; i < a.ni; i++) u[o + i] = a.ax[i]; for (int j = 0; j < a.nj; j++) u[o + a.ni + j] = a.ay[j]; }
        if (what <= 2) l.push_back({ N_U, true, 0, n, 1, 'F', u, "^>" });
        else if (what == 4) { auto w = u; w.insert(w.end(), u.begin(), u.end()); l.push_back({ N_U, false, 0, n, 2, 'F', w, "^>" }); }
        else if (what == 5) l.push_back({ N_U, false, 0, n, 1, 'E', u, "^>" });
        else if (what == 6) { u[11] += 10.f; u[13] += 10.f; l.push_back({ N_U, false, 1, n, 1, 'F', u, "^>" }); }
        else if (what == 8) { l.push_back({ N_OTHER, false, 0, n, 1, 'F', u, ">" }); l.push_back({ N_OTHER, false, 0, n, 1, 'F', u, "^>>" }); }
        else if (what == 7) l.push_back({ N_OTHER, false, 0, n, 1, 'F', u, "TT" });
        return l;
    }
    Rec x { N_X, true, 0, s.ni, y ? s.nj : 1, s.r[0], s.ax, ">>" }, w { N_Y, true, 0, y ? s.ni : 1, s.nj, s.r[0], s.ay, "^^" };
    if (k == 2002) for (auto& a : x.v) a -= 360.f;          // negative longitudes in the file
    if (what == 0 || what == 2) l.push_back(x);
    if (what == 0 || what == 1 || what == 3) l.push_back(w);
    if (what == 1) l.push_back(x);
    if (what == 4) { x.main = false; if (y) { x.nx += 2; x.v = shift(x.v, 2 * s.nj); } else { x.nx += 3; x.v = shift(x.v, 3); } l.push_back(x); }
    if (what == 5) { w.main = false; if (y) { w.ny += 2; w.v = shift(w.v, 2 * s.ni); } else { w.ny += 3; w.v = shift(w.v, 3); } l.push_back(w); }
    if (what == 6) { x.main = w.main = false; x.dip3 = w.dip3 = 1; x.v = shift(x.v, 0); w.v = shift(w.v, 0); l.push_back(w); l.push_back(x); }
    if (what == 7) l.push_back({ N_OTHER, false, 0, s.ni, 1, s.r[0], std::vector<float>(s.ni, 5.f), "TT" });
    if (what == 8) { x.name = w.name = N_OTHER; x.nv = ">>>"; w.nv = "^"; x.v = shift(x.v, 0); w.v = shift(w.v, 0); l.push_back(x); l.push_back(w); }
    return l;
}
static bool PF_OPEN_[4]; static long CFG_RW_, CFG_COMP_;
static int unit(long f) { return 11 + (int)f; }
static std::string fname(long f) { return "grids" + std::to_string(f); }
static bool fopen_(long f, const char* how) {
    int u = unit(f); std::string n = fname(f), t = std::string("STD+RND") + (how[0] == 'r' ? "+R/O+OLD" : ""); char nm[64], ty[64]; snprintf(nm, 64, "%s", n.c_str()); snprintf(ty, 64, "%s", t.c_str());
    if (c_fnom(&u, nm, ty, 0) < 0) return false;
    char o[8] = "RND"; if (c_fstouv(u, o) < 0) { c_fclos(u); return false; }
    return PF_OPEN_[f] = true;
}
static void fclose_(long f) { if (!PF_OPEN_[f]) return; c_fstfrm(unit(f)); c_fclos(unit(f)); PF_OPEN_[f] = false; }
static std::map<long, int32_t>& F_ = *new std::map<long, int32_t>;      // handles of grids defined from files
static std::map<long, int>& FC_ = *new std::map<long, int>;

struct H : Harness {
    std::vector<std::string> props() override { return { "E02" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed;
        p.cfg["ftn"] = r.chance(.3); p.cfg["rw"] = r.chance(.3); p.cfg["comp"] = r.chance(.3); bool dec = r.chance(.5); p.cfg["dec"] = dec;
        int nf = (int)r.range(1, 3); bool faults = r.chance(.35);
        std::vector<long> pool, reg; static const long fam[] = { 16, 17, 24, 18, 19, 20, 21, 22, 23, 28, 28, 2000, 2001, 2002, 2003, 2004 };
        int n = (int)r.range(1, 5); for (int i = 0; i < n; i++) { long k = fam[r.below(16)]; if (k < 1000) k += NFAM * r.below(3); pool.push_back(k); }
        if (!dec) for (int i = (int)r.below(4); i > 0; i--) { static const long par[] = { 16, 18, 19, 21 }; long b = par[r.below(4)]; for (long q : pool) if (q < 2000 && (q % NFAM == 16 || q % NFAM == 18 || q % NFAM == 19 || q % NFAM == 21) && r.chance(.4)) b = q; int m = (int)r.range(1, 3); while (m--) pool.push_back(10000 + 1000 * b + r.below(24)); }
        for (int i = (int)r.range(1, 3); i > 0; i--) { static const long rf[] = { 0, 2, 3, 4, 11, 14, 16, 22, 25 }; reg.push_back(rf[r.below(9)] + NFAM * r.below(2)); }
        std::map<long, long> at; auto where = [&](long k) { return at.count(base(k)) && r.chance(.85) ? at[base(k)] : (long)r.below(nf); };
        auto put = [&](long k, int what) { long f = where(k); if (what <= 3) at[base(k)] = f; p.add("put", { f, k, what, base(k) % 3 }); };
        for (long k : pool) { if (r.chance(.3)) put(k, dec ? (int)r.range(4, 8) : 7); if (r.chance(.8)) put(k, r.chance(.15) ? 2 + (int)r.below(2) : (int)r.below(2)); }
        int m = (int)r.range(6, th ? 60 : 28); std::vector<int> defs;
        auto def = [&](long k) { long d = r.chance(.7) ? 0 : r.below(dec || is_u(k) || tile(k) ? 1 : 3); if (!tile(k) && r.chance(.08)) d = 3; if (!tile(k) && r.chance(.12)) d += 10; defs.push_back((int)p.ops.size() + 1); p.add("def", { k, where(k), (long)r.below(3), d, r.chance(.06) }); defs.back() = p.ops.back().id; };
        for (long k : pool) if (r.chance(.4)) def(k);
        for (int i = 0; i < m; i++) {
            long k = r.pick(pool), k2 = r.chance(.5) ? r.pick(pool) : r.pick(reg);
            switch (r.weighted({ 22, 12, 26, 4, 8, 5, 3, 3, 3, 2, 4 })) {
                case 0: def(k); if (r.chance(.3)) p.add("prm", { k }); break;
                case 1: { long w; do w = r.below(Q_SINT); while (!allowed(w, k, k)); p.add("q", { w, k, k, (long)r.below(4), 1 + (long)r.below(3) }); break; }
                case 2: { if (k == k2) break; if (r.chance(.4)) std::swap(k, k2); long w; do w = r.range(Q_SINT, NQ - 1); while (!allowed(w, k, k2)); p.add("q", { w, k, k2, (long)r.below(4), 3 - (r.chance(.15) ? 1 + (long)r.below(2) : 0) }); break; }
                case 3: p.add("def", { k, (long)r.below(nf), 9 }); break;        // from memory
                case 4: p.add("prm", { k }); break;
                case 5: p.add("rls", { k }); break;
                case 6: p.add("erase", { where(k), k, (long)r.below(2) }); break;
                case 7: put(k, dec && r.chance(.5) ? (int)r.range(4, 8) : (int)r.below(4)); break;
                case 8: p.add("close", { (long)r.below(nf) }); break;
                case 9: p.add("close", { -1 }); p.add("restart"); break;
                case 10: { long w = r.below(3); p.add("opt", { w, w == 0 ? r.below(3) : w == 1 ? r.below(4) : r.below(2) }); break; }
            }
        }
        if (faults && !defs.empty()) for (int i = (int)r.range(1, 3); i > 0; i--) { static const int kd[] = { F_EIO_R, F_SHORTR, F_EINTR_R, F_EIO_R }; p.faults.push_back({ r.pick(defs), (int)r.range(1, 6), kd[r.below(4)], r.range(1, 400) }); }
        return p;
    }
    void child_begin(const Plan& p) override { H_.clear(); C_.clear(); SUB_.clear(); F_.clear(); FC_.clear(); CUR_[0] = CUR_[1] = -1; ftn = p.C("ftn"); memset(PF_OPEN_, 0, sizeof PF_OPEN_); CFG_RW_ = p.C("rw"); CFG_COMP_ = p.C("comp"); }
    static int32_t fdef(long k, long f, long via, long dims) {
        Spec s = spec(k); int32_t g[4], ni = s.ni, nj = is_u(k) ? s.nj / 2 : s.nj, u = unit(f); tags(k, g); char t[2] = { ftype(k), 0 };
        if (dims >= 10) { if (!is_u(k) && s.t[0] != 'Y') t[0] = ' '; dims -= 10; }
        if (dims == 1) ni = nj = 0; if (dims == 2) ni = nj = -1; if (dims == 3) ni++;
        if (via == 2 && t[0] != 'Z' && t[0] != 'Y') via = 0;
        if (ftn) { char T[3] = { t[0], 'Q', 'Q' }; char fl[8] = { 'F', 'I', 'L', 'E', 'Q', 'Q', 'Q', 'Q' }; return via == 0 ? F_ezqkdef_(&ni, &nj, T, &g[0], &g[1], &g[2], &g[3], &u, 1) : via == 1 ? F_ezgdef_ffile_(&ni, &nj, T, &g[0], &g[1], &g[2], &g[3], &u, 1) : F_ezgdef_(&ni, &nj, T, fl, &g[0], &g[1], &g[2], &u, nullptr, nullptr, 1, 4); }
        char fl[8] = "FILE"; if (k % 2) strcpy(fl, "file");
        return via == 0 ? c_ezqkdef(ni, nj, t, g[0], g[1], g[2], g[3], u) : via == 1 ? c_ezgdef_ffile(ni, nj, t, g[0], g[1], g[2], g[3], u) : c_ezgdef(ni, nj, t, fl, g[0], g[1], g[2], u, nullptr, nullptr);
    }
    void exec(const Plan& p, const Op& o) override {
        if (o.name == "put") {
            long f = o.A(0), k = o.A(1); no_faults(true);
            if (!CFG_RW_) fclose_(f);
            if (!PF_OPEN_[f] && !fopen_(f, "w")) { obs(K_REC, { f, k, o.A(2), -1, -1 }); no_faults(false); return; }
            auto l = recs(base(k), (int)o.A(2)); int i = 0; Spec s = spec(base(k)); int32_t g[4]; tags(base(k), g);
            for (auto& c : l) {
                char nv[8], tv[4] = "X", et[16]; snprintf(nv, 8, "%s", c.nv); if (c.name == N_Y && o.A(3) == 2) snprintf(et, 16, "NORTHSOUTH"); else snprintf(et, 16, "POS%ld", o.A(3)); char gt[2] = { c.ref, 0 };
                int ig[4] = { 1, 0, 0, 0 }; if (!is_u(k)) for (int j = 0; j < 4; j++) ig[j] = s.ig[j];
                int rc = c_fstecr(c.v.data(), nullptr, -32, unit(f), o.A(3) == 1 ? 354514400 : 0, (int)o.A(3), 0, c.nx, c.ny, 1, g[0], g[1], g[2] + c.dip3, tv, nv, et, gt, ig[0], ig[1], ig[2], ig[3], CFG_COMP_ ? 133 : 5, 0);
                obs(K_REC, { f, k, o.A(2), i++, rc });
            }
            if (!CFG_RW_) fclose_(f);
            no_faults(false);
        } else if (o.name == "erase") {
            long f = o.A(0), k = o.A(1); int which = is_u(base(k)) ? N_U : o.A(2) ? N_Y : N_X; no_faults(true);
            if (!CFG_RW_) fclose_(f);
            if (!PF_OPEN_[f] && (!fs_exists(fname(f)) || !fopen_(f, "w"))) { no_faults(false); return; }
            int32_t g[4]; tags(base(k), g); int n = 0, bad = 0; char et[16] = " ", tv[4] = " ", nv[8]; snprintf(nv, 8, "%s", which == N_U ? "^>" : which == N_X ? ">>" : "^^");
            for (;;) { int a, b, c; int h = c_fstinf(unit(f), &a, &b, &c, -1, et, g[0], g[1], g[2], tv, nv); if (h < 0) break; if (c_fsteff(h) < 0) { bad = 1; break; } n++; }
            obs(K_ERA, { f, k, which, n, bad });
            if (!CFG_RW_) fclose_(f);
            no_faults(false);
        } else if (o.name == "close") { no_faults(true); for (long f = 0; f < 3; f++) if (o.A(0) < 0 || o.A(0) == f) fclose_(f); no_faults(false); }
        else if (o.name == "def") {
            long k = o.A(0), f = o.A(1);
            if (o.A(2) == 9) { handle_of(k); return; }
            no_faults(true); if (o.A(4)) fclose_(f); else if (!PF_OPEN_[f] && fs_exists(fname(f))) fopen_(f, CFG_RW_ ? "w" : "r");
            std::vector<uint8_t> b0, b1; fs_get(fname(f), b0); no_faults(false); int ff = faults_fired();
            obs(K_ASK, { k, f }); scrub_stack(); int32_t h = fdef(k, f, o.A(2), o.A(3));
            no_faults(true); fs_get(fname(f), b1); no_faults(false);
            obs(K_FDEF, { k, f, o.A(2), o.A(3), o.A(4), h, faults_fired() - ff, PF_OPEN_[f], b0 == b1 });
            if (h >= 0) { F_[k] = h; FC_[k]++; }
        } else if (o.name == "rls") {
            long k = o.A(0); if (!F_.count(k) || is_u(k)) return;
            int32_t g = F_[k]; int e = ftn ? gdrls_(&g) : c_gdrls(g); obs(K_FRLS, { k, e });
            if (--FC_[k] == 0) { F_.erase(k); FC_.erase(k); }
        } else if (o.name == "prm") {
            long k = o.A(0); if (!F_.count(k)) return;
            int32_t g = F_[k], v[20] = { 0 }; char t[8] = "      ", t2[8] = "  ", rf[8] = "  "; Spec s = spec(k);
            int e = ftn ? ezgprm_(&g, t, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], 1) : c_ezgprm(g, t, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5]);
            int e2 = ftn ? ezgxprm_(&g, &v[6], &v[7], t2, &v[8], &v[9], &v[10], &v[11], rf, &v[12], &v[13], &v[14], &v[15], 1, 1) : c_ezgxprm(g, &v[6], &v[7], t2, &v[8], &v[9], &v[10], &v[11], rf, &v[12], &v[13], &v[14], &v[15]);
            std::vector<float> ax(s.ax.size() + 4, -999.f), ay(s.ay.size() + 4, -999.f); int e3 = 0; int32_t sub[4] = { -1, -1, -1, -1 };
            int ns = ftn ? ezget_nsubgrids_(&g) : c_ezget_nsubgrids(g), ns2 = ftn ? ezget_subgridids_(&g, sub) : c_ezget_subgridids(g, sub);
            int32_t q = is_u(k) ? sub[0] : g; e3 = ftn ? gdgaxes_(&q, ax.data(), ay.data()) : c_gdgaxes(q, ax.data(), ay.data());
            long ob = blob(v, sizeof v), oa = blob(ax.data(), ax.size() * 4), oy = blob(ay.data(), ay.size() * 4);
            bool subok = is_u(k) ? ns == 2 && ns2 == 2 && sub[0] >= 0 && sub[1] >= 0 && sub[0] != sub[1] : ns == 1 && ns2 == 1 && sub[0] == g;
            char st[8] = { t[0], t2[0], rf[0], 0 }; obs(K_PRM, { k, e, e2, e3, ob, oa, oy, subok }, st);
        } else if (o.name == "opt") { int e = set_option(o.A(0), o.A(1)); obs(K_OPT, { o.A(0), o.A(1), e }); }
        else if (o.name == "q") {
            long w = o.A(0), k = o.A(1), k2 = o.A(2), src = o.A(4); if (w >= Q_SINT && k == k2) return;
            auto hd = [&](long q) -> int32_t { bool ff = src & (q == k ? 1 : 2); if (ff && F_.count(q)) return F_[q]; return handle_of(q); };
            bool any = ((src & 1) && F_.count(k)) || ((src & 2) && w >= Q_SINT && F_.count(k2)); if (!any || (w == Q_PRM)) return;
            obs(K_ASK, { w, k, k2, o.A(3), 0 });
            Sum a = sum(query(w, k, k2, o.A(3), hd, false)); int64_t f[4]; for (int i = 0; i < 4; i++) { uint32_t x; memcpy(&x, &a.f[i], 4); f[i] = x; }
            obs(K_RES, { w, k, k2, o.A(3), a.rc, (int64_t)a.h, a.n, f[0], f[1], f[2], f[3], a.touched });
        }
    }
    void child_end(const Plan&) override { no_faults(true); for (long f = 0; f < 3; f++) fclose_(f); no_faults(false); }
    static const char* qn(long w) { static const char* n[] = { "ezgprm/gdgaxes", "gdll", "gdxyfll", "gdllfxy", "gdllsval", "gdxysval", "gdllvval", "gdxywdval", "gdxpncf", "gdllwdval", "gdxyvval", "gdwdfuv", "gduvfwd", "ezsint", "ezuvint", "ezwdint" }; return n[w]; }
    struct MRec { long b; int name; bool main; int dip3, nx, ny; bool live; };
    void oracle(const Plan& p, Result& r) override {
        Opts o; bool f = p.C("ftn"); int inc = 0; char b[400]; std::vector<MRec> file[4]; bool unsure[4] = { false, false, false, false };
        std::map<long, int32_t> live; std::map<long, int> cnt; std::map<int32_t, long> owner; std::map<long, int32_t> mem;
        for (auto& e : r.hist) {
            if (e.inc != inc) { inc = e.inc; o = Opts(); live.clear(); cnt.clear(); owner.clear(); mem.clear(); if (p.C("rw")) for (int i = 0; i < 4; i++) unsure[i] = unsure[i] || !closed_before(p, e.op); }
            const Op* op = nullptr; for (auto& q : p.ops) if (q.id == e.op) op = &q;
            if (e.kind == O_EXIT && op && op->name == "def" && faulty(p, e.op)) { unsure_all(unsure, p); continue; }   // the library ends the process when it can't read
            if (e.kind == O_SIGNAL || e.kind == O_HANG || e.kind == O_EXIT || e.kind == O_DEADLOCK || e.kind == O_HEAP) {
                snprintf(b, sizeof b, "op %d (%s): the process %s %s", e.op, op ? op->name.c_str() : "?", e.kind == O_HANG ? "did not come back" : e.kind == O_EXIT ? "was ended by the library" : "died:", e.s);
                r.violate(e.kind == O_HANG ? "no answer" : "process lost", b); return;
            }
            if (e.kind == K_REC) { if (e.v[4] < 0) { unsure[e.v[0]] = true; continue; } auto l = recs(base(e.v[1]), (int)e.v[2]); auto& c = l[e.v[3]]; file[e.v[0]].push_back({ base(e.v[1]), c.name, c.main, c.dip3, c.nx, c.ny, true }); }
            else if (e.kind == K_ERA) { if (e.v[4]) { unsure[e.v[0]] = true; continue; } for (auto& c : file[e.v[0]]) if (c.b == base(e.v[1]) && c.name == e.v[2] && c.dip3 == 0) c.live = false; }
            else if (e.kind == K_DEF) { long k = e.v[0]; int32_t h = (int32_t)e.v[1]; if (h < 0) { snprintf(b, sizeof b, "op %d: grid %ld could not be defined from memory: %d", e.op, k, h); r.violate("not defined", b); return; } if (owner.count(h) && owner[h] < 1000000) { snprintf(b, sizeof b, "op %d: grid %ld defined from memory was given handle %d, which is that of grid %ld defined from a file", e.op, k, h, owner[h]); r.violate("handle shared", b); return; } owner[h] = k + 1000000; }
            else if (e.kind == K_FDEF) {
                long k = e.v[0], fi = e.v[1], dims = e.v[3] % 10; int32_t h = (int32_t)e.v[5]; bool flt = e.v[6], open = e.v[7];
                if (!e.v[8]) { snprintf(b, sizeof b, "op %d: defining grid %ld changed the file", e.op, k); r.violate("file changed", b); return; }
                if (unsure[fi]) { if (h >= 0) { live[k] = h; cnt[k]++; owner[h] = k; } continue; }
                Spec s = spec(k); bool found = false, sure = true; std::string why;
                if (open) {
                    const MRec *x = nullptr, *y = nullptr; char t = ftype(k); long bk = base(k);
                    if (t == 'U') { for (auto& c : file[fi]) if (c.live && c.b == bk && c.name == N_U && c.dip3 == 0 && c.ny == 1) { x = y = c.main ? &c : nullptr; break; } }
                    else for (int nm = N_X; nm <= N_Y; nm++) {
                        const MRec*& d = nm == N_X ? x : y;
                        for (auto& c : file[fi]) { if (!c.live || c.b != bk || c.name != nm) continue; if (t != '#' && c.dip3) continue; if (t != '#' && (dims == 0 || dims == 3)) { int want = nm == N_X ? s.ni + (dims == 3) : s.nj; if ((nm == N_X ? c.nx : c.ny) != want) continue; } d = &c; break; }
                    }
                    found = x && y; if (found && (!x->main || !y->main)) sure = false; if (tile(k) && dims == 3) sure = false;
                }
                if (!sure) { if (h >= 0) { live[k] = h; cnt[k]++; } unsure[fi] = true; continue; }
                if (!found && h >= 0) { snprintf(b, sizeof b, "op %d: grid %ld was defined (%d) from file %ld, which %s", e.op, k, h, fi, open ? "does not have its positional records" : "is not open"); r.violate("defined from nothing", b); return; }
                if (found && h < 0 && !flt) { snprintf(b, sizeof b, "op %d: grid %ld was refused (%d), but file %ld has its positional records", e.op, k, h, fi); r.violate("refused", b); return; }
                if (h >= 0) {
                    if (live.count(k) && live[k] != h) { snprintf(b, sizeof b, "op %d: grid %ld has handle %d, defining it again gave %d", e.op, k, live[k], h); r.violate("two handles", b); return; }
                    if (owner.count(h) && owner[h] != k) { snprintf(b, sizeof b, "op %d: grid %ld was given handle %d, which is that of grid %ld", e.op, k, h, owner[h] % 1000000); r.violate("handle shared", b); return; }
                    live[k] = h; owner[h] = k; cnt[k]++;
                }
            } else if (e.kind == K_FRLS) { long k = e.v[0]; if (cnt.count(k) && --cnt[k] == 0) { owner.erase(live[k]); live.erase(k); cnt.erase(k); } }
            else if (e.kind == K_OPT) o.v[e.v[0]] = e.v[1];
            else if (e.kind == K_PRM) {
                long k = e.v[0]; Spec s = spec(k); int32_t g[4]; tags(k, g); int32_t v[20]; memcpy(v, blob_at(e.v[4]), sizeof v); const char* bad = nullptr; bool u = is_u(k);
                char t = ftype(k), rf = u ? 'F' : s.r[0]; long nj = u ? s.nj : s.nj;
                if (e.v[1] < 0 || e.v[2] < 0 || e.v[3] < 0) bad = "an error";
                else if (e.s[0] != t || e.s[1] != t) bad = "another type"; else if (e.s[2] != rf) bad = "another reference";
                else if (v[0] != s.ni || v[1] != nj || v[6] != s.ni || v[7] != nj) bad = "other dimensions";
                else if (memcmp(v + 2, g, 16) || memcmp(v + 8, g, 16)) bad = "other ig's";
                else if (!u && memcmp(v + 12, s.ig, 16)) bad = "other ig's of the reference";
                else if (!e.v[7]) bad = "other subgrids";
                else { const float *ax = (const float*)blob_at(e.v[5]), *ay = (const float*)blob_at(e.v[6]); Spec a = u ? spec(k - 2) : s;
                    for (size_t i = 0; i < a.ax.size(); i++) { float d = ax[i] - a.ax[i]; if (a.r[0] == 'L' && a.ax[i] < 0 && fabsf(d - 360.f) < 1e-3f) d = 0; if (k == 2002 && fabsf(d + 360.f) < 1e-3f) d = 0; if (d != 0) bad = "another x axis"; }
                    for (size_t i = 0; i < a.ay.size(); i++) if (ay[i] != a.ay[i]) bad = "another y axis";
                    if (ax[a.ax.size()] != -999.f || ay[a.ay.size()] != -999.f) bad = "longer axes"; }
                if (bad) { snprintf(b, sizeof b, "op %d: grid %ld, defined from a file, is described with %s (type %s, %d x %d, ig %d %d %d %d, of the reference %d %d %d %d)", e.op, k, bad, e.s, v[0], v[1], v[2], v[3], v[4], v[5], v[12], v[13], v[14], v[15]); r.violate("another grid", b); return; }
            } else if (e.kind == K_RES) {
                Ref t = fresh(o, f, e.v[0], e.v[1], e.v[2], e.v[3]);
                if (!t.ok) { snprintf(b, sizeof b, "op %d: %s of grid %ld to %ld was answered, but ends a fresh process (status %x)", e.op, qn(e.v[0]), (long)e.v[1], (long)e.v[2], t.st); r.violate("only answered here", b); return; }
                if (e.v[11]) { snprintf(b, sizeof b, "op %d: %s of grid %ld to %ld (field %ld) changed what it was given to work on", e.op, qn(e.v[0]), (long)e.v[1], (long)e.v[2], (long)e.v[3]); r.violate("input changed", b); return; }
                if (t.s.rc != (int32_t)e.v[4] || t.s.n != (int32_t)e.v[6] || t.s.h != (uint64_t)e.v[5]) {
                    float g[4]; for (int i = 0; i < 4; i++) { uint32_t w = (uint32_t)e.v[7 + i]; memcpy(&g[i], &w, 4); }
                    snprintf(b, sizeof b, "op %d: %s of grid %ld to %ld (field %ld) returned %ld (%g %g %g %g ...), a process that has the axes in memory returns %d (%g %g %g %g ...)", e.op, qn(e.v[0]), (long)e.v[1], (long)e.v[2], (long)e.v[3], (long)e.v[4], g[0], g[1], g[2], g[3], t.s.rc, t.s.f[0], t.s.f[1], t.s.f[2], t.s.f[3]);
                    r.violate("other answers", b); return;
                }
            }
        }
    }
    static bool faulty(const Plan& p, int op) { for (auto& q : p.faults) if (q.op == op) return true; return false; }
    static void unsure_all(bool* u, const Plan& p) { if (p.C("rw")) for (int i = 0; i < 4; i++) u[i] = true; }
    static bool closed_before(const Plan& p, int op) { for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].name == "restart" && !(i && p.ops[i - 1].name == "close" && p.ops[i - 1].A(0) < 0)) return false; return true; }
    bool nontrivial(const Plan& p, const Result& r) override { int n = 0; for (auto& e : r.hist) if (e.kind == K_RES || e.kind == K_PRM) n++; return n >= 1; }
    std::string shape(const Plan& p, const Result& r) override {
        std::string s = std::string(p.C("ftn") ? "f" : "c") + (p.C("rw") ? "w" : "") + (p.C("dec") ? "d" : ""); int q = 0, t = 0; bool ref = false, rl = false;
        for (auto& e : r.hist) { if (e.kind == K_RES) q |= 1 << e.v[0]; if (e.kind == K_FDEF) { if (e.v[5] < 0) ref = true; else { char c = ftype(e.v[0]); t |= c == 'Z' ? 1 : c == 'Y' ? 2 : c == 'U' ? 4 : 8; } } if (e.kind == K_FRLS) rl = true; }
        return s + (ref ? "-" : "") + (rl ? "r" : "") + std::to_string(t) + ":" + std::to_string(q);
    }
};
int main(int argc, char** argv) { H h; return sim::main(argc, argv, h); }
