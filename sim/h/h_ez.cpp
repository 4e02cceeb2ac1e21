// Interpolation package (src/interp): grid handles, grid sets, caches and options.
// Every answer is compared with the answer of a fresh process that only defines the grids involved.
#include "ezutil.h"
struct H : Harness {
    std::vector<std::string> props() override { return { "E01" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed;
        p.cfg["ftn"] = r.chance(0.3);
        int ns = (int)r.range(2, 9); std::vector<long> pool;
        int nv = r.chance(0.5) ? 1 : 3;
        for (int i = 0; i < ns; i++) pool.push_back(r.below(NFAM) + NFAM * r.below(nv));
        if (r.chance(0.3)) { long v = r.below(nv); pool.push_back(28 + NFAM * v); if (r.chance(0.4)) pool.push_back(26 + r.below(2) + NFAM * v); if (r.chance(0.3)) pool.push_back(28 + NFAM * r.below(3)); }
        if (r.chance(0.6)) { static const std::vector<std::pair<int, int>> tw = { { 0, 1 }, { 5, 7 }, { 16, 17 }, { 16, 24 }, { 17, 24 }, { 19, 20 }, { 22, 23 }, { 14, 15 }, { 4, 5 }, { 9, 10 }, { 12, 13 } }; auto t = r.pick(tw); long v = NFAM * r.below(nv); pool.push_back(t.first + v); pool.push_back(t.second + v); }
        int n = (int)r.range(6, th ? 60 : 30);
        int big = r.chance(0.25) ? 1 + (int)r.below(3) : 0;   // many definitions, many sets, both
        bool rls = r.chance(0.5), opts = r.chance(0.6);
        if (big) { int m = (int)r.pick(std::vector<long>{ 20, 70, 130, 150, 270, 400 }); for (int i = 0; i < m; i++) pool.size(); p.cfg["many"] = m; }
        long m = p.C("many");
        for (int i = 0; i < n; i++) {
            long k = r.pick(pool), k2 = r.pick(pool);
            if (m && r.chance(0.15)) k = 1000 + r.below(m);
            if (m && r.chance(0.1)) k2 = 1000 + r.below(m);
            switch (r.weighted({ 10, 14, 26, opts ? 8 : 0, rls ? 7 : 0, 2, m ? 4 : 0, m && big >= 2 ? 3 : 0 })) {
                case 0: p.add("def", { k }); break;
                case 1: { long w; do w = r.below(Q_SINT); while (!allowed(w, k, k)); p.add("q", { w, k, k, r.below(4) }); break; }
                case 2: { if (k == k2) break; long w; do w = r.range(Q_SINT, NQ - 1); while (!allowed(w, k, k2)); p.add("q", { w, k, k2, r.below(4) }); if (r.chance(0.3)) { long q = r.below(Q_SINT), kk = r.pick(pool); if (r.chance(0.6) && allowed(q, kk, kk)) p.add("q", { q, kk, kk, r.below(4) }); p.add("q", { r.range(Q_SINT, NQ - 1), k, k2, r.below(4), 1 }); } break; }
                case 3: { long w = r.below(4); p.add("opt", { w, w == 0 ? r.below(3) : w == 1 ? r.below(7) : w == 2 ? r.below(2) : r.range(-5, 5) }); break; }
                case 4: p.add("rls", { k }); break;
                case 5: p.add("restart"); break;
                case 6: p.add("many", { 1000 + r.below(m), r.range(1, m) }); break;
                case 7: p.add("sets", { k2, 1000 + r.below(m), r.range(1, std::min(m, 200l)), r.below(2) }); break;
            }
        }
        return p;
    }
    void child_begin(const Plan& p) override { H_.clear(); C_.clear(); SUB_.clear(); CUR_[0] = CUR_[1] = -1; ftn = p.C("ftn"); }
    void exec(const Plan& p, const Op& o) override {
        if (o.name == "def") {
            long k = o.A(0); int32_t h = define(k);
            subs(); obs(K_DEF, { k, h }); if (!C_.count(k)) C_[k] = 0; C_[k]++; H_[k] = h;
        } else if (o.name == "many") { long m = p.C("many", 1); for (long i = 0; i < o.A(1); i++) handle_of(1000 + (o.A(0) - 1000 + i) % m); }
        else if (o.name == "sets") {
            long m = p.C("many", 1); int32_t g = handle_of(o.A(0));
            for (long i = 0; i < o.A(2); i++) { long k = 1000 + (o.A(1) - 1000 + i) % m; if (k == o.A(0)) continue; int32_t s = handle_of(k); if (o.A(3)) { Sum a = sum(query(Q_SINT, k, o.A(0), 1, handle_of)); obs(K_RES, { Q_SINT, k, o.A(0), 1, a.rc, (int64_t)a.h, a.n }); } else { c_ezdefset(g, s); CUR_[0] = o.A(0); CUR_[1] = k; } }
        } else if (o.name == "opt") { int e = set_option(o.A(0), o.A(1)); obs(K_OPT, { o.A(0), o.A(1), e }); }
        else if (o.name == "rls") {
            long k = o.A(0); if (!H_.count(k) || (k < 1000 && k % NFAM >= 26)) return;   // grids that make up another are kept
            int32_t g = H_[k]; int e = ftn ? gdrls_(&g) : c_gdrls(g); obs(K_RLS, { k, e });
            if (--C_[k] == 0) { H_.erase(k); C_.erase(k); if (CUR_[0] == k || CUR_[1] == k) CUR_[0] = CUR_[1] = -1; }
        } else if (o.name == "q") {
            long w = o.A(0), k = o.A(1), k2 = o.A(2); bool again = o.A(4) && w >= Q_SINT;
            if (again) { if (CUR_[0] < 0 || !allowed(w, CUR_[1], CUR_[0])) return; k = CUR_[1]; k2 = CUR_[0]; }
            obs(K_ASK, { w, k, k2, o.A(3), again });
            Sum a = sum(query(w, k, k2, o.A(3), handle_of, again));
            int64_t f[4]; for (int i = 0; i < 4; i++) { uint32_t w; memcpy(&w, &a.f[i], 4); f[i] = w; }
            obs(K_RES, { w, k, k2, o.A(3), a.rc, (int64_t)a.h, a.n, f[0], f[1], f[2], f[3], a.touched });
        }
    }
    static const char* qn(long w) { static const char* n[] = { "ezgprm/gdgaxes", "gdll", "gdxyfll", "gdllfxy", "gdllsval", "gdxysval", "gdllvval", "gdxywdval", "gdxpncf", "gdllwdval", "gdxyvval", "gdwdfuv", "gduvfwd", "ezsint", "ezuvint", "ezwdint" }; return n[w]; }
    void oracle(const Plan& p, Result& r) override {
        Opts o; std::map<long, int32_t> live; std::map<long, int> cnt; std::map<int32_t, long> owner; int inc = 0; bool f = p.C("ftn"); const Obs* ask = nullptr;
        char b[400];
        for (auto& e : r.hist) {
            if (e.inc != inc) { inc = e.inc; o = Opts(); live.clear(); cnt.clear(); owner.clear(); }
            if (e.kind == O_SIGNAL || e.kind == O_HANG || e.kind == O_EXIT || e.kind == O_DEADLOCK || e.kind == O_HEAP) {
                const Op* op = nullptr; for (auto& q : p.ops) if (q.id == e.op) op = &q;
                if (op && op->name == "q" && ask && ask->op == e.op) { Ref t = fresh(o, f, ask->v[0], ask->v[1], ask->v[2], ask->v[3]); if (!t.ok) { snprintf(b, sizeof b, "op %d: %s of grid %ld to %ld ends a fresh process as well (status %x)", e.op, qn(ask->v[0]), (long)ask->v[1], (long)ask->v[2], t.st); r.violate("never answered", b); return; } }
                snprintf(b, sizeof b, "op %d (%s): the process %s %s", e.op, op ? op->name.c_str() : "?", e.kind == O_HANG ? "did not come back" : e.kind == O_EXIT ? "was ended by the library" : "died:", e.s);
                r.violate(e.kind == O_HANG ? "no answer" : "process lost", b); return;
            }
            if (e.kind == K_ASK) ask = &e;
            if (e.kind == K_DEF) {
                long k = e.v[0]; int32_t h = (int32_t)e.v[1];
                if (h < 0) { snprintf(b, sizeof b, "op %d: grid %ld could not be defined: %d", e.op, k, h); r.violate("not defined", b); return; }
                if (live.count(k) && live[k] != h) { snprintf(b, sizeof b, "op %d: grid %ld has handle %d, defining it again gave %d", e.op, k, live[k], h); r.violate("two handles", b); return; }
                if (owner.count(h) && owner[h] != k) { snprintf(b, sizeof b, "op %d: grid %ld was given handle %d, which is grid %ld's", e.op, k, h, owner[h]); r.violate("handle shared", b); return; }
                live[k] = h; owner[h] = k; cnt[k]++;
            } else if (e.kind == K_RLS) { long k = e.v[0]; if (cnt.count(k) && --cnt[k] == 0) { owner.erase(live[k]); live.erase(k); cnt.erase(k); } }
            else if (e.kind == K_OPT) { if (e.v[2] != 0) { snprintf(b, sizeof b, "op %d: option %ld refused: %ld", e.op, (long)e.v[0], (long)e.v[2]); r.violate("option refused", b); return; } o.v[e.v[0]] = e.v[1]; }
            else if (e.kind == K_RES) {
                Ref t = fresh(o, f, e.v[0], e.v[1], e.v[2], e.v[3]);
                if (!t.ok) { snprintf(b, sizeof b, "op %d: %s of grid %ld to %ld was answered, but ends a fresh process (status %x)", e.op, qn(e.v[0]), (long)e.v[1], (long)e.v[2], t.st); r.violate("only answered here", b); return; }
                if (e.v[11]) { snprintf(b, sizeof b, "op %d: %s of grid %ld to %ld (field %ld) changed what it was given to work on", e.op, qn(e.v[0]), (long)e.v[1], (long)e.v[2], (long)e.v[3]); r.violate("input changed", b); return; }
                if (t.s.rc != (int32_t)e.v[4] || t.s.n != (int32_t)e.v[6] || t.s.h != (uint64_t)e.v[5]) {
                    float g[4]; for (int i = 0; i < 4; i++) { uint32_t w = (uint32_t)e.v[7 + i]; memcpy(&g[i], &w, 4); }
                    snprintf(b, sizeof b, "op %d: %s of grid %ld to %ld (field %ld) returned %ld (%g %g %g %g ...), a fresh process returns %d (%g %g %g %g ...)", e.op, qn(e.v[0]), (long)e.v[1], (long)e.v[2], (long)e.v[3], (long)e.v[4], g[0], g[1], g[2], g[3], t.s.rc, t.s.f[0], t.s.f[1], t.s.f[2], t.s.f[3]);
                    r.violate("depends on history", b); return;
                }
            }
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { int n = 0; for (auto& e : r.hist) if (e.kind == K_RES) n++; return n >= 2; }
    std::string shape(const Plan& p, const Result& r) override {
        std::string s = p.C("ftn") ? "f" : "c"; bool rl = false; int q = 0; for (auto& e : r.hist) { if (e.kind == K_RLS) rl = true; if (e.kind == K_RES) q |= 1 << e.v[0]; }
        return s + (rl ? "r" : "") + std::to_string(p.C("many") / 128) + ":" + std::to_string(q);
    }
};
int main(int argc, char** argv) { H h; return sim::main(argc, argv, h); }
