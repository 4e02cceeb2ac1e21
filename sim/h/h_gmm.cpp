// Global memory manager (rmn_gmm): named arrays, and their checkpoint and restart.
#include "sim.h"
#include <algorithm>
#include <cmath>
extern "C" {
int gs_create(int ext, const char* nm, int nl, int* meta, int flags, int own, const int* b, int64_t* addr, int* lb, int* ub);
int gs_get(int ext, const char* nm, int nl, int wm, int* meta, int64_t* addr, int* lb, int* ub);
int gs_getmeta(const char* nm, int nl, int* meta);
int gs_updatemeta(const char* nm, int nl, const int* meta);
int gs_delete(const char* nm, int nl);
int gs_rename(const char* a, int na, const char* b, int nb);
int gs_shuffle(const char* l, int n);
int gs_nkeys();
int gs_keys(char* l, int n, const char* pat, int np);
int gs_checkpoint(int rd);
void gs_dump();
}
using namespace sim;
enum { K_CREATE = O_USER, K_GET, K_PUT, K_META, K_UPD, K_DEL, K_REN, K_SHUF, K_KEYS, K_AUDIT, K_CKPT, K_LOAD, K_CHURN };
enum { RSTR = 1, IZER = 2, INAN = 4, IINV = 8, READ = 16, CRTD = 32, STAGX = 64, STAGY = 128, STAGZ = 256 };
typedef std::vector<uint8_t> Bytes;
static std::string S(long x) { return std::to_string(x); }
static const int EXT[20] = { 141, 142, 143, 144, 181, 182, 183, 184, 241, 242, 243, 244, 281, 282, 283, 284, 381, 382, 383, 384 };
static int rank_of(int e) { return e % 10; }
static int size_of(int e) { return e / 10 % 10; }
static const int NB = 16;
static const char* base_names[NB] = { "FIS0", "fis0", "FIS", "URT1", "ORT1_long_field_name", "UU:T0", "UU:T1", "UU:T2", "UU:P", "a", "A name with blanks", "exactly_thirty_two_characters_ab", "exactly_thirty_two_characters_abX", "exactly_thirty_one_characters_a", "UU", "Z" };
static std::string name_of(long n) { if (n < 0) n = -n; if (n < NB) return base_names[n]; char b[32]; snprintf(b, 32, n & 1 ? "M%04ld" : "UU_%ld", n); return b; }
static std::string canon_name(std::string s) { if (s.size() > 32) s.resize(32); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static std::string spelled(long n, long v) { std::string s = name_of(n); if (v & 1) s += "   "; return s; }
struct Dims { int lo[4], hi[4], halo[4], hmax[4], n[4]; };
// kind: 0 small 1 large 2 too large for memory
static Dims dims_of(long ds, int rank, int kind) {
    Rng r((uint64_t)ds * 77 + 5); Dims d; memset(&d, 0, sizeof d); bool zn = r.chance(.12), junk = r.chance(.1);
    for (int i = 0; i < 4; i++) {
        long sz = rank == 1 ? r.range(1, 60) : rank == 2 ? r.range(1, 20) : rank == 3 ? r.range(1, 9) : r.range(1, 5); if (r.chance(.04)) sz = 0;
        if (kind == 1) sz = rank == 1 ? r.range(20000, 60000) : rank == 2 ? r.range(100, 230) : rank == 3 ? r.range(25, 37) : r.range(12, 15);
        if (kind == 2) sz = rank < 3 ? 2000000000 : r.range(60000, 90000);
        int lo = kind == 2 ? 1 : (int)r.range(-4, 4); d.lo[i] = lo; d.hi[i] = (int)(lo + sz - 1); d.halo[i] = (int)r.below(4); d.hmax[i] = (int)r.below(6); d.n[i] = zn ? 0 : (int)std::max(1l, sz - 2 * d.halo[i]);
        if (i >= rank && !junk) d.lo[i] = d.hi[i] = d.halo[i] = d.hmax[i] = d.n[i] = 0;
    }
    return d;
}
static void put64(int* m, int64_t v) { memcpy(m, &v, 8); }
static int64_t get64(const int* m) { int64_t v; memcpy(&v, m, 8); return v; }
static void meta_of(const Dims& d, long ms, int flags, int* m) { Rng r((uint64_t)ms * 31 + 7); for (int i = 0; i < 4; i++) { m[5 * i] = d.lo[i]; m[5 * i + 1] = d.hi[i]; m[5 * i + 2] = d.halo[i]; m[5 * i + 3] = d.hmax[i]; m[5 * i + 4] = d.n[i]; } put64(m + 20, (int64_t)r.next()); put64(m + 22, (int64_t)r.next()); put64(m + 24, (int64_t)r.next()); m[26] = (int)r.range(-1, 5); m[27] = flags; }
static uint64_t fnv(const uint8_t* p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull; return h; }
static Bytes pattern(long seed, size_t n) { Rng r((uint64_t)seed * 131 + 3); Bytes b(n); size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t x = r.next(); memcpy(&b[i], &x, 8); } for (; i < n; i++) b[i] = (uint8_t)r.next(); return b; }
static size_t bytes_of(const int* lb, const int* ub, int e) { size_t n = size_of(e); for (int i = 0; i < rank_of(e); i++) n *= (size_t)std::max(0, ub[i] - lb[i] + 1); return n; }

struct H : Harness {
    std::vector<std::string> props() override { return { "M01", "M02" }; }
    static void aim(Plan& p, Rng& r, int m, const std::function<bool(const Op&, int)>& ok, const std::vector<int>& kinds) {
        for (int i = 0; i < m; i++) { int k = r.pick(kinds); std::vector<int> t; for (auto& o : p.ops) if (ok(o, k)) t.push_back(o.id); if (!t.empty()) p.faults.push_back({ r.pick(t), r.chance(.7) ? (int)r.range(1, 3) : (int)r.range(1, 14), k, r.range(1, 4000) }); }
    }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; bool ck = prop == "M02";
        int n = (int)r.range(8, th ? 120 : 60); long tag = 1; int nn = (int)r.range(3, NB); std::vector<long> ty(NB); int nty = (int)r.range(1, 5); std::vector<long> tp; for (int i = 0; i < nty; i++) tp.push_back(r.below(20)); for (auto& t : ty) t = r.pick(tp); std::vector<long> dsd(NB); for (auto& d : dsd) d = r.range(1, 100000);
        auto T = [&](long k) { return r.chance(.85) ? ty[k] : r.below(20); };
        auto create = [&](long k) { int f = 0; if (r.chance(ck ? .7 : .3)) f |= RSTR; if (r.chance(.3)) f |= IZER; long t = T(k); if (r.chance(.15) && EXT[t] / 100 == 2) f |= INAN; if (r.chance(.1)) f |= STAGX; if (r.chance(.05)) f |= READ | IINV; int own = r.weighted({ 12, ck ? 0 : 2, ck ? 0 : 1 }); int kind = r.weighted({ 40, ck ? 3 : 1, ck ? 0 : 2 }); if (kind == 2) { own = 0; if (rank_of(EXT[t]) < 3) t = t / 4 * 4 + 2 + r.below(2); f &= RSTR; } p.add("create", { k, t, r.chance(.85) ? dsd[k] : r.range(1, 100000), f, own, r.range(1, 100000), r.below(2), kind, r.below(2) }); };
        auto load = [&]() { p.add("load"); int m = (int)r.below(nn + 1); for (int i = 0; i < m; i++) create(r.below(nn)); };
        if (ck) { if (r.chance(.7)) load(); } else if (r.chance(.1)) p.add("keys", { r.below(3), r.below(6), r.below(nn) });
        for (int i = 0; i < n; i++) {
            long k = r.below(nn);
            switch (r.weighted({ 12, 10, 14, 4, 3, ck ? 3 : 4, 4, 3, 3, ck ? 0 : 1, 1, ck ? 5 : 0, ck ? 3 : 0, 2 })) {
                case 0: create(k); break;
                case 1: p.add("put", { k, T(k), tag++ }); break;
                case 2: p.add("get", { k, T(k), r.below(2), r.below(2) }); break;
                case 3: p.add("meta", { k, r.below(2) }); break;
                case 4: p.add("upd", { k, r.range(1, 100000), r.below(2) }); break;
                case 5: p.add("del", { k, r.below(2) }); break;
                case 6: p.add("ren", { k, r.below(nn), r.below(4) }); break;
                case 7: { std::vector<long> l, a; for (int j = 0; j < nn; j++) l.push_back(j); for (size_t j = l.size(); j > 1; j--) std::swap(l[j - 1], l[r.below((long)j)]); int m = r.weighted({ 1, 3, 5, 3, 1 }) + 1; for (int j = 0; j < m && j < (int)l.size(); j++) a.push_back(l[j]); if (r.chance(.15)) a.insert(a.begin() + r.below((long)a.size() + 1), -1); p.add("shuf", a); break; }
                case 8: p.add("keys", { r.below(4), r.below(6), r.below(nn) }); break;
                case 9: { if (r.chance(.15)) { p.add("churn", { r.range(20, 40), r.chance(.5) ? r.range(2040, 2200) : r.range(5, 300), r.below(20) }); break; } long c = r.chance(.3) ? r.range(120, 260) : r.range(1, 40); p.add("many", { r.range(20, 40), c, r.below(20), r.chance(.3) ? RSTR : 0 }); break; }
                case 10: p.add("dump"); break;
                case 11: p.add("ckpt"); break;
                case 12: p.add("restart"); load(); break;
                default: p.add("audit"); break;
            }
        }
        if (ck) { if (r.chance(.7)) p.add("ckpt"); p.add("audit"); p.add("restart"); p.add("load"); p.add("audit"); int m = (int)r.below(4); for (int i = 0; i < m; i++) { create(r.below(nn)); } }
        p.add("audit");
        if (!ck && r.chance(.4)) aim(p, r, (int)r.range(1, 4), [](const Op& o, int) { return (o.name == "create" && o.A(4) == 0 && o.A(7) != 2) || o.name == "many"; }, { F_ENOMEM });
        for (auto& f : p.faults) if (f.kind == F_ENOMEM) { f.nth = 1; for (auto& o : p.ops) if (o.id == f.op && o.name == "many") f.nth = (int)r.range(1, std::max(1l, o.A(1))); }
        if (ck) { int mode = r.weighted({ 4, 2, 3, 4 });
            if (mode) aim(p, r, (int)r.range(1, 3), [](const Op& o, int k) { return k == F_CRASH ? o.name == "ckpt" || o.name == "load" : k == F_EOPEN ? o.name == "ckpt" || o.name == "load" : k == F_EIO_R || k == F_SHORTR || k == F_EINTR_R ? o.name == "load" : o.name == "ckpt"; },
                mode == 1 ? std::vector<int>{ F_SHORTW, F_SHORTR, F_EINTR_W, F_EINTR_R } : mode == 2 ? std::vector<int>{ F_EIO_W, F_ENOSPC, F_SHORTW, F_EOPEN, F_EIO_R } : std::vector<int>{ F_CRASH, F_TORN, F_CRASH, F_ENOSPC });
            // the Fortran library forgets an error in the middle of a record larger than its buffer when the next write works
            bool big = false; for (auto& o : p.ops) if (o.name == "create" && o.A(7) == 1) big = true; if (big) for (auto& f : p.faults) if (f.kind == F_EIO_W || f.kind == F_ENOSPC) { f.kind = F_ENOSPC; f.arg |= 1; } }
        return p;
    }
    // ---------------------------------------------------------------- execution
    bool loaded = false, created = false;
    void child_begin(const Plan&) override { loaded = created = false; }
    static void content(int e, int64_t addr, const int* lb, const int* ub, int64_t& h, int64_t& nan) {
        size_t n = bytes_of(lb, ub, e); const uint8_t* p = (const uint8_t*)addr; h = addr ? (int64_t)fnv(p, n) : 0; nan = 0; if (!addr) return;
        if (e / 100 == 2) { nan = 1; for (size_t i = 0; i + size_of(e) <= n; i += size_of(e)) { double x; if (size_of(e) == 4) { float f; memcpy(&f, p + i, 4); x = f; } else memcpy(&x, p + i, 8); if (x == x) { nan = 0; break; } } }
    }
    static int64_t bounds(const int* lb, const int* ub, int e) { Bytes b; for (int i = 0; i < rank_of(e); i++) { b.insert(b.end(), (const uint8_t*)&lb[i], (const uint8_t*)&lb[i] + 4); b.insert(b.end(), (const uint8_t*)&ub[i], (const uint8_t*)&ub[i] + 4); } return (int64_t)fnv(b.data(), b.size()); }
    static bool sane(const int* lb, const int* ub, int e) { double t = 1; for (int i = 0; i < rank_of(e); i++) { double k = (double)ub[i] - lb[i] + 1; t *= std::max(0.0, k); } return t < 1e7; }
    void docreate(long k, const std::string& nm, int e, const Dims& d, int flags, int own, long ms, bool viameta, int kind) {
        int m[28], lb[4] = { 0 }, ub[4] = { 0 }, b[8]; meta_of(d, ms, viameta ? flags : 0, m); int64_t addr = 0, h = 0, nan = 0;
        for (int i = 0; i < 4; i++) { b[2 * i] = d.lo[i]; b[2 * i + 1] = d.hi[i]; } if (own == 2) b[1] += 1;
        size_t nb = std::max<size_t>(1, bytes_of(d.lo, d.hi, e));
        obs(O_BEGIN, { k });
        if (!own && nomem && nb != 112 /* size of the metadata */) { int g[28]; if (gs_getmeta(nm.data(), (int)nm.size(), g) < 0) arm_alloc(nb, nb); }   // the array, not what the error messages need
        int rc = gs_create(e, nm.data(), (int)nm.size(), m, viameta ? -1 : flags, own ? 1 : 0, b, &addr, lb, ub); created = true; arm_alloc(0, 0);
        if (rc >= 0 && addr && sane(lb, ub, e)) content(e, addr, lb, ub, h, nan);
        obs(K_CREATE, { k, e, rc, addr != 0, h, nan, rc >= 0 ? bounds(lb, ub, e) : 0, blob(m, sizeof m), kind });
    }
    bool nomem = false;
    void exec(const Plan& p, const Op& o) override {
        nomem = false; for (auto& f : p.faults) if (f.op == o.id && f.kind == F_ENOMEM) nomem = true;
        long k = o.A(0);
        if (o.name == "create") { int e = EXT[o.A(1) % 20]; Dims d = dims_of(o.A(2), rank_of(e), (int)o.A(7)); docreate(k, spelled(k, o.A(8)), e, d, (int)o.A(3), (int)o.A(4), o.A(5), o.A(6), (int)o.A(7)); }
        else if (o.name == "many") { int e = EXT[o.A(2) % 20]; for (long i = 0; i < o.A(1); i++) { long q = 1000 + 10 * k + i; Dims d = dims_of(q, rank_of(e), 0); docreate(q, name_of(q), e, d, (int)o.A(3) | IZER, 0, q, false, 0); } }
        else if (o.name == "churn") {   // one work field after the other, each deleted before the next
            int e = EXT[o.A(2) % 20]; std::string nm = "WORK"; int bad = 0; obs(O_BEGIN, { k }); for (long i = 0; i < o.A(1); i++) { Dims d = dims_of(5000 + i, rank_of(e), 0); int m[28], lb[4] = { 0 }, ub[4] = { 0 }, b[8] = { 0 }; int64_t a = 0; meta_of(d, i, 0, m); if (gs_create(e, nm.data(), (int)nm.size(), m, 0, 0, b, &a, lb, ub) < 0 || !a) { bad = 1; break; } Bytes x = pattern(i, bytes_of(lb, ub, e)); memcpy((void*)a, x.data(), x.size()); if (gs_delete(nm.data(), (int)nm.size()) < 0) { bad = 2; break; } } created = true; obs(K_CHURN, { bad });
        }
        else if (o.name == "get" || o.name == "put") {
            int e = EXT[o.A(1) % 20]; std::string nm = spelled(k, o.A(3)); int m[28], lb[4] = { 0 }, ub[4] = { 0 }; memset(m, 0x5a, sizeof m); int64_t addr = 0, h = 0, nan = 0; bool put = o.name == "put"; int wm = put ? 0 : (int)o.A(2);
            obs(O_BEGIN, { k }); int rc = gs_get(e, nm.data(), (int)nm.size(), wm, m, &addr, lb, ub); bool ok = rc >= 0 && addr && sane(lb, ub, e);
            if (ok && put) { Bytes b = pattern(o.A(2), bytes_of(lb, ub, e)); memcpy((void*)addr, b.data(), b.size()); }
            if (ok) content(e, addr, lb, ub, h, nan);
            obs(put ? K_PUT : K_GET, { k, e, rc, addr != 0, h, nan, rc >= 0 ? bounds(lb, ub, e) : 0, blob(m, sizeof m), wm });
        }
        else if (o.name == "meta") { std::string nm = spelled(k, o.A(1)); int m[28]; memset(m, 0, sizeof m); int rc = gs_getmeta(nm.data(), (int)nm.size(), m); obs(K_META, { k, rc, blob(m, sizeof m) }); }
        else if (o.name == "upd") {   // what was obtained, with some of it changed
            std::string nm = spelled(k, o.A(2)); int m[28]; memset(m, 0, sizeof m); int rc = gs_getmeta(nm.data(), (int)nm.size(), m); if (rc < 0) m[27] = CRTD; Rng r((uint64_t)o.A(1)); for (int i = 0; i < 4; i++) { if (r.chance(.5)) m[5 * i + 2] = (int)r.below(5); if (r.chance(.5)) m[5 * i + 3] = (int)r.below(9); if (r.chance(.2)) m[5 * i + 4] = (int)r.below(30); } if (r.chance(.5)) put64(m + 22, (int64_t)r.next()); if (r.chance(.5)) put64(m + 24, (int64_t)r.next());
            if (r.chance(.4)) m[27] ^= RSTR; if (r.chance(.2)) m[27] ^= IINV; if (r.chance(.2)) m[27] ^= STAGY; int rc2 = gs_updatemeta(nm.data(), (int)nm.size(), m); obs(K_UPD, { k, rc, rc2, blob(m, sizeof m) });
        }
        else if (o.name == "del") { std::string nm = spelled(k, o.A(1)); obs(O_BEGIN, { k }); int rc = gs_delete(nm.data(), (int)nm.size()); obs(K_DEL, { k, rc }); }
        else if (o.name == "ren") { std::string a = spelled(k, o.A(2)), b = spelled(o.A(1), o.A(2) >> 1); int rc = gs_rename(a.data(), (int)a.size(), b.data(), (int)b.size()); obs(K_REN, { k, o.A(1), rc }); }
        else if (o.name == "shuf") { std::string l; for (long q : o.a) { std::string s = q < 0 ? "" : name_of(q); s.resize(32, ' '); l += s; } obs(O_BEGIN, { k }); int rc = gs_shuffle(l.data(), (int)o.a.size()); obs(K_SHUF, { rc }); }
        else if (o.name == "keys") {
            int n = gs_nkeys(); int sz = (int)(n + (o.A(0) == 3 ? -1 : o.A(0) == 0 ? 0 : o.A(0) == 1 ? 1 : 50)); if (sz < 0) sz = 0; std::string buf((size_t)sz * 32 + 1, ' '); std::string pat; int np = -1; if (o.A(1) >= 3) { pat = name_of(o.A(2)); if (o.A(1) == 4) pat = pat.substr(0, std::max<size_t>(1, pat.size() / 2)); if (o.A(1) == 5) pat += "  "; if (pat.size() > 32) pat.resize(32); np = (int)pat.size(); }
            obs(O_BEGIN, { n, sz }); int rc = gs_keys(&buf[0], sz, pat.data(), np); obs(K_KEYS, { n, sz, rc, np, blob(buf.data(), (size_t)sz * 32) }, pat.c_str());
        }
        else if (o.name == "dump") gs_dump();
        else if (o.name == "audit") audit();
        else if (o.name == "ckpt") { obs(O_BEGIN); int rc = gs_checkpoint(0); obs(K_CKPT, { rc }); }
        else if (o.name == "load") { if (created) return; obs(O_BEGIN); int rc = gs_checkpoint(1); obs(K_LOAD, { rc, loaded }); loaded = true; if (rc >= 0) audit(); }
    }
    // every field listed, its metadata, the one type and rank it can be had with, and its contents
    void audit() {
        int n = gs_nkeys(); std::string buf((size_t)n * 32 + 1, ' '); int rc = gs_keys(&buf[0], n, "", -1); obs(K_KEYS, { n, n, rc, -1, blob(buf.data(), (size_t)n * 32) }, ""); if (rc != n) return;
        struct Row { char nm[32]; int e, cnt; int64_t h, nan, bd; int m[28], mrc; }; std::vector<Row> rows;
        for (int i = 0; i < n; i++) { Row w; memset(&w, 0, sizeof w); memcpy(w.nm, &buf[(size_t)i * 32], 32); w.mrc = gs_getmeta(w.nm, 32, w.m);
            for (int e : EXT) { int m[28], lb[4] = { 0 }, ub[4] = { 0 }; int64_t addr = 0; int g = gs_get(e, w.nm, 32, 0, m, &addr, lb, ub); if (g >= 0) { w.cnt++; w.e = e; w.bd = bounds(lb, ub, e); if (addr && sane(lb, ub, e)) content(e, addr, lb, ub, w.h, w.nan); } }
            rows.push_back(w); }
        obs(K_AUDIT, { (long)rows.size(), blob(rows.data(), rows.size() * sizeof(Row)) });
    }
    // ---------------------------------------------------------------- oracle
    struct Fld { int e = 0; int l[20] = { 0 }; int64_t u1 = 0, u2 = 0, key = -1; int init = 0, flags = 0; int state = 0; long tag = 0; int64_t h = 0, bd = 0; };   // state: 0 any content 1 zero 2 NaN 3 h
    static int64_t zeroh(const Fld& f) { Dims d; for (int i = 0; i < 4; i++) { d.lo[i] = f.l[5 * i]; d.hi[i] = f.l[5 * i + 1]; } Bytes b(bytes_of(d.lo, d.hi, f.e), 0); return (int64_t)fnv(b.data(), b.size()); }
    static int64_t bdh(const Fld& f) { int lo[4], hi[4]; for (int i = 0; i < 4; i++) { lo[i] = f.l[5 * i]; hi[i] = f.l[5 * i + 1]; if (hi[i] < lo[i]) { lo[i] = 1; hi[i] = 0; } } return bounds(lo, hi, f.e); }
    static size_t fbytes(const Fld& f) { int lo[4], hi[4]; for (int i = 0; i < 4; i++) { lo[i] = f.l[5 * i]; hi[i] = f.l[5 * i + 1]; } return bytes_of(lo, hi, f.e); }
    static bool okc(Fld& f, int64_t h, int64_t nan) { if (fbytes(f) == 0) return true; if (f.state == 0) { f.state = 3; f.h = h; return true; } if (f.state == 1) return h == zeroh(f); if (f.state == 2) { if (!nan) return false; f.state = 3; f.h = h; return true; } return h == f.h; }
    // restored: the metadata of a field read from the checkpoint and not created since
    static bool okmeta(Fld& f, const int* m, std::string& why) {
        for (int i = 0; i < 20; i++) if (m[i] != f.l[i]) { static const char* w[] = { "low", "high", "halo", "halomax", "n" }; why = std::string(w[i % 5]) + " of dimension " + S(i / 5 + 1) + " is " + S(m[i]) + ", not " + S(f.l[i]); return false; }
        if (get64(m + 22) != f.u1 || get64(m + 24) != f.u2) { why = "the uuids differ"; return false; } if (m[26] != f.init) { why = "initmode is " + S(m[26]) + ", not " + S(f.init); return false; } if (m[27] != f.flags) { why = "flags are " + S(m[27]) + ", not " + S(f.flags); return false; }
        int64_t key = get64(m + 20); if (f.key < 0) f.key = key; else if (f.key != key) { why = "the key changed"; return false; } return true;
    }
    typedef std::map<std::string, Fld> Map;
    static void filll(Fld& f, const Dims& d) { int rk = rank_of(f.e); for (int i = 0; i < rk; i++) { f.l[5 * i] = d.lo[i]; f.l[5 * i + 1] = d.hi[i]; f.l[5 * i + 2] = d.halo[i]; f.l[5 * i + 3] = d.hmax[i]; f.l[5 * i + 4] = d.n[i]; } }
    static Map restart_set(const Map& m) { Map c; for (auto& x : m) if (x.second.flags & RSTR) { Fld f = x.second; f.flags = (f.flags & (IZER | INAN | RSTR | IINV)) | READ; f.key = -1; for (int j = 5 * rank_of(f.e); j < 20; j++) f.l[j] = 0; c[x.first] = f; } return c; }
    struct Row { char nm[32]; int e, cnt; int64_t h, nan, bd; int m[28], mrc; };
    // does the audit show these fields? fills in what was not known
    static bool same(Map& m, const Obs& o, std::string& why) {
        if (o.v[0] != (long)m.size()) { why = S(o.v[0]) + " fields, not " + S((long)m.size()); return false; } std::set<std::string> seen; std::set<int64_t> keys;
        for (long i = 0; i < o.v[0]; i++) { Row w; memcpy(&w, blob_at(o.v[1]) + i * sizeof(Row), sizeof w); std::string n = canon_name(std::string(w.nm, 32)); auto it = m.find(n); if (it == m.end() || !seen.insert(n).second) { why = "an unknown field '" + n + "'"; return false; } Fld& f = it->second;
            if (w.mrc < 0) { why = "no metadata for '" + n + "'"; return false; } std::string y; if (!okmeta(f, w.m, y)) { why = "metadata of '" + n + "': " + y; return false; } if (!keys.insert(get64(w.m + 20)).second) { why = "two fields with one key"; return false; }
            if (w.cnt != 1 || w.e != f.e) { why = "'" + n + "' was had as type " + S(w.e) + " and " + S(w.cnt) + " types in all, it was created as " + S(f.e); return false; } if (w.bd != bdh(f)) { why = "the bounds of '" + n + "'"; return false; } if (!okc(f, w.h, w.nan)) { why = "the contents of '" + n + "'"; return false; } }
        return true;
    }
    static bool ended(const Obs& o, Result& r, bool exit_ok) {
        if (o.kind == O_SIGNAL) { r.violate("signal", std::string("process killed by a signal: ") + o.s + " in op " + S(o.op)); return true; }
        if (o.kind == O_HANG || o.kind == O_DEADLOCK) { r.violate("hang", "no progress in op " + S(o.op)); return true; }
        if (o.kind == O_HEAP) { r.violate("heap", o.s); return true; }
        if (o.kind == O_EXIT && !exit_ok) { r.violate("unexpected-exit", "the library ended the process in op " + S(o.op) + " without an injected fault"); return true; }
        return false;
    }
    void oracle(const Plan& p, Result& r) override {
        Map m; std::vector<Map> disk; bool exists = false, maybe = false; int inc = 0; bool judging = false; std::map<int, const Op*> byid; for (auto& o : p.ops) byid[o.id] = &o; bool fuzzyload = false, curload = false;
        auto hit = [&](int op) { for (auto& f : p.faults) if (f.op == op) return true; return false; };
        auto opn = [&](int op) { return byid.count(op) ? byid[op]->name : std::string(); };
        std::vector<Map> cand; Map cur;   // cand: what the restart file may hold
        for (size_t i = 0; i < r.hist.size(); i++) {
            const Obs& o = r.hist[i]; std::string at = " (op " + S(o.op) + ")"; std::string why;
            if (ended(o, r, hit(o.op))) return;
            if (o.inc != inc) { inc = o.inc; m.clear(); fuzzyload = curload = false; }
            if (o.kind == O_CRASH || o.kind == O_EXIT) { if (opn(o.op) == "ckpt") { cand.push_back(restart_set(m)); maybe = true; } continue; }
            if (o.kind < O_USER) continue;
            const Op& q = *byid[o.op]; std::string n = o.kind == K_KEYS || o.kind == K_AUDIT || o.kind == K_SHUF || o.kind == K_CKPT || o.kind == K_LOAD || o.kind == K_CHURN ? "" : canon_name(name_of(o.v[0])); bool ex = m.count(n);
            if (fuzzyload && o.kind != K_CKPT) continue;      // a restart that failed half way: nothing is promised about the fields
            switch (o.kind) {
                case K_CREATE: {
                    int e = (int)o.v[1]; long rc = o.v[2]; bool many = q.name == "many"; long ds = many ? o.v[0] : q.A(2); int kind = (int)o.v[8], own = many ? 0 : (int)q.A(4), fl = many ? (int)(q.A(3) | IZER) : (int)q.A(3); long ms = many ? o.v[0] : q.A(5); Dims d = dims_of(ds, rank_of(e), kind); int mm[28]; meta_of(d, ms, 0, mm);
                    bool dimsok = true; if (ex) { Fld& f = m[n]; for (int j = 0; j < rank_of(e) && f.e == e; j++) if (std::max(0, f.l[5 * j + 1] - f.l[5 * j] + 1) != d.hi[j] - d.lo[j] + 1) dimsok = false; if (f.e != e) dimsok = false; }
                    bool restored = ex && !(m[n].flags & CRTD); bool refuse = own == 2 || (ex && (own || !dimsok || !restored)) || (!ex && kind == 2);
                    if (rc >= 0 && refuse) { r.violate("created", "gmm_create accepted '" + n + "' (type " + S(e) + ")" + (ex ? ", a field that exists" : kind == 2 ? ", which memory cannot hold" : ", with an array of other dimensions") + at); return; }
                    if (rc < 0 && !refuse && hit(o.op) && !ex) { if (o.v[3]) { r.violate("array-of-refused", "a refused gmm_create gave an array" + at); return; } break; }   // no memory for it
                    if (rc < 0 && !refuse) { r.violate("refused", "gmm_create refused '" + n + "' with " + S(rc) + at); return; }
                    if (rc < 0) { if (o.v[3] && !own) { r.violate("array-of-refused", "a refused gmm_create gave an array" + at); return; } break; }
                    if (!o.v[3]) { r.violate("no-array", "gmm_create gave no array for '" + n + "'" + at); return; }
                    if (!ex) { Fld f; f.e = e; filll(f, d); f.u1 = get64(mm + 22); f.u2 = get64(mm + 24); f.init = mm[26]; f.flags = (fl & (RSTR | IZER | INAN)) | CRTD; f.state = fl & INAN ? 2 : (fl & IZER || own) ? 1 : 0; m[n] = f; } else m[n].flags |= (fl & (RSTR | IZER | INAN)) | CRTD;
                    Fld& f = m[n]; if (o.v[6] != bdh(f)) { r.violate("bounds", "the array of '" + n + "' does not have the bounds asked for" + at); return; }
                    if (!okc(f, o.v[4], o.v[5])) { r.violate(ex ? "restored-contents" : "initial-contents", "the array of '" + n + "' does not hold what it must after gmm_create" + at); return; }
                    if (!ex) { int gm[28]; memcpy(gm, blob_at(o.v[7]), sizeof gm); if (!okmeta(f, gm, why)) { r.violate("meta", "metadata after gmm_create of '" + n + "': " + why + at); return; } for (auto& x : m) if (x.first != n && x.second.key == f.key) { r.violate("key", "'" + n + "' and '" + x.first + "' have the same key" + at); return; } }
                    break;
                }
                case K_GET: case K_PUT: {
                    int e = (int)o.v[1]; long rc = o.v[2]; std::string what = o.kind == K_PUT ? "put" : "get";
                    if (!ex) { if (rc != -3 || o.v[3]) { r.violate("found", "gmm_get of '" + n + "', which does not exist, returned " + S(rc) + at); return; } break; }
                    Fld& f = m[n]; if (f.e != e) { if (rc >= 0 || o.v[3]) { r.violate("other-type", "'" + n + "', created as type " + S(f.e) + ", was given as type " + S(e) + at); return; } break; }
                    if (rc < 0 || !o.v[3]) { r.violate("not-given", "gmm_get of '" + n + "' returned " + S(rc) + at); return; }
                    if (o.v[6] != bdh(f)) { r.violate("bounds", "the bounds of '" + n + "' changed" + at); return; }
                    if (o.kind == K_PUT) { f.state = 3; Bytes b = pattern(q.A(2), fbytes(f)); f.h = (int64_t)fnv(b.data(), b.size()); }
                    if (!okc(f, o.v[4], o.v[5])) { r.violate("contents", "'" + n + "' does not hold what was last stored in it" + at); return; }
                    if (o.v[8]) { int gm[28]; memcpy(gm, blob_at(o.v[7]), sizeof gm); if (!okmeta(f, gm, why)) { r.violate("meta", "metadata of '" + n + "': " + why + at); return; } }
                    break;
                }
                case K_META: if ((o.v[1] >= 0) != ex) { r.violate("meta-found", "gmm_getmeta of '" + n + "' returned " + S(o.v[1]) + at); return; } if (ex) { int gm[28]; memcpy(gm, blob_at(o.v[2]), sizeof gm); if (!okmeta(m[n], gm, why)) { r.violate("meta", "metadata of '" + n + "': " + why + at); return; } } break;
                case K_UPD: if ((o.v[2] >= 0) != ex || (o.v[1] >= 0) != ex) { r.violate("update-found", "gmm_updatemeta of '" + n + "' returned " + S(o.v[2]) + at); return; } if (ex) { int gm[28]; memcpy(gm, blob_at(o.v[3]), sizeof gm); Fld& f = m[n]; for (int j = 0; j < 4; j++) for (int c = 2; c < 5; c++) f.l[5 * j + c] = gm[5 * j + c]; f.u1 = get64(gm + 22); f.u2 = get64(gm + 24); f.flags = gm[27]; } break;
                case K_DEL: if ((o.v[1] >= 0) != ex) { r.violate("deleted", "gmm_delete of '" + n + "' returned " + S(o.v[1]) + at); return; } m.erase(n); break;
                case K_REN: { std::string b = canon_name(name_of(o.v[1])); bool ok = ex && !m.count(b); if ((o.v[2] >= 0) != ok) { r.violate("renamed", "gmm_rename of '" + n + "' to '" + b + "' returned " + S(o.v[2]) + at); return; } if (ok) { m[b] = m[n]; m.erase(n); } break; }
                case K_SHUF: {
                    std::vector<std::string> l; std::set<std::string> u; bool dup = false, any = false; for (long x : q.a) { if (x < 0) break; std::string s = canon_name(name_of(x)); if (!u.insert(s).second) dup = true; if (m.count(s)) any = true; l.push_back(s); }
                    if ((o.v[0] >= 0) != any) { r.violate("shuffled", "gmm_shuffle returned " + S(o.v[0]) + at); return; } if (!any) break;
                    if (dup) { return; }
                    Map w; for (size_t j = 0; j < l.size(); j++) if (m.count(l[j])) { w[l[(j + 1) % l.size()]] = m[l[j]]; m.erase(l[j]); } for (auto& x : w) m[x.first] = x.second; break;
                }
                case K_KEYS: {
                    if (o.v[0] != (long)m.size()) { r.violate("count", "gmm_nkeys returned " + S(o.v[0]) + " with " + S((long)m.size()) + " fields" + at); return; }
                    if (o.v[1] < (long)m.size()) { if (o.v[3] < 0 && o.v[2] >= 0) { r.violate("keys-room", "gmm_keys returned " + S(o.v[2]) + " without room for the list" + at); return; } if (o.v[2] < 0) break; }
                    std::set<std::string> want; std::string pat = canon_name(o.v[3] >= 0 ? std::string(o.s) : ""); for (auto& x : m) if (x.first.compare(0, pat.size(), pat) == 0) want.insert(x.first);
                    if (o.v[2] != (long)want.size()) { r.violate("keys", "gmm_keys returned " + S(o.v[2]) + ", there are " + S((long)want.size()) + at); return; }
                    std::set<std::string> got; for (long j = 0; j < o.v[2]; j++) got.insert(canon_name(std::string((const char*)blob_at(o.v[4]) + j * 32, 32))); if (got != want) { r.violate("keys", "gmm_keys did not list the fields that exist" + at); return; } break;
                }
                case K_CHURN: if (o.v[0]) { r.violate("churn", std::string("a field created and deleted again and again was ") + (o.v[0] == 1 ? "not created" : "not deleted") + at); return; } break;
                case K_AUDIT:
                    if (curload) break; if (!same(m, o, why)) { r.violate("audit", why + at); return; } break;
                case K_CKPT: {
                    Map c = restart_set(m); if (fuzzyload) { return; }
                    if (o.v[0] >= 0) { cand.clear(); cand.push_back(c); exists = true; maybe = false; } else { if (!hit(o.op)) { r.violate("checkpoint", "gmm_checkpoint_all returned " + S(o.v[0]) + " with nothing wrong" + at); return; } cand.push_back(c); maybe = true; } break;
                }
                case K_LOAD: {
                    if (o.v[1]) { break; }
                    if (o.v[0] < 0) { if (hit(o.op)) { fuzzyload = true; break; } if (exists) { r.violate("restart", "gmm_checkpoint_all could not read the restart file" + at); return; } break; }
                    if (!exists && !maybe) { r.violate("restart-nothing", "gmm_checkpoint_all read a restart file that was never written" + at); return; }
                    // the keys and the audit that follow
                    const Obs* a = nullptr; for (size_t j = i + 1; j < r.hist.size() && r.hist[j].op == o.op && r.hist[j].inc == o.inc; j++) { if (r.hist[j].kind == K_AUDIT) a = &r.hist[j]; if (r.hist[j].kind == O_SIGNAL || r.hist[j].kind == O_HEAP || r.hist[j].kind == O_EXIT) { ended(r.hist[j], r, false); return; } }
                    if (!a) { bool e0 = false; for (auto& c : cand) if (c.empty()) e0 = true; (void)e0; r.violate("restart-keys", "the fields read from the restart file cannot be listed" + at); return; }
                    bool ok = false; std::string w1; for (size_t c = cand.size(); c-- > 0 && !ok;) { Map t = cand[c]; if (same(t, *a, why)) { ok = true; m = t; Map k = cand[c]; for (auto& x : k) { auto& f = t[x.first]; x.second.state = f.state; x.second.h = f.h; } cand.assign(1, k); } else if (w1.empty()) w1 = why; }
                    if (!ok) { r.violate("restart", "what was read from the restart file is not what a checkpoint wrote: " + w1 + at); return; }
                    exists = true; maybe = false; break;
                }
            }
        }
    }
    bool nontrivial(const Plan& p, const Result&) override { int c = 0, g = 0; for (auto& o : p.ops) { if (o.name == "create") c++; if (o.name == "get" || o.name == "put") g++; } return c && g; }
    std::string shape(const Plan& p, const Result& r) override { std::string s; for (auto& o : r.hist) if (o.kind >= O_USER) { s += (char)('a' + o.kind - O_USER); if (o.kind == K_CREATE || o.kind == K_GET || o.kind == K_PUT) s += S(o.v[1]) + (o.v[2] < 0 ? "-" : "+"); } return s; }
};
int main(int argc, char** argv) { H h; return sim::main(argc, argv, h); }
