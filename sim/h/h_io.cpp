// Byte streams (sq*), subfiles of CMCARC files, and the table of units (fnom, fclos): c_baseio.c.
#include "sim.h"
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
extern "C" {
#include "rmn/fnom.h"
int fio_write(int, const int*, int); int fio_read(int, int*, int); int fio_rewind(int);
}
using namespace sim;
typedef std::vector<uint8_t> Bytes;
static uint32_t val(long tag, long i) { uint64_t z = (uint64_t)tag * 0x9e3779b97f4a7c15ull + (uint64_t)i * 0xbf58476d1ce4e5b9ull; z ^= z >> 29; z *= 0x94d049bb133111ebull; z ^= z >> 32; return (uint32_t)z; }
static Bytes data(long tag, long n) { Bytes b(n); for (long i = 0; i < n; i++) b[i] = (uint8_t)(val(tag, i / 4) >> (i % 4 * 8)); return b; }
static std::string S(long x) { return std::to_string(x); }

enum { K_FNOM = O_USER, K_SQOPEN, K_PUT, K_GET, K_POS, K_CLOSE, K_DISK, K_AOPEN, K_AREAD, K_ASIZE, K_AWRITE, K_INFO, K_EXIST, K_BURN, K_LEAK };

// ---------------------------------------------------------------- CMCARC files, as the cmcarc program writes them
struct Member { std::string name; long units; long tag; };
struct Archive { int kind; std::vector<Member> m; Bytes bytes; };
static void be(Bytes& b, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) b.push_back((uint8_t)(v >> (8 * i))); }
static void header(Bytes& b, bool v5, const std::string& name, long units, long* nt_out) {
    long hb = 1 + (long)name.size() + 1, hu = std::max(2l, (hb + 7) / 8), nt = units + hu + (v5 ? 4 : 2); *nt_out = nt;
    be(b, nt, v5 ? 8 : 4); be(b, units, v5 ? 8 : 4); size_t at = b.size(); b.resize(at + hu * 8, 0); b[at] = 1; memcpy(&b[at + 1], name.data(), name.size());
}
static Archive archive(long salt) {
    Rng r(salt * 77 + 5); Archive a; a.kind = r.weighted({ 1, 5, 4 }); int n = (int)r.range(0, 6);
    static const char* base[] = { "fields", "field", "fields2", "a", "topo.std", "sortie/dm2026", "LONG_NAME_OF_A_SUBFILE_WITH_MANY_CHARACTERS_IN_IT", "f", "Fields", "x1234567" };
    std::vector<int> o; for (int i = 0; i < 10; i++) o.push_back(i); for (int i = 9; i > 0; i--) std::swap(o[i], o[r.below(i + 1)]);
    for (int i = 0; i < n; i++) { Member m; m.name = base[o[i]]; int k = r.weighted({ 5, 4, 2 }); m.units = k == 0 ? r.range(1, 30) : k == 1 ? r.range(1, 700) : r.range(500, 2600); m.tag = salt * 100 + i; a.m.push_back(m); }
    Bytes& b = a.bytes; bool v5 = a.kind == 2;
    if (a.kind == 0) { const char* s = "CMCARCHS"; b.insert(b.end(), s, s + 8); }
    else { long hu = r.range(2, 4); long nt = hu + (v5 ? 4 : 2); be(b, nt, v5 ? 8 : 4); be(b, 0, v5 ? 8 : 4); if (v5) { for (int i = 0; i < 8; i++) b[8 + i] = b[i]; } b.push_back(r.chance(0.5) ? 0 : 4); const char* s = v5 ? "CMCARCH5" : "CMCARCHS"; b.insert(b.end(), s, s + 8); b.resize(nt * 8, 0); }
    for (auto& m : a.m) { long nt; header(b, v5, m.name, m.units, &nt); Bytes d = data(m.tag, m.units * 8); b.insert(b.end(), d.begin(), d.end()); be(b, nt, v5 ? 8 : 4); be(b, m.units, v5 ? 8 : 4); }
    return a;
}

// ---------------------------------------------------------------- unit table: names and types
struct Name { const char* given; const char* file; int need; };   // need: 0 nothing, 1 always refused
static const Name NAMES[] = {
    { "ua", "/sim/ua", 0 }, { "/sim/ub", "/sim/ub", 0 }, { "uc.dat", "/sim/uc.dat", 0 }, { "+ud", "/sim/ud", 0 }, { "dir/ue", "/sim/dir/ue", 0 }, { "/sim/dir/a_rather_long_file_name_for_a_unit.std", "/sim/dir/a_rather_long_file_name_for_a_unit.std", 0 },
    { "nodir/uf", "/sim/nodir/uf", 1 }, { "@missing", "", 1 }, { "@cst", "/sim/cst", 0 }, { "@tab", "/sim/const/tab", 0 } };
enum { T_RND, T_STDRND, T_OLD, T_RO, T_RW, T_STREAM, T_FTN, T_FTNOLD, T_SCR, T_BURP, T_SCRFTN, T_N };
static const char* TYPES[] = { "RND", "STD+RND", "RND+OLD", "RND+R/O", "STD+RND+R/W", "STREAM", "FTN+UNF", "SEQ+FTN+UNF+OLD", "RND+SCRATCH", "BURP+RND", "FTN+UNF+SCRATCH" };
static bool t_ftn(int t) { return t == T_FTN || t == T_FTNOLD || t == T_SCRFTN; }
static bool t_scr(int t) { return t == T_SCR || t == T_SCRFTN; }
static const int NN = sizeof NAMES / sizeof *NAMES;
static bool n_ftn(long n) { return n == 1 || n == 4 || n == 9; }          // the files that Fortran units use, and no others
static long nameof(long n, int t) { n %= NN; if (NAMES[n].need || t_scr(t)) return n; static const long F[] = { 1, 4, 9 }, O[] = { 0, 2, 3, 5, 8 }; return t_ftn(t) ? F[n % 3] : n_ftn(n) ? O[n % 5] : n; }

struct H : Harness {
    std::vector<std::string> props() override { return { "W02", "W03", "W04" }; }
    // ============================================================ generation
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed;
        if (prop == "W02") gen2(p, r, th); else if (prop == "W03") gen3(p, r, th); else gen4(p, r, th);
        return p;
    }
    static void aim(Plan& p, Rng& r, int m, const std::function<bool(const Op&, int)>& ok, const std::vector<int>& kinds) {
        for (int i = 0; i < m; i++) { int k = r.pick(kinds); std::vector<int> t; for (auto& o : p.ops) if (ok(o, k)) t.push_back(o.id); if (!t.empty()) p.faults.push_back({ r.pick(t), (int)r.range(1, 3), k, r.range(1, 4000) }); }
    }
    static void gen2(Plan& p, Rng& r, bool th) {
        int nf = (int)r.range(1, 3), nu = (int)r.range(1, 3), n = (int)r.range(6, th ? 90 : 50); long tag = 1;
        int mode = r.weighted({ 4, 3, 3, 2 });
        for (int f = 0; f < nf; f++) if (r.chance(0.5)) p.cfg["init" + S(f)] = r.range(1, 6000);
        for (int u = 0; u < nu; u++) p.add("fnom", { u, r.below(nf), r.weighted({ 6, 3, 2, 1 }), r.below(2) });
        for (int i = 0; i < n; i++) {
            long u = r.below(nu); int k = r.weighted({ 22, 22, 14, 14, 8, 6, 5, 2, 3, 1 });
            int lk = r.weighted({ 4, 4, 2 }); long len = lk == 0 ? r.range(1, 9) : lk == 1 ? r.range(1, 300) : r.range(100, 3000);
            switch (k) {
                case 0: p.add("putw", { u, len, tag++, r.below(2) }); break;
                case 1: p.add("getw", { u, len, 0, r.below(2) }); break;
                case 2: p.add("puts", { u, len, tag++, r.below(2) }); break;
                case 3: p.add("gets", { u, len, 0, r.below(3), r.range(1, 300) }); break;
                case 4: p.add("rew", { u, r.below(2) }); break;
                case 5: p.add("eoi", { u, r.below(2) }); break;
                case 6: { int w = r.weighted({ 3, 3 }); if (w) { p.add("sqclos", { u, r.below(2) }); if (r.chance(0.3)) p.add(r.chance(0.5) ? "putw" : "getw", { u, 5, tag++, 0 }); p.add("sqopen", { u, r.below(2) }); } else { p.add("fclos", { u, r.below(2) }); if (r.chance(0.3)) p.add(r.chance(0.5) ? "putw" : "gets", { u, 5, tag++, 0 }); p.add("fnom", { u, r.below(nf), r.weighted({ 6, 3, 2, 1 }), r.below(2) }); } } break;
                case 7: p.add("disk"); break;
                case 8: p.add("sqopen", { u, r.below(2) }); break;
                default: p.add("restart"); for (int v = 0; v < nu; v++) p.add("fnom", { v, r.below(nf), r.weighted({ 6, 3, 2, 1 }), r.below(2) }); break;
            }
        }
        for (int u = 0; u < nu; u++) p.add("fclos", { u, 0 }); p.add("disk");
        if (mode) aim(p, r, (int)r.range(1, 4), [](const Op& o, int k) { bool put = o.name.compare(0, 3, "put") == 0, get = o.name.compare(0, 3, "get") == 0; return k == F_CRASH || k == F_TORN ? put || (k == F_CRASH && o.name != "restart") : k == F_EOPEN ? o.name == "fnom" || o.name == "sqopen" : k == F_EIO_R || k == F_SHORTR || k == F_EINTR_R ? get : put; },
            mode == 1 ? std::vector<int>{ F_SHORTW, F_SHORTR } : mode == 2 ? std::vector<int>{ F_SHORTW, F_SHORTR, F_EINTR_W, F_EINTR_R, F_EIO_W, F_EIO_R, F_ENOSPC, F_EOPEN } : std::vector<int>{ F_CRASH, F_TORN, F_SHORTW, F_ENOSPC });
        for (auto& f : p.faults) if (f.kind == F_SHORTW || f.kind == F_SHORTR) f.nth = (int)r.range(1, 3);
    }
    static void gen3(Plan& p, Rng& r, bool th) {
        int na = (int)r.range(1, 3), nu = (int)r.range(1, 4), n = (int)r.range(6, th ? 70 : 36); long tag = 1;
        for (int a = 0; a < na; a++) { p.cfg["salt" + S(a)] = r.range(1, 1000000); if (r.chance(0.12)) { p.cfg["cut" + S(a)] = r.range(1, 100000); } else if (r.chance(0.12)) p.cfg["flip" + S(a)] = r.range(1, 1000000); }
        if (r.chance(0.35)) { p.cfg["ps"] = r.range(1, 2); p.cfg["nb"] = r.range(1, 4); if (r.chance(0.3)) p.cfg["limit"] = r.range(1, 5); }
        for (int u = 0; u < nu; u++) p.add("aopen", { u, r.below(na), r.below(8), r.below(5), r.below(2) });
        for (int i = 0; i < n; i++) {
            long u = r.below(nu);
            switch (r.weighted({ 10, 3, 2, 6, 4, 1, 3 })) {
                case 0: { int lk = r.weighted({ 3, 3, 2 }); p.add("aread", { u, r.weighted({ 4, 3, 2 }), r.below(100000), lk == 0 ? r.range(1, 20) : lk == 1 ? r.range(1, 1500) : r.range(1000, 6000) }); break; }
                case 1: p.add("asize", { u }); break;
                case 2: p.add("awrite", { u, r.below(100000), r.range(1, 40), tag++ }); break;
                case 3: p.add("aclose", { u, r.below(2) }); p.add("aopen", { u, r.below(na), r.below(8), r.below(5), r.below(2) }); break;
                case 4: p.add("pwrite", { r.below(100000), r.range(1, 800), tag++ }); break;
                case 5: p.add("restart"); for (int v = 0; v < nu; v++) p.add("aopen", { v, r.below(na), r.below(8), r.below(5), r.below(2) }); break;
                default: p.add("pread"); break;
            }
        }
        for (int u = 0; u < nu; u++) p.add("aclose", { u, 0 }); p.add("leak"); p.add("disk");
        if (r.chance(0.3)) aim(p, r, (int)r.range(1, 3), [](const Op& o, int k) { return k == F_EOPEN ? o.name == "aopen" : k == F_CRASH ? true : o.name == "aopen" || o.name == "aread"; }, { F_EOPEN, F_EIO_R, F_SHORTR, F_EINTR_R, F_CRASH });
    }
    static void gen4(Plan& p, Rng& r, bool th) {
        int n = (int)r.range(10, th ? 120 : 60); long tag = 1; int ns = (int)r.range(2, 8);
        for (int i = 0; i < NN; i++) if (!NAMES[i].need && (r.chance(0.4) || NAMES[i].given[0] == '@')) p.cfg["ex" + S(i)] = r.range(1, 500);
        auto fn = [&](long s) { p.add("fnom", { s, r.weighted({ 3, 2 }), r.range(11, 18), r.below(NN), r.weighted({ 6, 4, 3, 3, 3, 3, 3, 2, 2, 2, 2 }), r.below(2), r.chance(0.1) }); };
        for (int s = 0; s < ns; s++) fn(s);
        for (int i = 0; i < n; i++) {
            long s = r.below(ns);
            switch (r.weighted({ 12, 8, 14, 10, 6, 3, 1, 1, 2, 4 })) {
                case 0: fn(s); break;
                case 1: p.add("fclos", { s, r.below(2) }); break;
                case 2: p.add("put", { s, r.range(1, 300), tag++ }); break;
                case 3: p.add("get", { s }); break;
                case 4: p.add("info", { s, r.range(1, 60), r.range(1, 30) }); break;
                case 5: p.add("exist", { r.below(NN), r.below(3) }); break;
                case 6: p.add("burn", { r.weighted({ 3, 3, 2, 2, 1 }), r.chance(0.5) ? r.range(5, 60) : r.range(1030, 1060) }); break;
                case 7: p.add("restart"); for (int q = 0; q < ns; q++) fn(q); break;
                case 8: p.add("fclos", { 90 + r.below(5), r.below(2) }); break;
                default: p.add("waclos", { s, r.below(2) }); if (r.chance(0.6)) fn(r.below(ns)); break;
            }
        }
        for (int s = 0; s < ns; s++) p.add("fclos", { s, 0 }); p.add("leak"); p.add("disk");
        int m = r.weighted({ 6, 2, 2 });
        if (m) aim(p, r, (int)r.range(1, 3), [](const Op& o, int k) { return k == F_EOPEN ? o.name == "fnom" : k == F_CRASH ? o.name == "fnom" || o.name == "put" || o.name == "fclos" : o.name == "put" || o.name == "fclos"; }, m == 1 ? std::vector<int>{ F_EOPEN } : std::vector<int>{ F_CRASH, F_EOPEN, F_ENOSPC, F_EIO_W, F_SHORTW });
    }
    // ============================================================ set-up
    static std::string sqname(long f) { return "/sim/sq" + S(f); }
    static std::string arname(long a) { return "/sim/ar" + S(a); }
    static Bytes arbytes(const Plan& p, long a, bool& damaged) { Archive x = archive(p.C("salt" + S(a), 1)); damaged = false; long c = p.C("cut" + S(a)); if (c) { x.bytes.resize(c % x.bytes.size()); damaged = true; } long fl = p.C("flip" + S(a)); if (fl) { Rng r(fl); int k = (int)r.range(1, 6); for (int i = 0; i < k; i++) x.bytes[r.below((long)std::min<size_t>(x.bytes.size(), r.chance(0.5) ? 120 : x.bytes.size()))] ^= (uint8_t)(1 << r.below(8)); damaged = true; } return x.bytes; }
    void setup(const Plan& p) override {
        if (p.prop == "W02") { for (int f = 0; f < 3; f++) { long n = p.C("init" + S(f)); if (n) { Bytes b = data(9000 + f, n); fs_put(sqname(f), b.data(), b.size()); } } }
        else if (p.prop == "W03") { for (int a = 0; a < 3; a++) { if (!p.C("salt" + S(a))) continue; bool dmg; Bytes b = arbytes(p, a, dmg); fs_put(arname(a), b.data(), b.size()); } }
        else { fs_mkdir("/sim/dir"); fs_mkdir("/sim/const"); fs_mkdir("/sim/tmp"); for (int i = 0; i < NN; i++) { long n = p.C("ex" + S(i)); if (n) { Bytes b = init4(i, n); fs_put(NAMES[i].file, b.data(), b.size()); } } }
    }
    static Bytes init4(int i, long n) {
        if (!n_ftn(i)) return data(9000 + i, 4 * n);
        Bytes b; for (long j = 0; j < n % 7; j++) { long m = 1 + (n + 5 * j) % 40; uint32_t l = (uint32_t)(4 * m); uint8_t q[4]; memcpy(q, &l, 4); Bytes d = data(500000 + 1000 * i + j, 4 * m); b.insert(b.end(), q, q + 4); b.insert(b.end(), d.begin(), d.end()); b.insert(b.end(), q, q + 4); } return b;
    }
    int lowfd = -1;
    static int probefd() { no_faults(true); int fd = open("/sim/.probe", O_RDWR | O_CREAT, 0666); if (fd >= 0) close(fd); no_faults(false); return fd; }
    void child_begin(const Plan& p) override {
        setenv("CMCCONST", "/sim/const", 1); setenv("ARMNLIB", "/sim/nowhere", 1); setenv("TMPDIR", "/sim/tmp", 1);
        if (p.C("ps")) { char b[64]; if (p.C("limit")) snprintf(b, 64, "%ld %ld %ld", p.C("ps"), p.C("nb"), p.C("limit")); else snprintf(b, 64, "%ld %ld", p.C("ps"), p.C("nb")); setenv("WA_CONFIG", b, 1); } else unsetenv("WA_CONFIG");
        for (auto& x : un) x = 0; pinit = false; lowfd = probefd(); if (incarnation() > 0) disk(p);
    }
    void disk(const Plan& p) { no_faults(true); auto one = [&](long k, const std::string& n) { Bytes b; bool e = fs_get(n, b); obs(K_DISK, { k, e, (long)b.size(), blob(b.data(), b.size()) }); };
        if (p.prop == "W02") for (int f = 0; f < 3; f++) one(f, sqname(f)); else if (p.prop == "W03") { for (int a = 0; a < 3; a++) one(a, arname(a)); one(9, "/sim/plain"); } else for (int i = 0; i < NN; i++) if (!NAMES[i].need) one(i, NAMES[i].file); no_faults(false); }
    int un[128]; std::string fi[128]; bool ftn[128]; int fty[128]; bool pinit;
    // ============================================================ execution
    void exec(const Plan& p, const Op& o) override { if (o.name == "disk") return disk(p); if (o.name == "leak") { obs(K_LEAK, { probefd() - lowfd }); return; } if (p.prop == "W02") exec2(p, o); else if (p.prop == "W03") exec3(p, o); else exec4(p, o); }
    static long posof(int u) { no_faults(true); int fd = c_getfdsc(u); long r = fd > 0 ? (long)lseek(fd, 0, SEEK_CUR) : -1; no_faults(false); return r; }
    void exec2(const Plan& p, const Op& o) {
        static const char* TY[] = { "STREAM", "STREAM+R/W", "STREAM+R/O", "STREAM+OLD" };
        long k = o.A(0) & 7; int u = 31 + (int)k; bool F = o.A(3);
        if (o.name == "fnom") { obs(O_BEGIN, { k }); std::string n = sqname(o.A(1)), t = TY[o.A(2) & 3]; int rc, z = 0, v = u; if (o.A(3)) { n += "   "; t += "  "; rc = fnom_(&v, n.data(), t.data(), &z, n.size(), t.size()); } else rc = c_fnom(&v, n.c_str(), t.c_str(), 0); obs(K_FNOM, { k, o.A(1), o.A(2), rc, fs_exists(sqname(o.A(1))), posof(u) }); if (rc == 0) { if (o.A(3)) sqopen_(&u); else c_sqopen(u); obs(K_SQOPEN, { k, posof(u) }); } }
        else if (o.name == "sqopen") { if (posof(u) < 0 && un[k] == 0) { /* nothing known about this unit: sqopen would end the process */ } obs(O_BEGIN, { k }); no_faults(true); bool known = [&] { char a[80], b[40]; int l; return qqqfnom_(&u, a, b, &l, 80, 40) == 0; }(); no_faults(false); if (!known) return; if (o.A(1)) sqopen_(&u); else c_sqopen(u); obs(K_SQOPEN, { k, posof(u) }); }
        else if (o.name == "sqclos") { if (posof(u) < 0) return; if (o.A(1)) sqclos_(&u); else c_sqclos(u); obs(K_CLOSE, { k, 0, 1, posof(u) }); }
        else if (o.name == "fclos") { int rc = o.A(1) ? fclos_(&u) : c_fclos(u); obs(K_CLOSE, { k, rc, 0, posof(u) }); }
        else if (o.name == "rew" || o.name == "eoi") { if (o.name == "rew") { if (o.A(1)) sqrew_(&u); else c_sqrew(u); } else { if (o.A(1)) sqeoi_(&u); else c_sqeoi(u); } obs(K_POS, { k, o.name == "eoi", posof(u) }); }
        else if (o.name == "putw" || o.name == "puts") {
            bool w = o.name == "putw"; int n = (int)o.A(1); long nb = w ? 4 * n : n; Bytes b = data(o.A(2), nb), c = b; long p0 = posof(u); obs(O_BEGIN, { k, p0, nb, o.A(2) });
            int rc; if (w) rc = F ? sqputw_(&u, (uint32_t*)b.data(), &n) : c_sqputw(u, (uint32_t*)b.data(), n); else rc = F ? sqputs_(&u, (char*)b.data(), &n, n) : c_sqputs(u, (char*)b.data(), n);
            long p1 = posof(u); obs(K_PUT, { k, p0, nb, o.A(2), rc, p1, w, b == c }); if (rc != n) disk(p);
        } else if (o.name == "getw" || o.name == "gets") {
            bool w = o.name == "getw"; int n = (int)o.A(1); long nb = w ? 4 * n : n; long lim = nb; Bytes b(nb + 8, 0xab); long p0 = posof(u); obs(O_BEGIN, { k, p0, nb });
            int rc; if (w) rc = F ? sqgetw_(&u, (uint32_t*)b.data(), &n) : c_sqgetw(u, (uint32_t*)b.data(), n); else if (o.A(3) == 2) { lim = std::min(nb, o.A(4)); rc = sqgets_(&u, (char*)b.data(), &n, lim); } else rc = F ? sqgets_(&u, (char*)b.data(), &n, n) : c_sqgets(u, (char*)b.data(), n);
            obs(K_GET, { k, p0, w ? nb : lim, rc, posof(u), w, blob(b.data(), b.size()), (long)b.size() });
        }
    }
    static std::string member(const Plan& p, long a, long m) { Archive x = archive(p.C("salt" + S(a), 1)); if (m < (long)x.m.size()) return x.m[m].name; return m == 6 ? "field" : m == 7 ? "no_such_subfile" : "fields2"; }
    void exec3(const Plan& p, const Op& o) {
        static const char* TY[] = { "RND", "STD+RND", "RND+OLD+R/O", "STD+RND+OLD", "RND+R/W" };
        long k = o.A(0) & 7; int u = 41 + (int)k;
        if (o.name == "aopen") { if (un[k]) return; obs(O_BEGIN, { k }); std::string n = arname(o.A(1)) + "@" + member(p, o.A(1), o.A(2)), t = TY[o.A(3) % 5]; int rc, z = 0, v = u; if (o.A(4)) { n += "  "; rc = fnom_(&v, n.data(), t.data(), &z, n.size(), t.size()); } else rc = c_fnom(&v, n.c_str(), t.c_str(), 0); int e2 = -9; if (rc == 0) { e2 = c_waopen2(u); if (e2 < 0) c_fclos(u); } un[k] = rc == 0 && e2 >= 0; obs(K_AOPEN, { k, o.A(1), o.A(2), rc, e2 >= 0, un[k] ? c_wasize(u) : -1 }); }
        else if (o.name == "aread") { if (!un[k]) return; long sz = c_wasize(u), len = o.A(3), off = o.A(1) == 0 ? 1 + o.A(2) % (sz + 1) : o.A(1) == 1 ? std::max(1l, sz - o.A(2) % 20) : 1; Bytes b(4 * len + 8, 0xab); obs(O_BEGIN, { k, off, len }); int n = c_waread2(u, b.data(), (unsigned)off, (int)len); obs(K_AREAD, { k, off, len, n, blob(b.data(), b.size()) }); }
        else if (o.name == "asize") { if (!un[k]) return; obs(K_ASIZE, { k, c_wasize(u), c_numblks(u) }); }
        else if (o.name == "awrite") { if (!un[k]) return; Bytes b = data(o.A(3), 4 * o.A(2)); obs(O_BEGIN, { k }); int rc = c_wawrit2(u, b.data(), (unsigned)(1 + o.A(1) % (c_wasize(u) + 1)), (int)o.A(2)); obs(K_AWRITE, { k, rc }); }
        else if (o.name == "aclose") { if (!un[k]) return; int e = o.A(1) ? c_waclos2(u) : 0; int rc = c_fclos(u); un[k] = 0; obs(K_CLOSE, { k, e, rc }); }
        else if (o.name == "pwrite" || o.name == "pread") {   // an ordinary file used at the same time
            int q = 60; if (!pinit) { int v = q; if (c_fnom(&v, "/sim/plain", "RND", 0)) return; if (c_waopen2(q) < 0) { c_fclos(q); return; } pinit = true; }
            long sz = c_wasize(q); if (o.name == "pwrite") { long off = 1 + o.A(0) % (sz + 1), len = o.A(1); Bytes b = data(o.A(2), 4 * len); obs(O_BEGIN, { 9, off, len, o.A(2) }); int rc = c_wawrit2(q, b.data(), (unsigned)off, (int)len); c_waflush(q); obs(K_PUT, { 9, off, len, o.A(2), rc }); }
            else { Bytes b(4 * sz + 4, 0); int rc = c_waread2(q, b.data(), 1, (int)sz); obs(K_GET, { 9, rc, sz, blob(b.data(), b.size()) }); }
        }
    }
    bool shut[128];
    bool again(long k) { if (!shut[k]) return true; no_faults(true); int rc = c_waopen2(un[k]); no_faults(false); obs(K_SQOPEN, { k, rc }); if (rc >= 0) shut[k] = false; return rc >= 0; }
    void exec4(const Plan& p, const Op& o) {
        long k = o.A(0) & 127;
        if (o.name == "fnom") {
            // unit: 0 the slot's own number, 1 chosen by fnom; a slot keeps one unit
            int want = o.A(1) == 1 ? 0 : (int)o.A(2); int v = want; int t = (int)o.A(4) % T_N; long ni = nameof(o.A(3), t); const Name& nm = NAMES[ni]; std::string n = nm.given; if (t_scr(t)) { n = n.substr(n.find_last_of('/') == std::string::npos ? 0 : n.find_last_of('/') + 1); if (n[0] == '@' || n[0] == '+') n = n.substr(1); n += "_" + S(o.id); if (o.A(6)) n = "bad/" + n; }
            if (un[k]) return;                                        // the slot holds a connected unit
            for (int i = 0; i < 32; i++) if (un[i] && !t_scr(t) && fi[i] == nm.file) return;   // one connection per file
            bool before = !t_scr(t) && fs_exists(nm.file); obs(O_BEGIN, { k }); int z = 0, rc; std::string ty = TYPES[t];
            if (o.A(5)) { std::string a = n + "    ", b = ty + " "; rc = fnom_(&v, a.data(), b.data(), &z, a.size(), b.size()); } else rc = c_fnom(&v, n.c_str(), ty.c_str(), 0);
            bool busy = false; for (int i = 0; i < 32; i++) if (un[i] && un[i] == v) busy = true;
            obs(K_FNOM, { k, want, ni, t, rc, v, before, !t_scr(t) && fs_exists(nm.file), busy, o.A(6) });
            if (rc == 0 && !busy) { un[k] = v; shut[k] = false; fi[k] = t_scr(t) ? "tmp/" + n : nm.file; ftn[k] = t_ftn(t); fty[k] = t; }
        } else if (o.name == "fclos") { int u = k < 32 ? un[k] : 700 + (int)k; if (!u) return; int rc = o.A(1) ? fclos_(&u) : c_fclos(u); obs(K_CLOSE, { k, rc, u }); if (k < 32) un[k] = 0; }
        else if (o.name == "put") { if (!un[k]) return; int u = un[k]; long n = o.A(1); if (!again(k)) return; Bytes b = data(o.A(2), 4 * n); obs(O_BEGIN, { k, n, o.A(2) }); int rc; if (ftn[k]) { rc = fio_write(u, (int*)b.data(), (int)n) == 0 ? (int)n : -1; } else { no_faults(true); int sz = c_wasize(u); no_faults(false); if (fty[k] == T_STREAM) { c_sqeoi(u); rc = c_sqputw(u, (uint32_t*)b.data(), (int)n); } else rc = c_wawrit2(u, b.data(), sz + 1, (int)n); } obs(K_PUT, { k, n, o.A(2), rc }); }
        else if (o.name == "get") { if (!un[k]) return; int u = un[k]; if (!again(k)) return; if (ftn[k]) { fio_rewind(u); std::vector<int> all; int nrec = 0; for (; nrec < 2000; nrec++) { int x[2000]; memset(x, 0, sizeof x); int e = -1; (void)e; if (fio_read(u, x, 1) != 0) break; all.push_back(x[0]); } fio_rewind(u); for (int j = 0; j < nrec; j++) { int y; fio_read(u, &y, 1); } obs(K_GET, { k, nrec, (long)all.size(), blob(all.data(), all.size() * 4) }); }
            else if (fty[k] == T_STREAM) { c_sqrew(u); Bytes b(1 << 20, 0); long t = 0; for (;;) { int g = c_sqgets(u, (char*)b.data() + t, (int)std::min<long>(5000, (long)b.size() - t)); if (g <= 0) break; t += g; } obs(K_GET, { k, -2, t, blob(b.data(), t) }); }
            else { int sz = c_wasize(u); Bytes b(4 * sz + 4, 0); int g = c_waread2(u, b.data(), 1, sz); obs(K_GET, { k, g, sz, blob(b.data(), b.size()) }); } }
        else if (o.name == "waclos") {   // as fstfrm does: the file is closed, the unit stays connected to it
            if (!un[k] || ftn[k] || shut[k]) return; int rc = o.A(1) ? waclos2_(&un[k]) : c_waclos2(un[k]); shut[k] = true; obs(K_POS, { k, rc }); }
        else if (o.name == "info") { if (!un[k]) return; int u = un[k], l = -7; long a = o.A(1), b = o.A(2); std::string n(a + 4, '~'), t(b + 4, '~'); int rc = qqqfnom_(&u, n.data(), t.data(), &l, a, b); obs(K_INFO, { k, rc, l, a, b, blob(n.data(), n.size()), blob(t.data(), t.size()) }); }
        else if (o.name == "exist") { const Name& nm = NAMES[o.A(0) % NN]; std::string f = o.A(1) == 2 ? "/sim/dir" : nm.need ? "/sim/nothing" : nm.file; bool w = fs_exists(f); std::string g = f; if (o.A(1)) g += "     "; obs(K_EXIST, { w, existe_(g.data(), g.size()) }); }
        else if (o.name == "burn") {   // connections that are refused, again and again
            int bad = 0; for (long i = 0; i < o.A(1); i++) { int v = o.A(0) == 4 ? 0 : 777, rc;
                switch (o.A(0)) { case 0: rc = c_fnom(&v, "x/scr", "RND+SCRATCH", 0); break; case 1: rc = c_fnom(&v, "@missing", "RND", 0); break; case 2: rc = c_fnom(&v, "/sim/not_there", "RND+OLD", 0); break; case 3: rc = c_fnom(&v, "/sim/nodir/f", "STD+RND", 0); break; default: rc = c_fnom(&v, "/sim/nodir/f", "FTN+UNF", 0); }
                if (rc >= 0) bad++; if (rc >= 0) c_fclos(v); }
            obs(K_BURN, { o.A(0), bad, probefd() - lowfd });
        }
    }
    // ============================================================ oracles
    static bool ended(const Obs& o, Result& r, bool exit_ok) {
        if (o.kind == O_SIGNAL) { r.violate("signal", std::string("process killed by a signal: ") + o.s + " in op " + S(o.op)); return true; }
        if (o.kind == O_HANG || o.kind == O_DEADLOCK) { r.violate("hang", "no progress in op " + S(o.op)); return true; }
        if (o.kind == O_HEAP) { r.violate("heap", o.s); return true; }
        if (o.kind == O_EXIT && !exit_ok) { r.violate("unexpected-exit", "the library ended the process in op " + S(o.op) + " without an injected fault"); return true; }
        return false;
    }
    void oracle(const Plan& p, Result& r) override { if (p.prop == "W02") oracle2(p, r); else if (p.prop == "W03") oracle3(p, r); else oracle4(p, r); }
    void oracle2(const Plan& p, Result& r) {
        struct U { int f = -1; bool open = false; bool ro = false; bool maybe_ro = false; bool connected = false; long pos = 0; };
        std::map<long, U> us; std::map<long, Bytes> c; std::map<long, bool> ex, mayex; int inc = 0; std::map<int, const Op*> byid; for (auto& o : p.ops) byid[o.id] = &o;
        auto hit = [&](int op) { for (auto& f : p.faults) if (f.op == op) return true; return false; };
        for (int f = 0; f < 3; f++) { long n = p.C("init" + S(f)); if (n) { c[f] = data(9000 + f, n); ex[f] = true; } }
        struct Pend { bool on = false; long k, p0, nb, tag; int op; }; Pend pd; Pend unk;   // a put whose effect is to be found on the disk
        for (size_t i = 0; i < r.hist.size(); i++) {
            const Obs& o = r.hist[i]; std::string at = " (op " + S(o.op) + ")";
            if (ended(o, r, hit(o.op))) return;
            if (o.inc != inc) { inc = o.inc; if (pd.on) { unk = pd; unk.k = us[pd.k].f; pd.on = false; } for (auto& x : us) x.second = U(); }
            if (o.kind == O_BEGIN) { if (byid.count(o.op) && byid[o.op]->name.compare(0, 3, "put") == 0) { pd = { true, o.v[0], o.v[1], o.v[2], o.v[3], o.op }; if (pd.p0 < 0 || us[pd.k].f < 0) pd.on = false; } continue; }
            if (o.kind == O_CRASH || o.kind == O_EXIT) { if (byid.count(o.op) && byid[o.op]->name == "fnom") mayex[byid[o.op]->A(1)] = true; continue; }
            if (o.kind < O_USER) continue;
            U& u = us[o.v[0]];
            switch (o.kind) {
                case K_FNOM: {
                    long f = o.v[1], m = o.v[2]; bool ok = o.v[3] == 0; bool must_refuse = u.connected || ((m >= 2) && !ex[f] && !mayex[f]);
                    if (u.connected) { if (ok) { r.violate("unit-used-twice", "a unit in use was connected again" + at); return; } break; }
                    if (must_refuse && ok) { r.violate("old-missing", "a file that does not exist was connected as an existing one" + at); return; }
                    if (!must_refuse && !ok && !hit(o.op) && !mayex[f]) { r.violate("fnom-refused", "fnom was refused" + at); return; }
                    if (!ex[f] && o.v[4] && (m >= 2) && !mayex[f]) { r.violate("created", "a file that had to exist was created" + at); return; }
                    if (o.v[4]) ex[f] = true, mayex[f] = false;
                    if (ok) { u = U(); u.f = (int)f; u.connected = u.open = true; u.ro = m == 2; u.maybe_ro = hit(o.op) && m != 1; u.pos = 0; if (o.v[5] != 0) { r.violate("position", "a stream does not start at the first byte" + at); return; } }
                    else if (o.v[5] >= 0) { r.violate("refused-connected", "a refused unit is connected" + at); return; }
                    break;
                }
                case K_SQOPEN: if (!u.connected) break; if (o.v[1] < 0) { if (!hit(o.op)) { r.violate("sqopen", "a stream could not be opened" + at); return; } u.open = false; break; } if (!u.open) { u.open = true; u.pos = 0; if (hit(o.op)) u.maybe_ro = true; } if (o.v[1] != u.pos) { r.violate("position", "a stream is at byte " + S(o.v[1]) + ", not " + S(u.pos) + at); return; } break;
                case K_CLOSE:
                    if (o.v[2] == 1) { u.open = false; } else { if (u.connected != (o.v[1] == 0)) { r.violate("fclos", "fclos returned " + S(o.v[1]) + " for a unit that is " + (u.connected ? "" : "not ") + "connected" + at); return; } u = U(); }
                    if (o.v[3] >= 0) { r.violate("still-open", "a stream is still open after it was closed" + at); return; } break;
                case K_POS: if (!u.open) { if (o.v[2] >= 0) { r.violate("still-open", "a closed stream has a position" + at); return; } break; } u.pos = o.v[1] ? (long)c[u.f].size() : 0; if (o.v[2] != u.pos) { r.violate("position", "a stream is at byte " + S(o.v[2]) + ", not " + S(u.pos) + at); return; } break;
                case K_PUT: {
                    pd.on = false; long p0 = o.v[1], nb = o.v[2], tag = o.v[3], rc = o.v[4], p1 = o.v[5]; bool w = o.v[6];
                    if (!o.v[7]) { r.violate("caller-buffer", "the caller's buffer changed" + at); return; }
                    if (!u.open) { if (rc > 0 || rc == 0) { r.violate("closed-accepted", "a put on a closed stream returned " + S(rc) + at); return; } break; }
                    if (p0 != u.pos) { r.violate("position", "a stream is at byte " + S(p0) + ", not " + S(u.pos) + at); return; }
                    long want = w ? nb / 4 : nb; long done = rc == want ? nb : (!w && rc > 0 && rc < want && hit(o.op)) ? rc : -1;
                    if (u.ro && rc > 0) { r.violate("read-only", "a put on a read-only stream was accepted" + at); return; }
                    if (done < 0) {
                        if (rc > 0 || rc == 0) { r.violate("put-count", "a put of " + S(want) + (w ? " words" : " bytes") + " returned " + S(rc) + at); return; }
                        if (!hit(o.op) && !u.ro && !u.maybe_ro) { r.violate("put-refused", "a put returned " + S(rc) + at); return; }
                        done = p1 - p0; if (done < 0 || done >= nb + (hit(o.op) ? 1 : 0)) { r.violate("put-position", "a refused put moved the stream by " + S(done) + " bytes of " + S(nb) + at); return; }
                    }
                    if (p1 != p0 + done) { r.violate("position", "a put of " + S(done) + " bytes moved the stream by " + S(p1 - p0) + at); return; }
                    Bytes d = data(tag, nb); Bytes& x = c[u.f]; if (done > 0) { if ((long)x.size() < p0 + done) x.resize(p0 + done, 0); std::copy(d.begin(), d.begin() + done, x.begin() + p0); } u.pos = p1; break;
                }
                case K_GET: {
                    long p0 = o.v[1], nb = o.v[2], rc = o.v[3], p1 = o.v[4]; bool w = o.v[5]; const uint8_t* b = blob_at(o.v[6]); long bl = o.v[7];
                    if (!u.open) { if (rc >= 0) { r.violate("closed-accepted", "a get on a closed stream returned " + S(rc) + at); return; } break; }
                    Bytes& x = c[u.f]; if (p0 != u.pos) { r.violate("position", "a stream is at byte " + S(p0) + ", not " + S(u.pos) + at); return; }
                    long avail = std::max(0l, (long)x.size() - p0); long got;
                    if (w) { if (rc == nb / 4) { if (avail < nb) { r.violate("get-count", "a get of " + S(nb / 4) + " words returned them all, " + S(avail) + " bytes were left" + at); return; } got = nb; } else { if (rc > 0) { r.violate("get-count", "a get of " + S(nb / 4) + " words returned " + S(rc) + at); return; } if (avail >= nb && !hit(o.op)) { r.violate("get-refused", "a get of " + S(nb / 4) + " words was refused, " + S(avail) + " bytes were left" + at); return; } got = p1 - p0; if (got < 0 || got > std::min(avail, nb)) { r.violate("position", "a refused get moved the stream by " + S(got) + at); return; } } }
                    else { long want = std::min(avail, nb); if (rc > 0 ? (rc > want || (rc < want && !hit(o.op))) : (want > 0 && !hit(o.op))) { r.violate("get-count", "a get of " + S(nb) + " bytes returned " + S(rc) + ", " + S(avail) + " were left" + at); return; } got = std::max(0l, rc); }
                    if (p1 != p0 + got) { r.violate("position", "a get of " + S(got) + " bytes moved the stream by " + S(p1 - p0) + at); return; }
                    if (rc > 0) for (long j = 0; j < got; j++) if (b[j] != x[p0 + j]) { r.violate("wrong-data", "byte " + S(p0 + j) + " of the stream came back changed" + at); return; }
                    for (long j = nb; j < bl; j++) if (b[j] != 0xab) { r.violate("get-overrun", "bytes after the caller's buffer were changed" + at); return; }
                    u.pos = p1; break;
                }
                case K_DISK: {
                    long f = o.v[0]; const uint8_t* b = blob_at(o.v[3]); long n = o.v[2]; Bytes& x = c[f];
                    if (unk.on && unk.k == f) {  // the put that the crash cut: the first bytes of it are on the disk
                        unk.on = false; Bytes d = data(unk.tag, unk.nb); bool ok = false;
                        Bytes y = x; for (long j = 0; j <= unk.nb && !ok; j++) { if (j > 0) { if ((long)y.size() < unk.p0 + j) y.resize(unk.p0 + j, 0); y[unk.p0 + j - 1] = d[j - 1]; } if ((long)y.size() == n && !memcmp(y.data(), b, n)) ok = true; }
                        if (!ok) { r.violate("disk-after-crash", "the file " + S(f) + " holds neither the bytes of before the put nor some of the bytes put" + at); return; }
                        x.assign(b, b + n);
                    }
                    if (mayex[f]) { if (o.v[1]) ex[f] = true; mayex[f] = false; }
                    if (!o.v[1]) { if (ex[f]) { r.violate("lost-file", "the file " + S(f) + " is gone" + at); return; } break; }
                    if ((long)x.size() != n || memcmp(x.data(), b, n)) { r.violate("disk", "the file " + S(f) + " (" + S(n) + " bytes) is not what was put (" + S((long)x.size()) + " bytes)" + at); return; }
                    break;
                }
            }
        }
    }
    void oracle3(const Plan& p, Result& r) {
        struct A { Archive a; Bytes b; bool dmg; }; std::map<long, A> as; for (int a = 0; a < 3; a++) if (p.C("salt" + S(a))) { A x; x.a = archive(p.C("salt" + S(a))); x.b = arbytes(p, a, x.dmg); as[a] = x; }
        struct U { bool open = false; long a = -1, m = -1; bool dmg = false; }; std::map<long, U> us; int inc = 0; bool crashed = false;
        std::vector<uint32_t> plain; std::vector<std::vector<uint32_t>> alt;
        auto hit = [&](int op) { for (auto& f : p.faults) if (f.op == op) return true; return false; };
        std::map<int, const Op*> byid; for (auto& o : p.ops) byid[o.id] = &o;
        auto damaged_op = [&](int op) { auto it = byid.find(op); if (it == byid.end()) return false; const Op& q = *it->second; if (q.name == "aopen") return as.count(q.A(1)) && as[q.A(1)].dmg; auto u = us.find(q.A(0) & 7); return u != us.end() && u->second.dmg; };
        bool anyc = false; for (auto& f : p.faults) if (f.kind == F_CRASH) anyc = true;
        for (size_t i = 0; i < r.hist.size(); i++) {
            const Obs& o = r.hist[i]; std::string at = " (op " + S(o.op) + ")";
            if (ended(o, r, hit(o.op) || damaged_op(o.op))) return;
            if (o.inc != inc) { inc = o.inc; us.clear(); }
            if (o.kind == O_CRASH || o.kind == O_EXIT) { crashed = true; continue; }
            if (o.kind < O_USER) continue;
            if (o.v[0] == 9 && o.kind == K_PUT) { if (crashed) continue; long off = o.v[1], len = o.v[2]; if (o.v[4] != len) { r.violate("write-count", "a write to an ordinary file returned " + S(o.v[4]) + at); return; } if ((long)plain.size() < off + len - 1) plain.resize(off + len - 1, 0); for (long j = 0; j < len; j++) plain[off - 1 + j] = val(o.v[3], j); continue; }
            if (o.v[0] == 9 && o.kind == K_GET) { if (crashed) continue; if (o.v[2] != (long)plain.size() || (o.v[1] != o.v[2] && o.v[2])) { r.violate("ordinary-file", "an ordinary file has " + S(o.v[2]) + " words, not " + S((long)plain.size()) + at); return; } if (memcmp(blob_at(o.v[3]), plain.data(), 4 * plain.size())) { r.violate("ordinary-file", "an ordinary file used at the same time came back changed" + at); return; } continue; }
            U& u = us[o.v[0]];
            switch (o.kind) {
                case K_AOPEN: {
                    A& a = as[o.v[1]]; std::string n = member(p, o.v[1], o.v[2]); long m = -1; for (size_t j = 0; j < a.a.m.size(); j++) if (a.a.m[j].name == n) m = (long)j; bool ok = o.v[3] == 0 && o.v[4];
                    if (!a.dmg) { if (ok && m < 0) { r.violate("not-there", "a subfile that is not in the archive was opened" + at); return; } if (!ok && m >= 0 && !hit(o.op)) { r.violate("not-found", "subfile '" + n + "' was not found" + at); return; } if (ok && o.v[5] != a.a.m[m].units * 2) { r.violate("size", "the subfile has " + S(o.v[5]) + " words, not " + S(a.a.m[m].units * 2) + at); return; } }
                    u = U(); if (ok) { u.open = true; u.a = o.v[1]; u.m = m; u.dmg = a.dmg; } break;
                }
                case K_ASIZE: if (!u.open || u.dmg) break; { long w = as[u.a].a.m[u.m].units * 2; if (o.v[1] != w || o.v[2] != (w + 255) / 256) { r.violate("size", "the subfile has " + S(o.v[1]) + " words, not " + S(w) + at); return; } } break;
                case K_AREAD: {
                    if (!u.open || u.dmg) break; const Member& m = as[u.a].a.m[u.m]; long sz = m.units * 2, off = o.v[1], len = o.v[2], n = o.v[3]; long want = off > sz + 2 ? -2 : std::max(0l, std::min(len, sz - off + 1)); const uint8_t* b = blob_at(o.v[4]);
                    if (n != want) { r.violate("read-count", "a read of " + S(len) + " words at " + S(off) + " of a subfile of " + S(sz) + " returned " + S(n) + at); return; }
                    Bytes d = data(m.tag, m.units * 8); for (long j = 0; j < n; j++) { const uint8_t* q = &d[(off - 1 + j) * 4]; uint32_t w = (uint32_t)q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3], g; memcpy(&g, b + 4 * j, 4); if (w != g) { r.violate("wrong-data", "word " + S(off + j) + " of the subfile is not what the archive holds" + at); return; } }
                    for (long j = std::max(0l, n) * 4; j < 4 * len + 8; j++) if (b[j] != 0xab) { r.violate("read-overrun", "words after those returned were changed" + at); return; }
                    break;
                }
                case K_AWRITE: if (u.open && o.v[1] >= 0) { r.violate("write-accepted", "a write to a subfile was accepted" + at); return; } break;
                case K_CLOSE: if (u.open && (o.v[1] || o.v[2]) ) { r.violate("close", "a subfile could not be closed" + at); return; } u = U(); break;
                case K_LEAK: { bool any = false; for (auto& x : us) if (x.second.open) any = true; if (any) break; long extra = 0; for (auto& q : p.ops) if (q.name == "pwrite" || q.name == "pread") extra = 1; if (o.v[0] > extra || (o.v[0] < 0)) { r.violate("descriptor-leak", "files were left open after everything was closed" + at); return; } } break;
                case K_DISK: if (o.v[0] < 3 && as.count(o.v[0])) { A& a = as[o.v[0]]; if (!o.v[1] || o.v[2] != (long)a.b.size() || memcmp(blob_at(o.v[3]), a.b.data(), a.b.size())) { r.violate("archive-changed", "the archive was changed" + at); return; } } break;
            }
        }
    }
    void oracle4(const Plan& p, Result& r) {
        typedef std::vector<std::pair<long, long>> Recs;
        struct FS { bool ex = false; bool fz = false; Bytes b; Recs recs; };
        bool ftnbad = false;   // the Fortran library did not recover from a failed write
        auto enc = [&](const Recs& v) { Bytes b; for (auto& x : v) { uint32_t l = (uint32_t)(4 * x.first); uint8_t q[4]; memcpy(q, &l, 4); Bytes d = data(x.second, 4 * x.first); b.insert(b.end(), q, q + 4); b.insert(b.end(), d.begin(), d.end()); b.insert(b.end(), q, q + 4); } return b; };
        struct U { int u = 0; int t = 0; long n = -1; bool maybe_ro = false; bool fz = false; Recs recs; size_t pos = 0; FS own; };
        std::map<long, FS> fs; std::map<long, U> us; int inc = 0; std::map<int, const Op*> byid; for (auto& o : p.ops) byid[o.id] = &o;
        auto hit = [&](int op) { for (auto& f : p.faults) if (f.op == op) return true; return false; };
        for (int i = 0; i < NN; i++) { long n = p.C("ex" + S(i)); if (n) { fs[i].ex = true; fs[i].b = init4(i, n); if (n_ftn(i)) for (long j = 0; j < n % 7; j++) fs[i].recs.push_back({ 1 + (n + 5 * j) % 40, 500000 + 1000 * i + j }); } }
        for (size_t i = 0; i < r.hist.size(); i++) {
            const Obs& o = r.hist[i]; std::string at = " (op " + S(o.op) + ")";
            if (o.kind == O_HANG && byid.count(o.op) && (byid[o.op]->name == "get" || byid[o.op]->name == "put")) { long k = byid[o.op]->A(0) & 127; if (us.count(k) && t_ftn(us[k].t) && (us[k].fz || (us[k].n >= 0 && fs[us[k].n].fz))) return; }   // the Fortran library on a file that a fault has damaged
            if (ended(o, r, hit(o.op) && byid[o.op]->name != "fnom" && byid[o.op]->name != "fclos")) return;
            if (o.inc != inc) { inc = o.inc; for (auto& x : us) if (x.second.u && x.second.n >= 0 && t_ftn(x.second.t)) fs[x.second.n].fz = true; us.clear(); ftnbad = false; }
            if (o.kind == O_CRASH || o.kind == O_EXIT) { if (byid.count(o.op)) { const Op& q = *byid[o.op]; if (q.name == "fnom") { fs[nameof(q.A(3), (int)q.A(4) % T_N)].fz = true; } else if (us.count(q.A(0) & 127) && us[q.A(0) & 127].n >= 0) fs[us[q.A(0) & 127].n].fz = true; } continue; }
            if (o.kind < O_USER) continue;
            switch (o.kind) {
                case K_FNOM: {
                    long k = o.v[0], want = o.v[1], n = o.v[2]; int t = (int)o.v[3]; long rc = o.v[4], v = o.v[5]; bool before = o.v[6], after = o.v[7]; bool inuse = false; if (want) for (auto& x : us) if (x.second.u == want) inuse = true;
                    bool scr = t_scr(t); bool refuse = inuse || (scr && o.v[9]) || (!scr && NAMES[n].need) || (!scr && (t == T_OLD || t == T_RO || t == T_FTNOLD) && !before) || (!scr && NAMES[n].given[0] == '@' && !before);
                    if (rc == 0 && refuse) { r.violate("accepted", "fnom accepted what it had to refuse (unit " + S(want) + ", name '" + NAMES[n].given + "', type " + TYPES[t] + ")" + at); return; }
                    if (rc != 0 && !refuse && !hit(o.op)) { r.violate("refused", "fnom refused unit " + S(want) + ", name '" + NAMES[n].given + "', type " + TYPES[t] + at); return; }
                    if (rc != 0 && refuse && !before && after) { r.violate("created", "a refused fnom created the file" + at); return; }
                    if (!scr && !after && fs[n].ex && !fs[n].fz) { r.violate("gone", "fnom removed the file" + at); return; }
                    if (!scr && before != fs[n].ex) { if (!fs[n].fz) { r.violate("file-table", "the file should" + std::string(fs[n].ex ? "" : " not") + " exist" + at); return; } fs[n].ex = before; }
                    if (rc == 0) {
                        if (want && v != want) { r.violate("unit-changed", "fnom changed the unit it was given" + at); return; }
                        if (!want && (v <= 10 || v > 999 || (t_ftn(t) && v > 99) || o.v[8])) { r.violate("chosen-unit", "fnom chose unit " + S(v) + (o.v[8] ? ", which is in use" : "") + at); return; }
                        if (o.v[8]) { r.violate("unit-used-twice", "a unit in use was connected again" + at); return; }
                        U u; u.u = (int)v; u.t = t; u.n = scr ? -1 : n; u.maybe_ro = hit(o.op) && t != T_RW; if (t_ftn(t) && hit(o.op)) { u.fz = true; if (!scr) fs[n].fz = true; }   // the Fortran library may have it for reading or writing only
                        if (!scr) { if (!after) { r.violate("not-created", "the file connected does not exist" + at); return; } if (!fs[n].ex && !fs[n].fz) { fs[n].b.clear(); fs[n].recs.clear(); } fs[n].ex = true; } us[k] = u;
                    } else if (!scr) fs[n].ex = after || (fs[n].ex && !fs[n].fz);
                    break;
                }
                case K_CLOSE: { long k = o.v[0]; if (k >= 32) { if (o.v[1] >= 0) { r.violate("fclos-unknown", "fclos accepted a unit that is not connected" + at); return; } break; } if (!us.count(k)) break; if (o.v[1] != 0 && !hit(o.op)) { r.violate("fclos", "fclos returned " + S(o.v[1]) + " for a connected unit" + at); return; } if (o.v[1] != 0 || (hit(o.op) && t_ftn(us[k].t))) { U& u = us[k];   /* the Fortran library does not report a failed last write */ if (u.n >= 0) fs[u.n].fz = true; if (t_ftn(u.t)) ftnbad = true; } us.erase(k); break; }
                case K_PUT: {
                    U& u = us[o.v[0]]; long n = o.v[1], rc = o.v[3]; bool ro = u.t == T_RO; if (ro && rc > 0) { r.violate("read-only", "a write to a read-only unit was accepted" + at); return; }
                    if (t_ftn(u.t)) {
                        if (rc < 0) { if (!hit(o.op) && !u.fz && !(u.n >= 0 && fs[u.n].fz) && !u.maybe_ro) { r.violate("write", "a Fortran write failed" + at); return; } u.fz = ftnbad = true; if (u.n >= 0) fs[u.n].fz = true; break; }
                        Recs& v = u.n >= 0 ? fs[u.n].recs : u.recs; v.resize(std::min(v.size(), u.pos)); v.push_back({ n, o.v[2] }); u.pos = v.size(); if (u.n >= 0) fs[u.n].b = enc(v); break;
                    }
                    if (rc == n) { Bytes d = data(o.v[2], 4 * n); { FS& f = u.n >= 0 ? fs[u.n] : u.own; if (u.t != T_STREAM) { f.b.resize(f.b.size() / 4 * 4); for (long j = 0; j + 3 < (long)d.size(); j += 4) std::swap(d[j], d[j + 3]), std::swap(d[j + 1], d[j + 2]); } f.b.insert(f.b.end(), d.begin(), d.end()); } }
                    else { if (!hit(o.op) && !ro && !u.maybe_ro) { r.violate("write", "a write of " + S(n) + " words returned " + S(rc) + at); return; } if (hit(o.op)) (u.n >= 0 ? fs[u.n] : u.own).fz = true; }
                    break;
                }
                case K_GET: {
                    U& u = us[o.v[0]]; const uint8_t* b = blob_at(o.v[3]);
                    if (t_ftn(u.t)) {
                        if (u.fz || (u.n >= 0 && fs[u.n].fz)) break; const Recs& v = u.n >= 0 ? fs[u.n].recs : u.recs; u.pos = v.size();
                        if (o.v[1] != (long)v.size()) { r.violate("records", "a Fortran unit has " + S(o.v[1]) + " records, not " + S((long)v.size()) + at); return; }
                        for (size_t j = 0; j < v.size(); j++) { uint32_t g; memcpy(&g, b + 4 * j, 4); if (g != val(v[j].second, 0)) { r.violate("wrong-data", "a record of a Fortran unit is not the one written to it" + at); return; } } break;
                    }
                    FS& f = u.n >= 0 ? fs[u.n] : u.own; if (f.fz) break;
                    if (u.t == T_STREAM) { if (o.v[2] != (long)f.b.size() || memcmp(b, f.b.data(), f.b.size())) { r.violate("wrong-data", "the unit does not give what its file holds" + at); return; } break; }
                    long w = (long)f.b.size() / 4; if (o.v[2] != w || (w && o.v[1] != w)) { r.violate("size", "the file of the unit has " + S(o.v[2]) + " words, not " + S(w) + at); return; }
                    for (long j = 0; j < w; j++) { const uint8_t* q = &f.b[4 * j]; uint32_t x = (uint32_t)q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3], g; memcpy(&g, b + 4 * j, 4); if (x != g) { r.violate("wrong-data", "word " + S(j + 1) + " of the unit is not what its file holds" + at); return; } }
                    break;
                }
                case K_INFO: {
                    U& u = us[o.v[0]]; if (o.v[1] != 0) { r.violate("info", "nothing is known of a connected unit" + at); return; } long a = o.v[3], b = o.v[4]; std::string n((const char*)blob_at(o.v[5]), a + 4), t((const char*)blob_at(o.v[6]), b + 4);
                    if (n.substr(a) != "~~~~" || t.substr(b) != "~~~~") { r.violate("info-overrun", "the description of a unit overran the caller's buffer" + at); return; }
                    std::string wt = TYPES[u.t]; wt.resize(b, ' '); if (t.substr(0, b) != wt) { r.violate("info-type", "the type of unit " + S(u.u) + " is '" + t.substr(0, b) + "', not '" + wt + "'" + at); return; }
                    if (u.n >= 0) { std::string g = NAMES[u.n].given; std::string w = g[0] == '+' ? g.substr(1) : g[0] == '@' ? (g == "@tab" ? "/sim/const/tab" : g.substr(1)) : g; w.resize(a, ' '); if (n.substr(0, a) != w) { r.violate("info-name", "the name of unit " + S(u.u) + " is '" + n.substr(0, a) + "', not '" + w + "'" + at); return; } }
                    break;
                }
                case K_POS: if (o.v[1] < 0) { r.violate("waclos", "a connected file could not be closed" + at); return; } break;
                case K_SQOPEN: if (o.v[1] < 0 && !(us.count(o.v[0]) && us[o.v[0]].n >= 0 && fs[us[o.v[0]].n].fz)) { r.violate("reopen", "a connected unit could not be opened again" + at); return; } break;
                case K_EXIST: if (o.v[0] != o.v[1]) { r.violate("existe", "existe is wrong" + at); return; } break;
                case K_BURN: if (o.v[1]) { r.violate("accepted", "fnom accepted what it had to refuse" + at); return; } { long extra = 0; for (auto& x : us) if (x.second.u) extra++; } break;
                case K_LEAK: { bool any = ftnbad; for (auto& x : us) if (x.second.u) any = true; if (any) break; } if (o.v[0] > 0) { r.violate("descriptor-leak", "files were left open after all the units were closed" + at); return; } break;
                case K_DISK: {
                    long n = o.v[0]; FS& f = fs[n]; if (f.fz) { bool open = false; for (auto& x : us) if (x.second.u && x.second.n == n) open = true; if (!open) { f.ex = o.v[1]; if (!n_ftn(n)) { f.b.assign(blob_at(o.v[3]), blob_at(o.v[3]) + o.v[2]); f.fz = false; } else if (!f.ex || !o.v[2]) { f.b.clear(); f.recs.clear(); f.fz = false; } } break; }
                    if (n_ftn(n)) { bool open = false; for (auto& x : us) if (x.second.u && x.second.n == n) open = true; if (open) break; }   // the Fortran library holds what it has not written yet
                    if (!o.v[1]) { if (f.ex) { r.violate("gone", "file '" + std::string(NAMES[n].file) + "' is gone" + at); return; } break; }
                    if (!f.ex) { r.violate("created", "file '" + std::string(NAMES[n].file) + "' was created by nothing" + at); return; }
                    if (o.v[2] != (long)f.b.size() || memcmp(blob_at(o.v[3]), f.b.data(), f.b.size())) { r.violate("disk", "file '" + std::string(NAMES[n].file) + "' does not hold what was written to its unit" + at); return; }
                    break;
                }
            }
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override {
        int w = 0, g = 0; for (auto& o : r.hist) { if (o.kind == K_PUT) w++; if (o.kind == K_GET && o.v[3] > 0) g++; if (o.kind == K_AREAD && o.v[3] > 0) { w += 2; g++; } }
        return p.prop == "W04" ? w >= 1 : w >= 1 && g >= 1;
    }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
