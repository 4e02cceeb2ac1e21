// Meteorological report (BURP) files: burp98.c, c_burp.c, burp98_f/, the report side of xdf98.c.
#include "sim.h"
#include <algorithm>
#include <strings.h>
extern "C" {
#include <rmn/burp.h>
int c_fnom(int*, const char*, const char*, int); int c_fclos(int);
int c_fstouv(int, char*); int c_fstfrm(int);
}
using namespace sim;

// with g_ftn set, the calls that have a Fortran entry point go through it
static bool g_ftn;
extern "C" {
int F_mrbadd_(void*, int*, int*, int*, int*, int*, int*, int*, int*, int*, int*, int*, uint32_t*) __asm__("mrbadd_"); int F_mrbdel_(void*, const int*) __asm__("mrbdel_");
int F_mrbhdr_(int32_t*, int*, int*, char*, int*, int*, int*, int*, int*, int*, int*, int*, int*, int*, int*, int*, int*, int*, int*, int) __asm__("mrbhdr_"); int F_mrblen_(const void*, int*, int*) __asm__("mrblen_");
int F_mrbloc_(void*, const int*, const int*, const int*, const int*) __asm__("mrbloc_"); int F_mrbrep_(void*, const int*, void*) __asm__("mrbrep_"); int F_mrbxtr_(void*, const int*, void*, void*) __asm__("mrbxtr_");
int F_mrfget_(const int*, void*) __asm__("mrfget_"); int F_mrfput_(const int*, const int*, void*) __asm__("mrfput_");
}
static int x_mrbadd(void* q, int* no, int a, int b, int c, int d, int e, int f, int g, int* b0, int dt, uint32_t* el, uint32_t* v) { return g_ftn ? F_mrbadd_(q, no, &a, &b, &c, &d, &e, &f, &g, b0, &dt, (int*)el, v) : c_mrbadd(q, no, a, b, c, d, e, f, g, b0, dt, el, v); }
static int x_mrbdel(void* q, int k) { return g_ftn ? F_mrbdel_(q, &k) : c_mrbdel(q, k); }
static int x_mrbhdr(int32_t* q, int* t, int* fl, char* st, int* id, int* la, int* lo, int* dx, int* dy, int* el, int* dr, int* da, int* oa, int* ru, int* nb, uint32_t* s, int ns, uint32_t* x, int nx) {
    if (!g_ftn) return c_mrbhdr(q, t, fl, st, id, la, lo, dx, dy, el, dr, da, oa, ru, nb, s, ns, x, nx);
    char b[12]; memset(b, 0x5d, 12); int e = F_mrbhdr_(q, t, fl, b, id, la, lo, dx, dy, el, dr, da, oa, ru, nb, (int*)s, &ns, (int*)x, &nx, 9); memcpy(st, b, 9); st[9] = 0; if (b[9] != 0x5d) st[0] = '\n'; return e;
}
static int x_mrblen(const void* q, int* a, int* b) { return g_ftn ? F_mrblen_(q, a, b) : c_mrblen(q, a, b); }
static int x_mrbloc(void* q, int a, int b, int c, int d) { return g_ftn ? F_mrbloc_(q, &a, &b, &c, &d) : c_mrbloc(q, a, b, c, d); }
static int x_mrbrep(void* q, int k, uint32_t* v) { return g_ftn ? F_mrbrep_(q, &k, v) : c_mrbrep(q, k, v); }
static int x_mrbxtr(void* q, int k, uint32_t* a, uint32_t* b) { return g_ftn ? F_mrbxtr_(q, &k, a, b) : c_mrbxtr(q, k, a, b); }
static int x_mrfget(int h, void* q) { return g_ftn ? F_mrfget_(&h, q) : c_mrfget(h, q); }
static int x_mrfput(int u, int h, void* q) { return g_ftn ? F_mrfput_(&u, &h, q) : c_mrfput(u, h, q); }
#define c_mrbadd x_mrbadd
#define c_mrbdel x_mrbdel
#define c_mrbhdr x_mrbhdr
#define c_mrblen x_mrblen
#define c_mrbloc x_mrbloc
#define c_mrbrep x_mrbrep
#define c_mrbxtr x_mrbxtr
#define c_mrfget x_mrfget
#define c_mrfput x_mrfput

enum { K_OPEN = O_USER, K_INI, K_UPD, K_ADD, K_DELB, K_REP, K_LOCB, K_DUMP, K_PUT, K_GET, K_FIND, K_DELF, K_NBR, K_CLOSE, K_REFUSE };

// ------------------------------------------------------------------ what reports are made of
static uint64_t hsh(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ull + b * 77 + 5); r.next(); return r.next(); }
struct Hd { char stn[10]; int temps, flgs, idtp, lati, lon, dx, dy, elev, drcv, date, oars, runn; };
static const char* stns[] = { "AAA", "12345", "STATION01", "B", "12346", "AAAB", "abc", "A A", "station_z", "aBcDeFgHi", "ABCDEFGHJ", "1 3 5 7 9" };
static const int dates[] = { 950203, 991231, 20260115, 21001231, 20000229, 700101 };
static const int tms[] = { 0, 130, 1200, 2359, 1245, 600 };
static Hd mkhd(long s) {
    Hd h; memset(&h, 0, sizeof h); Rng r(hsh(s, 1)); snprintf(h.stn, 10, "%s", stns[r.below(12)]); h.temps = tms[r.below(6)]; h.flgs = r.chance(.3) ? (1 << 24) - 1 : (int)r.below(1 << 24);
    h.idtp = (int)(r.chance(.2) ? 255 : 30 + r.below(3)); h.lati = (int)(r.chance(.2) ? 65535 : r.below(5) * 13107 / 2); h.lon = (int)(r.chance(.2) ? 65535 : r.below(5) * 12345); h.dx = (int)r.below(4096); h.dy = (int)r.below(4096);
    h.elev = (int)r.below(8192); h.drcv = (int)r.below(2048); h.date = dates[r.below(6)]; h.oars = (int)r.below(65536); h.runn = (int)r.below(256); return h;
}
static std::string stn9(const char* s) { std::string q = s; while (q.size() < 9) q += ' '; for (auto& c : q) c = toupper(c); return q; }
// a new header over an old one, with the keys left alone chosen by w
static Hd updhd(Hd n, long w, std::string& stn) {
    stn = n.stn; while (stn.size() < 9) stn += ' '; for (int i = 0; i < 9; i++) if (w >> (12 + i) & 1) stn[i] = '*';
    if (w & 1) n.temps = -1; if (w & 2) n.flgs = -1; if (w & 4) n.idtp = -1; if (w & 8) n.lati = -1; if (w & 16) n.lon = -1; if (w & 32) n.dx = -1; if (w & 64) n.dy = -1; if (w & 128) n.elev = -1; if (w & 256) n.drcv = -1;
    if (w & 512) n.date = -1; if (w & 1024) n.oars = -1; if (w & 2048) n.runn = -1; return n;
}
static Hd merge(const Hd& old, const Hd& n, const std::string& stn) {
    Hd h = old; for (int i = 0; i < 9; i++) if (stn[i] != '*') h.stn[i] = toupper(stn[i]);
#define M(x) if (n.x != -1) h.x = n.x
    M(temps); M(flgs); M(idtp); M(lati); M(lon); M(dx); M(dy); M(elev); M(drcv); M(date); M(oars); M(runn); return h;
#undef M
}
struct Blk { int nele, nval, nt, bfam, btyp, nbit, datyp; int fin = 0, bdesc = 0; /* the family as given */ bool bad = false; std::vector<uint32_t> ele, val; long n() const { return (long)nele * nval * nt; } bool chars() const { return datyp == 3 || datyp == 5; } };
static const int fams[] = { 0, 1, 0x40, 0x7c1, 0xfff, 0x30 }; static const int typs[] = { 0, 0x10, 0x18, 0x2806, 0x7fff, 0x0811, 0x2816 };
static uint32_t code(int f, int x, int y) { return (uint32_t)(f << 14 | x << 8 | y); }
static std::vector<uint32_t> values(int datyp, int nbit, long n, Rng& r, int style) {
    std::vector<uint32_t> v(datyp == 3 || datyp == 5 ? (n + 3) / 4 : n);
    if (datyp == 3 || datyp == 5) { static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 abcdefghijklmnopqrstuvwxyz"; uint8_t* c = (uint8_t*)v.data(); for (size_t i = 0; i < v.size() * 4; i++) c[i] = al[r.below(sizeof al - 1)]; return v; }
    if (datyp >= 6 || datyp == 0) { for (auto& x : v) x = r.chance(.1) ? 0xffffffffu : (uint32_t)r.next(); return v; }
    int w = nbit > 31 ? 31 : nbit; if (style == 1) w = (int)r.range(1, 31); // wider than asked for
    uint32_t m = w >= 31 ? 0x7fffffffu : (1u << w) - 1;
    for (auto& x : v) { x = (uint32_t)r.next() & m; if (r.chance(.1)) x = m; if (r.chance(.12)) x = 0xffffffffu; if (style == 2) x = 0xffffffffu; if (style == 3 && r.chance(.4)) x = (uint32_t)-(int32_t)((r.next() & (m >> 1)) + 2); if (style == 4) x = r.chance(.5) ? 0 : 0xffffffffu; }
    if (style == 5 && n) v[r.below(n)] = 0x80000000u;
    if (datyp == 2 && nbit == 32 && style != 2) for (auto& x : v) if (r.chance(.3)) x = (uint32_t)r.next();
    return v;
}
static Blk mkblk(long s, long shape) {
    Blk b; Rng r(hsh(s, 2)); b.datyp = r.weighted({ 3, 0, 40, 5, 12, 4, 5, 5, 4, 4 }); if (r.chance(.03)) { static const int badt[] = { 1, 10, 15, -1 }; b.datyp = badt[r.below(4)]; b.bad = true; }
    b.nele = (int)r.range(1, 7); b.nval = (int)r.range(1, 4); b.nt = (int)r.range(1, 4);
    if (shape == 1) { switch (r.below(7)) { case 0: b.nele = (int)r.range(124, 130); b.nval = 1; b.nt = 1; break; case 1: b.nval = (int)r.range(254, 258); b.nele = 1 + (int)r.below(2); b.nt = 1; break; case 2: b.nt = (int)r.range(254, 258); b.nval = 1; break; case 3: b.nele = 30; b.nval = 10; break; case 4: b.nele = 300; b.nval = b.nt = 1; break; default: b.nval = (int)r.range(10, 100); } }
    if (shape == 2) { b.nele = (int)r.range(1, 4); b.nval = 1; b.nt = 1; }
    if (b.datyp == 7 || b.datyp == 8) { b.nele += b.nele & 1; if (r.chance(.08)) { b.nele++; b.bad = true; } } if (b.datyp == 9) { b.nele = (b.nele + 3) & ~3; if (r.chance(.08)) { b.nele++; b.bad = true; } }
    b.bfam = fams[r.below(6)]; b.btyp = typs[r.below(7)]; b.nbit = (int)r.range(1, 32); if (r.chance(.2)) b.nbit = 32; if (b.chars()) { b.nbit = 8; if (r.chance(.06)) { b.nbit = 16; b.bad = true; } } if (b.datyp == 0) b.nbit = 32;
    b.ele.resize(b.nele); for (auto& e : b.ele) e = code(0, (int)r.below(63), (int)r.below(256)) ; if (r.chance(.3)) b.ele[0] = 0xffff;
    auto fix = [&](size_t i, uint32_t c) { if (i < b.ele.size()) b.ele[i] = r.chance(.5) ? 0 : c; };
    if (b.datyp == 7 || b.datyp == 8) for (int i = 1; i < b.nele; i += 2) fix(i, code(0, 55, b.datyp == 7 ? 204 : 205));
    if (b.datyp == 9) for (int i = 1; i < b.nele; i += 4) { fix(i, code(0, 55, 204)); fix(i + 1, code(0, 55, 206)); fix(i + 2, code(0, 55, 207)); }
    if (b.datyp >= 7 && b.datyp <= 9 && !b.bad && r.chance(.06) && b.nele > 1) { b.ele[1] = 0x1234; b.bad = true; }
    b.val = values(b.datyp, b.nbit, b.n(), r, r.weighted({ 8, 3, 1, 4, 1, 0 })); if (b.datyp == 2 || b.datyp == 4) if (r.chance(.02)) b.val[0] = 0x80000000u;
    // the family is given whole, or its upper half apart as the descriptor
    b.fin = b.bfam; int ho = b.bfam >> 6 & 63;
    if (r.chance(.2)) { if (ho) { b.bdesc = ho; if (r.chance(.6)) b.fin = b.bfam & 63; else if (r.chance(.15)) { b.bdesc = ho ^ 1; b.bad |= b.bdesc != 0; } } else { b.bdesc = b.bfam == 1 ? 31 : b.bfam == 0 ? 1 : 0; b.bfam |= b.bdesc << 6; } }
    return b;
}
// what is read back for the elements of reals on 8 bytes and complexes
static void fill789(Blk& b) {
    if (b.datyp == 7 || b.datyp == 8) for (int i = 1; i < b.nele; i += 2) b.ele[i] = code(0, 55, b.datyp == 7 ? 204 : 205);
    if (b.datyp == 9) for (int i = 1; i + 2 < b.nele; i += 4) { b.ele[i] = code(0, 55, 204); b.ele[i + 1] = code(0, 55, 206); b.ele[i + 2] = code(0, 55, 207); }
}
static bool same_vals(const Blk& b, const uint32_t* v) {
    if (!b.chars()) return !memcmp(v, b.val.data(), b.n() * 4);
    const uint8_t* x = (const uint8_t*)v; const uint8_t* y = (const uint8_t*)b.val.data(); for (long i = 0; i < b.n(); i++) if (x[i] != (b.datyp == 5 ? toupper(y[i]) : y[i])) return false; return true;
}
static long w64(long bits) { return (bits + 63) / 64 * 64; }
static bool large(const Blk& b) { return b.nele >= 127 || b.nval >= 256 || b.nt >= 256; }
static long lbits(const Blk& b) { return w64(16 * (large(b) ? b.nele : std::max(0, b.nele - 3))); }
static bool toowide(const Blk& b) { if (b.datyp != 2 && b.datyp != 4) return false; if (b.datyp == 2 && b.nbit == 32) return false; int64_t mn = 0, mx = 0; for (auto x : b.val) { mn = std::min(mn, (int64_t)(int32_t)x); mx = std::max(mx, (int64_t)(int32_t)x); } if (mn >= -1 && b.datyp != 4) return false; return std::max(mx, -mn) >= (1ll << 29); } // may be refused: no room for the sign
struct Crit { std::string stn; int idtp, lat, lon, date, temps; };
static Crit mkcrit(long s) {
    Rng r(hsh(s, 3)); Hd h = mkhd(r.below(1 << 16)); Crit c; c.stn = h.stn; while (c.stn.size() < 9) c.stn += ' '; for (auto& x : c.stn) if (r.chance(.3)) x = isupper(x) ? tolower(x) : toupper(x); int m = r.weighted({ 4, 3, 3 }); if (m == 0) c.stn = "*********"; if (m == 1) for (auto& x : c.stn) if (r.chance(.5)) x = '*';
    auto o = [&](int v) { return r.chance(.65) ? -1 : v; }; c.idtp = o(h.idtp); c.lat = o(h.lati); c.lon = o(h.lon); c.date = o(h.date); c.temps = o(h.temps); return c;
}
static bool matches(const Crit& c, const Hd& h) {
    std::string s = stn9(h.stn); for (int i = 0; i < 9; i++) if (c.stn[i] != '*' && toupper(c.stn[i]) != s[i]) return false;
    return (c.idtp < 0 || c.idtp == h.idtp) && (c.lat < 0 || c.lat == h.lati) && (c.lon < 0 || c.lon == h.lon) && (c.date < 0 || c.date == h.date) && (c.temps < 0 || c.temps / 100 == h.temps / 100);
}

struct H : Harness {
    static const int NB = 3, NF = 2;
    std::vector<std::string> props() override { return { "B01" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; int mode = r.weighted({ 6, 3, 2 }); int n = (int)r.range(6, th ? 70 : 40), nf = r.chance(.7) ? 1 : 2, shape = r.weighted({ 6, 2, 2 });
        for (int i = 0; i < NB; i++) p.cfg["cap" + std::to_string(i)] = r.chance(.3) ? r.range(24, 80) : r.chance(.6) ? r.range(80, 600) : r.range(600, 3000);
        if (r.chance(.2)) { p.cfg["ps"] = r.range(1, 3); p.cfg["nb"] = r.range(1, 4); if (mode == 1) mode = 0; }
        if (hsh(seed, 11) % 5 < 2) p.cfg["ftn"] = hsh(seed, 11) / 5 % 2 + 1;
        auto blk = [&](long b) { p.add("add", { b, r.below(1 << 20), r.chance(.8) ? shape : r.below(3) }); };
        auto rep = [&](long f, long b) { p.add("ini", { b, f, r.below(40) }); for (int i = (int)r.range(1, 4); i > 0; i--) blk(b); };
        for (long f = 0; f < nf; f++) { p.add("open", { f, 0 }); for (int i = (int)r.range(1, 5); i > 0; i--) { rep(f, 0); p.add("put", { f, 0, -1 }); } }
        for (int i = 0; i < n; i++) {
            long f = r.below(nf), b = r.below(NB);
            switch (r.weighted({ 6, 12, 4, 8, 9, 6, 9, 9, 9, 9, 5, 4, 5, mode == 1 ? 4 : 1, 3, th && r.chance(.05) ? 3 : 0 })) {
                case 0: rep(f, b); break; case 1: blk(b); if (r.chance(.5)) p.add("dump", { b }); break;
                case 2: p.add("upd", { b, f, r.below(40), r.below(1 << 21) }); p.add("dump", { b }); break;
                case 3: p.add("delb", { b, r.below(1 << 16) }); p.add("dump", { b }); break;
                case 4: p.add("rep", { b, r.below(1 << 16), r.below(1 << 20) }); p.add("dump", { b }); break;
                case 5: p.add("locb", { b, r.below(1 << 20) }); break; case 6: p.add("dump", { b }); break;
                case 7: p.add("put", { f, b, r.chance(.7) ? -1 : r.below(1 << 16) }); break;
                case 8: p.add("get", { f, b, r.below(1 << 16), r.chance(.3) }); p.add("dump", { b }); break;
                case 9: p.add("find", { f, r.below(1 << 20), r.chance(.4) }); break;
                case 10: p.add("delf", { f, r.below(1 << 16) }); break; case 11: p.add("nbr", { f }); break;
                case 12: p.add("close", { f }); p.add("open", { f, r.chance(.3) }); break;
                case 13: p.add(r.chance(.2) ? "exit0" : "restart"); for (long g = 0; g < nf; g++) p.add("open", { g, r.chance(.5) }); break;
                case 14: p.add("refuse", { f, b, r.below(8), r.below(1 << 16) }); break;
                default: { p.add("ini", { 1, f, r.below(40) }); int k = r.chance(.5) ? 130 : (int)r.range(2, 300); for (int j = 0; j < k; j++) p.add("put", { f, 1, -1 }); } break;
            }
        }
        for (long f = 0; f < nf; f++) p.add("close", { f });
        for (long f = 0; f < nf; f++) { p.add("open", { f, 1 }); p.add("all", { f }); p.add("close", { f }); }
        if (mode) for (int i = (int)r.range(1, 2); i > 0; i--) {
            static const std::vector<int> ik = { F_SHORTW, F_ENOSPC, F_EIO_W, F_EIO_R, F_SHORTR, F_EINTR_W, F_EINTR_R, F_EOPEN };
            int kind = mode == 1 ? (r.chance(0.5) ? F_CRASH : F_TORN) : r.pick(ik); bool rdk = kind == F_EIO_R || kind == F_SHORTR || kind == F_EINTR_R; std::vector<int> t;
            for (auto& o : p.ops) { const std::string& q = o.name; int w = 0; if (kind == F_EOPEN) w = q == "open"; else if (rdk) w = q == "get" ? 4 : q == "open" || q == "find" || q == "all" ? 1 : 0; else w = q == "put" ? 4 : q == "close" ? 3 : q == "open" || q == "delf" ? 1 : 0; for (int k = 0; k < w; k++) t.push_back(o.id); }
            if (!t.empty()) p.faults.push_back({ r.pick(t), (int)r.range(1, r.chance(0.7) ? 3 : 10), kind, r.range(1, 999) });
        }
        return p;
    }
    // ------------------------------------------------------------------ child
    static int unit(long f) { return 40 + (int)f; }
    static std::string fname(long f) { return "/sim/burp" + std::to_string(f); }
    std::vector<int32_t> buf[NB]; bool isopen[NF], ro[NF], init[NB]; int dead[NF];
    static const int PAD = 16;
    void child_begin(const Plan& p) override {
        if (p.C("ps")) { char b[64]; snprintf(b, 64, "%ld %ld", p.C("ps"), p.C("nb")); setenv("WA_CONFIG", b, 1); } else unsetenv("WA_CONFIG");
        for (int i = 0; i < NB; i++) { long c = std::max(24l, p.C("cap" + std::to_string(i), 24)); buf[i].assign(c + PAD, 0x5d5d5d5d); buf[i][0] = (int)c; init[i] = false; }
        for (int i = 0; i < NF; i++) { isopen[i] = ro[i] = false; dead[i] = -1; }
    }
    bool clean(int b) { size_t n = buf[b].size(); for (int i = 0; i < PAD; i++) if (buf[b][n - 1 - i] != 0x5d5d5d5d) return false; return (size_t)buf[b][0] == n - PAD; }
    std::vector<int> scan(int iun) { std::vector<int> l; char all[] = "*********"; int h = 0; while (l.size() < 3000) { h = c_mrfloc(iun, h, all, -1, -1, -1, -1, -1, nullptr, 0); if (h < 0) break; l.push_back(h); } return l; }
    // header, lengths and blocks of a report
    long dump(int32_t* q, bool& over) {
        std::vector<int32_t> o(32, 0); Hd h; memset(&h, 0, sizeof h); int nblk = 0, used = 0, left = 0; uint32_t s[2];
        o[0] = c_mrbhdr(q, &h.temps, &h.flgs, h.stn, &h.idtp, &h.lati, &h.lon, &h.dx, &h.dy, &h.elev, &h.drcv, &h.date, &h.oars, &h.runn, &nblk, s, 0, s, 0); h.stn[9] = 0; c_mrblen(q, &used, &left);
        o[1] = nblk; o[2] = used; o[3] = left; memcpy(&o[4], &h, sizeof h); if (nblk > 2000) nblk = o[1] = -nblk;
        std::vector<int32_t> t(10 * (nblk > 0 ? nblk : 0) + 10, -77); int np = nblk > 0 ? c_mrbprml(q, 0, t.data(), 10, nblk) : 0; o[30] = np;
        for (int k = 1; k <= nblk; k++) {
            int z[9]; int e = c_mrbprm(q, k, z, z + 1, z + 2, z + 3, z + 4, z + 5, z + 6, z + 7, z + 8); int32_t* m = &t[10 * (k - 1)];
            bool agree = m[0] == k && m[1] == z[0] && m[2] == z[1] && m[3] == z[2] && m[4] == z[3] && m[6] == z[5] && m[7] == z[6] && m[9] == z[8];
            long n = (long)z[0] * z[1] * z[2], ch = z[8] == 3 || z[8] == 5; long vw = ch ? (n + 3) / 4 : n; if (z[0] < 0 || n < 0 || n > 200000) { n = vw = 0; z[0] = -1; }
            std::vector<uint32_t> el(z[0] > 0 ? z[0] : 0), v(vw); el.resize(el.size() + PAD, 0x5d5d5d5d); v.resize(vw + PAD, 0x5d5d5d5d); int x = z[0] > 0 ? c_mrbxtr(q, k, el.data(), v.data()) : -999;
            for (int i = 0; i < PAD; i++) if (el[el.size() - 1 - i] != 0x5d5d5d5d || v[v.size() - 1 - i] != 0x5d5d5d5d) over = true;
            o.push_back(e); o.push_back(x); o.push_back(agree); for (int i = 0; i < 9; i++) o.push_back(z[i]); o.insert(o.end(), el.begin(), el.end() - PAD); o.insert(o.end(), v.begin(), v.end() - PAD);
        }
        return blob(o.data(), o.size() * 4);
    }
    void exec(const Plan& p, const Op& o) override {
        const std::string& nm = o.name; long f = o.A(0) % NF, b = o.A(0) % NB; long ft = p.C("ftn"); g_ftn = ft == 2 || (ft == 1 && (hsh(o.id, p.seed) >> 7 & 1));
        if (nm == "open") {
            if (isopen[f]) return; bool rd = o.A(1); bool there = fs_exists(fname(f)); if (rd && !there) return; obs(O_BEGIN, { f }); int u = unit(f); int e = c_fnom(&u, fname(f).c_str(), rd ? "RND+OLD+R/O" : "RND", 0), e2 = -9999;
            char m[8]; strcpy(m, rd ? "READ" : there ? "APPEND" : "CREATE"); if (e == 0) { e2 = c_mrfopn(unit(f), m); if (e2 < 0) c_fclos(u); }
            isopen[f] = e == 0 && e2 >= 0; ro[f] = rd; dead[f] = -1; obs(K_OPEN, { f, e, e2, rd, there });
        } else if (nm == "close") { if (!isopen[f]) return; obs(O_BEGIN, { f }); int e = c_mrfcls(unit(f)), e2 = c_fclos(unit(f)); isopen[f] = false; obs(K_CLOSE, { f, e, e2 }); }
        else if (nm == "ini" || nm == "upd") {
            f = o.A(1) % NF; if (!isopen[f]) return; bool up = nm == "upd"; if (up && !init[b]) return; std::string s; Hd h = updhd(mkhd(o.A(2)), up ? o.A(3) : 0, s); char st[10]; snprintf(st, 10, "%s", up ? s.c_str() : mkhd(o.A(2)).stn);
            int e = (up ? c_mrbupd : c_mrbini)(unit(f), buf[b].data(), h.temps, h.flgs, st, h.idtp, h.lati, h.lon, h.dx, h.dy, h.elev, h.drcv, h.date, h.oars, h.runn, nullptr, 0, nullptr, 0);
            if (!up) init[b] = e >= 0; obs(up ? K_UPD : K_INI, { b, e, f, o.A(2), o.A(3), clean(b) });
        } else if (nm == "add") {
            if (!init[b]) return; Blk k = mkblk(o.A(1), o.A(2)); auto el = k.ele, v = k.val; int no = -1, bit0 = -1; v.resize(v.size()); int e = c_mrbadd(buf[b].data(), &no, k.nele, k.nval, k.nt, k.fin, k.bdesc, k.btyp, k.nbit, &bit0, k.datyp, el.data(), v.data());
            fill789(k); obs(K_ADD, { b, e, no, clean(b), v != k.val, e >= 0 && el != k.ele });
        } else if (nm == "delb" || nm == "rep") {
            if (!init[b]) return; int t, fl, q[11]; char st[10]; uint32_t s[2]; int nb = 0; c_mrbhdr(buf[b].data(), &t, &fl, st, q, q + 1, q + 2, q + 3, q + 4, q + 5, q + 6, q + 7, q + 8, q + 9, &nb, s, 0, s, 0); if (nb < 1) return; int k = 1 + (int)(o.A(1) % nb);
            if (nm == "delb") { obs(K_DELB, { b, c_mrbdel(buf[b].data(), k), k, clean(b) }); return; }
            int z[9]; c_mrbprm(buf[b].data(), k, z, z + 1, z + 2, z + 3, z + 4, z + 5, z + 6, z + 7, z + 8); long n = (long)z[0] * z[1] * z[2]; if (n < 1 || n > 200000) return; auto v = repvals(o.A(2), z[8], z[6], n);
            obs(K_REP, { b, c_mrbrep(buf[b].data(), k, v.data()), k, clean(b), z[8], z[6], n, o.A(2) });
        } else if (nm == "locb") {
            if (!init[b]) return; Rng r(hsh(o.A(1), 4)); int bf = r.chance(.4) ? -1 : fams[r.below(6)], bt = typs[r.below(7)]; int nat = bt >> 11 & 15, typ = bt >> 4 & 127, stp = bt & 15; int m = (int)r.below(3), e, from = (int)r.below(4);
            if (r.chance(.4)) nat = -1; if (r.chance(.4)) typ = -1; if (r.chance(.4)) stp = -1; std::vector<int32_t> l;
            int bd = 0, bi = bf; if (r.chance(.3)) { bd = bf < 0 ? (r.chance(.5) ? 0 : -1) : bf >> 6 & 63 ? (bf >> 6 & 63) : -1; if (bd > 0 && r.chance(.6)) bi = bf & 63; } if (m == 1) nat = typ = stp = -1; if (m == 2) { nat = bt >> 11 & 15; typ = bt >> 4 & 127; stp = bt & 15; }
            for (int k = from, i = 0; i < 2000; i++) { e = m == 0 ? c_mrblocx(buf[b].data(), bi, bd, nat, typ, stp, k) : c_mrbloc(buf[b].data(), bi, bd, m == 1 ? -1 : bt, k); if (e < 0) break; l.push_back(e); k = e; }
            obs(K_LOCB, { b, bf, nat, typ, stp, from, (int64_t)l.size(), blob(l.data(), l.size() * 4) });
        } else if (nm == "dump") { if (!init[b]) return; bool ov = false; long d = dump(buf[b].data(), ov); obs(K_DUMP, { b, d, ov, clean(b) }); }
        else if (nm == "put") {
            b = o.A(1) % NB; if (!isopen[f] || !init[b] || ro[f]) return; auto l = o.A(2) >= 0 ? scan(unit(f)) : std::vector<int>(); long k = -1; if (o.A(2) >= 0) { if (l.empty()) return; k = o.A(2) % (long)l.size(); }
            obs(O_BEGIN, { f }); int e = c_mrfput(unit(f), k < 0 ? 0 : l[k], buf[b].data()); if (k >= 0 && e >= 0) dead[f] = l[k]; obs(K_PUT, { f, e, b, k, (int64_t)l.size(), clean(b) });
        } else if (nm == "get") {
            b = o.A(1) % NB; if (!isopen[f]) return; auto l = scan(unit(f)); if (l.empty()) { obs(K_GET, { f, -1, b, -1, 0 }); return; } long k = o.A(2) % (long)l.size(); obs(O_BEGIN, { f, b });
            if (o.A(3)) { // into a buffer of just the size advertised
                int mx = c_mrfmxl(unit(f)); if (mx < 0 || mx > 200000) { obs(K_GET, { f, -1, b, k, (int64_t)l.size(), 1, 1, mx, -1 }); return; } std::vector<int32_t> t(mx + 10 + PAD, 0x5d5d5d5d); t[0] = mx + 10; int e = c_mrfget(l[k], t.data()); bool ov = false; for (int i = 0; i < PAD; i++) if (t[t.size() - 1 - i] != 0x5d5d5d5d) ov = true;
                bool ov2 = false; long d = e >= 0 ? dump(t.data(), ov2) : -1; obs(K_GET, { f, e, b, k, (int64_t)l.size(), !ov && !ov2, 1, mx, d }); return;
            }
            int e = c_mrfget(l[k], buf[b].data()); init[b] = e >= 0; obs(K_GET, { f, e, b, k, (int64_t)l.size(), clean(b), 0 });
        } else if (nm == "find" || nm == "all") {
            if (!isopen[f]) return; obs(O_BEGIN, { f }); Crit c = mkcrit(o.A(1)); if (nm == "all") c = { "*********", -1, -1, -1, -1, -1 }; std::vector<int32_t> out; char st[16]; snprintf(st, 16, "%s", c.stn.c_str()); int h = 0, cnt = 0;
            auto l = scan(unit(f)); bool dat = nm == "all" || o.A(2);
            while (cnt < 3000) {
                h = c_mrfloc(unit(f), h, st, c.idtp, c.lat, c.lon, c.date, c.temps, nullptr, 0); if (h < 0) break; cnt++; int k = -1; for (size_t i = 0; i < l.size(); i++) if (l[i] == h) k = (int)i;
                Hd x; memset(&x, 0, sizeof x); int lng = -1; int e = c_mrfprm(h, x.stn, &x.idtp, &x.lati, &x.lon, &x.dx, &x.dy, &x.date, &x.temps, &x.flgs, nullptr, 0, &lng); out.push_back(k); out.push_back(e); out.push_back(lng);
                size_t at = out.size(); out.resize(at + sizeof(Hd) / 4); memcpy(&out[at], &x, sizeof x); int q = -9999; long d = -1;
                if (dat && lng > 0 && lng < 200000) { std::vector<int32_t> t(lng + 10 + PAD, 0x5d5d5d5d); t[0] = lng + 10; q = c_mrfget(h, t.data()); bool ov = false; for (int i = 0; i < PAD; i++) if (t[t.size() - 1 - i] != 0x5d5d5d5d) ov = true; if (q >= 0) d = dump(t.data(), ov); if (ov) q = -8888; }
                out.push_back(q); out.push_back((int)d);
            }
            obs(K_FIND, { f, cnt, (int64_t)l.size(), blob(out.data(), out.size() * 4), nm == "all" });
        } else if (nm == "delf") {
            if (!isopen[f] || ro[f]) return; auto l = scan(unit(f)); if (l.empty()) return; long k = o.A(1) % (long)l.size(); obs(O_BEGIN, { f }); int e = c_mrfdel(l[k]); std::vector<int32_t> t(60000, 0); t[0] = 60000; int e2 = c_mrfget(l[k], t.data()), e3 = c_mrfdel(l[k]); dead[f] = l[k]; obs(K_DELF, { f, e, k, (int64_t)l.size(), e2, e3 });
        } else if (nm == "nbr") { if (isopen[f]) obs(K_NBR, { f, c_mrfnbr(unit(f)), c_mrfmxl(unit(f)) }); }
        else if (nm == "refuse") {
            b = o.A(1) % NB; int e = 0; std::vector<int32_t> t(2000, 0); t[0] = 2000; int z[9]; uint32_t el[400], v[4000]; long w = o.A(2) % 8; bool over = o.A(3) & 1; int badno = over ? 1000 : 0;
            switch (w) {
                case 0: if (!isopen[f] || !ro[f] || !init[b]) return; e = c_mrfput(unit(f), 0, buf[b].data()); break;
                case 1: { if (!isopen[f] || !ro[f]) return; auto l = scan(unit(f)); if (l.empty()) return; e = c_mrfdel(l[o.A(3) % l.size()]); break; }
                case 2: if (!isopen[f]) return; { auto l = scan(unit(f)); if (l.empty()) return; int h = l[0] + (((int)o.A(3) % 100 + 3000) << 10); (void)h; h = 0x7fffffff & ~0x7f | 127; e = c_mrfget(h, t.data()); break; }
                case 3: if (!isopen[f]) return; { auto l = scan(unit(f)); if (l.empty()) return; t[0] = 12 + (int)(o.A(3) % 6); e = c_mrfget(l[o.A(3) % l.size()], t.data()); bool ok = true; for (int i = t[0]; i < 2000; i++) if (t[i]) ok = false; if (!ok) e = 7; break; }
                case 4: if (!init[b]) return; e = c_mrbxtr(buf[b].data(), badno, el, v); break;
                case 5: if (!init[b]) return; e = c_mrbdel(buf[b].data(), badno); break;
                case 6: if (!init[b]) return; e = c_mrbrep(buf[b].data(), badno, v); break;
                default: if (!init[b]) return; e = c_mrbprm(buf[b].data(), badno, z, z + 1, z + 2, z + 3, z + 4, z + 5, z + 6, z + 7, z + 8); break;
            }
            obs(K_REFUSE, { f, w, e, b });
        }
    }
    static std::vector<uint32_t> repvals(long s, int datyp, int nbit, long n) { Rng r(hsh(s, 6)); int st = r.weighted({ 8, 4, 1, 4, 1, 0 }); return values(datyp, nbit, n, r, st); }
    // ------------------------------------------------------------------ oracle
    struct Rep { Hd h; std::vector<Blk> b; };
    struct Bf { bool init = false, known = true; int fu = 0; long cap = 0; Rep r; };
    struct F { bool open = false, ro = false, exists = false, closed = false, locked = false, unknown = false, rofall = false; std::vector<Rep> mem, disk; long mxl = 0; };
    static bool eqhd(const Hd& a, const Hd& b, bool info, std::string& why) {
        auto c = [&](const char* n, long x, long y) { if (x == y) return true; why = std::string(n) + " is " + std::to_string(y) + ", expected " + std::to_string(x); return false; };
        if (stn9(a.stn) != stn9(b.stn)) { why = "station is '" + std::string(b.stn) + "', expected '" + stn9(a.stn) + "'"; return false; }
        return c("time", a.temps, b.temps) && c("flags", a.flgs, b.flgs) && c("type", a.idtp, b.idtp) && c("latitude", a.lati, b.lati) && c("longitude", a.lon, b.lon) && c("dx", a.dx, b.dx) && c("dy", a.dy, b.dy) && c("date", a.date, b.date) &&
            (!info || (c("elevation", a.elev, b.elev) && c("delay", a.drcv, b.drcv) && c("oars", a.oars, b.oars) && c("run", a.runn, b.runn)));
    }
    // compares a dump with a report
    static bool same(const Rep& x, long off, long cap, bool over, Result& r, const std::string& at) {
        const int32_t* w = (const int32_t*)blob_at(off); Hd h; memcpy(&h, w + 4, sizeof h); std::string why;
        if (over) { r.violate("overrun", "reading a block wrote beyond the caller's arrays" + at); return false; }
        if (w[0] < 0 || !eqhd(x.h, h, true, why)) { r.violate("wrong-header", "report header: " + why + at); return false; }
        if (w[1] != (int)x.b.size()) { r.violate("block-count", "the report has " + std::to_string(w[1]) + " blocks, expected " + std::to_string(x.b.size()) + at); return false; }
        if (!x.b.empty() && w[30] != (int)x.b.size()) { r.violate("block-list", "the list of blocks has " + std::to_string(w[30]) + " entries, expected " + std::to_string(x.b.size()) + at); return false; }
        long used = 320; const int32_t* q = w + 32;
        for (size_t k = 0; k < x.b.size(); k++) {
            const Blk& b = x.b[k]; std::string bl = " (block " + std::to_string(k + 1) + " of " + std::to_string(x.b.size()) + ", datyp " + std::to_string(b.datyp) + ")"; const int32_t* z = q + 3;
            if (q[0] < 0 || z[0] != b.nele || z[1] != b.nval || z[2] != b.nt) { r.violate("block-dims", "block dimensions " + std::to_string(z[0]) + "x" + std::to_string(z[1]) + "x" + std::to_string(z[2]) + ", expected " + std::to_string(b.nele) + "x" + std::to_string(b.nval) + "x" + std::to_string(b.nt) + bl + at); return false; }
            if (z[3] != b.bfam || z[5] != b.btyp) { r.violate("block-type", "block family " + std::to_string(z[3]) + " type " + std::to_string(z[5]) + ", expected " + std::to_string(b.bfam) + " " + std::to_string(b.btyp) + bl + at); return false; }
            bool dt = z[8] == b.datyp || (b.datyp == 2 && z[8] == 4) || (b.datyp == 4 && z[8] == 2); if (!dt || (b.datyp <= 5 && z[6] < b.nbit)) { r.violate("block-packing", "block stored with datyp " + std::to_string(z[8]) + " on " + std::to_string(z[6]) + " bits, asked for " + std::to_string(b.datyp) + " on " + std::to_string(b.nbit) + bl + at); return false; }
            if (!q[2]) { r.violate("block-list", "the list of blocks disagrees with the block's own parameters" + bl + at); return false; }
            if (q[1] < 0) { r.violate("extract-failed", "extracting a block returned " + std::to_string(q[1]) + bl + at); return false; }
            const uint32_t* el = (const uint32_t*)(q + 12); if (memcmp(el, b.ele.data(), 4 * b.nele)) { r.violate("wrong-elements", "the list of elements differs" + bl + at); return false; }
            if (!same_vals(b, el + b.nele)) { long i = 0; if (!b.chars()) while (i < b.n() && el[b.nele + i] == b.val[i]) i++; r.violate("wrong-values", "values differ" + (b.chars() ? "" : ": value " + std::to_string(i) + " is " + std::to_string((int)el[b.nele + i]) + ", expected " + std::to_string((int)b.val[i])) + bl + at); return false; }
            used += 128 + lbits(b) + w64((long)b.n() * z[6]); q = q + 12 + b.nele + (b.chars() ? (b.n() + 3) / 4 : b.n());
        }
        if (w[2] != used) { r.violate("length", "the report uses " + std::to_string(w[2]) + " bits, its blocks need " + std::to_string(used) + at); return false; }
        if (cap && (w[3] < 0 || w[3] != (cap - 9) * 32 - used)) { r.violate("length", "the buffer has " + std::to_string(w[3]) + " bits left, expected " + std::to_string((cap - 9) * 32 - used) + at); return false; }
        return true;
    }
    static long need(const Blk& b, int bits) { return 128 + lbits(b) + w64(b.n() * bits); }
    void oracle(const Plan& p, Result& r) override {
        F fs[NF]; Bf bf[NB]; auto reset = [&]() { for (int i = 0; i < NB; i++) { bf[i] = Bf(); bf[i].cap = std::max(24l, p.C("cap" + std::to_string(i), 24)); } }; reset();
        long usedb[NB] = { 0, 0, 0 }; // bits in use, known after a dump or recomputed
        std::map<int, const Op*> byid; for (auto& o : p.ops) byid[o.id] = &o; std::map<int, const Obs*> pend; bool iofault = false; bool paged = p.C("ps"); int curinc = 0;
        auto faulty = [&](int op) { for (auto& f : p.faults) if (f.op == op) return true; return false; };
        auto lost = [&]() { for (auto& f : fs) { if (!f.open) continue; f.open = false; if (!f.ro) { f.locked = true; if (!f.closed || paged) f.unknown = true; f.mem = f.disk; } } reset(); };
        for (size_t i = 0; i < r.hist.size(); i++) {
            const Obs& o = r.hist[i]; if (o.inc != curinc) { curinc = o.inc; lost(); pend.clear(); }
            if (o.kind == O_BEGIN) { pend[o.op] = &o; continue; }
            std::string opn = byid.count(o.op) ? byid[o.op]->name : "?"; std::string at = " (op " + std::to_string(o.op) + " " + opn + ")"; bool ff = faulty(o.op); if (ff) iofault = true;
            switch (o.kind) {
                case O_SIGNAL: r.violate("signal", "process killed by a signal in op " + std::to_string(o.op) + " " + opn + ": " + o.s); return;
                case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress in op " + std::to_string(o.op) + " " + opn); return;
                case O_HEAP: r.violate("heap", o.s); return;
                case O_EXIT: if (!ff && !iofault && !(pend.count(o.op) && fs[pend[o.op]->v[0]].unknown)) { r.violate("unexpected-exit", "the library ended the process (exit " + std::to_string(o.v[0]) + ") with no injected fault" + at); return; } // fallthrough
                case O_CRASH: { auto b = pend.find(o.op); if (b != pend.end()) { F& f = fs[b->second->v[0]]; if (opn == "close" || (opn == "open" && !byid[o.op]->A(1))) { f.locked = true; if (opn == "close" ? f.open && !f.ro : !f.closed) f.unknown = f.exists = true; } } lost(); pend.erase(o.op); continue; }
                case O_DONE: continue;
            }
            if (o.kind < O_USER) continue;
            pend.erase(o.op); Bf* B = nullptr; auto bno = [&](int k) { B = &bf[o.v[k]]; };
            auto used = [&](Bf& b, bool hi) { long u = 320; for (auto& k : b.r.b) u += need(k, hi ? (k.chars() ? 8 : 32) : (k.datyp > 5 ? 32 : k.nbit)); return u; };
            switch (o.kind) {
                case K_OPEN: {
                    F& f = fs[o.v[0]]; bool rd = o.v[3]; if (o.v[4]) f.exists = true;
                    if (o.v[1] != 0 || o.v[2] < 0) { if (ff || f.unknown || (f.locked && !rd) || (iofault && !f.closed)) { if (ff && !rd && !f.closed) f.unknown = f.exists = true; break; } r.violate("open-failed", "opening returned " + std::to_string(o.v[1]) + "," + std::to_string(o.v[2]) + at); return; }
                    f.open = true; f.ro = rd; f.rofall = ff && !rd; /* an opening for writing that is refused by the system is retried for reading */ f.exists = true; if (f.unknown) break; f.mem = f.disk; if (f.locked && !rd) f.locked = false;
                    if (o.v[2] != (long)f.mem.size() && !(ff)) { r.violate("open-count", "opening reports " + std::to_string(o.v[2]) + " reports, expected " + std::to_string(f.mem.size()) + at); return; } break;
                }
                case K_CLOSE: { F& f = fs[o.v[0]]; f.open = false; if (o.v[1] < 0 || o.v[2] < 0) { if (!ff && !iofault) { r.violate("close-failed", "closing returned " + std::to_string(o.v[1]) + "," + std::to_string(o.v[2]) + at); return; } if (!f.ro) f.unknown = true; break; } if (!f.ro) { if (!f.unknown) { f.disk = f.mem; f.locked = false; } f.closed = true; } break; }
                case K_INI: case K_UPD: {
                    bno(0); if (!o.v[5]) { r.violate("overrun", "a report header was written outside the buffer" + at); return; } if (o.v[1] < 0) { r.violate("header-failed", "making or updating a report header returned " + std::to_string(o.v[1]) + at); return; }
                    std::string s; Hd h = updhd(mkhd(o.v[3]), o.kind == K_UPD ? o.v[4] : 0, s); if (o.kind == K_INI) { B->init = B->known = true; B->r = Rep(); B->r.h = h; snprintf(B->r.h.stn, 10, "%s", stn9(h.stn).c_str()); } else if (B->init) B->r.h = merge(B->r.h, h, s); B->fu = (int)o.v[2]; break;
                }
                case K_ADD: {
                    bno(0); if (!o.v[3]) { r.violate("overrun", "adding a block wrote outside the report's buffer" + at); return; } if (o.v[4] || o.v[5]) { r.violate("caller-array", "adding a block changed the caller's arrays" + at); return; } if (!B->known) break;
                    Blk k = mkblk(byid[o.op]->A(1), byid[o.op]->A(2)); long room = (B->cap - 9) * 32;
                    if (o.v[1] < 0) { if (k.bad || toowide(k) || used(*B, true) + need(k, k.chars() ? 8 : 32) > room) break; r.violate("add-failed", "adding a block returned " + std::to_string(o.v[1]) + " with room for it, datyp " + std::to_string(k.datyp) + at); return; }
                    if (k.bad) { r.violate("add-invalid", "an invalid block was accepted, datyp " + std::to_string(k.datyp) + at); return; }
                    if (used(*B, false) + need(k, k.datyp > 5 ? 32 : k.nbit) > room) { r.violate("add-too-big", "a block was accepted that cannot fit in the report's buffer" + at); return; }
                    fill789(k); B->r.b.push_back(k); if (o.v[2] != (long)B->r.b.size()) { r.violate("block-number", "the block added is number " + std::to_string(o.v[2]) + ", expected " + std::to_string(B->r.b.size()) + at); return; } break;
                }
                case K_DELB: bno(0); if (!o.v[3]) { r.violate("overrun", "removing a block wrote outside the report's buffer" + at); return; } if (!B->known) break; if (o.v[1] < 0 || o.v[2] > (long)B->r.b.size()) { r.violate("delete-block-failed", "removing a block returned " + std::to_string(o.v[1]) + at); return; } B->r.b.erase(B->r.b.begin() + (o.v[2] - 1)); break;
                case K_REP: {
                    bno(0); if (!o.v[3]) { r.violate("overrun", "replacing a block wrote outside the report's buffer" + at); return; } if (!B->known) break; if (o.v[2] > (long)B->r.b.size() || o.v[6] != B->r.b[o.v[2] - 1].n()) { r.violate("block-dims", "the block to replace has other dimensions than when added" + at); return; }
                    Blk k = B->r.b[o.v[2] - 1]; k.datyp = (int)o.v[4]; k.nbit = (int)o.v[5]; k.val = repvals(o.v[7], k.datyp, k.nbit, o.v[6]);
                    if (o.v[1] < 0) { if (toowide(k) || used(*B, true) > (B->cap - 9) * 32) break; r.violate("replace-failed", "replacing a block returned " + std::to_string(o.v[1]) + " with room for it, datyp " + std::to_string(k.datyp) + at); return; }
                    B->r.b[o.v[2] - 1] = k; break;
                }
                case K_LOCB: {
                    bno(0); if (!B->known) break; std::vector<int> e; for (size_t k = o.v[5]; k < B->r.b.size(); k++) { auto& x = B->r.b[k]; if ((o.v[1] < 0 || o.v[1] == x.bfam) && (o.v[2] < 0 || o.v[2] == (x.btyp >> 11 & 15)) && (o.v[3] < 0 || o.v[3] == (x.btyp >> 4 & 127)) && (o.v[4] < 0 || o.v[4] == (x.btyp & 15))) e.push_back((int)k + 1); }
                    const int32_t* g = (const int32_t*)blob_at(o.v[7]); if ((long)e.size() != o.v[6] || !std::equal(e.begin(), e.end(), g)) { r.violate("block-search", "searching blocks (family " + std::to_string(o.v[1]) + ", type " + std::to_string(o.v[2]) + "/" + std::to_string(o.v[3]) + "/" + std::to_string(o.v[4]) + ") found " + std::to_string(o.v[6]) + ", " + std::to_string(e.size()) + " match" + at); return; } break;
                }
                case K_DUMP: bno(0); if (!o.v[3]) { r.violate("overrun", "reading a report wrote into its buffer" + at); return; } if (B->known && B->init && !same(B->r, o.v[1], B->cap, o.v[2], r, at)) return; break;
                case K_PUT: {
                    F& f = fs[o.v[0]]; bno(2); if (!o.v[5]) { r.violate("overrun", "writing a report changed memory outside its buffer" + at); return; } if (f.unknown || !B->known) { if (o.v[1] >= 0) f.unknown = true; break; }
                    if (o.v[3] >= 0 && o.v[4] != (long)f.mem.size()) { r.violate("list-count", "the file lists " + std::to_string(o.v[4]) + " reports, expected " + std::to_string(f.mem.size()) + at); return; }
                    if (o.v[1] < 0) { if (ff) { f.unknown = true; break; } if (!fs[B->fu].open || f.rofall) break; r.violate("put-failed", "writing a report returned " + std::to_string(o.v[1]) + at); return; }
                    if (o.v[3] >= 0) f.mem.erase(f.mem.begin() + o.v[3]); f.mem.push_back(B->r); break;
                }
                case K_GET: {
                    F& f = fs[o.v[0]]; bno(2); if (o.v[3] < 0) { if (!f.unknown && !ff && !f.mem.empty()) { r.violate("list-count", "the file lists no report, expected " + std::to_string(f.mem.size()) + at); return; } break; }
                    if (!o.v[5]) { r.violate("overrun", "reading a report wrote beyond the buffer" + at); return; }
                    if (!f.unknown && o.v[4] != (long)f.mem.size()) { r.violate("list-count", "the file lists " + std::to_string(o.v[4]) + " reports, expected " + std::to_string(f.mem.size()) + at); return; }
                    bool big = false; long sz = 0; if (!f.unknown) { Bf t; t.r = f.mem[o.v[3]]; sz = used(t, true) / 32 + 10; big = sz > B->cap; }
                    if (o.v[6]) { if (f.unknown) break; if (o.v[1] < 0) { if (ff) break; r.violate("get-failed", "reading a report into a buffer of the advertised size (" + std::to_string(o.v[7]) + " + 10) returned " + std::to_string(o.v[1]) + at); return; } if (!same(f.mem[o.v[3]], o.v[8], o.v[7] + 10, false, r, at)) return; break; }
                    if (o.v[1] < 0) { B->init = B->known = false; if (!ff && !f.unknown && !big) { r.violate("get-failed", "reading a report returned " + std::to_string(o.v[1]) + at); return; } break; }
                    B->init = true; B->known = !f.unknown; B->fu = (int)o.v[0]; if (B->known) B->r = f.mem[o.v[3]]; break;
                }
                case K_FIND: {
                    F& f = fs[o.v[0]]; if (f.unknown) break; if (o.v[2] != (long)f.mem.size() && !ff) { r.violate("list-count", "the file lists " + std::to_string(o.v[2]) + " reports, expected " + std::to_string(f.mem.size()) + at); return; } if (ff) break;
                    Crit c = mkcrit(byid[o.op]->A(1)); if (o.v[4]) c = { "*********", -1, -1, -1, -1, -1 }; std::vector<int> e; for (size_t k = 0; k < f.mem.size(); k++) if (matches(c, f.mem[k].h)) e.push_back((int)k);
                    const int32_t* g = (const int32_t*)blob_at(o.v[3]); const int W = 5 + sizeof(Hd) / 4;
                    for (long k = 0; k < o.v[1]; k++, g += W) {
                        if (k >= (long)e.size() || g[0] != e[k]) { r.violate("search", "the search returned report " + std::to_string(g[0]) + ", expected " + (k < (long)e.size() ? std::to_string(e[k]) : std::string("none")) + at); return; }
                        Hd h; memcpy(&h, g + 3, sizeof h); std::string why; const Rep& x = f.mem[e[k]]; if (g[1] < 0 || !eqhd(x.h, h, false, why)) { r.violate("wrong-header", "parameters of report " + std::to_string(e[k]) + ": " + why + at); return; }
                        int q = g[3 + sizeof(Hd) / 4]; if (q == -9999) continue; if (q == -8888) { r.violate("overrun", "reading a report of " + std::to_string(g[2]) + " words wrote beyond a buffer of 10 more" + at); return; } if (q < 0) { r.violate("get-failed", "reading a report of " + std::to_string(g[2]) + " words into a buffer of 10 more returned " + std::to_string(q) + at); return; }
                        if (!same(x, g[4 + sizeof(Hd) / 4], g[2] + 10, false, r, at)) return;
                    }
                    if (o.v[1] != (long)e.size()) { r.violate("search", "the search returned " + std::to_string(o.v[1]) + " reports, " + std::to_string(e.size()) + " match" + at); return; } break;
                }
                case K_DELF: {
                    F& f = fs[o.v[0]]; if (f.unknown) break; if (o.v[3] != (long)f.mem.size()) { r.violate("list-count", "the file lists " + std::to_string(o.v[3]) + " reports, expected " + std::to_string(f.mem.size()) + at); return; }
                    if (o.v[1] < 0) { if (ff) { f.unknown = true; break; } if (f.rofall) break; r.violate("delete-failed", "deleting a report returned " + std::to_string(o.v[1]) + at); return; } if (!ff && (o.v[4] >= 0 || o.v[5] >= 0)) { r.violate("deleted-usable", "a report just deleted can be read or deleted again" + at); return; }
                    f.mem.erase(f.mem.begin() + o.v[2]); break;
                }
                case K_NBR: { F& f = fs[o.v[0]]; if (f.unknown) break; if (o.v[1] != (long)f.mem.size()) { r.violate("count", "the file reports " + std::to_string(o.v[1]) + " reports, expected " + std::to_string(f.mem.size()) + at); return; } break; }
                case K_REFUSE: { F& f = fs[o.v[0]]; if (o.v[1] < 4 && f.unknown) break; if (o.v[1] >= 4 && !bf[o.v[3]].known) break; if (o.v[2] >= 0) { static const char* wh[] = { "writing to a file opened for reading", "deleting in a file opened for reading", "reading with a handle that names nothing", "reading into a buffer that is too small", "extracting a block that does not exist", "removing a block that does not exist", "replacing a block that does not exist", "describing a block that does not exist" }; r.violate("not-refused", std::string(wh[o.v[1] & 7]) + " returned " + std::to_string(o.v[2]) + at); return; } break; }
            }
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { int w = 0, rd = 0; for (auto& o : r.hist) { if (o.kind == K_PUT && o.v[1] >= 0) w++; if ((o.kind == K_FIND && o.v[1] > 0) || (o.kind == K_GET && o.v[1] >= 0)) rd++; } return w >= 1 && rd >= 1; }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
