// Whiteboard (WhiteBoard_c.c): keyed store, directive files, checkpoint and restart.
#include "sim.h"
#include <algorithm>
#include <cctype>
extern "C" {
typedef struct WB WB; typedef size_t F2;
int c_wb_put(WB*, const char*, char, int, const unsigned char*, int, int, int);
int c_wb_get(WB*, const char*, char, int, unsigned char*, int, int);
int f_wb_put_(WB**, const char*, int*, int*, const void*, int*, int*, F2);
int f_wb_get_(WB**, const char*, int*, int*, void*, int*, F2);
int f_wb_get_meta_(WB**, const char*, int*, int*, int*, int*, F2);
int f_wb_get_keys_(WB**, char*, int*, const char*, F2, F2);
int f_wb_check_(WB**, const char*, int*, F2);
int f_wb_lock_(WB**, const char*, F2);
int f_wb_new_(WB**); int f_wb_free_(WB**);
int f_wb_checkpoint_(WB**); int f_wb_reload_(WB**); int wb_reset_();
int c_wb_checkpoint(); int c_wb_reload(); int c_wb_checkpoint_name(const char*);
int f_wb_checkpoint_name_(const char*, F2); int f_wb_checkpoint_get_name_(char*, F2);
int f_wb_read_(WB**, const char*, const char*, const char*, int*, F2, F2, F2);
int c_wb_verbosity(int);
}
using namespace sim;
enum { K_PUT = O_USER, K_GET, K_META, K_DUMP, K_KEYS, K_LOCK, K_CHECK, K_NEW, K_FREE, K_CKPT, K_RELOAD, K_RESET, K_NAME, K_READ };
enum { REAL = 1, INT = 2, CHR = 3, BOOL = 4 };
enum { ARRAY = 4096, RAR = 2048, MANY = 1024, UNTIL = 512, NONE = 256, ROR = 128, INITD = 64, BAD = 32, LOCAL = 8, FROMRST = 4, NOTINIT = 2, CREATE = 1 };
typedef std::vector<uint8_t> Bytes;
static uint64_t hsh(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ull + b * 77 + 5); r.next(); return r.next(); }
static const int NN = 44;
static const char* base_names[] = { "A", "AB", "ABC", "itf/x", "ITF/Y", "itf/yy", "grid_ni", "Grid_nj", "gridp", "P_CFG/dt", "p_cfg/DT_long_name_of_27_chr", "p_cfg/dt2", "z", "exactly_twenty_seven_charsX", "exactly_twenty_seven_charsY", "exactly_twenty_six_charact",
    "this_name_is_longer_than_27_characters", "twenty_eight_characters_namX" };
static std::string name_of(long n) { n = ((n % NN) + NN) % NN; if (n < 18) return base_names[n]; char b[32]; snprintf(b, 32, n % 2 ? "key%ld" : "PKG_K%ld", n); return b; }
static std::string dirname_of(long n) { n %= NN; if (n < 0) n += NN; static const char* d[] = { "A", "AB", "ABC", "ITFX", "itf_y", "itf_yy", "grid_ni", "Grid_nj" }; if (n < 8) return d[n]; char b[32]; snprintf(b, 32, n % 2 ? "key%ld" : "PKG_K%ld", n); return b; }
static std::string up(std::string s) { for (auto& c : s) c = toupper(c); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static std::string vary(std::string s, long c) { if (c & 1) for (auto& x : s) x = toupper(x); if (c & 2) for (auto& x : s) x = tolower(x); if (c & 4) s += "   "; return s; }
static const int types[][2] = { { REAL, 4 }, { REAL, 8 }, { INT, 4 }, { INT, 8 }, { BOOL, 4 }, { CHR, 0 }, { BOOL, 1 }, { REAL, 2 }, { INT, 3 }, { 5, 4 }, { BOOL, 8 }, { CHR, -1 }, { 0, 4 } };
struct Ty { int type, size, n; };
static Ty deftype(uint64_t salt, const std::string& uname) { Rng r(hsh(salt, std::hash<std::string>()(uname))); Ty t; int k = r.weighted({ 3, 3, 4, 3, 3, 5 }); t.type = types[k][0]; t.size = types[k][1];
    if (t.type == CHR) { int c = r.weighted({ 4, 4, 2, 1, 1 }); t.size = (int)(c == 0 ? r.range(1, 8) : c == 1 ? r.range(9, 60) : c == 2 ? 40 * r.range(1, 3) : c == 3 ? r.range(500, 520) : 1); }
    int c = r.weighted({ 8, 5, 2, 1 }); t.n = (int)(c == 0 ? 0 : c == 1 ? r.range(1, 12) : c == 2 ? r.range(30, 200) : r.range(300, 700)); if (t.type == CHR && t.n > 60) t.n = 60; return t; }
static Bytes valof(int type, int size, int n, long vs) { Rng r(hsh(vs, 3)); if (n == 0) n = 1; if (type == BOOL && size == 1) size = 4; Bytes b((size_t)std::max(0, size) * n);
    if (type == CHR) { for (int i = 0; i < n; i++) { int len = (int)(r.chance(.4) ? size : r.below(size + 1)); for (int j = 0; j < size; j++) b[(size_t)i * size + j] = j < len ? (r.chance(.1) ? ' ' : (uint8_t)('!' + r.below(90))) : ' '; } }
    else if (type == BOOL && size == 4) for (int i = 0; i < n; i++) { int v = (int)r.below(2); memcpy(&b[(size_t)i * 4], &v, 4); }
    else for (auto& x : b) x = (uint8_t)r.next();
    return b; }
static std::string trimmed(const uint8_t* p, int n) { std::string s((const char*)p, n); size_t z = s.find('\0'); if (z != s.npos) s.resize(z); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }

// ------------------------------------------------------------------ directive files
struct Dir { int kind = 0; int opts = 0; bool hasopt = false; std::string name; int type = 0, size = 0, n = 0; int lit = 0; std::vector<std::string> lits; std::vector<Bytes> vals; }; // kind 0 OPTIONS 1 DEFINE 2 SET 3 junk
static const struct { int o; const char* t; } onames[] = { { LOCAL, "WB_IS_LOCAL" }, { RAR, "WB_REWRITE_AT_RESTART" }, { NONE, "WB_REWRITE_NONE" }, { UNTIL, "WB_REWRITE_UNTIL" }, { MANY, "WB_REWRITE_MANY" }, { ROR, "WB_READ_ONLY_ON_RESTART" } };
static int rndopts(Rng& r, bool bad) { int o = 0; int k = r.weighted({ 3, 3, 3, 3 }); o |= k == 0 ? NONE : k == 1 ? MANY : k == 2 ? UNTIL : 0; if (bad) o |= r.chance(.5) ? NONE | MANY : UNTIL | MANY; if (r.chance(.2)) o |= LOCAL; if (r.chance(.25)) o |= ROR; if (r.chance(.2)) o |= RAR; return o; }
static std::string mixcase(Rng& r, std::string s) { int k = (int)r.below(3); for (auto& c : s) c = k == 0 ? c : k == 1 ? toupper(c) : tolower(c); return s; }
static std::string sp(Rng& r) { return r.chance(.75) ? "" : r.chance(.5) ? " " : " \t "; }
static std::string optlist(Rng& r, int o, char a, char b) { std::string t; std::vector<std::string> l; for (auto& x : onames) if (o & x.o) l.push_back(mixcase(r, x.t)); for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[r.below((long)i)]); t += a; for (size_t i = 0; i < l.size(); i++) t += (i ? "," : "") + sp(r) + l[i] + sp(r); t += b; return t; }
struct DirFile { std::vector<std::pair<std::string, std::vector<Dir>>> sec; std::string text; };
static std::string pkg_of(long k) { static const char* p[] = { "", "pkg_", "T/", "" }; return p[k & 3]; }
static DirFile mkfile(uint64_t salt, long fs, const std::string& pkg) {
    DirFile F; Rng r(hsh(fs, 9)); int ns = (int)r.range(1, 4); static const char* sn[] = { "gem_cfgs", "gem", "PHYSICS", "s1", "S1B", "itf_cfgs" }; int rot = (int)r.below(6);
    if (r.chance(.3)) F.text += "# directives ' for the model\n"; if (r.chance(.2)) F.text += "\n  \n"; if (r.chance(.2)) F.text += "garbage = 12 ( [ @notasection\n";
    for (int s = 0; s < ns; s++) {
        std::vector<Dir> ds; std::string sname = sn[(rot + s) % 6]; F.text += sp(r) + "@" + mixcase(r, sname) + (r.chance(.2) ? " some text" : "") + "\n";
        int n = (int)r.range(0, 14);
        std::vector<std::string> seen;
        for (int i = 0; i < n; i++) {
            Dir d; std::string line; int k = r.weighted({ 2, 8, 10, 1 });
            if (k == 0) { d.kind = 0; d.opts = rndopts(r, false); if (!d.opts) d.opts = MANY; line = mixcase(r, "OPTIONS") + sp(r) + optlist(r, d.opts, '(', ')'); }
            else if (k == 1) { d.kind = 1; d.name = dirname_of(r.below(NN)); seen.push_back(d.name); Ty t = deftype(salt, up(pkg + d.name)); d.type = t.type; d.size = t.size; d.n = t.n; bool bt = r.chance(.05); if (bt) { d.size = 5; if (d.type == CHR) d.size = 600; }
                char tc = d.type == REAL ? 'R' : d.type == INT ? 'I' : d.type == CHR ? 'C' : 'L'; if (d.type == BOOL && !bt) d.size = r.chance(.5) ? 1 : 4; char b[64]; std::string tt(1, r.chance(.5) ? tc : (char)tolower(tc)); snprintf(b, 64, "%d", d.size);
                line = mixcase(r, "DEFINE") + sp(r) + "(" + sp(r) + mixcase(r, d.name) + sp(r) + "[" + sp(r) + tt + b + sp(r) + "," + sp(r) + std::to_string(d.n) + sp(r) + "]"; if (d.type == BOOL && d.size == 1) { d.size = 4; }
                bool ho = r.chance(.6), hd = r.chance(.3); auto O = [&]() { d.opts = rndopts(r, r.chance(.08)); if (!d.opts) d.opts = MANY; d.hasopt = true; line += "," + sp(r) + mixcase(r, "OPT") + sp(r) + "=" + sp(r) + optlist(r, d.opts, '[', ']'); };
                auto D = [&]() { line += "," + sp(r) + mixcase(r, "DESC") + sp(r) + "=" + sp(r) + (r.chance(.5) ? "'a key, (for) [tests] # \"x\" = 1'" : "\"it's\""); };
                if (r.chance(.5)) { if (ho) O(); if (hd) D(); } else { if (hd) D(); if (ho) O(); }
                line += sp(r) + ")" + (r.chance(.15) ? " # comment" : ""); }
            else if (k == 2) { d.kind = 2; d.name = !seen.empty() && r.chance(.6) ? r.pick(seen) : dirname_of(r.below(NN)); Ty t = deftype(salt, up(pkg + d.name)); int ty = t.type; if (r.chance(.06)) ty = (int)r.range(1, 4);
                int m = std::max(1, t.n), cnt = r.chance(.6) ? m : (int)r.range(1, m); if (r.chance(.05)) cnt = m + 1; if (cnt > 40) cnt = (int)r.range(1, 40);
                d.lit = ty; line = sp(r) + mixcase(r, d.name) + sp(r) + "=" + sp(r);
                for (int j = 0; j < cnt; j++) { std::string l; Bytes v; char b[64];
                    if (ty == INT) { long x = r.range(-100000, 100000); if (r.chance(.1)) x = 2147483647; if (r.chance(.1)) x = -2147483647; snprintf(b, 64, r.chance(.1) && x >= 0 ? "+%ld" : "%ld", x); l = b; }
                    else if (ty == REAL) { double x = (double)r.range(-8000, 8000) / 4; snprintf(b, 64, r.chance(.5) ? "%.2f" : r.chance(.5) ? "%.6E" : "%.8e", x); l = b; }
                    else if (ty == BOOL) { static const char* T[] = { ".TRUE.", ".true.", ".T.", ".t.", ".FALSE.", ".false.", ".F.", ".f." }; l = T[r.below(8)]; }
                    else { int len = (int)r.below(r.chance(.1) ? 60 : std::min(t.size, 100) + 1); char q = r.chance(.5) ? '\'' : '"'; for (int z = 0; z < len; z++) { static const char al[] = "abcXYZ 019,#!=()[]@/"; l += al[r.below(sizeof al - 1)]; } l = q + l + q; }
                    d.lits.push_back(l); line += l + sp(r); if (j + 1 < cnt) { line += ","; line += sp(r); if (r.chance(.04)) line += "\\\n"; } }
            } else { d.kind = 3; static const char* J[] = { "=12", "KEYNOEQ 12", "KEYNOEQ2 ( 12", "DEFINE(bad[X4,0])", "[oops]", "novalue =", "NOSUCH_KEY == 2" }; line = J[r.below(7)]; }
            ds.push_back(d); bool semi = r.chance(.1) && i + 1 < n && d.kind == 2; F.text += line + (semi ? ";" : "\n"); if (!semi) { if (r.chance(.1)) F.text += "! comment line 'with a quote\n"; if (r.chance(.1)) F.text += "\n"; }
        }
        F.sec.push_back({ up(sname), ds });
    }
    if (r.chance(.2) && !F.text.empty() && F.text.back() == '\n') F.text.pop_back();
    return F;
}
// a literal read into an element; false: refused
static bool conv(const std::string& l, int lit, int type, int size, Bytes& out) {
    out.assign(size, 0);
    if (type == INT) { if (lit != INT) return false; long long x = atoll(l.c_str()); if (size == 4) { int y = (int)x; memcpy(out.data(), &y, 4); } else memcpy(out.data(), &x, 8); return true; }
    if (type == REAL) { if (lit != REAL && lit != INT) return false; if (size == 4) { float y = strtof(l.c_str(), 0); memcpy(out.data(), &y, 4); } else { double y = strtod(l.c_str(), 0); memcpy(out.data(), &y, 8); } return true; }
    if (type == BOOL) { if (lit != BOOL) return false; out[0] = toupper(l[1]) == 'T'; return true; }
    if (lit != CHR) return false; std::string s = l.substr(1, l.size() - 2); while (!s.empty() && s.back() == ' ') s.pop_back(); if ((int)s.size() > size) return false; out.assign(size, ' '); memcpy(out.data(), s.data(), s.size()); return true;
}

// ------------------------------------------------------------------ model
struct Key { int type = 0, size = 0, max = 0; bool array = false, ro = false, many = false, until = false, local = false, ror = false, rar = false, init = false, bad = false, from = false, fz = false, anyinit = false; std::vector<Bytes> el; std::vector<char> known; };
typedef std::map<std::string, Key> Board;
struct World { bool up = false; Board b[4]; bool live[4] = { true, false, false, false }; bool dead[4] = { false, false, false, false }; int file = 0; bool fileok[2] = { false, false }; Board disk[2]; bool hasdisk[2] = { false, false }; };
// disk[k] valid when fileok; hasdisk && !fileok: present but unusable

struct Put { int type, size, n, opts; long vs; };
// returns: true = accepted
static bool m_put(Board& b, const std::string& nm, int type, int size, int n, int opts, const Bytes& v) {
    if (type == BOOL && size == 1) size = 4;
    bool okt = ((type == REAL || type == INT) && (size == 4 || size == 8)) || (type == BOOL && size == 4) || (type == CHR && size > 0 && size <= 520);
    if (!okt || n < 0) return false; std::string u = up(nm); if (u.size() > 27) return false;
    auto it = b.find(u); int m = n ? n : 1;
    if (it == b.end()) {
        int rw = !!(opts & NONE) + !!(opts & MANY) + !!(opts & UNTIL); if (rw > 1) return false;
        Key k; k.type = type; k.array = n > 0; k.max = n; k.size = size; if (type == CHR && !n) k.size = (size + 39) / 40 * 40; k.ro = opts & NONE; k.many = opts & MANY; k.until = opts & UNTIL; k.local = opts & LOCAL; k.ror = opts & ROR; k.rar = opts & RAR;
        k.el.assign(m, Bytes()); k.known.assign(m, 0);
        if (!(opts & CREATE)) { k.init = true; for (int i = 0; i < m; i++) { k.known[i] = 1; k.el[i].assign(v.begin() + (size_t)i * size, v.begin() + (size_t)(i + 1) * size); } }
        b[u] = k; return true;
    }
    Key& k = it->second; if (opts & CREATE) return false; if (k.ro && k.init) return false;
    k.bad = true; if (k.array != (n > 0) || k.type != type || (type != CHR && k.size != size) || (n && n > k.max)) return false;
    for (int i = 0; i < m; i++) if (type == CHR && (int)trimmed(&v[(size_t)i * size], size).size() > k.size) { for (int j = 0; j < m; j++) k.known[j] = 0; return false; }
    for (int i = 0; i < m; i++) { k.known[i] = 1; k.el[i].assign(v.begin() + (size_t)i * size, v.begin() + (size_t)(i + 1) * size); }
    k.init = true; k.bad = false; return true;
}
static int m_opts(const Key& k) { return (k.array ? ARRAY : 0) | (k.from ? FROMRST : 0) | (k.ro ? NONE : 0) | (k.bad ? BAD : 0) | (k.local ? LOCAL : 0) | (k.until ? UNTIL : 0) | (k.many ? MANY : 0) | (k.ror ? ROR : 0) | (k.rar ? RAR : 0) | (k.init ? INITD : NOTINIT); }
static std::string m_get(const Board& b, const std::string& nm, int type, int size, int n, int rc, const uint8_t* d) {
    char e[200]; if (type == BOOL && size == 1) size = 4;
    bool okt = ((type == REAL || type == INT) && (size == 4 || size == 8)) || (type == BOOL && size == 4) || (type == CHR && size > 0); std::string u = up(nm); size_t tot = (size_t)std::max(0, size) * std::max(1, n);
    auto it = b.find(u); bool want = okt && n >= 0 && u.size() <= 27 && it != b.end(); int want_rc = 0; bool maybe = false;
    if (want) { const Key& k = it->second; if (k.bad || !k.init || k.type != type || (type != CHR && k.size != size) || k.array != (n > 0)) want = false; else { want_rc = k.max; int m = n ? std::min(n, k.max) : 1; for (int i = 0; i < m && want; i++) if (type == CHR) { if (!k.known[i]) maybe = true; else if ((int)trimmed(k.el[i].data(), (int)k.el[i].size()).size() > size) want = false; } } }
    if (maybe && rc < 0) return "";
    if (!want) { if (rc >= 0 && !maybe) { snprintf(e, 200, "a get of key '%s' (type %d, %d bytes, %d elements) that had to be refused returned %d", u.c_str(), type, size, n, rc); return e; } if (rc < 0) { for (size_t i = tot; i < tot + 16; i++) if (d[i] != 0xab) return "a refused get wrote past the caller's array"; return ""; } }
    if (rc < 0) { snprintf(e, 200, "a get of the key '%s' (type %d, %d bytes, %d elements) was refused (%d)", u.c_str(), type, size, n, rc); return e; }
    const Key& k = it->second; if (rc != want_rc) { snprintf(e, 200, "a get of '%s' returned %d, not %d", u.c_str(), rc, want_rc); return e; }
    int m = n ? std::min(n, k.max) : 1;
    for (int i = 0; i < m; i++) { if (!k.known[i]) continue; Bytes x = k.el[i]; if (type == CHR) { std::string s = trimmed(x.data(), (int)x.size()); x.assign(size, ' '); memcpy(x.data(), s.data(), s.size()); } if (memcmp(x.data(), d + (size_t)i * size, size)) { snprintf(e, 200, "element %d of '%s' is not what was last put there", i + 1, u.c_str()); return e; } }
    for (size_t i = (size_t)m * size; i < tot + 16; i++) if (d[i] != 0xab) { snprintf(e, 200, "a get of '%s' wrote past the elements it has", u.c_str()); return e; }
    return "";
}
static std::string m_meta(const Board& b, const std::string& nm, int rc, int t, int s, int n, int o) {
    char e[200]; std::string u = up(nm); auto it = b.find(u); if (it == b.end()) { if (rc >= 0) { snprintf(e, 200, "the key '%s', which does not exist, was described", u.c_str()); return e; } return ""; }
    if (rc < 0) { snprintf(e, 200, "the key '%s' has disappeared", u.c_str()); return e; }
    const Key& k = it->second; if (t != k.type || s != k.size || n != k.max) { snprintf(e, 200, "the key '%s' is described as type %d size %d elements %d, not %d %d %d", u.c_str(), t, s, n, k.type, k.size, k.max); return e; }
    int mask = ~0; if (k.fz) mask &= ~(NONE | MANY); if ((o & mask) != (m_opts(k) & mask)) { snprintf(e, 200, "the key '%s' has options %d, not %d", u.c_str(), o, m_opts(k)); return e; }
    return "";
}

struct WbH : Harness {
    std::vector<std::string> props() override { return { "H01", "H02" }; }
    uint64_t salt(const Plan& p) { return (uint64_t)p.C("salt"); }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Plan p; p.prop = prop; p.seed = seed; Rng r(hsh(seed, 17)); bool h2 = prop == "H02"; p.cfg["salt"] = r.below(1000000); p.cfg["pool"] = r.chance(.4) ? 10 : NN; p.cfg["ck"] = h2;
        int nops = (int)(th ? r.range(20, 160) : r.range(10, 70)); bool dirs = r.chance(.45); p.cfg["dirs"] = dirs; long pool = p.cfg["pool"]; bool faults = h2 && r.chance(.55); bool bulk = r.chance(.2);
        auto wb = [&]() { return (long)(r.chance(h2 ? .85 : .6) ? 0 : 1 + r.below(3)); };
        auto nm = [&]() { return r.below(pool); };
        if (dirs) for (int i = 0; i < 3; i++) p.add("file", { i, r.below(1 << 30), r.below(4) });
        if (bulk) { int n = (int)r.range(20, 60); for (int i = 0; i < n; i++) p.add("put", { 0, i, 0, 0, 0, 0, rndopts(r, false), r.below(1 << 30), 0 }); }
        for (int i = 0; i < nops; i++) {
            int k = r.weighted({ 34, 14, 6, 6, 4, 3, 3, 3, 2, dirs ? 6 : 0, h2 ? 8 : 0, h2 ? 5 : 0, h2 ? 3 : 0, h2 ? 3 : 0, h2 ? 6 : 0 });
            switch (k) {
                case 0: { long dt = r.chance(.15) ? 1 + r.below(13) : 0, dn = r.chance(.2) ? r.range(1, 6) : 0; long o = rndopts(r, r.chance(.04)); if (r.chance(.15)) o |= CREATE; p.add("put", { wb(), nm(), r.below(8), dt, dn, r.chance(.2) ? r.below(70) : 0, o, r.below(1 << 30), r.below(2) }); break; }
                case 1: p.add("get", { wb(), nm(), r.below(8), r.chance(.15) ? 1 + r.below(13) : 0, r.chance(.3) ? r.range(1, 6) : 0, r.chance(.3) ? r.below(70) : 0, r.below(2) }); break;
                case 2: p.add("meta", { wb(), nm(), r.below(8) }); break;
                case 3: p.add("dump", { wb() }); break;
                case 4: p.add("keys", { wb(), nm(), r.below(6), r.chance(.2) ? r.below(5) : 100, r.chance(.5) ? 27 : r.range(27, 40) }); break;
                case 5: p.add("lock", { wb(), nm(), r.below(6) }); break;
                case 6: p.add("check", { wb(), nm(), r.below(6), r.chance(.4) ? -1 : 1l << r.below(13) }); break;
                case 7: p.add("new", { 1 + r.below(3) }); break;
                case 8: p.add("free", { r.chance(.2) ? 0 : 1 + r.below(3) }); break;
                case 9: p.add("read", { wb(), r.below(3), r.below(6), r.below(3) }); break;
                case 10: p.add("ckpt", { r.below(2) }); break;
                case 11: p.add("reload", { r.below(2) }); break;
                case 12: p.add("reset"); break;
                case 13: p.add("name", { r.below(2), r.below(3) }); break;
                default: p.add(r.chance(.5) ? "restart" : "exit0"); if (r.chance(.5)) p.add("name", { r.below(2), r.below(3) }); if (r.chance(.4)) p.add("reload", { r.below(2) }); if (r.chance(.6)) p.add("dump", { 0 }); break;
            }
        }
        p.add("dump", { 0 }); if (!h2) for (long i = 1; i < 4; i++) p.add("dump", { i });
        if (faults) {
            std::vector<int> wr, rd; for (auto& o : p.ops) { if (o.name == "ckpt") wr.push_back(o.id); if (o.name == "reload" || o.name == "name" || o.name == "put") rd.push_back(o.id); }
            int n = (int)r.range(1, 4);
            for (int i = 0; i < n; i++) {
                static const int wk[] = { F_CRASH, F_TORN, F_SHORTW, F_ENOSPC, F_EIO_W, F_EINTR_W, F_EOPEN }, rk[] = { F_EIO_R, F_SHORTR, F_EINTR_R, F_EOPEN };
                if (r.chance(.7) && !wr.empty()) { int kd = wk[r.below(7)]; p.faults.push_back({ r.pick(wr), kd == F_EOPEN ? 1 : (int)r.range(1, 8), kd, r.range(1, 4000) }); }
                else { std::vector<int> t; for (int x : rd) if (p.ops[x].name != "put" || (x && (p.ops[x - 1].name == "reset" || p.ops[x - 1].name == "restart" || p.ops[x - 1].name == "exit0"))) t.push_back(x); if (t.empty()) continue; int kd = rk[r.below(4)]; p.faults.push_back({ r.pick(t), kd == F_EOPEN ? (int)r.range(1, 2) : (int)r.range(1, 8), kd, r.range(1, 4000) }); }
            }
        }
        return p;
    }
    // -------------------------------------------------------------- child
    WB* h[4]; bool named; bool had[4];
    static std::string ckname(long k) { return k ? "/sim/second.wb" : "/sim/Whiteboard.ckpt"; }
    void child_begin(const Plan&) override { for (auto& x : h) x = nullptr; for (auto& x : had) x = false; named = false; c_wb_verbosity(0); }
    void setup(const Plan& p) override { for (auto& o : p.ops) if (o.name == "file") { DirFile F = mkfile(salt(p), o.A(1), pkg_of(o.A(2))); fs_put("/sim/dir" + std::to_string(o.A(0)), F.text.data(), F.text.size()); } }
    void do_name(long k, long how) { std::string n = ckname(k); int rc; obs(O_BEGIN, { 1, k }); std::string f = n; if (how == 1) f += "    "; if (how == 2) rc = c_wb_checkpoint_name(n.c_str()); else rc = f_wb_checkpoint_name_(f.data(), f.size()); named = true;
        char b[64]; memset(b, 'x', 64); no_faults(true); int rc2 = rc >= 0 ? f_wb_checkpoint_get_name_(b, 60) : 0; no_faults(false); std::string g(b, 60); while (!g.empty() && g.back() == ' ') g.pop_back(); obs(K_NAME, { k, rc, rc < 0 || (rc2 >= 0 && g == n && b[60] == 'x') }); }
    static Ty parms(const Plan& p, const Op& o, size_t it, long dsz) {
        Ty t = deftype((uint64_t)p.C("salt"), up(name_of(o.A(1)))); long dt = o.A(it), dn = o.A(it + 1);
        if (dt) { t.type = types[dt - 1][0]; t.size = types[dt - 1][1]; if (t.type == CHR) t.size = t.size < 0 ? (dt % 2 ? 521 : 0) : 1 + (int)dsz; }
        else if (t.type == CHR && dsz) t.size = 1 + (int)dsz * 3;
        switch (dn) { case 1: t.n = t.n ? (t.n + 1) / 2 : 0; break; case 2: t.n = t.n ? t.n + 1 : 1; break; case 3: t.n = t.n ? 0 : 1; break; case 4: t.n = 1; break; case 5: t.n = t.n ? 2 : 0; break; case 6: t.n = dsz % 3 ? t.n : -1; break; }
        return t;
    }
    static std::string prefix(const Op& o) { std::string n = name_of(o.A(1)); long l = o.A(2); return l >= 5 ? "" : l == 4 ? n.substr(0, 27) : n.substr(0, l + 1); }
    void dump(const Plan& p, long w, bool rd) {
        std::set<std::string> ns; for (long i = 0; i < NN; i++) { ns.insert(up(name_of(i))); if (p.C("dirs")) for (int k = 0; k < 3; k++) ns.insert(up(pkg_of(k) + dirname_of(i))); }
        for (auto& n : ns) { if (n.size() > 27) continue; int t = 0, s = 0, e = 0, o = 0; int rc = f_wb_get_meta_(&h[w], n.data(), &t, &s, &e, &o, n.size());
            long bl = -1; int g = 0; int len = 0; if (rc >= 0 && s > 0 && s <= 1024 && e >= 0 && e < 100000) { len = s * std::max(1, e); Bytes d(len + 16, 0xab); g = f_wb_get_(&h[w], n.data(), &t, &s, d.data(), &e, n.size()); bl = blob(d.data(), d.size()); }
            obs(K_DUMP, { w, rc, t, s, e, o, g, bl }, n.c_str()); }
    }
    void exec(const Plan& p, const Op& o) override {
        if (o.name == "file") return; if (!named && o.name != "name") do_name(0, 0);
        long w = o.A(0) & 3; if (o.name == "put") {
            Ty t = parms(p, o, 3, o.A(5)); Bytes v = valof(t.type, t.size, std::max(0, t.n), o.A(7)); Bytes c = v; c.resize(v.size() + 8, 0); v = c; std::string n = vary(name_of(o.A(1)), o.A(2)); int opt = (int)o.A(6); obs(O_BEGIN, { 0, w });
            int rc = o.A(8) ? c_wb_put(h[w], n.data(), (char)t.type, t.size, v.data(), t.n, opt, (int)n.size()) : f_wb_put_(&h[w], n.data(), &t.type, &t.size, v.data(), &t.n, &opt, n.size());
            obs(K_PUT, { w, rc, v == c });
        } else if (o.name == "get") {
            Ty t = parms(p, o, 3, o.A(5)); int sz = t.type == BOOL && t.size == 1 ? 4 : std::max(0, t.size); Bytes d((size_t)sz * std::max(1, t.n) + 16, 0xab); std::string n = vary(name_of(o.A(1)), o.A(2));
            int rc = o.A(6) ? c_wb_get(h[w], n.data(), (char)t.type, t.size, d.data(), t.n, (int)n.size()) : f_wb_get_(&h[w], n.data(), &t.type, &t.size, d.data(), &t.n, n.size());
            obs(K_GET, { w, rc, blob(d.data(), d.size()) });
        } else if (o.name == "meta") { std::string n = vary(name_of(o.A(1)), o.A(2)); int t = 0, s = 0, e = 0, op = 0; int rc = f_wb_get_meta_(&h[w], n.data(), &t, &s, &e, &op, n.size()); obs(K_META, { w, rc, t, s, e, op }); }
        else if (o.name == "dump") dump(p, w, false);
        else if (o.name == "keys") { std::string n = prefix(o); int max = (int)o.A(3), wd = (int)o.A(4); Bytes b((size_t)max * wd + 8, '~'); int rc = f_wb_get_keys_(&h[w], (char*)b.data(), &max, n.data(), wd, n.size()); obs(K_KEYS, { w, rc, max, wd, blob(b.data(), b.size()) }); }
        else if (o.name == "lock") { std::string n = prefix(o); int rc = f_wb_lock_(&h[w], n.data(), n.size()); obs(K_LOCK, { w, rc }); if (rc < 0) dump(p, w, false); }
        else if (o.name == "check") { std::string n = prefix(o); int m = (int)o.A(3); obs(K_CHECK, { w, f_wb_check_(&h[w], n.data(), &m, n.size()) }); }
        else if (o.name == "new") { if (had[w] && h[w]) { /* the handle is lost without being freed */ } int rc = f_wb_new_(&h[w]); had[w] = rc >= 0; obs(K_NEW, { w, rc }); }
        else if (o.name == "free") { if (w && !had[w]) return; int rc = f_wb_free_(&h[w]); if (w == 0) { h[0] = nullptr; } obs(K_FREE, { w, rc }); }
        else if (o.name == "ckpt") { obs(O_BEGIN, { 2 }); int rc = o.A(0) ? c_wb_checkpoint() : f_wb_checkpoint_(&h[0]); obs(K_CKPT, { rc }); }
        else if (o.name == "reload") { obs(O_BEGIN, { 3 }); int rc = o.A(0) ? c_wb_reload() : f_wb_reload_(&h[0]); obs(K_RELOAD, { rc }); }
        else if (o.name == "reset") { wb_reset_(); obs(K_RESET); }
        else if (o.name == "name") do_name(o.A(0), o.A(1));
        else if (o.name == "read") {
            long f = o.A(1); const Op* fo = nullptr; for (auto& x : p.ops) if (x.name == "file" && x.A(0) == f) fo = &x; if (!fo) return; DirFile F = mkfile(salt(p), fo->A(1), pkg_of(fo->A(2))); std::string pk = pkg_of(fo->A(2)), fn = "/sim/dir" + std::to_string(f), sec = o.A(2) < (long)F.sec.size() ? F.sec[o.A(2)].first : "nosuch"; if (o.A(2) == 5) fn = "/sim/nofile";
            int mode = (int)o.A(3); obs(O_BEGIN, { 4, w }); obs(K_READ, { w, f_wb_read_(&h[w], pk.data(), fn.data(), sec.data(), &mode, pk.size(), fn.size(), sec.size()) });
        }
    }
    // -------------------------------------------------------------- oracle
    static void after_load(Board& b) { for (auto& x : b) { Key& k = x.second; if (k.rar) k.ro = false, k.fz = false; if (k.ror && k.init) k.ro = true, k.many = false, k.fz = false; if (k.local) k.init = false, k.bad = false; k.from = true; } }
    // every way of bringing the base board up in world w; appended to out
    static void bring_up(const World& w, bool fail_ok, bool& canfail, std::vector<World>& out) { canfail = false; if (w.up) { out.push_back(w); return; } World n = w; int f = w.file; if (!w.hasdisk[f]) { n.up = true; n.b[0].clear(); out.push_back(n); canfail = fail_ok; return; } if (w.fileok[f]) { n.up = true; n.b[0] = w.disk[f]; after_load(n.b[0]); out.push_back(n); if (fail_ok) canfail = true; } else canfail = true; }
    void oracle(const Plan& p, Result& r) override {
        std::map<int, const Op*> byid; for (auto& o : p.ops) byid[o.id] = &o; std::map<int, bool> flt; for (auto& f : p.faults) flt[f.op] = true;
        std::vector<World> ws(1); std::string err; int inc = 0; std::map<int, const Obs*> begun; bool dups = false;
        auto newproc = [&]() { for (auto& w : ws) { w.up = false; w.b[0].clear(); for (int i = 1; i < 4; i++) { w.b[i].clear(); w.live[i] = w.dead[i] = false; } w.file = 0; } };
        auto ckpt_uncertain = [&]() { std::vector<World> out; for (auto& w : ws) { World a = w; out.push_back(a); World b = w; b.hasdisk[w.file] = true; b.fileok[w.file] = true; b.disk[w.file] = w.up ? w.b[0] : Board(); out.push_back(b); World c = w; c.hasdisk[w.file] = true; c.fileok[w.file] = false; out.push_back(c); } ws = out; };
        // board of a world; null: no such board (operations refused)
        auto step = [&](const Obs& o, const std::function<void(World&, std::vector<World>&, std::string&)>& fn) { std::vector<World> out; std::string e1; for (auto& w : ws) { std::string e; std::vector<World> t; fn(w, t, e); if (e.empty()) out.insert(out.end(), t.begin(), t.end()); else if (e1.empty()) e1 = e; } if (out.empty()) { r.violate(e1, "op " + std::to_string(o.op) + " (" + (byid.count(o.op) ? byid[o.op]->name : "?") + "): " + e1); return false; } if (out.size() > 64) out.resize(64); ws = out; return true; };
        // observations that change nothing: drop the worlds they contradict
        auto filt = [&](const Obs& o, const std::function<std::string(World&)>& fn) { std::string e1; std::vector<char> keep(ws.size(), 1); bool any = false, drop = false; for (size_t i = 0; i < ws.size(); i++) { std::string e = fn(ws[i]); if (e.empty()) any = true; else { keep[i] = 0; drop = true; if (e1.empty()) e1 = e; } } if (!any) { r.violate(e1, "op " + std::to_string(o.op) + " (" + (byid.count(o.op) ? byid[o.op]->name : "?") + "): " + e1); return false; } if (drop) { std::vector<World> n; for (size_t i = 0; i < ws.size(); i++) if (keep[i]) n.push_back(ws[i]); ws = n; } return true; };
        for (auto& o : r.hist) {
            if (r.violated) return; const Op* op = byid.count(o.op) ? byid[o.op] : nullptr; bool ft = flt[o.op];
            if (o.inc != inc) { inc = o.inc; begun.clear(); newproc(); }
            if (o.kind == O_SIGNAL || o.kind == O_HANG || o.kind == O_HEAP || o.kind == O_EXIT) { char e[160]; snprintf(e, 160, "op %d (%s): the library %s", o.op, op ? op->name.c_str() : "?", o.kind == O_SIGNAL ? "crashed" : o.kind == O_HANG ? "never returned" : o.kind == O_HEAP ? "damaged the heap" : "ended the process"); r.violate(o.kind == O_SIGNAL ? "signal" : o.kind == O_HANG ? "hang" : "abort", e); return; }
            if (o.kind == O_BEGIN) { begun[o.op] = &o; continue; }
            if (o.kind == O_CRASH) { bool ck = false; if (op && op->name == "ckpt") ck = true; if (ck) ckpt_uncertain(); continue; }
            if (!op) continue;
            long w = o.v[0];
            auto noboard = [&](const World& x) { return w > 0 && x.dead[w]; };
            auto brd = [&](World& x) -> Board& { return x.b[w > 0 && !x.live[w] ? 0 : w]; };   // a handle never set is the global board
            auto isbase = [&](const World& x) { return w == 0 || !x.live[w]; };
            switch (o.kind) {
                case K_NAME: { if (!step(o, [&](World& x, std::vector<World>& t, std::string& e) { World y = x; y.file = (int)o.v[0]; std::vector<World> u; bool cf; bring_up(y, ft, cf, u); if (o.v[1] < 0) { if (cf) { t.push_back(y); } else e = "naming a checkpoint file failed"; } else if (u.empty()) e = "an unusable checkpoint file was accepted"; else t = u; })) return; if (!o.v[2]) r.violate("the name of the checkpoint", "the name of the checkpoint file came back changed"); break; }
                case K_PUT: { Ty ty = parms(p, *op, 3, op->A(5)); Bytes v = valof(ty.type, ty.size, std::max(0, ty.n), op->A(7)); std::string nm = name_of(op->A(1)); if (!o.v[2]) { r.violate("a put changed the caller's data", "op " + std::to_string(o.op)); return; }
                    if (ws.size() == 1 && ws[0].up && !noboard(ws[0])) { Board& b = brd(ws[0]); auto it = b.find(up(nm)); if (it == b.end() || !it->second.fz) { bool ok = m_put(b, nm, ty.type, ty.size, ty.n, (int)op->A(6), v); if (ok != (o.v[1] >= 0)) { char q[240]; snprintf(q, 240, "op %d (put): a put of '%s' (type %d, %d bytes, %d elements, options %ld) that had to be %s returned %ld", o.op, up(nm).c_str(), ty.type, ty.size, ty.n, op->A(6), ok ? "accepted" : "refused", (long)o.v[1]); r.violate(ok ? "put refused" : "put accepted", q); } break; } }
                    step(o, [&](World& x, std::vector<World>& t, std::string& e) {
                        if (noboard(x)) { if (o.v[1] >= 0) e = "a put to a freed board was accepted"; else t.push_back(x); return; }
                        std::vector<World> u; bool cf; bring_up(x, ft, cf, u); std::string why;
                        for (auto& y : u) { World z = y; bool fz = false; std::string un = up(nm); auto it = brd(z).find(un); if (it != brd(z).end() && it->second.fz) { fz = true; it->second.ro = o.v[1] < 0 ? it->second.ro : false; }
                            World z0 = z; bool ok = m_put(brd(z), nm, ty.type, ty.size, ty.n, (int)op->A(6), v);
                            if (ok == (o.v[1] >= 0)) { t.push_back(z); if (!isbase(x) && !x.up && o.v[1] < 0) { World q = z; q.up = false; q.b[0].clear(); t.push_back(q); } if (!ok && x.up != z.up) { World q = x; t.push_back(q); } if (fz && !ok) { z0.b[0].size(); brd(z0)[un].ro = true; t.push_back(z0); } if (fz && ok) for (auto& q : t) { auto i2 = brd(q).find(un); if (i2 != brd(q).end()) i2->second.fz = !i2->second.init; } }
                            else if (fz && o.v[1] < 0) { brd(z0)[un].ro = true; t.push_back(z0); }
                            else { char b[200]; snprintf(b, 200, "a put of '%s' (type %d, %d bytes, %d elements, options %ld) that had to be %s returned %ld", un.c_str(), ty.type, ty.size, ty.n, op->A(6), ok ? "accepted" : "refused", (long)o.v[1]); why = b;
                                if (!isbase(x) && !x.up) { // a user board is touched without the global one coming up
                                } } }
                        if (!isbase(x) && !x.up) { World z = x; bool ok = m_put(brd(z), nm, ty.type, ty.size, ty.n, (int)op->A(6), v); if (ok == (o.v[1] >= 0)) t.push_back(z); }
                        if (cf && o.v[1] < 0) t.push_back(x);
                        if (t.empty()) e = why.empty() ? "a put was accepted although the checkpoint file is unusable" : why;
                    }); break; }
                case K_GET: { Ty ty = parms(p, *op, 3, op->A(5)); std::string nm = name_of(op->A(1)); const uint8_t* d = blob_at(o.v[2]); filt(o, [&](World& x) -> std::string { if (noboard(x)) return o.v[1] >= 0 ? "a get from a freed board was accepted" : ""; if (isbase(x) && !x.up) return o.v[1] < 0 ? "" : "a key was found before the board was loaded"; return m_get(brd(x), nm, ty.type, ty.size, ty.n, (int)o.v[1], d); }); break; }
                case K_META: { std::string nm = name_of(op->A(1)); filt(o, [&](World& x) -> std::string { if (noboard(x)) return o.v[1] >= 0 ? "a key of a freed board was described" : ""; if (isbase(x) && !x.up) return o.v[1] < 0 ? "" : "a key was found before the board was loaded"; return m_meta(brd(x), nm, (int)o.v[1], (int)o.v[2], (int)o.v[3], (int)o.v[4], (int)o.v[5]); }); break; }
                case K_DUMP: filt(o, [&](World& x) -> std::string { if (noboard(x)) return o.v[1] >= 0 ? "a key of a freed board was described" : ""; if (isbase(x) && !x.up) return o.v[1] < 0 ? "" : "a key was found before the board was loaded";
                        auto fk = brd(x).find(o.s); if (fk != brd(x).end() && fk->second.fz) { fk->second.fz = false; fk->second.ro = o.v[5] & NONE; fk->second.many = o.v[5] & MANY; } // how far a lock that failed went
                        std::string e = m_meta(brd(x), o.s, (int)o.v[1], (int)o.v[2], (int)o.v[3], (int)o.v[4], (int)o.v[5]); if (e.empty() && o.v[7] >= 0) e = m_get(brd(x), o.s, (int)o.v[2], (int)o.v[3], (int)o.v[4], (int)o.v[6], blob_at(o.v[7])); return e; }); break;
                case K_KEYS: { std::string pf = up(prefix(*op)); std::string raw = prefix(*op); step(o, [&](World& x, std::vector<World>& t, std::string& e) { if (noboard(x)) { if (o.v[1] >= 0) e = "keys of a freed board were listed"; else t.push_back(x); return; } if (isbase(x) && !x.up) { t.push_back(x); return; }
                        std::set<std::string> want; for (auto& k : brd(x)) if (k.first.compare(0, raw.size(), up(raw)) == 0 || (raw.empty())) want.insert(k.first); long max = o.v[2], wd = o.v[3]; const uint8_t* b = blob_at(o.v[4]);
                        for (int i = 0; i < 8; i++) if (b[max * wd + i] != '~') { e = "a list of keys was written past the caller's array"; return; }
                        if ((long)want.size() > max) { if (o.v[1] >= 0) e = "a list of keys too long for the caller's array was not refused"; else t.push_back(x); return; }
                        if (o.v[1] != (long)want.size()) { char q[100]; snprintf(q, 100, "%ld keys starting with '%s' listed, %zu exist", (long)o.v[1], raw.c_str(), want.size()); e = q; return; }
                        std::set<std::string> got; for (long i = 0; i < o.v[1]; i++) { std::string s((const char*)b + i * wd, wd); got.insert(up(s)); } if (got != want) { e = "the list of keys is not the keys that exist"; return; } t.push_back(x); }); break; }
                case K_CHECK: { std::string raw = prefix(*op); int m = (int)op->A(3); step(o, [&](World& x, std::vector<World>& t, std::string& e) { if (noboard(x)) { if (o.v[1] >= 0) e = "keys of a freed board were counted"; else t.push_back(x); return; } if (isbase(x) && !x.up) { t.push_back(x); return; } long lo = 0, hi = 0; for (auto& k : brd(x)) if (raw.empty() || k.first.compare(0, raw.size(), up(raw)) == 0) { int op1 = m_opts(k.second); bool y = op1 & m; if (k.second.fz && (m & (NONE | MANY))) { hi++; if (op1 & m & ~(NONE | MANY)) lo++; } else if (y) lo++, hi++; }
                        if (o.v[1] < lo || o.v[1] > hi) { char q[120]; snprintf(q, 120, "%ld keys with options %d counted, %ld exist", (long)o.v[1], m, lo); e = q; } else t.push_back(x); }); break; }
                case K_LOCK: { std::string raw = prefix(*op); step(o, [&](World& x, std::vector<World>& t, std::string& e) { if (noboard(x)) { if (o.v[1] >= 0) e = "a freed board was locked"; else t.push_back(x); return; } if (isbase(x) && !x.up) { t.push_back(x); return; } World y = x; long n = 0; bool un = false; for (auto& k : brd(y)) if ((raw.empty() || k.first.compare(0, raw.size(), up(raw)) == 0) && k.second.until) { n++; if (!k.second.init) un = true; }
                        if (un ? o.v[1] >= 0 : o.v[1] != n) { char q[100]; snprintf(q, 100, "locking the keys '%s' returned %ld (%ld can be locked%s)", raw.c_str(), (long)o.v[1], n, un ? ", some never set" : ""); e = q; return; }
                        for (auto& k : brd(y)) if ((raw.empty() || k.first.compare(0, raw.size(), up(raw)) == 0) && k.second.until) { if (un) { if (!k.second.ro && k.second.init) k.second.fz = true; } else { k.second.ro = true; k.second.many = false; k.second.fz = false; } } t.push_back(y); }); break; }
                case K_NEW: step(o, [&](World& x, std::vector<World>& t, std::string& e) { if (o.v[1] < 0) { e = "a new board was refused"; return; } World y = x; y.live[w] = true; y.dead[w] = false; y.b[w].clear(); t.push_back(y); }); break;
                case K_FREE: step(o, [&](World& x, std::vector<World>& t, std::string& e) { World y = x; if (w == 0) { if (o.v[1] < 0) e = "freeing the global board returned an error"; } else if (x.dead[w]) { if (o.v[1] >= 0) e = "a board was freed twice"; } else { if (o.v[1] < 0) e = "a board could not be freed"; y.live[w] = false; y.dead[w] = true; y.b[w].clear(); } t.push_back(y); }); break;
                case K_RESET: for (auto& x : ws) { x.up = false; x.b[0].clear(); } break;
                case K_CKPT: if (o.v[0] < 0) { if (!ft) { r.violate("a checkpoint failed", "op " + std::to_string(o.op) + ": a checkpoint failed (" + std::to_string(o.v[0]) + ")"); return; } ckpt_uncertain(); } else for (auto& x : ws) { x.hasdisk[x.file] = x.fileok[x.file] = true; x.disk[x.file] = x.up ? x.b[0] : Board(); } break;
                case K_RELOAD: step(o, [&](World& x0, std::vector<World>& t, std::string& e) { World x = x0; if (x.up) { if (o.v[0] >= 0) e = "a reload over an initialised board was accepted"; else t.push_back(x); return; } int f = x.file; if (o.v[0] < 0) { if (x.hasdisk[f] && x.fileok[f] && !ft) { e = "a complete checkpoint could not be reloaded"; return; } t.push_back(x); return; } if (!x.hasdisk[f] || !x.fileok[f]) { e = x.hasdisk[f] ? "an incomplete checkpoint was reloaded" : "a reload without a checkpoint file succeeded"; return; } std::vector<World> u; bool cf; bring_up(x, ft, cf, u); t = u; for (auto& y : u) if (y.b[0].empty()) { World z = y; z.up = false; t.push_back(z); } }); break;
                case K_READ: { const Op* fo = nullptr; for (auto& q : p.ops) if (q.name == "file" && q.A(0) == op->A(1)) fo = &q; if (!fo) break; std::string pk = pkg_of(fo->A(2)); DirFile F = mkfile(salt(p), fo->A(1), pk); int mode = (int)op->A(3);
                    step(o, [&](World& x, std::vector<World>& t, std::string& e) {
                        if (noboard(x)) { if (o.v[1] >= 0) e = "directives were read into a freed board"; else t.push_back(x); return; }
                        if (op->A(2) == 5 || op->A(2) >= (long)F.sec.size()) { if (o.v[1] >= 0) e = op->A(2) == 5 ? "a missing directive file was read" : "a missing section was read"; else t.push_back(x); return; }
                        std::vector<World> u, st; bool cf = false; // the global board comes up with the first definition, before, or not at all
                        bring_up(x, ft, cf, u); st = u; if (!x.up) st.push_back(x); size_t nst = st.size(); if (cf && !isbase(x)) st.push_back(x); // a board of the user's may or may not need the global one
                        std::string why; for (size_t si = 0; si < st.size(); si++) { World z = st[si]; bool errs = false; size_t gen = 0; std::set<std::string> def, asg; int dopt = 0;
                            for (auto& d : F.sec[op->A(2)].second) {
                                if (d.kind == 0) dopt = d.opts;
                                else if (d.kind == 3) errs = true;
                                else if (d.kind == 1) { if (mode == 0 || (d.size == 5 && d.type != CHR) || d.size == 600) { errs = true; continue; } if (!z.up) { if (!u.empty() && !(cf && gen == 0 && o.v[1] < 0 && si + 1 == st.size() && ft) && si < nst) { Board keep[4]; for (int q = 1; q < 4; q++) keep[q] = z.b[q]; z = u[0]; for (int q = 1; q < 4; q++) z.b[q] = keep[q]; } else if (isbase(z) || si >= nst) { errs = true; gen++; continue; } } std::string n = pk + d.name; bool ok = m_put(brd(z), n, d.type, d.size, d.n, (d.hasopt ? d.opts : dopt) | CREATE, Bytes()); if (ok) def.insert(up(n)); else errs = true; }
                                else { std::string n = up(pk + d.name); Board& b = brd(z); auto it = b.find(n); if (it == b.end()) { errs = true; continue; } if (mode == 2 && !def.count(n)) { errs = true; continue; } if (asg.count(n)) { errs = true; continue; } asg.insert(n); Key& k = it->second; int m = std::max(1, k.max); bool bad = false; size_t i = 0; std::vector<Bytes> nv; for (; i < d.lits.size() && (int)i < m; i++) { Bytes q; if (!conv(d.lits[i], d.lit, k.type, k.size, q)) { bad = true; break; } nv.push_back(q); } if (d.lits.size() > (size_t)m) bad = true;
                                    if (bad) { errs = true; for (size_t j = 0; j < std::min<size_t>(m, d.lits.size()); j++) k.known[j] = 0; } else { for (size_t j = 0; j < nv.size(); j++) { k.el[j] = nv[j]; k.known[j] = 1; } k.init = true; k.bad = false; } } }
                            if (errs == (o.v[1] < 0)) t.push_back(z); else why = errs ? "directives with errors were accepted" : "correct directives were refused"; }
                        if (t.empty()) e = why.empty() ? "directives were read although the board could not come up" : why; }); break; }
            }
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { int ok = 0, ck = 0; for (auto& o : r.hist) { if ((o.kind == K_GET || o.kind == K_DUMP) && o.v[1] >= 0) ok++; if (o.kind == K_CKPT && o.v[0] >= 0) ck++; } return p.prop == "H01" ? ok > 0 : ok > 0 && ck > 0; }
    std::string shape(const Plan& p, const Result& r) override { std::string s; int n = 0; for (auto& o : r.hist) { if (o.kind < O_USER || o.kind == K_DUMP) continue; s += (char)('a' + o.kind - O_USER); long rc = o.kind == K_CKPT || o.kind == K_RELOAD ? o.v[0] : o.v[1]; s += rc < 0 ? std::to_string(-rc % 100) : ""; if (++n > 60) break; } return s; }
};
int main(int argc, char** argv) {
    if (argc == 5 && !strcmp(argv[1], "text")) { printf("%s", mkfile(atol(argv[2]), atol(argv[3]), pkg_of(atol(argv[4]))).text.c_str()); return 0; }
    WbH h; return sim::main(argc, argv, h); }
