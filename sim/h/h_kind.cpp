// What kind of file a file is (wkoffit.c, c_fstcheck, c_burpcheck).
#include "sim.h"
#include <algorithm>
#include <alloca.h>
extern "C" {
#include <rmn/burp.h>
#include <rmn/c_wkoffit.h>
int c_fnom(int*, const char*, const char*, int); int c_fclos(int);
int c_fstouv(int, char*); int c_fstfrm(int); int c_fstcheck(const char*); int c_burpcheck(const char*); int32_t fstcheck_(char*, int);
int c_fstecr(void*, void*, int, int, int, int, int, int, int, int, int, int, int, char*, char*, char*, char*, int, int, int, int, int, int);
int fio_write(int, const int*, int); void _gfortran_set_convert(int);
}
using namespace sim;
enum { K_ASK = O_USER, K_MADE, K_CHECK };
enum { ANY = -1000, NOT = -2000 }; // NOT - k: anything but k
// the shortest file that can hold the signature of a kind
static long least(int k) { switch (k) { case 36: return 17; case 37: return 25; case 1: return 8; case 2: return 120; case 3: return 124; case 4: return 72; case 5: return 12; case 39: return 24; case 40: return 20; case 7: case 8: case 9: case 35: return 4; case 38: return 8; case 41: return 15; case 10: return 9; case 12: case 13: return 6; case 30: return 1 << 30; case 22: return 2; case 16: case 24: return 6; case 23: return 2; case 18: return 3; case 33: case 34: case 6: return 16; default: return 8; } }
static uint64_t fnv(const std::vector<uint8_t>& v) { uint64_t h = 1469598103934665603ull; for (uint8_t c : v) h = (h ^ c) * 1099511628211ull; return h >> 1; }

// ------------------------------------------------------------------ files of known kinds, by their published signatures
struct T { const char* what; int kind; };
static const T tmpl[] = { { "unknown text", -1 }, { "empty", -2 }, { "archive 4", 36 }, { "archive 5", 37 }, { "random 89", 1 }, { "sequential 89", 2 }, { "sequential Fortran 89", 3 }, { "CCRN", 4 }, { "CCRN-RPN", 5 },
    { "RSF standard", 39 }, { "RSF", 40 }, { "GRIB", 7 }, { "BUFR", 8 }, { "netCDF", 35 }, { "netCDF 64", 35 }, { "HDF5", 38 }, { "BLOK", 9 }, { "SQLite", 41 }, { "Fortran", 10 }, { "GIF87", 13 }, { "GIF89", 12 }, { "Sun raster", 26 }, { "XWD", 30 }, { "PPM", 22 },
    { "PBM", 17 }, { "KMW", 16 }, { "KMW colour", 24 }, { "PostScript", 23 }, { "PCL", 18 }, { "PM", 21 }, { "XBM", 29 }, { "BMP", 32 }, { "Utah RLE", 28 }, { "IRIS", 14 }, { "compress", 11 }, { "PCX", 19 }, { "JPEG", 15 }, { "TIFF", 27 }, { "PDS/VICAR", 20 }, { "sequential 98", 34 }, { "standard header only", -4 }, { "report header only", -4 }, { "short unknown", -1 }, { "binary unknown", -1 }, { "PCL graphics", 18 }, { "text in pieces", ANY }, { "escape sequences", ANY } };
static const int NT = sizeof tmpl / sizeof *tmpl;
static void be(std::vector<uint8_t>& v, size_t at, uint32_t w) { if (v.size() < at + 4) v.resize(at + 4, 'q'); for (int i = 0; i < 4; i++) v[at + i] = w >> (24 - 8 * i); }
static void str(std::vector<uint8_t>& v, size_t at, const std::string& s) { if (v.size() < at + s.size()) v.resize(at + s.size(), 'q'); memcpy(&v[at], s.data(), s.size()); }
static std::vector<uint8_t> make(int t, Rng& r, long size) {
    std::vector<uint8_t> v(std::max(size, 130l)); for (auto& c : v) c = r.chance(.04) ? '\n' : r.chance(.2) ? '0' + (int)r.below(10) : 'a' + (int)r.below(26);
    if (v[0] == '\n') v[0] = 'x';
    auto ftn = [&](bool small) { uint32_t l = small ? (uint32_t)r.range(1, (long)v.size() - 8) : (uint32_t)r.range(124, (long)v.size()); be(v, 0, l); be(v, l + 4, l); };
    switch (t) {
        case 1: v.clear(); break; case 2: str(v, 9, "CMCARCHS"); break; case 3: str(v, 17, "CMCARCH5"); break;
        case 4: be(v, 0, 0x55555555); be(v, 4, 0x55555555); break; case 5: be(v, 112, 0xaaaaaaaa); be(v, 116, 0xaaaaaaaa); break;
        case 6: ftn(false); be(v, 116, 0xaaaaaaaa); be(v, 120, 0xaaaaaaaa); break;
        case 7: be(v, 0, 64); be(v, 68, 64); be(v, 8, 0x20202020); break;
        case 8: { uint32_t l = (uint32_t)r.range(12, (long)v.size()); be(v, 0, l); be(v, l + 4, l); be(v, 8, 0x504b3834); break; }
        case 9: str(v, 16, "RSF0STDR"); break; case 10: str(v, 16, "RSF0"); str(v, 20, r.chance(.5) ? "abcd" : "STDS"); break;
        case 11: str(v, 0, "GRIB"); break; case 12: str(v, 0, "BUFR"); break; case 13: str(v, 0, "CDF\001"); break; case 14: str(v, 0, "CDF\002"); break;
        case 15: str(v, 0, "\x89HDF\x0d\x0a\x1a\x0a"); break; case 16: str(v, 0, "BLOK"); break; case 17: str(v, 0, std::string("SQLite format 3\0", 16)); break;
        case 18: { ftn(true); break; }
        case 19: str(v, 0, "GIF87a"); break; case 20: str(v, 0, "GIF89a"); break;
        case 21: be(v, 0, 0x59a66a95); be(v, 24, r.below(2)); break;
        case 22: { uint32_t h = (uint32_t)r.range(100, 110), nc = (uint32_t)r.below(20), bl = (uint32_t)r.range(1, 60), ht = (uint32_t)r.range(1, 40); v.resize(h + nc * 12 + bl * ht, 'x'); be(v, 0, h); be(v, 4, 7); be(v, 20, ht); be(v, 48, bl); be(v, 76, nc); break; }
        case 23: str(v, 0, r.chance(.5) ? "P3" : "P6"); break; case 24: { static const char* q[] = { "P1", "P2", "P4", "P5" }; str(v, 0, q[r.below(4)]); break; }
        case 25: case 26: { std::string h = "plot"; for (int i = (int)r.below(120); i > 0; i--) h += (char)('a' + r.below(26)); if (r.chance(.3)) h += '\n'; h += "xyzzy "; char b[16]; snprintf(b, 16, "%04d%04d%d", (int)r.range(1, 9999), (int)r.range(1, 9999), t == 26 ? 3 : r.chance(.5) ? 1 : 2); h += b; h += "\n"; for (int i = (int)r.below(100); i > 0; i--) h += (char)(r.chance(.2) ? 0x80 + r.below(128) : 'a' + r.below(26)); h += "PLOT$Z"; str(v, 0, h); break; }
        case 27: str(v, 0, r.chance(.5) ? "%!PS-Adobe-3.0\n%%Title: x\n" : "%!PS\n\n/a 1 def\n"); if (r.chance(.3)) str(v, 0, "\033%-12345X@PJL enter LANGUAGE=POSTSCRIPT\n"); break;
        case 28: str(v, 0, "\033%-12345X@PJL SET COPIES=1\n"); break;
        case 29: str(v, 0, r.chance(.5) ? "VIEW" : "WEIV"); break; case 30: str(v, 0, "#define x_width 3\n"); break; case 31: str(v, 0, "BM"); break; case 32: str(v, 0, "\x52\xcc"); break;
        case 33: str(v, 0, r.chance(.5) ? "\x01\xda" : "\xda\x01"); break; case 34: str(v, 0, "\x1f\x9d"); break; case 35: str(v, 0, "\x0a"); v[1] = (uint8_t)r.below(6); break; case 36: str(v, 0, "\xff\xd8\xff"); break;
        case 37: str(v, 0, r.chance(.5) ? "MM" : "II"); break; case 38: { static const char* q[] = { "NJPL1I00", "zzNJPL1I", "CCSD3ZF", "xxCCSD3Z", "LBLSIZE=" }; str(v, 0, q[r.below(5)]); break; }
        case 39: str(v, 12, "STDS"); break; case 40: str(v, 12, "STDR"); break; case 41: str(v, 12, r.chance(.5) ? "BRP0" : "bRp0"); break;
        case 42: v.resize(r.range(1, 40)); break; case 43: for (auto& c : v) c = 0xf0 + (uint8_t)r.below(14); break;
        case 45: case 46: { static const char* q[] = { "%%", "%!", "%", "/", "\n", "\n", "\n\n", "\033", "\033E", "\033*", "\033&", "\033(s", "\033)f", "\033*c", "\033*b", "\033&a+", "W", "12", "-3", " + 4", ".5", "X", "\033%-12345X@PJL", " LANGUAGE=POSTSCRIPT", "#define", "P", "PLOT$", "Z", "abc", "%%Title: x\n", "%!PS\n", "\033*p", "\033*t", "\xff", "\377\330", "II", "MM", "\032" }; std::string z; for (int i = (int)r.range(1, 40); i > 0; i--) z += q[t == 46 && r.chance(.7) ? 7 + r.below(15) : r.below(38)]; if (r.chance(.2)) { std::string y; for (int i = 0; i < 70; i++) y += r.chance(.7) ? "%% c\n" : "\n"; z = y + z; } if (r.chance(.2)) z += std::string(r.range(1, 700), r.chance(.5) ? ' ' : 'a'); v.assign(z.begin(), z.end()); break; }
        case 44: str(v, 0, "text \033*"); str(v, 7, r.chance(.5) ? "r1A" : "b20W"); break;
    }
    return v;
}
// what is on the stack before the call is not the file's business
static __attribute__((noinline)) void smear(long style, uint64_t seed) {
    if (!style) return; const size_t N = 40000; volatile uint8_t* b = (volatile uint8_t*)alloca(N); static const char* pat[] = { "RDTS", "SDTS", "0PRB", "0FSR", "CMCARCHS", "CMCARCH5", "GIF89a", "PLOT$Z", "\xaa\xaa\xaa\xaa", "\x55\x55\x55\x55", "\x40\0\0\0    ", "BIRG", "RFUB", "\003\0\0\0", "SQLite format 3" };
    Rng r(seed); if (style == 1) { for (size_t i = 0; i < N; i++) b[i] = 0; return; } if (style == 2) { uint8_t x = (uint8_t)r.next(); for (size_t i = 0; i < N; i++) b[i] = x; return; } if (style == 3) { for (size_t i = 0; i < N; i++) b[i] = (uint8_t)r.next(); return; }
    const char* p = pat[r.below(15)]; size_t l = strlen(p), k = r.below(8); if (p[0] == '\x40') l = 8; if (p[0] == 3) l = 4; for (size_t i = 0; i < N; i++) b[i] = p[(i + k) % l];
}

struct H : Harness {
    static const int NF = 6; struct S { int exp[NF]; }; S* S_() { return (S*)shared_user(sizeof(S)); }
    std::vector<std::string> props() override { return { "K01" }; }
    static std::string fname(long f) { return "/sim/k" + std::to_string(f); }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; int mode = r.weighted({ 5, 5 }); int n = (int)r.range(8, th ? 80 : 44); int nf = (int)r.range(2, NF);
        p.cfg["smear"] = r.weighted({ 3, 7 });
        auto ask = [&](long f) { p.add(r.chance(.08) ? "check" : "ask", { f, r.below(4), p.cfg["smear"] ? r.weighted({ 2, 2, 2, 3, 6 }) : 0, r.below(1 << 20) }); };
        auto mk = [&](long f) { p.add("make", { f, r.chance(.1) ? 45 + r.below(2) : r.below(NT), r.below(1 << 20), r.chance(.6) ? r.range(130, 400) : r.chance(.6) ? r.range(400, 4096) : r.range(4000, 12000) }); };
        for (int i = 0; i < n; i++) {
            long f = r.below(nf);
            switch (r.weighted({ 22, 5, 8, 4, 8, 4, 2, 40, 3 })) {
                case 0: mk(f); ask(f); break; case 1: p.add("lib", { f, r.below(4), r.below(1 << 20) }); ask(f); break;
                case 2: p.add("trunc", { f, r.chance(.5) ? r.below(40) : r.below(2000) }); ask(f); if (r.chance(.5)) { ask(r.below(nf)); ask(f); } break;
                case 3: p.add("append", { f, r.below(1 << 20), r.range(1, 3000) }); ask(f); break;
                case 4: p.add("poke", { f, r.chance(.7) ? r.below(130) : r.below(5000), r.below(256) }); ask(f); break;
                case 5: p.add("copy", { f, r.below(nf) }); ask(f); break; case 6: p.add("remove", { f }); ask(f); break;
                case 7: ask(f); break; default: p.add("restart"); ask(f); break;
            }
        }
        for (int f = 0; f < nf; f++) ask(f);
        if (mode) for (int i = (int)r.range(1, 3); i > 0; i--) {
            static const std::vector<int> ik = { F_EIO_R, F_SHORTR, F_SHORTR, F_EINTR_R, F_EOPEN, F_ENOMEM, F_CRASH }; std::vector<int> t; for (auto& o : p.ops) if (o.name == "ask" || o.name == "check") t.push_back(o.id);
            p.faults.push_back({ r.pick(t), (int)r.range(1, 8), r.pick(ik), r.range(1, 999) });
        }
        return p;
    }
    void child_begin(const Plan& p) override { _gfortran_set_convert(2); /* what -fconvert=big-endian does in a Fortran main program */ }
    void put(long f, const std::vector<uint8_t>& v, int exp) { fs_put(fname(f), v.data(), v.size()); S_()->exp[f] = exp; }
    void exec(const Plan& p, const Op& o) override {
        long f = o.A(0) % NF; S* st = S_(); std::vector<uint8_t> v; bool there = fs_get(fname(f), v);
        if (o.name == "make") { Rng r(o.A(2) * 77 + 5); int t = (int)(o.A(1) % NT); put(f, make(t, r, o.A(3)), tmpl[t].kind); }
        else if (o.name == "lib") {
            int k = (int)(o.A(1) % 4); fs_remove(fname(f)); int u = 0, e = 0; Rng r(o.A(2)); static const char* at[] = { "STD+RND+R/W", "STD+SEQ+R/W", "RND+R/W", "FTN+UNF+R/W" };
            e = c_fnom(&u, fname(f).c_str(), at[k], 0); int d[400]; for (auto& x : d) x = (int)r.next();
            if (k < 2) { e |= c_fstouv(u, (char*)(k ? "SEQ" : "RND")) < 0; for (int i = (int)r.below(4); i > 0; i--) e |= c_fstecr(d, nullptr, -32, u, 0, 0, 0, (int)r.range(1, 20), 20, 1, i, 0, 0, (char*)"P", (char*)"TT", (char*)"LBL", (char*)"X", 0, 0, 0, 0, 2, 0) < 0; e |= c_fstfrm(u); c_fclos(u); }
            else if (k == 2) { e |= c_mrfopn(u, (char*)"CREATE") < 0; std::vector<int32_t> b(400, 0); b[0] = 400; for (int i = (int)r.range(1, 3); i > 0; i--) { e |= c_mrbini(u, b.data(), 1200, 0, (char*)"STN000001", 32, 1000, 2000, 0, 0, 0, 0, 20260115, 0, 0, nullptr, 0, nullptr, 0) < 0; e |= c_mrfput(u, 0, b.data()) < 0; } e |= c_mrfcls(u); c_fclos(u); }
            else { for (int i = (int)r.range(1, 3); i > 0; i--) e |= fio_write(u, d, (int)r.range(1, 400)); c_fclos(u); }
            static const int kd[] = { 33, 34, 6, 10 }; st->exp[f] = e ? ANY : kd[k]; obs(K_MADE, { f, e, k });
        } else if (o.name == "trunc") { if (!there) return; long n = o.A(1) % ((long)v.size() + 1), old = (long)v.size(); int e = st->exp[f]; v.resize(n); if (n < old) e = n == 0 ? -2 : (e == 33 || e == 6 || e == -4) && n >= 16 ? -4 : e > 0 && n < least(e) ? NOT - e : ANY; put(f, v, e); }
        else if (o.name == "append") { if (!there) return; int e = st->exp[f]; Rng r(o.A(1)); bool was = !v.empty(); for (long i = o.A(2); i > 0; i--) v.push_back('a' + (int)r.below(26)); if (e == 30) e = NOT - 30; else if (!was || e <= NOT || e == -1 || e == 10 || e == 5 || e == 3) e = ANY; if (e == 33 || e == 6 || e == -4) e = -4; put(f, v, e); }
        else if (o.name == "poke") { if (v.empty()) return; v[o.A(1) % v.size()] = (uint8_t)o.A(2); put(f, v, ANY); }
        else if (o.name == "copy") { long g = o.A(1) % NF; if (g == f) return; std::vector<uint8_t> w; if (!fs_get(fname(g), w)) return; put(f, w, st->exp[g]); }
        else if (o.name == "remove") { if (there) fs_remove(fname(f)); }
        else if (o.name == "ask" || o.name == "check") {
            int exp = there ? st->exp[f] : -3; long style = o.A(1) & 3; std::string nm = fname(f); if (style & 1) nm = "+" + nm; if (style & 2) nm += std::string(1 + o.A(3) % 9, ' '); uint64_t h = there ? fnv(v) : 1; int fd0 = open_files();
            obs(O_BEGIN, { f, exp }); std::vector<uint8_t> w;
            if (o.name == "check") { smear(o.A(2), o.A(3)); int k = style & 1 ? c_fstcheck(fname(f).c_str()) : style == 2 ? fstcheck_((char*)nm.c_str(), (int)nm.size()) : c_burpcheck(fname(f).c_str()); bool now = fs_get(fname(f), w); obs(K_CHECK, { f, k, exp, (int64_t)h, (long)v.size(), now == there && v == w, open_files() - fd0, style }); return; }
            arm_alloc(200, 600); smear(o.A(2), o.A(3)); int k = c_wkoffit(nm.c_str(), (int)nm.size()); arm_alloc(0, 0);
            bool now = fs_get(fname(f), w); obs(K_ASK, { f, k, exp, (int64_t)h, (long)v.size(), now == there && v == w, open_files() - fd0, style });
        }
    }
    void oracle(const Plan& p, Result& r) override {
        std::map<int64_t, std::pair<long, int>> seen, seenc; auto flt = [&](int op) { int k = 0; for (auto& f : p.faults) if (f.op == op) k |= f.kind == F_SHORTR ? 1 : 2; return k; };
        for (auto& o : r.hist) {
            std::string at = " (op " + std::to_string(o.op) + ", file " + std::to_string(o.v[0]) + ")";
            switch (o.kind) {
                case O_SIGNAL: r.violate("signal", std::string("process killed by a signal: ") + o.s); return;
                case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress"); return; case O_HEAP: r.violate("heap", o.s); return;
                case O_EXIT: r.violate("unexpected-exit", "the library ended the process in op " + std::to_string(o.op)); return;
                case K_MADE: if (o.v[1]) { r.violate("not-made", "a file could not be made without any fault" + at); return; } break;
                case K_ASK: case K_CHECK: {
                    bool ck = o.kind == K_CHECK; if (!o.v[5]) { r.violate("changed", "asking for the kind of a file changed it" + at); return; }
                    if (o.v[6]) { r.violate("left-open", "asking for the kind of a file left " + std::to_string(o.v[6]) + " descriptors open" + at); return; }
                    if (flt(o.op) & 2) break; long e = o.v[2];
                    if (ck) { if (e == ANY || e <= NOT) {} else { bool good = e == 33 || e == 6 || e == 34; if (good && o.v[1] < 0 && e != 34) { r.violate("check", "a good file is said damaged (" + std::to_string(o.v[1]) + ")" + at); return; } if ((e == -4 || e == -3 || e == -2) && o.v[1] >= 0) { r.violate("check", "a damaged or missing file is said good" + at); return; } } }
                    else if (e <= NOT) { if (o.v[1] == NOT - e) { r.violate("wrong-kind", "a file of " + std::to_string(o.v[4]) + " bytes that does not have the signature of kind " + std::to_string(o.v[1]) + " is said of that kind" + at); return; } }
                    else if (e != ANY && o.v[1] != e) { r.violate("wrong-kind", "the kind is " + std::to_string(o.v[1]) + ", expected " + std::to_string(e) + ", " + std::to_string(o.v[4]) + " bytes" + at); return; }
                    auto& m = ck ? seenc : seen; auto i = m.find(o.v[3]); if (i == m.end()) m[o.v[3]] = { o.v[1], o.op }; else if (i->second.first != o.v[1]) { r.violate("inconsistent", "the kind of the same bytes (" + std::to_string(o.v[4]) + ") was " + std::to_string(i->second.first) + " in op " + std::to_string(i->second.second) + " and is now " + std::to_string(o.v[1]) + at); return; }
                    break;
                }
            }
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { std::set<long> k; int n = 0; for (auto& o : r.hist) if (o.kind == K_ASK) { n++; k.insert(o.v[1]); } return n >= 4 && k.size() >= 3; }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
