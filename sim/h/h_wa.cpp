// Word-addressable files, byte streams and the unit table (c_baseio.c).
#include "sim.h"
#include <unistd.h>
#include <algorithm>
extern "C" {
#include "rmn/fnom.h"
void c_waopen(const int iun); void c_waclos(const int iun); void c_waread(const int iun, void* buf, const unsigned int offset, const int nwords); void c_wawrit(const int iun, const void* buf, const unsigned int offset, const int nwords);
void c_openda(const int iun); void c_closda(const int iun); void c_readda(const int iun, int* buf, const int nwords, const int offset);
int32_t waopen2_(const int32_t* iun); void waopen_(const int32_t* iun); int32_t waclos2_(const int32_t* iun); void waclos_(const int32_t* iun);
int32_t wawrit2_(const int32_t* iun, const void* buf, const uint32_t* offset, const int32_t* n); void wawrit_(const int32_t* iun, const void* buf, const uint32_t* offset, const int32_t* n);
int32_t waread2_(const int32_t* iun, void* buf, const uint32_t* offset, const int32_t* n); void waread_(const int32_t* iun, void* buf, const uint32_t* offset, const int32_t* n);
int32_t wasize_(const int32_t* iun); int32_t numblks_(const int32_t* iun); int32_t fclos_(const int32_t* iun);
void openda_(const int32_t* iun); void closda_(const int32_t* iun); void checda_(const int32_t* iun);
void readda_(const int32_t* iun, int32_t* buf, const int32_t* n, const int32_t* offset); void writda_(const int32_t* iun, const int32_t* buf, const int32_t* n, const int32_t* offset);
}
enum { NOCOUNT = -1000 }; // the entry point used does not report how many words moved
using namespace sim;

static uint32_t val(long tag, long i) { uint64_t z = (uint64_t)tag * 0x9e3779b97f4a7c15ull + (uint64_t)i * 0xbf58476d1ce4e5b9ull; z ^= z >> 29; z *= 0x94d049bb133111ebull; z ^= z >> 32; return (uint32_t)z | 1; }

enum { K_OPEN = O_USER, K_WRITE, K_READ, K_SIZE, K_CLOSE, K_BUFMOD };

// ------------------------------------------------------------------ W01
struct WordModel {
    // per file: every word has the set of values a reader may see; a fault-free word has one
    struct W { std::vector<uint32_t> ok; };
    std::vector<W> w;                // current view
    std::vector<uint32_t> cur;       // what the writing process believes
    long durable = 0;                // words of the file known to be on disk
    bool open = false;
    std::vector<char> dirty;         // written since the last point where it was durable
};

struct H : Harness {
    std::vector<std::string> props() override { return { "W01" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed;
        int nf = r.weighted({ 5, 3, 1 }) + 1;
        bool paged = r.chance(0.6);
        if (paged) { p.cfg["ps"] = r.weighted({ 6, 2, 1 }) == 0 ? 1 : r.range(1, 3); p.cfg["nb"] = r.range(1, 4); if (r.chance(0.4)) p.cfg["limit"] = r.range(1, 5); }
        int faultmode = r.weighted({ 4, 3, 3, 2 }); // none, crash, io errors, both
        int n = (int)r.range(4, th ? 60 : 36);
        p.cfg["fclos_only"] = r.chance(0.3);
        p.cfg["da"] = r.chance(0.2);
        p.cfg["api"] = r.weighted({ 3, 2, 1 }); // C, a mixture of the C and Fortran entry points, the ones that report nothing too
        for (int f = 0; f < nf; f++) p.add("open", { f, r.below(2), r.chance(0.2) });
        long tag = 1;
        for (int i = 0; i < n; i++) {
            int k = r.weighted({ 30, 30, 6, 5, 3, 3 });
            long f = r.below(nf);
            long len = r.weighted({ 4, 4, 3, 2 }); len = len == 0 ? r.range(1, 8) : len == 1 ? r.range(1, 600) : len == 2 ? r.range(900, 1100) : r.range(1000, 4200);
            // position: 0 append, 1 inside, 2 hole beyond EOF, 3 page edges, 4 just past EOF (reads)
            long pos = r.weighted({ 4, 5, 1, 5, 1 });
            if (k == 0) p.add("write", { f, pos, r.below(100000), len, tag++ });
            else if (k == 1) p.add("read", { f, pos, r.below(100000), len });
            else if (k == 2) p.add("size", { f });
            else if (k == 3) { p.add("close", { f, r.below(2) }); p.add("open", { f, r.below(2), r.chance(0.2) }); }
            else if (k == 4) p.add("restart");
            else p.add("check", { f });
        }
        for (int f = 0; f < nf; f++) { p.add("close", { f, 0 }); }
        for (int f = 0; f < nf; f++) { p.add("open", { f, 0 }); p.add("check", { f }); }
        if (faultmode) {
            int m = (int)r.range(1, 3);
            for (int i = 0; i < m; i++) {
                static const std::vector<int> io = { F_SHORTW, F_SHORTW, F_ENOSPC, F_EIO_W, F_EIO_R, F_SHORTR, F_EINTR_W, F_EINTR_R };
                int kind = faultmode == 1 ? (r.chance(0.5) ? F_CRASH : F_TORN) : faultmode == 2 ? r.pick(io) : (r.chance(0.4) ? (r.chance(0.5) ? F_CRASH : F_TORN) : r.pick(io));
                bool rd = kind == F_EIO_R || kind == F_SHORTR || kind == F_EINTR_R; std::vector<int> t;
                for (auto& o : p.ops) { int w = rd ? (o.name == "read" || o.name == "check" ? 2 : o.name == "write" && paged ? 1 : 0) : o.name == "write" ? 3 : o.name == "close" ? (paged ? 3 : 0) : o.name == "read" && paged ? 1 : 0; for (int k = 0; k < w; k++) t.push_back(o.id); }
                if (!t.empty()) p.faults.push_back({ r.pick(t), (int)r.range(1, kind == F_CRASH ? 4 : 2), kind, r.range(1, 999) });
            }
        }
        return p;
    }
    static int unit(long f) { return 20 + (int)f; }
    static std::string fname(long f) { return "/sim/wa" + std::to_string(f); }
    void child_begin(const Plan& p) override {
        if (p.C("ps")) { char b[64]; if (p.C("limit")) snprintf(b, 64, "%ld %ld %ld", p.C("ps"), p.C("nb"), p.C("limit")); else snprintf(b, 64, "%ld %ld", p.C("ps"), p.C("nb")); setenv("WA_CONFIG", b, 1); } else unsetenv("WA_CONFIG");
        for (auto& o : isopen) o = false;
    }
    bool isopen[16];
    // which entry point this operation goes through: 0 C, 1 Fortran, 2 C without a report, 3 Fortran without a report, 4-5 direct access
    int style(const Plan& p, const Op& o, long salt = 0) { long a = p.C("api"); if (!a) return 0; uint64_t h = ((uint64_t)o.id * 0x9e3779b97f4a7c15ull + p.seed + salt) >> 20; h ^= h >> 17; return a == 1 ? (int)(h % 2) : (int)(h % 6); }
    long place(const Plan& p, const Op& o, long size, bool wr, long len) {
        long pos = o.A(1), a = o.A(2);
        switch (pos) {
            case 0: return size + 1;
            case 1: return 1 + a % (size + 1);
            case 2: return wr ? size + 1 + a % 2000 : size + 1 + a % 4;
            case 3: { long base = (a / 8 % (size / 1024 + 1)) * 1024 + (a % 8) - 3; base = std::max(1l, std::min(base, size + 1)); return base; }
            default: return wr ? size + 1 : size + a % 4;
        }
    }
    void exec(const Plan& p, const Op& o) override {
        long f = o.A(0) & 15; int iun = unit(f);
        if (o.name == "open") {
            if (isopen[f]) return;
            int u = iun; int e = c_fnom(&u, fname(f).c_str(), o.A(1) ? "RND" : "STD+RND+R/W", 0);
            int e2 = -99; long pre = -1; if (e == 0) { if (o.A(2)) pre = c_wasize(iun); switch (style(p, o)) { case 0: e2 = c_waopen2(iun); break; case 1: e2 = waopen2_(&iun); break; case 2: c_waopen(iun); e2 = 1; break; case 3: waopen_(&iun); e2 = 1; break; case 4: c_openda(iun); e2 = 1; break; default: openda_(&iun); e2 = 1; } }
            if (e == 0 && e2 < 0) c_fclos(iun);
            isopen[f] = e == 0 && e2 >= 0;
            obs(K_OPEN, { f, e, e2 >= 0, isopen[f] ? wasize_(&iun) : -1, pre });
        } else if (o.name == "write") {
            if (!isopen[f]) return;
            long size = c_wasize(iun), len = std::max(1l, std::min(o.A(3), 5000l)), off = std::max(1l, place(p, o, size, true, len));
            bool da = p.C("da") && off % 512 == 1 && len >= 512; if (da) len = len / 512 * 512;
            std::vector<uint32_t> b(len + 2), c; for (long i = 0; i < len; i++) b[i] = val(o.A(4), i); b[len] = b[len + 1] = 0xfeedbeef; c = b;
            obs(O_BEGIN, { f, off, len, o.A(4) });
            int n; uint32_t uo = (uint32_t)off; int st = style(p, o), il = (int)len;
            if (da) { int nb = il / 512, bo = (int)((off - 1) / 512 + 1); if (st & 1) { writda_(&iun, (int*)b.data(), &nb, &bo); checda_(&iun); } else { c_writda(iun, (int*)b.data(), nb, bo); c_checda(iun); } n = NOCOUNT; }
            else switch (st) { case 0: n = c_wawrit2(iun, b.data(), uo, il); break; case 1: n = wawrit2_(&iun, b.data(), &uo, &il); break; case 2: case 4: c_wawrit(iun, b.data(), uo, il); n = NOCOUNT; break; default: wawrit_(&iun, b.data(), &uo, &il); n = NOCOUNT; }
            obs(K_WRITE, { f, off, len, o.A(4), n, c_wasize(iun), b == c });
        } else if (o.name == "read" || o.name == "check") {
            if (!isopen[f]) return;
            long size = c_wasize(iun), len = o.name == "check" ? std::max(size, 1l) : std::max(1l, std::min(o.A(3), 5000l)), off = o.name == "check" ? 1 : std::max(1l, place(p, o, size, false, len));
            std::vector<uint32_t> b(len + 2, 0xabababab);
            obs(O_BEGIN, { f, off, len });
            int n; uint32_t uo = (uint32_t)off; int st = style(p, o), il = (int)len;
            if (p.C("da") && off % 512 == 1 && len >= 512) { len = len / 512 * 512; il = (int)len; b.resize(len + 2); int nb = il / 512, bo = (int)((off - 1) / 512 + 1); if (st & 1) { readda_(&iun, (int*)b.data(), &nb, &bo); checda_(&iun); } else { c_readda(iun, (int*)b.data(), nb, bo); c_checda(iun); } n = NOCOUNT; }
            else switch (st) { case 0: n = c_waread2(iun, b.data(), uo, il); break; case 1: n = waread2_(&iun, b.data(), &uo, &il); break; case 2: case 4: c_waread(iun, b.data(), uo, il); n = NOCOUNT; break; default: waread_(&iun, b.data(), &uo, &il); n = NOCOUNT; }
            obs(K_READ, { f, off, len, n, blob(b.data(), b.size() * 4) });
        } else if (o.name == "size") {
            if (!isopen[f]) return; if (style(p, o) & 1) obs(K_SIZE, { f, wasize_(&iun), numblks_(&iun) }); else obs(K_SIZE, { f, c_wasize(iun), c_numblks(iun) });
        } else if (o.name == "close") {
            if (!isopen[f]) return;
            obs(O_BEGIN, { f });
            int e = 0, e2; if (!(o.A(1) && p.C("fclos_only"))) switch (style(p, o)) { case 0: e = c_waclos2(iun); break; case 1: e = waclos2_(&iun); break; case 2: c_waclos(iun); break; case 3: waclos_(&iun); break; case 4: c_closda(iun); break; default: closda_(&iun); }
            e2 = style(p, o, 7) & 1 ? fclos_(&iun) : c_fclos(iun);
            isopen[f] = false; obs(K_CLOSE, { f, e, e2 });
        }
    }
    void oracle(const Plan& p, Result& r) override {
        struct F { std::vector<uint32_t> cur; std::vector<std::vector<uint32_t>> alt; std::vector<char> dirty; std::vector<int> era; long minsize = 0; bool open = false; bool fuzzy = false; std::map<long, std::vector<uint32_t>> tail; };
        int curinc = 0; std::map<long, F> fs; bool paged = p.C("ps") != 0;
        std::map<int, const Op*> byid; for (auto& o : p.ops) byid[o.id] = &o;
        std::map<int, const Obs*> pend; // begun, not ended (op -> begin)
        auto faulty = [&](int op) { for (auto& f : p.faults) if (f.op == op) return true; return false; };
        auto settle = [&](F& f) { for (size_t i = 0; i < f.cur.size(); i++) if (f.dirty[i] && f.era[i] == curinc) { f.dirty[i] = 0; f.alt[i].clear(); } };
        auto grow = [&](F& f, size_t n) { f.cur.resize(n, 0); f.alt.resize(n); f.dirty.resize(n, 0); f.era.resize(n, 0); };
        auto apply = [&](F& f, long off, long len, long tag, bool sure) {
            long old = (long)f.cur.size();
            if (off + len - 1 > old) { grow(f, off + len - 1); for (long i = old; i < off - 1; i++) { f.dirty[i] = 1; f.era[i] = curinc; } }
            for (long i = 0; i < len; i++) { long k = off - 1 + i; f.alt[k].push_back(k < old ? f.cur[k] : 0); if (k >= old && f.tail.count(k)) f.alt[k].insert(f.alt[k].end(), f.tail[k].begin(), f.tail[k].end()); f.cur[k] = val(tag, i); f.dirty[k] = 1; f.era[k] = curinc; }
            if (sure && !paged) settle(f), f.minsize = (long)f.cur.size();
        };
        // a process ended without closing: written-but-not-settled words may or may not have reached the disk
        auto lost = [&]() {
            for (auto& kv : fs) { F& f = kv.second; if (!f.open) continue; f.open = false; f.fuzzy = true; }
        };
        for (size_t i = 0; i < r.hist.size(); i++) {
            const Obs& o = r.hist[i];
            if (o.inc != curinc) { curinc = o.inc; lost(); }
            if (o.kind == O_BEGIN) { pend[o.op] = &r.hist[i]; continue; }
            switch (o.kind) {
                case O_SIGNAL: r.violate("signal", std::string("process killed by a signal: ") + o.s); return;
                case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress"); return;
                case O_HEAP: r.violate("heap", o.s); return;
                case O_EXIT: {
                    // the library may end the process only when an I/O fault was injected in this op
                    if (!faulty(o.op)) { r.violate("unexpected-exit", "library called exit(" + std::to_string(o.v[0]) + ") without any injected fault in op " + std::to_string(o.op)); return; }
                } // fallthrough
                case O_CRASH: {
                    auto b = pend.find(o.op);
                    if (b != pend.end() && byid.count(o.op) && byid[o.op]->name == "write") { F& f = fs[b->second->v[0]]; apply(f, b->second->v[1], b->second->v[2], b->second->v[3], false); }
                    lost(); pend.erase(o.op); continue;
                }
                case O_DONE: continue;
            }
            F* fp = o.kind >= O_USER ? &fs[o.v[0]] : nullptr;
            if (!fp) continue;
            F& f = *fp; std::string at = " (op " + std::to_string(o.op) + ", file " + std::to_string(o.v[0]) + ")";
            // restart is not observed; detect by incarnation change
            switch (o.kind) {
                case K_OPEN: {
                    if (o.v[1] != 0 || !o.v[2]) { if (!faulty(o.op)) { r.violate("open-failed", "open failed without a fault" + at); return; } break; }
                    long sz = o.v[3];
                    if (o.v[4] >= 0 && o.v[4] != sz && !faulty(o.op)) { r.violate("size", "size before opening is " + std::to_string(o.v[4]) + ", after " + std::to_string(sz) + at); return; }
                    if (!f.fuzzy) { if (sz != (long)f.cur.size()) { r.violate("size", "size after reopening is " + std::to_string(sz) + ", expected " + std::to_string(f.cur.size()) + at); return; } }
                    else {
                        if (sz < f.minsize || sz > (long)f.cur.size()) { r.violate("size-crash", "size after a crash is " + std::to_string(sz) + ", outside [" + std::to_string(f.minsize) + "," + std::to_string(f.cur.size()) + "]" + at); return; }
                        long old = (long)f.cur.size(); for (long k = f.minsize; k < old; k++) { f.alt[k].push_back(0); f.dirty[k] = 1; f.era[k] = curinc - 1; }
                        if (sz < old) { f.tail[sz] = f.alt[sz]; f.tail[sz].push_back(f.cur[sz]); } // a torn last word may remain on disk
                        grow(f, sz);
                    }
                    f.open = true; break;
                }
                case K_WRITE: {
                    pend.erase(o.op);
                    if (!o.v[6]) { r.violate("caller-buffer", "the caller's buffer changed" + at); return; }
                    long old = (long)f.cur.size();
                    if (o.v[4] != o.v[2] && o.v[4] != NOCOUNT) { r.violate("write-count", "write returned " + std::to_string(o.v[4]) + at); return; }
                    apply(f, o.v[1], o.v[2], o.v[3], true);
                    if (!f.fuzzy && o.v[5] != (long)f.cur.size()) { r.violate("size", "size after write is " + std::to_string(o.v[5]) + ", expected " + std::to_string(f.cur.size()) + " was " + std::to_string(old) + at); return; }
                    break;
                }
                case K_READ: {
                    pend.erase(o.op);
                    long off = o.v[1], len = o.v[2], n = o.v[3], sz = (long)f.cur.size();
                    long want = off > sz + 2 ? -2 : sz == 0 ? 0 : std::max(0l, std::min(len, sz - off + 1));
                    if (n == NOCOUNT) n = std::max(0l, want);
                    if (n != want && !(want == -2 && n == 0 && o.v[3] == NOCOUNT)) { r.violate("read-count", "read of " + std::to_string(len) + " at " + std::to_string(off) + " returned " + std::to_string(n) + ", expected " + std::to_string(want) + ", size " + std::to_string(sz) + at); return; }
                    const uint32_t* b = (const uint32_t*)blob_at(o.v[4]);
                    for (long k = 0; k < n; k++) {
                        size_t w = off - 1 + k;
                        if (b[k] == f.cur[w]) { if (f.fuzzy && f.era[w] != curinc) f.alt[w].clear(); continue; }
                        bool ok = false; if (f.fuzzy && f.dirty[w] && f.era[w] != curinc) { ok = true; for (int y = 0; y < 32; y += 8) { uint32_t by = b[k] >> y & 255; bool in = by == (f.cur[w] >> y & 255); for (uint32_t x : f.alt[w]) in |= by == (x >> y & 255); ok &= in; } } // a torn write may end inside a word
                        if (ok) { f.cur[w] = b[k]; f.alt[w].clear(); continue; }
                        char m[160]; snprintf(m, 160, "word %zu reads 0x%08x, expected 0x%08x%s", w + 1, b[k], f.cur[w], at.c_str());
                        r.violate(f.fuzzy ? "wrong-data-after-crash" : "wrong-data", m); return;
                    }
                    for (long k = std::max(0l, n); k < len + 2; k++) if (b[k] != 0xabababab) { r.violate("read-overrun", "words beyond the returned count were changed" + at); return; }
                    break;
                }
                case K_SIZE: if (o.v[1] != (long)f.cur.size() || o.v[2] != ((long)f.cur.size() + 255) / 256) { r.violate("size", "size query returned " + std::to_string(o.v[1]) + " words, " + std::to_string(o.v[2]) + " blocks; expected " + std::to_string(f.cur.size()) + at); return; } break;
                case K_CLOSE:
                    pend.erase(o.op);
                    if ((o.v[1] || o.v[2]) && !faulty(o.op)) { r.violate("close-failed", "close failed" + at); return; }
                    f.open = false; settle(f); f.minsize = (long)f.cur.size(); break;
            }
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { int w = 0, rd = 0; for (auto& o : r.hist) { if (o.kind == K_WRITE) w++; if (o.kind == K_READ && (o.v[3] > 0 || o.v[3] == NOCOUNT)) rd++; } return w >= 2 && rd >= 1; }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
