// Binary files read and written in big-endian order through stdio (fread32.c).
#include "sim.h"
#include <stdio.h>
#include <string.h>
#include <algorithm>
extern "C" {
size_t fread16(void*, size_t, size_t, FILE*); size_t fread32(void*, size_t, size_t, FILE*); size_t fread64(void*, size_t, size_t, FILE*);
size_t fwrite16(void*, size_t, size_t, FILE*); size_t fwrite32(void*, size_t, size_t, FILE*); size_t fwrite64(void*, size_t, size_t, FILE*);
}
using namespace sim;
static std::string S(long x) { return std::to_string(x); }
enum { K_BAD = O_USER, K_OP };
static void bad(const char* what, long a = 0, long b = 0, long c = 0) { obs(K_BAD, { a, b, c }, what); }
typedef std::vector<uint8_t> V;
static size_t rd(int w, void* p, size_t s, size_t n, FILE* f) { return w == 2 ? fread16(p, s, n, f) : w == 4 ? fread32(p, s, n, f) : fread64(p, s, n, f); }
static size_t wr(int w, void* p, size_t s, size_t n, FILE* f) { return w == 2 ? fwrite16(p, s, n, f) : w == 4 ? fwrite32(p, s, n, f) : fwrite64(p, s, n, f); }
struct H : Harness {
    std::vector<std::string> props() override { return { "R01" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; long n = r.range(6, th ? 60 : 30); int fm = r.below(3);
        static const int W[] = { 2, 4, 8 }; int big = r.chance(.3);
        auto count = [&] { return r.chance(.1) ? 0 : big && r.chance(.4) ? r.chance(.1) ? r.range(20000, 40000) : r.range(500, 3000) : r.range(1, 40); };
        if (r.chance(.9)) p.add("open", { (long)r.below(2), 3 });
        for (long i = 0; i < n; i++) { int w = W[r.below(3)]; switch (r.weighted({ 2, 8, 8, 5, 1 })) {
            case 0: p.add("open", { (long)r.below(2), r.chance(.6) ? 1 : r.below(4) }); break;
            case 1: p.add("write", { w, r.range(1, 3), count(), (long)r.below(100000), r.chance(.06) }); break;
            case 2: p.add("read", { w, r.range(1, 3), count(), 0, r.chance(.06) }); break;
            case 3: p.add("seek", { (long)r.below(3), (long)r.below(big ? 9000 : 200) }); break;
            default: p.add("close");
        } }
        p.cfg["fm"] = fm; if (fm) for (long i = r.range(1, 4); i > 0; i--) {
            std::vector<int> t; for (auto& o : p.ops) if (o.name == "read" || o.name == "write" || o.name == "close" || o.name == "open") t.push_back(o.id); if (t.empty()) break;
            static const int K[] = { F_SHORTW, F_EIO_W, F_ENOSPC, F_EIO_R, F_SHORTR, F_EOPEN }; Fault f{ r.pick(t), (int)r.range(1, 4), fm == 1 ? F_SHORTR : K[r.below(6)], r.range(1, 999) }; p.faults.push_back(f);
        }
        return p;
    }
    V disk[2]; FILE* f; int cur, mode, last; long pos; bool lost[2];
    bool hard; int fired() { return hard ? faults_fired() : 0; }
    void child_begin(const Plan& p) override { hard = p.C("fm") == 2; f = nullptr; disk[0].clear(); disk[1].clear(); lost[0] = lost[1] = false; last = 0; }
    static std::string path(int k) { return "/sim/bin" + S(k); }
    void close() { if (!f) return; int ff = fired(); FILE* g = f; f = nullptr; if (fclose(g)) lost[cur] = true; if (fired() > ff) lost[cur] = true; check(); }
    // what the file holds on the disk
    void check() {
        if (lost[cur]) return; no_faults(true); V d; FILE* g = fopen(path(cur).c_str(), "rb"); if (g) { uint8_t b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, g)) > 0) d.insert(d.end(), b, b + n); fclose(g); } no_faults(false);
        if (d != disk[cur]) { size_t i = 0; while (i < d.size() && i < disk[cur].size() && d[i] == disk[cur][i]) i++; bad("the file does not hold what was written", cur, (long)i, (long)d.size() - (long)disk[cur].size()); lost[cur] = true; }
    }
    void exec(const Plan&, const Op& o) override {
        int ff = fired();
        if (o.name == "open") {
            close(); cur = (int)o.A(0) & 1; static const char* M[] = { "wb", "r+b", "rb", "w+b" }; mode = (int)o.A(1) & 3; f = fopen(path(cur).c_str(), M[mode]); if (!f && mode == 1 && fired() == ff) f = fopen(path(cur).c_str(), M[mode = 3]);
            if (f && (mode == 0 || mode == 3)) { disk[cur].clear(); lost[cur] = false; } pos = 0; last = 0; if (fired() > ff) lost[cur] = true;
        } else if (o.name == "close") close();
        else if (!f) {}
        else if (o.name == "seek") { V& d = disk[cur]; pos = o.A(0) ? std::min<long>(d.size(), o.A(1)) : 0; if (fseek(f, pos, SEEK_SET) || fired() > ff) lost[cur] = true; last = 0; }
        else {
            int w = (int)o.A(0); size_t size = w * o.A(1), n = o.A(2); bool wrong = o.A(4); if (wrong) size = w == 2 ? 2 * o.A(1) - 1 : 4 * o.A(1) - 1 - o.A(2) % 3;
            V& d = disk[cur]; Rng r(o.A(3) + 1); std::vector<uint64_t> room(size * n / 8 + 8); uint8_t* b = (uint8_t*)room.data(); size_t total = room.size() * 8;
            for (size_t i = 0; i < total; i++) b[i] = o.name == "read" ? 0xa0 + i % 50 : (uint8_t)r.below(256);
            V was(b, b + total); bool write = o.name == "write"; if (!wrong && (write ? mode == 2 : mode == 0)) { size_t k = write ? wr(w, b, size, n, f) : rd(w, b, size, n, f); clearerr(f); if (k) bad("items on a file not open for that", w, k, n); if (V(b, b + total) != was) bad("the array was changed by a failed call", w); if (fired() > ff) lost[cur] = true; close(); return; }
            if (last && last != 1 + write) { if (fseek(f, pos, SEEK_SET)) lost[cur] = true; } last = 1 + write;
            size_t k = write ? wr(w, b, size, n, f) : rd(w, b, size, n, f); bool fault = fired() > ff || lost[cur];
            if (wrong) { if (k != (size_t)-1) bad("a wrong size of items was accepted", w, size); if (V(b, b + total) != was) bad("the array was changed by a refused call", w); return; }
            if (write) {
                if (V(b, b + total) != was) bad("the array written was changed", w, size, n);
                if (!fault && k != n) bad("items were not written", w, k, n);
                if (k > n) bad("more items written than asked", w, k, n);
                if (k < n || fault) { lost[cur] = true; return; }
                V be(was.begin(), was.begin() + size * n); for (size_t i = 0; i < be.size(); i += w) std::reverse(be.begin() + i, be.begin() + i + w);
                if (d.size() < pos + be.size()) d.resize(pos + be.size()); std::copy(be.begin(), be.end(), d.begin() + pos); pos += be.size();
                obs(K_OP, { 1, (long)n });
            } else {
                if (k > n) { bad("more items read than asked", w, k, n); return; }
                // nothing changes beyond the item that could not be read whole
                for (size_t i = std::min((k + 1) * size, n * size); i < total; i++) if (b[i] != was[i]) { bad("the array was changed beyond the items read", w, k, n); break; }
                if (lost[cur]) return;
                size_t have = size && pos < (long)d.size() ? (d.size() - pos) / size : 0; if (have > n) have = n;
                if (!fault && k != have) bad("wrong number of items read", w, k, have);
                if (k > have) { bad("items were read that the file does not hold", w, k, have); return; }
                for (size_t i = 0; i < k * size; i++) if (b[i / w * w + (w - 1 - i % w)] != d[pos + i]) { bad("wrong data read", w, i, size); break; }
                if (k == n) pos += k * size; else { pos = 0; if (fseek(f, 0, SEEK_SET)) lost[cur] = true; last = 0; }
                obs(K_OP, { 2, (long)k });
            }
        }
    }
    void child_end(const Plan&) override { close(); }
    void oracle(const Plan& p, Result& r) override {
        for (auto& o : r.hist) switch (o.kind) {
            case O_SIGNAL: r.violate("signal", std::string("process killed by a signal: ") + o.s); return;
            case O_EXIT: r.violate("exit", "the library ended the process, op " + S(o.op)); return;
            case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress"); return;
            case O_HEAP: r.violate("heap", o.s); return;
            case K_BAD: r.violate(o.s, std::string(o.s) + " " + S(o.v[0]) + " " + S(o.v[1]) + " " + S(o.v[2]) + " (op " + S(o.op) + ")"); return;
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { int m = 0; for (auto& o : r.hist) if (o.kind == K_OP && o.v[1] > 0) m |= o.v[0]; return m == 3; }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
