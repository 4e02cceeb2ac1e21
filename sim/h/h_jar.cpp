// S01: data jars (rmn_jar). A jar is a buffer of 64-bit elements with the ends of what was
// inserted and of what was extracted. The model below says what each call answers; jars are used
// by one to three threads, each with its own, over failing allocations and restarts that carry
// the contents of a jar to another process.
#include "sim.h"
#include <cstring>
#include <map>
#include <vector>
#include <algorithm>
using namespace sim;
extern "C" {
int js_new(int, long long, int); int js_shape(int, int64_t*, int); int js_free(int); void js_reset(int); void js_ask(int, int64_t*);
int js_put(int, int, const void*, long long, long long); int js_get(int, int, void*, long long, long long); int js_scope(int, int64_t*, int);
}
enum { K_BAD = O_USER, K_DID };
static void bad(const std::string& s, long a = 0, long b = 0) { obs(K_BAD, { a, b }, s.substr(0, 62).c_str()); }
static const int NJ = 4;      // jars per thread
static const int64_t NOPOS = -99;
struct Jar { bool valid = false; int64_t cap = 0, top = 0, bot = 0; std::vector<uint8_t> b, known; std::vector<int64_t>* ext = nullptr; };
static Jar M[16]; static std::vector<int64_t> arr_[16], shadow_[16];
static uint8_t pat(uint64_t seed, size_t i) { uint64_t z = seed * 0x9E3779B97F4A7C15ull + i * 0xBF58476D1CE4E5B9ull; z ^= z >> 31; z *= 0x94D049BB133111EBull; z ^= z >> 29; return (uint8_t)z; }
static void ask(int j) {
    int64_t v[9]; js_ask(j, v); Jar& m = M[j];
    if (v[0] != (m.valid ? 1 : 0)) { bad("is_valid", m.valid, v[0]); return; }
    int64_t w[4] = { m.valid ? m.cap : -1, m.valid ? m.top : -1, m.valid ? m.bot : -1, m.valid ? m.top - m.bot : -1 };
    static const char* n[] = { "get_size", "get_top", "get_bot", "get_num_avail" };
    for (int k = 0; k < 4; k++) if (v[1 + k] != w[k]) { bad(n[k], w[k], v[1 + k]); return; }
    if (!m.valid) { if (v[5] || v[6] != -1 || v[7] != -1) bad("contents of a jar with none", v[5], v[6]); return; }
    if (v[6] != (m.top ? m.top : -1)) { bad("f_array", m.top, v[6]); return; }
    if (v[7] != m.cap) { bad("full_f_array", m.cap, v[7]); return; }
    if (m.ext && (void*)v[5] != (void*)m.ext->data()) { bad("raw_data is not the array given"); return; }
    const uint8_t* p = (const uint8_t*)v[5]; for (int64_t k = 0; k < m.top * 8; k++) if (m.known[k] && p[k] != m.b[k]) { bad("contents of a jar", k, p[k]); return; }
    for (int a = 0; a < 16; a++) if (!arr_[a].empty()) { bool in_use = false; for (auto& q : M) if (q.ext == &arr_[a]) in_use = true; if (!in_use && a / NJ == j / NJ && arr_[a] != shadow_[a]) { bad("an array no jar has any longer was changed", a); return; } }
}
static void put(const Op& o) {
    int j = (int)o.A(0), kind = (int)o.A(1); int64_t n = o.A(2), pos = o.A(3); uint64_t sd = (uint64_t)o.A(4); if (kind == 2) n = std::max<int64_t>(16, n / 16 * 16); if (kind == 1 && !n) n = 1;
    std::vector<uint8_t> buf((size_t)(n + 7) / 8 * 8 + 16); for (size_t i = 0; i < buf.size(); i++) buf[i] = pat(sd, i); auto keep = buf;
    Jar& m = M[j]; int64_t e = (n + 7) / 8, at = pos == NOPOS ? m.top : pos - 1; bool want = m.valid && at >= 0 && at + e <= m.cap;
    std::vector<int64_t> before; if (m.ext) before = *m.ext;
    int r = js_put(j, kind, buf.data(), n, pos); if (buf != keep) bad("an insertion changed the object");
    if (r != want) { bad("insert", want, r); return; }
    if (!want) { if (m.ext && before != *m.ext) bad("a refused insertion changed the array of the jar"); return; }
    for (int64_t k = m.top * 8; k < at * 8; k++) { m.b[k] = 0; m.known[k] = 1; }
    for (int64_t k = 0; k < e * 8; k++) { m.b[at * 8 + k] = k < n ? buf[k] : 0; m.known[at * 8 + k] = k < n; }
    m.top = at + e;
    if (m.ext) for (int64_t k = m.top; k < m.cap; k++) if (before[k] != (*m.ext)[k]) { bad("an insertion wrote beyond its end", k); return; }
    probe("inserted");
}
static void get(const Op& o) {
    int j = (int)o.A(0), kind = (int)o.A(1); int64_t n = o.A(2), pos = o.A(3); if (kind == 2) n = std::max<int64_t>(16, n / 16 * 16); if (kind == 1 && !n) n = 1;
    std::vector<uint8_t> buf((size_t)n + 24, 0xA5); Jar& m = M[j]; int64_t e = (n + 7) / 8, at = pos == NOPOS ? m.bot : pos - 1; bool want = m.valid && at >= 0 && at + e <= m.top;
    int r = js_get(j, kind, buf.data(), n, pos); if (r != want) { bad("extract", want, r); return; }
    for (size_t k = want ? n : 0; k < buf.size(); k++) if (buf[k] != 0xA5) { bad(want ? "an extraction wrote beyond the object" : "a refused extraction changed the object", (long)k); return; }
    if (!want) return;
    for (int64_t k = 0; k < n; k++) if (m.known[at * 8 + k] && buf[k] != m.b[at * 8 + k]) { bad("extracted data", k, buf[k]); return; }
    m.bot = at + e; probe("extracted");
}
static void work(const Op& o) {
    set_op(o.id); int j = (int)o.A(0); Jar& m = M[j];
    if (o.name == "new") {
        int64_t n = o.A(1); int wide = (int)o.A(2); if (n > 0x7fffffff || n < -0x7fffffff) wide = 1; bool fit = n >= 0 && n < (1ll << 40);
        if (fit && n) arm_alloc(n * 8, n * 8); int ff = faults_fired(), r = js_new(j, n, wide); arm_alloc(0, 0); bool want = !m.valid && fit && faults_fired() == ff;
        if (r != want) { bad("new", want, r); return; }
        if (want) { m = Jar(); m.valid = true; m.cap = n; m.b.assign(n * 8, 0); m.known.assign(n * 8, 0); }
    } else if (o.name == "shape") {
        int n = (int)o.A(1); bool want = !m.valid; int a = j; for (auto& q : M) if (q.ext == &arr_[a]) want = false;
        if (!want && !m.valid) return;
        if (want) { arr_[a].assign((size_t)n + 4, 0); for (size_t i = 0; i < arr_[a].size() * 8; i++) ((uint8_t*)arr_[a].data())[i] = pat((uint64_t)o.A(2), i); shadow_[a] = arr_[a]; }
        std::vector<int64_t> other((size_t)n + 4, 7); int r = js_shape(j, want ? arr_[a].data() : other.data(), n); if (r != want) { bad("shape_with", want, r); return; }
        if (!want) return;
        m = Jar(); m.valid = true; m.cap = m.top = n; m.ext = &arr_[a]; m.b.assign((uint8_t*)arr_[a].data(), (uint8_t*)arr_[a].data() + (size_t)n * 8); m.known.assign((size_t)n * 8, 1);
    } else if (o.name == "free") {
        int r = js_free(j); if (r != (m.valid ? 0 : -1)) { bad("free", m.valid ? 0 : -1, r); return; }
        if (m.ext) { auto& s = shadow_[j]; for (size_t k = (size_t)m.cap; k < m.ext->size(); k++) if ((*m.ext)[k] != s[k]) { bad("the array was changed beyond the jar"); return; } s = *m.ext; }
        m = Jar();
    } else if (o.name == "reset") { js_reset(j); if (m.valid) m.top = m.bot = 0; }
    else if (o.name == "put") put(o); else if (o.name == "get") get(o);
    else if (o.name == "save") {   // the contents, carried to another process
        if (!m.valid || !m.top) return; 
        int64_t v[9]; js_ask(j, v); if (v[6] == m.top) fs_put("/sim/jar" + std::to_string(o.A(1)), (const void*)v[5], (size_t)m.top * 8); return;
    } else if (o.name == "load") {
        std::vector<uint8_t> s; std::string f = "/sim/jar" + std::to_string(o.A(1)); if (m.valid || !fs_exists(f) || !fs_get(f, s)) return;
        for (auto& q : M) if (q.ext == &arr_[j]) return;
        arr_[j].resize(s.size() / 8); memcpy(arr_[j].data(), s.data(), s.size()); shadow_[j] = arr_[j]; int n = (int)arr_[j].size();
        if (js_shape(j, arr_[j].data(), n) != 1) { bad("shape_with", 1, 0); return; }
        m = Jar(); m.valid = true; m.cap = m.top = n; m.ext = &arr_[j]; m.b.assign(s.begin(), s.end()); m.known.assign(s.size(), 1); probe("contents carried to another jar");
    } else if (o.name == "scope") {
        std::vector<int64_t> a((size_t)o.A(1)); for (size_t i = 0; i < a.size(); i++) a[i] = (int64_t)i * 77 + o.A(2); auto k = a; int r = js_scope((int)a.size(), a.data(), (int)o.A(3)); if (r != 1) bad("a jar local to a procedure", 1, r); if (a != k) bad("a jar that goes out of scope changed its array");
    } else return;
    ask(j); obs(K_DID, { j });
}
struct H : Harness {
    std::vector<std::string> props() override { return { "S01" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; p.sched_seed = r.next(); static const std::vector<double> ps = { 0.5, 0.3, 0.1 }; p.sched_p = r.pick(ps);
        long nt = p.cfg["nt"] = r.chance(0.3) ? r.range(2, 3) : 0; long T = std::max(1l, nt); long n = (nt ? 14 : 10) + r.below(th ? 90 : 50); bool fl = r.chance(0.5); long big = r.chance(0.2) ? 400 : r.chance(0.5) ? 40 : 12;
        auto bytes = [&]() -> long { return r.chance(0.3) ? r.range(0, 9) : r.chance(0.3) ? 8 * r.range(0, big / 3) : r.chance(0.1) ? r.range(0, 8 * big) : r.range(0, 3 * big); };
        auto pos = [&]() -> long { return r.chance(0.6) ? NOPOS : r.chance(0.06) ? r.range(-2, 0) : r.chance(0.05) ? (1l << r.range(8, 34)) : r.range(1, big + 3); };
        for (long j = 0; j < T * NJ; j++) if (r.chance(0.7)) p.add("new", { j, r.range(1, big * 4), r.below(2) });
        for (long i = 0; i < n; i++) {
            long j = r.below(T) * NJ + r.below(r.chance(0.5) ? 1 : NJ);
            switch (r.weighted({ 3, 2, 1, 1, 10, 10, 1, 1, 1, nt ? 0 : 1 })) {
                case 0: if (r.chance(0.5)) p.add("free", { j }); p.add("new", { j, r.chance(0.06) ? (long)(r.chance(0.5) ? (1ll << r.range(58, 62)) + r.below(3) : -(1ll << r.range(0, 62))) : r.chance(0.05) ? 0 : r.range(1, big * 2), r.below(2) }); if (fl && !nt && r.chance(0.2)) p.faults.push_back({ (int)p.ops.size() - 1, 1, F_ENOMEM, 0 }); break;
                case 1: p.add("shape", { j, r.range(1, big * 2), (long)r.below(1000000) }); break;
                case 2: p.add("free", { j }); break;
                case 3: p.add("reset", { j }); break;
                case 4: p.add("put", { j, r.below(3), bytes(), pos(), (long)r.below(1000000) }); break;
                case 5: p.add("get", { j, r.below(3), bytes(), pos() }); break;
                case 6: p.add("save", { j, nt ? j : r.below(3) }); break;
                case 7: p.add("load", { j, nt ? j : r.below(3) }); break;
                case 8: p.add("scope", { j, r.range(1, big), (long)r.below(1000), r.below(2) }); break;
                default: if (r.chance(0.5)) p.add("restart");
            }
        }
        if (nt) p.add("go");
        return p;
    }
    void child_begin(const Plan&) override { for (int i = 0; i < 16; i++) { M[i] = Jar(); arr_[i].clear(); shadow_[i].clear(); } }
    void exec(const Plan& p, const Op& o) override {
        int nt = (int)p.C("nt");
        if (o.name == "go") { for (int t = 0; t < nt; t++) spawn([&, t] { for (auto& q : p.ops) if (q.name != "go" && q.A(0) / NJ == t) work(q); }); join_all(); return; }
        if (!nt) work(o);
    }
    void child_end(const Plan&) override { for (int j = 0; j < 12; j++) { ask(j); js_free(j); } }
    void oracle(const Plan& p, Result& r) override {
        bool done = false;
        for (auto& o : r.hist) switch (o.kind) {
            case O_SIGNAL: r.violate("signal", std::string("killed by a signal: ") + o.s); return;
            case O_HANG: r.violate("hang", "no progress"); return;
            case O_HEAP: r.violate("heap", o.s); return;
            case O_EXIT: r.violate("exit", "the library ended the process"); return;
            case K_BAD: { std::string w = o.s; r.violate(w.substr(0, w.find(' ')), w + " (" + std::to_string(o.v[0]) + ", " + std::to_string(o.v[1]) + ")"); return; }
            case O_DONE: done = true; break;
        }
        if (!done) r.violate("no-end", "the run did not end normally");
    }
    bool nontrivial(const Plan& p, const Result& r) override { int n = 0; for (auto& o : r.hist) if (o.kind == K_DID) n++; return n > 5; }
};
int main(int argc, char** argv) { H h; return sim::main(argc, argv, h); }
