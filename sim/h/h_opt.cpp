// Options given through an environment variable (c_env_var_cracker.c) and what they do to standard files (FST_OPTIONS).
#include "sim.h"
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <set>
extern "C" {
void c_env_var_cracker(const char*, void (*)(), const char*);
int c_fnom(int*, const char*, const char*, int); int c_fclos(int); int c_fstouv(int, char*); int c_fstfrm(int); int c_fstopi(const char*, int, int);
int c_fstecr(void*, void*, int, int, int, int, int, int, int, int, int, int, int, char*, char*, char*, char*, int, int, int, int, int, int);
int c_fstinf(int, int*, int*, int*, int, char*, int, int, int, char*, char*); int c_fstluk(void*, int, int*, int*, int*);
int c_fstprm(int, int*, int*, int*, int*, int*, int*, int*, int*, int*, int*, int*, char*, char*, char*, char*, int*, int*, int*, int*, int*, int*, int*, int*, int*, int*, int*);
}
using namespace sim;
static std::string S(long x) { return std::to_string(x); }
enum { K_BAD = O_USER, K_OP };
static void bad(const std::string& what, long a = 0, long b = 0) { obs(K_BAD, { a, b }, what.substr(0, 62).c_str()); }
struct Call { std::string name; int index; std::string value; bool operator==(const Call& o) const { return name == o.name && index == o.index && value == o.value; } };
static std::vector<Call> calls; static bool lower;
static void cb_c(char* n, int i, char* v) { no_faults(true); calls.push_back({ n, i, v }); if (lower) for (char* c = v; *c; c++) *c = '.'; no_faults(false); }
static void cb_f(char* n, int* i, char* v, size_t ln, size_t lv) { no_faults(true); calls.push_back({ std::string(n, ln), *i, std::string(v, lv) }); no_faults(false); }
// real kinds of data, each written on 16 bits
static const int DT[] = { 1, 5, 6, 134, 133, 129 }; enum { NDT = 6 };

// one option: what is written, and the calls it stands for
static std::string option(Rng& r, std::vector<Call>& out, const std::string* given_name = nullptr, const std::vector<std::string>* given = nullptr) {
    auto pad = [&] { return std::string(r.chance(.3) ? r.below(4) : 0, ' '); };
    auto word = [&](int most) { std::string w; for (long i = r.range(1, most); i > 0; i--) w += "abcXYZ0189_.-/:+"[r.below(16)]; return w; };
    std::string name = given_name ? *given_name : word(r.chance(.1) ? 40 : 9), up = name; for (auto& c : up) c = toupper(c);
    std::vector<std::string> v; if (given) v = *given; else for (long i = r.chance(.06) ? r.range(5, 40) : r.weighted({ 1, 8, 4, 3, 2 }); i > 0; i--) v.push_back(word(r.chance(.1) && v.size() < 2 ? 30 : 6 - (int)std::min<size_t>(4, v.size() / 2)));
    std::string t = pad() + name + pad(); if (v.empty()) return t + (r.chance(.5) ? "=" + pad() : "");
    static const char* Q[] = { "()", "[]", "{}", "\"\"", "''", "" }; const char* q = Q[r.below(6)];
    if (*q && v.size() > 1 && !given && r.chance(.2)) { std::string w; for (auto& x : v) w += (w.empty() ? "" : " ") + x; v = { w }; }   // one quoted value with blanks
    std::string b; for (size_t i = 0; i < v.size(); i++) b += (i ? (*q || r.chance(.5) ? pad() + "," + pad() : std::string(" ")) : "") + v[i];
    for (size_t i = 0; i < v.size(); i++) out.push_back({ up, (int)i + 1, v[i] });
    return t + "=" + pad() + (*q ? std::string(1, q[0]) + b + q[1] : b) + pad();
}
struct H : Harness {
    std::vector<std::string> props() override { return { "O01" }; }
    // the text of an option string and its calls, from a seed: text, calls
    static std::string text(long kind, uint64_t seed, std::vector<Call>& out) {
        Rng r(seed); std::string s; long n = kind == 2 ? r.range(28, 40) : r.range(1, 8), used = 0;
        if (kind == 4) { for (long i = r.range(0, 60); i > 0; i--) s += ";=;=,() []{}'\"ab1 "[r.below(18)]; return s; }
        for (long i = 0; i < n; i++) {
            std::vector<Call> c; std::string o = option(r, c); bool take = used < 32;
            if (kind == 1 && i == n / 2) { static const char* M[] = { "[a", "a]", "(a", "{a", "a}", "\"a", "a\"", "'a", "a'", "(a]", "[a)", "(", "\"", "'", "[", "}" }; s += (i ? ";" : "") + std::string("x=") + M[r.below(16)]; for (long j = r.below(3); j > 0; j--) { std::vector<Call> d; s += ";" + option(r, d); } return s; }
            if (kind == 3 && r.chance(.5)) { std::string w = "long=" + std::string(r.range(230, 300), 'v'); c.clear(); if (w.size() <= 254) c.push_back({ "LONG", 1, w.substr(5) }); o = w; }
            if (o.size() > 254) c.clear();
            if (take) out.insert(out.end(), c.begin(), c.end());
            used++; s += (i ? (r.chance(.1) ? ";;" : ";") : r.chance(.05) ? ";" : "") + o;
        }
        if (r.chance(.2)) s += ";"; return s;
    }
    // FST_OPTIONS: pairs of data types, mode of compression
    struct Fst { std::string text; std::vector<int> from, to; int turbo; };
    static Fst fst(uint64_t seed) {
        Rng r(seed); Fst f; f.turbo = 0; std::vector<Call> c; std::vector<std::string> o;
        for (long i = r.below(3); i > 0; i--) { std::string nm = "other" + S(i); o.push_back(option(r, c, &nm)); }
        if (r.chance(.8)) {
            std::vector<int> d(DT, DT + NDT); for (int i = NDT - 1; i > 0; i--) std::swap(d[i], d[r.below(i + 1)]);
            size_t k = r.range(1, 3); std::vector<std::string> v; bool many = r.chance(.2);
            for (size_t i = 0; i < k; i++) { f.from.push_back(d[i]); f.to.push_back(d[k + r.below(NDT - k)]); v.push_back(S(f.from[i])); v.push_back(S(f.to[i])); }
            if (many) { while (v.size() < 20) { v.push_back(S(200 + v.size())); v.push_back("1"); } for (long i = r.range(1, 12); i > 0; i--) v.push_back(S(d[NDT - 1])); }   // beyond the table: not used
            else if (r.chance(.2)) v.push_back(S(d[NDT - 1]));   // an odd one: not used
            std::string nm = r.chance(.5) ? "DATATYPE_REMAP" : "datatype_remap"; o.push_back(option(r, c, &nm, &v));
        }
        if (r.chance(.6)) { static const char* M[] = { "BEST", "best", "Best", "FAST", "fast", "FASTEST", "worst" }; int m = (int)r.below(7); std::vector<std::string> v{ M[m] }; std::string nm = r.chance(.5) ? "TURBOCOMP" : "TurboComp"; o.insert(o.begin() + r.below(o.size() + 1), option(r, c, &nm, &v)); f.turbo = m < 3; }
        for (size_t i = 0; i < o.size(); i++) f.text += (i ? ";" : "") + o[i];
        return f;
    }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; long n = r.range(3, th ? 30 : 14); bool mem = r.chance(.3);
        for (long i = 0; i < n; i++) switch (r.weighted({ 10, 4, 5, 1 })) {
            case 0: p.add("crack", { r.weighted({ 10, 3, 1, 2, 3 }), (long)(r.next() >> 2), r.below(2), r.below(3), r.chance(.3) }); break;
            case 1: p.add("again", { r.below(3), r.below(2) }); break;
            case 2: p.add("write", { (long)r.below(NDT), r.range(2, 20), (long)r.below(1000) }); break;
            default: p.add("restart");
        }
        for (int k = 0; k < 4; k++) p.cfg["fst" + S(k)] = r.chance(.1) ? 0 : (long)(r.next() >> 2);
        if (mem) { std::vector<int> t; for (auto& o : p.ops) if (o.name == "crack" || o.name == "again") t.push_back(o.id); if (!t.empty()) for (long i = r.range(1, 3); i > 0; i--) p.faults.push_back({ r.pick(t), (int)r.range(1, 5), F_ENOMEM, 0 }); }
        return p;
    }
    struct Var { std::string text; std::vector<Call> want; long kind; bool set = false; } var[3];
    Fst cur; bool opened; int rec, unit;
    void child_begin(const Plan& p) override {
        for (auto& v : var) v = Var(); opened = false; rec = 0; unit = 0; for (int k = 0; k < 3; k++) unsetenv(nm(k)); long s = p.C("fst" + S(std::min(3, incarnation())));
        cur = Fst(); cur.turbo = 0; if (s) { cur = fst(s); setenv("FST_OPTIONS", cur.text.c_str(), 1); } else unsetenv("FST_OPTIONS");
    }
    static const char* nm(long k) { static const char* N[] = { "SIMV_ONE", "SIMV_TWO_OPTIONS", "SIMV" }; return N[k % 3]; }
    void crack(int k, long lang) {
        Var& v = var[k]; calls.clear(); int ff = faults_fired(); arm_alloc(1, 1 << 20); c_env_var_cracker(nm(k), lang ? (void (*)())cb_f : (void (*)())cb_c, lang ? "F" : "C"); arm_alloc(0, 0); bool nomem = faults_fired() > ff;
        const char* e = getenv(nm(k)); if (v.set ? !e || v.text != e : e != nullptr) bad("the environment variable was changed", k);
        if (v.kind == 4 || (nomem && calls.empty())) return;
        if (calls == v.want) return;
        size_t i = 0; while (i < calls.size() && i < v.want.size() && calls[i] == v.want[i]) i++;
        if (i == calls.size()) bad("an option was not given: " + v.want[i].name + " " + v.want[i].value, (long)i, (long)v.want.size());
        else if (i == v.want.size()) bad("an option too many: " + calls[i].name + " " + calls[i].value, (long)i, calls[i].index);
        else bad("wrong option: " + calls[i].name + " " + S(calls[i].index) + " " + calls[i].value + " for " + v.want[i].value, (long)i, v.want[i].index);
    }
    void exec(const Plan& p, const Op& o) override {
        if (o.name == "crack") { int k = (int)o.A(3); Var& v = var[k]; v = Var(); v.kind = o.A(0); v.text = text(o.A(0), o.A(1), v.want); v.set = true; setenv(nm(k), v.text.c_str(), 1); lower = o.A(4); crack(k, o.A(2)); lower = false; }
        else if (o.name == "again") crack((int)o.A(0), o.A(1));
        else if (o.name == "write") {
            if (!opened) {
                if (c_fnom(&unit, ("/sim/f" + S(incarnation())).c_str(), "STD+RND", 0) || c_fstouv(unit, (char*)"RND") < 0) { bad("the file was not opened"); return; } opened = true;
                const char* e = getenv("FST_OPTIONS"); if (cur.text.empty() ? e && *e : !e || cur.text != e) bad("the environment variable FST_OPTIONS was changed");
                int t = c_fstopi("TURBOCOMP", 0, 2); if (t != cur.turbo) bad("wrong mode of compression", t, cur.turbo);
            }
            int d = DT[o.A(0) % NDT], w = d; for (size_t i = 0; i < cur.from.size(); i++) if (cur.from[i] == d) w = cur.to[i];
            long ni = o.A(1) + 14; std::vector<float> f(ni * 20), a(ni * 20 + 8), b(a); for (size_t i = 0; i < f.size(); i++) f[i] = (float)((i * 7 + o.A(2)) % 101) / 4;
            // the same field is written once as asked, and once as what it should become
            int h[2], dt[2], nb[2]; for (int k = 0; k < 2; k++) {
                int ip = ++rec; if (c_fstecr(f.data(), nullptr, -16, unit, 400001600, 0, 0, (int)ni, 20, 1, ip, 0, 0, (char*)"P ", (char*)"TT  ", (char*)"REMAP       ", (char*)"X", 0, 0, 0, 0, k ? w : d, 0) < 0) { bad("a field was not written", d); return; }
                int x, y, z; h[k] = c_fstinf(unit, &x, &y, &z, -1, (char*)" ", ip, -1, -1, (char*)" ", (char*)" "); if (h[k] < 0) { bad("a field was not found", d); return; }
                int q[20]; char tv[3] = "  ", nv[5] = "    ", et[13] = "            ", gt[2] = " "; if (c_fstprm(h[k], q, q + 1, q + 2, q + 3, q + 4, q + 5, &nb[k], &dt[k], q + 6, q + 7, q + 8, tv, nv, et, gt, q + 9, q + 10, q + 11, q + 12, q + 13, q + 14, q + 15, q + 16, q + 17, q + 18, q + 19) < 0) { bad("no descriptors", d); return; }
                if (c_fstluk((k ? b : a).data(), h[k], &x, &y, &z) < 0) { bad("a field was not read", d); return; }
            }
            if (dt[0] != dt[1] || nb[0] != nb[1]) bad("wrong data type after remapping " + S(d) + " to " + S(w), dt[0], dt[1]);
            else if (dt[0] != w && dt[0] != (w & 127)) bad("wrong data type " + S(d) + " to " + S(w), dt[0], w);
            else if (memcmp(a.data(), b.data(), f.size() * 4)) bad("wrong data after remapping " + S(d) + " to " + S(w));
        }
        obs(K_OP, { (long)calls.size(), rec });
    }
    void child_end(const Plan&) override { arm_alloc(0, 0); if (opened) { if (c_fstfrm(unit) < 0) bad("the file was not closed"); c_fclos(unit); } }
    void oracle(const Plan& p, Result& r) override {
        for (auto& o : r.hist) switch (o.kind) {
            case O_SIGNAL: r.violate("signal", std::string("process killed by a signal: ") + o.s); return;
            case O_EXIT: r.violate("exit", "the library ended the process, op " + S(o.op)); return;
            case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress"); return;
            case O_HEAP: r.violate("heap", o.s); return;
            case K_BAD: { std::string c = o.s; c = c.substr(0, c.find(':')); r.violate(c, std::string(o.s) + " " + S(o.v[0]) + " " + S(o.v[1]) + " (op " + S(o.op) + ")"); return; }
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { int n = 0; for (auto& o : r.hist) if (o.kind == K_OP && (o.v[0] > 1 || o.v[1] > 0)) n++; return n > 1; }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
