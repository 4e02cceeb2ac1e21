// Files of directives (read_direct.c): verb(arguments) and verb=arguments; carried out by registered functions.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
extern "C" {
int rpn_c_callback(char*, void*, char*, void*, void*); int rpn_fortran_callback_(char*, void*, char*, void*, void*, size_t, size_t);
int process_c_callback(char*); int process_f_callback_(char*, size_t); void rpn_c_callback_setverbose(int);
}
using namespace sim;
static std::string S(long x) { return std::to_string(x); }
enum { K_BAD = O_USER, K_OP };
static void bad(const std::string& what, long a = 0, long b = 0) { obs(K_BAD, { a, b }, what.substr(0, 62).c_str()); }
typedef std::vector<std::string> VS;
struct Call { int slot; char kind; VS a; bool operator==(const Call& o) const { return slot == o.slot && kind == o.kind && a == o.a; } };
static std::vector<Call> calls;
static const char* VERBS[] = { "a", "set", "settings", "Set", "exclude_all_", "nomvar", "v1234567890_abcd", "xfail", "xf2" }; enum { NV = 9, MAXSLOT = 40 };
static bool fails(const std::string& v) { return v[0] == 'x'; }
static int ids[MAXSLOT], nslot; static bool mem;   // mem: allocations may fail between two calls of the functions
static int done(Call c) { bool f = !c.a.empty() && fails(c.a[0]); calls.push_back(c); return f ? 3 : 0; }
static int cb_c(int argc, char** argv, char kind, int* p1, int* p2) {
    no_faults(true); Call c{ *p1, kind, {} }; if (argc < 0 || argc > 60000) bad("wrong number of arguments", argc); else for (int i = 0; i <= argc; i++) c.a.push_back(argv[i]);
    if (p2 != p1 + 1) bad("wrong second private data"); int s = done(c); no_faults(false); if (mem) arm_alloc(1, 400); return s;
}
static int cb_f(int* argc, char* f, char* kind, int* p1, int* p2, size_t len, size_t one) {
    arm_alloc(0, 0); no_faults(true); Call c{ *p1, *kind, {} }; size_t most = 0; if (*argc < 0 || *argc > 60000) bad("wrong number of arguments", *argc); else for (int i = 0; i <= *argc; i++) { std::string s(f + i * len, len); while (!s.empty() && s.back() == ' ') s.pop_back(); most = std::max(most, s.size()); c.a.push_back(s); }
    if (most != len || (unsigned)one != 1) bad("wrong length of the arguments", (long)len, (long)most);
    if (p2 != p1 + 1) bad("wrong second private data"); int s = done(c); no_faults(false); return s;
}
// what a text stands for: directives (verb, kind, arguments) or errors, then what follows on the same line
struct Dir { std::string verb; char kind; VS a; bool error; };
struct Item { std::string text; std::vector<Dir> d; };   // the later ones are on the same line as the first

static std::string blanks(Rng& r, double p, bool lines) { if (!r.chance(p)) return ""; std::string s; for (long i = r.range(1, 4); i > 0; i--) s += r.chance(.15) ? '\t' : r.chance(.1) ? (char)r.range(0x80, 0xfe) : ' '; if (lines && r.chance(.3)) { s += r.chance(.2) ? " \n\n  \n" : "\n"; if (r.chance(.5)) s += std::string(r.below(5), ' '); } return s; }
static std::string wide(Rng& r) { return r.chance(.04) ? std::string(r.range(90, 260), ' ') : ""; }
static std::string word(Rng& r, int most) { std::string w; for (long i = r.range(1, most); i > 0; i--) w += "abcXYZ0189_.-+k"[r.below(15)]; return w; }
static std::string element(Rng& r, VS& a) {
    int k = a.size() > 10000 ? 0 : r.weighted({ 8, 3, 2 });
    if (k == 0) { a.push_back(word(r, r.chance(.04) ? 79 : 7)); return a.back(); }
    if (k == 1) { char q = r.chance(.5) ? '\'' : '"'; std::string s; for (long i = r.chance(.05) ? 77 : r.below(20); i > 0; i--) s += (char)"abc ,;()[]=<>#\xe9z&9 "[r.below(19)]; a.push_back(q + s + q); return a.back(); }
    double f = r.range(-80, 80) * .25, s = r.range(1, 9) * (r.chance(.5) ? 1. : .25) * (r.chance(.25) ? -1 : 1), t = f + s * (r.chance(.04) ? r.range(200, 2500) : r.range(-2, 12)) + (s > 0 ? 1 : -1) * (r.chance(.3) ? .125 : 0);
    if (r.chance(.2)) { f = r.range(-9000000, 9000000) * .001; s = r.range(1, 9) * .1; t = f + s * (r.range(0, 12) + .5); }
    long n = (long)((t - f) / s); if (n < 0) n = 0; char b[100];
    char m[100]; snprintf(m, 100, "<%s%.10g%s,%s%.10g,%.10g%s>", r.chance(.2) ? " " : "", f, r.chance(.2) ? " " : "", r.chance(.2) ? "  " : "", t, s, r.chance(.2) ? "  " : "");
    for (long i = 0; i <= n; i++) { snprintf(b, 100, "%f", f + s * i); a.push_back(b); }
    return m;
}
static std::string arguments(Rng& r, VS& a, bool lines, long n) {
    std::string t; double p = r.chance(.4) ? .5 : .1;
    for (long i = 0; i < n; i++) {
        if (i) t += blanks(r, p, lines) + (lines ? wide(r) : "") + ","; t += blanks(r, p, lines);
        if (r.chance(.15)) { size_t at = a.size(); a.push_back(""); t += "[" ; for (long k = r.chance(.05) ? r.range(990, 1100) : r.range(1, 6), j = 0; j < k; j++) { if (j) t += blanks(r, p, lines) + ","; t += blanks(r, p, lines) + element(r, a); } t += blanks(r, p, lines) + "]"; char b[30]; snprintf(b, 30, "[%3ld]", (long)(a.size() - at - 1)); a[at] = b; }
        else t += element(r, a);
    }
    return t + blanks(r, p, lines) + (lines ? wide(r) : "");
}
static std::string good(Rng& r, std::vector<Dir>& d, bool lines, bool mayfail) {
    Dir x; x.verb = VERBS[r.below(mayfail ? NV : NV - 2)]; if (r.chance(.05)) x.verb = "nothing"; x.error = false; x.kind = r.chance(.5) ? '(' : '=';
    std::string t = x.verb; if (lines && r.chance(.2)) t += " "; t += x.kind; t += arguments(r, x.a, lines, r.chance(.03) ? r.range(30, 200) : r.range(1, 5)); t += x.kind == '(' ? ")" : ";"; d.push_back(x); return t;
}
static Item item(int kind, uint64_t seed) {
    Rng r(seed); Item it; std::string& t = it.text; if (r.chance(.3)) t += std::string(r.range(1, 5), ' ');
    if (kind == 0) { for (long n = r.weighted({ 0, 6, 2, 1 }); n > 0; n--) { if (!it.d.empty()) t += blanks(r, .7, false); t += good(r, it.d, it.d.empty(), true); } return it; }   // alone it may be on several lines
    std::string v = VERBS[r.below(NV)]; Dir e{ v, 0, {}, true }; bool tail = true;
    if (kind == 3) { it.d.push_back(e); t += v; bool paren = r.chance(.5); t += paren ? "(" : "="; if (r.chance(.5)) { t += "<1,"; t += S(r.range(51300, 90000)) + ",1>"; } else for (long i = 20800; i >= 0; i--) t += std::string(79, 'a' + i % 26) + (i ? "," : ""); t += paren ? ")" : ";"; return it; }
    switch (r.below(18)) {
        case 0: t += "(1)"; break; case 1: t += "# comment"; break; case 2: t += "9" + v + "(1)"; break; case 3: t += ";"; break;
        case 4: t += v + " 12"; break; case 5: t += v + "()"; break; case 6: t += v + "(,1)"; break; case 7: t += v + "=a b;"; break;
        case 8: t += v + "('abc)"; tail = false; break; case 9: t += v + "(" + std::string(r.range(80, 140), 'w') + ")"; break; case 10: t += std::string(r.range(80, 140), 'v') + "(1)"; break;
        case 11: t += v + "([a,[b]])"; break; case 12: t += v + "(a])"; break; case 13: t += v + "([a,b)"; break; case 14: t += v + (r.chance(.5) ? "(<1,2>)" : "(<a,b,c>)"); break;
        case 15: t += v + "(<1,2,1 x>)"; break; case 16: t += v + "(a;"; break; default: t += v + "=a,b)"; break;
    }
    it.d.push_back(e); if (tail) for (long n = r.weighted({ 3, 2, 1, 1 }); n > 0; n--) t += " " + good(r, it.d, false, true);
    return it;
}
struct H : Harness {
    std::vector<std::string> props() override { return { "Q01" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; int fm = r.below(4); p.cfg["fm"] = fm; p.cfg["quiet"] = 1; if (r.chance(.02)) p.cfg["quiet"] = 0;
        for (int i = 0; i < NV; i++) if (r.chance(.7)) p.add("reg", { i, (long)r.below(2) });
        for (long f = r.range(1, th ? 8 : 4); f > 0; f--) {
            for (long n = r.range(1, 12); n > 0; n--) { p.add("d", { r.chance(.003) ? 3 : r.weighted({ 8, 2 }), (long)(r.next() >> 2), r.weighted({ 8, 1, 1 }) }); if (r.chance(.05)) p.add("reg", { (long)r.below(NV), (long)r.below(2) }); }
            p.add("run", { r.weighted({ 7, 1, 1, 1 }), (long)r.below(2), r.chance(.05) });
        }
        if (fm) { std::vector<int> t; for (auto& o : p.ops) if (o.name == "run") t.push_back(o.id); if (!t.empty()) for (long i = r.range(1, 2); i > 0; i--) { static const int K[] = { F_EIO_R, F_SHORTR, F_EOPEN }; p.faults.push_back({ r.pick(t), (int)r.range(1, fm == 1 ? 2 : 3), fm == 1 ? F_ENOMEM : fm == 2 ? F_SHORTR : K[r.below(3)], r.range(1, 999) }); } }
        return p;
    }
    std::string text; std::vector<std::vector<Dir>> lines; int reg[NV], n; bool hard;
    void child_begin(const Plan& p) override { text.clear(); lines.clear(); nslot = 0; n = 0; hard = p.C("fm") == 2; for (auto& x : reg) x = -1; rpn_c_callback_setverbose(p.C("quiet") ? 0 : 1); }
    void exec(const Plan& p, const Op& o) override {
        if (o.name == "reg") {
            if (nslot + 2 > MAXSLOT) return; int v = (int)o.A(0) % NV; char b[20]; strcpy(b, VERBS[v]); ids[nslot] = nslot; int k;
            if (o.A(1)) { b[strlen(VERBS[v])] = '#'; k = rpn_fortran_callback_(b, (void*)cb_f, (char*)"", ids + nslot, ids + nslot + 1, strlen(VERBS[v]), 0); } else k = rpn_c_callback(b, (void*)cb_c, (char*)"", ids + nslot, ids + nslot + 1);
            memset(b, '?', sizeof b); if (k <= 0) bad("a function was not registered", v, k); reg[v] = nslot++;
        } else if (o.name == "d") { Item it = item((int)o.A(0), o.A(1)); text += it.text + (o.A(2) == 0 ? "\n" : o.A(2) == 1 ? "\n\n   \n" : " \t\r\n"); lines.push_back(it.d); }
        else {
            std::string path = "/sim/dir" + S(n++); long end = o.A(0), want = 0; bool absent = o.A(2); std::vector<Call> w;
            if (end == 1) { while (!text.empty() && strchr("\n\r \t", text.back())) text.pop_back(); } else if (end == 2) text += "a(b,c"; else if (end == 3) text += "set";
            for (auto& l : lines) for (auto& d : l) { if (d.error) { want++; break; } int s = -1; for (int v = 0; v < NV; v++) if (d.verb == VERBS[v]) s = reg[v]; if (s < 0) continue; Call c{ s, d.kind, { d.verb } }; c.a.insert(c.a.end(), d.a.begin(), d.a.end()); w.push_back(c); if (fails(d.verb)) { want++; break; } }
            if (end >= 2) want++;
            no_faults(true); if (!absent) { FILE* f = fopen(path.c_str(), "wb"); fwrite(text.data(), 1, text.size(), f); fclose(f); } no_faults(false);
            calls.clear(); int ff = faults_fired(), e = 0; mem = p.C("fm") == 1 && text.size() < 1000; std::vector<char> nm(path.begin(), path.end());
            if (o.A(1)) { std::string s = path + "#"; e = process_f_callback_(&s[0], path.size()); } else { std::string s = path; e = process_c_callback(&s[0]); } arm_alloc(0, 0); mem = false;
            bool fault = faults_fired() > ff && p.C("fm") != 2; text.clear(); lines.clear();
            if (absent) { if (calls.size() || e != 1) bad("directives of a file that does not exist", e); return; }
            if (calls == w && e == want) { obs(K_OP, { (long)w.size(), want }); return; }
            if (fault) {
                // what was carried out is right and something was reported
                size_t j = 0; for (auto& c : w) if (j < calls.size() && calls[j] == c) j++;
                if (j < calls.size()) bad("a directive that is not in the file was carried out after a fault: " + calls[j].a[0], (long)j, e);
                if (e <= 0) bad("an incomplete reading of the directives was not reported", (long)calls.size(), (long)w.size());
                return;
            }
            size_t i = 0; while (i < calls.size() && i < w.size() && calls[i] == w[i]) i++;
            if (i == calls.size() && i < w.size()) bad("a directive was not carried out: " + w[i].a[0], (long)i, e);
            else if (i == w.size() && i < calls.size()) bad("a directive too many: " + calls[i].a[0], (long)i, e);
            else if (i < w.size()) {
                size_t k = 0; VS &x = calls[i].a, &y = w[i].a; while (k < x.size() && k < y.size() && x[k] == y[k]) k++;
                if (k == x.size() && k == y.size()) bad("wrong function or kind of directive", calls[i].slot, w[i].slot); else bad("wrong arguments: " + (k < x.size() ? x[k] : "(none)") + " for " + (k < y.size() ? y[k] : "(none)"), (long)k, (long)i);
            } else bad("wrong number of errors", e, want);
        }
    }
    void child_end(const Plan&) override {}
    void oracle(const Plan& p, Result& r) override {
        for (auto& o : r.hist) switch (o.kind) {
            case O_SIGNAL: r.violate("signal", std::string("process killed by a signal: ") + o.s); return;
            case O_EXIT: r.violate("exit", "the library ended the process, op " + S(o.op)); return;
            case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress"); return;
            case O_HEAP: r.violate("heap", o.s); return;
            case K_BAD: { std::string c = o.s; size_t k = c.find(':'); r.violate(c.substr(0, k), c + " " + S(o.v[0]) + " " + S(o.v[1]) + " (op " + S(o.op) + ")"); return; }
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { for (auto& o : r.hist) if (o.kind == K_OP && o.v[0] > 0) return true; return false; }
};
int main(int argc, char** argv) { static H h; if (argc == 4 && !strcmp(argv[1], "item")) { Item i = item(atoi(argv[2]), strtoull(argv[3], 0, 10)); puts(i.text.c_str()); return 0; } return sim::main(argc, argv, h); }
