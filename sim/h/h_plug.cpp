// Plugins (plugin_code.c) and the interface to the dynamic loader (DlInterface.c) over a simulated loader.
#include "sim.h"
#include <string.h>
#include <algorithm>
#include <set>
extern "C" {
void* load_plugin(const char*); int unload_plugin(const void*); const void* plugin_function(const void*, const char*); const char** plugin_function_names(const void*); const char* plugin_function_name(const void*, int); int plugin_n_functions(const void*);
void* DlOpen(const char*, int); void* DlSym(void*, const char*); char* DlError(void); int DlClose(void*); void DlRegister(void*, void*, void*, void*);
void* sim_dlopen(const char*, int); void* sim_dlsym(void*, const char*); char* sim_dlerror(void); int sim_dlclose(void*);
}
using namespace sim;
static std::string S(long x) { return std::to_string(x); }
enum { K_BAD = O_USER, K_OP };
static void bad(const char* what, long a = 0, long b = 0) { obs(K_BAD, { a, b }, what); }

// ---------------------------------------------------------------- the simulated loader
enum { NL = 9 };
// list: the library has entry_list, number: it has get_symbol_number (1 that returns 0, 2 that returns the number, 3 that fills entry_list)
struct Lib { const char* name; int list, number; std::vector<const char*> adv, hidden, absent; };
static const std::vector<Lib>& libs() {
    static const std::vector<Lib>& L = *new std::vector<Lib>{
        { "libone.so", 1, 0, { "name1", "name2", "name3" }, { "secret" }, {} },
        { "/opt/plugins/libtwo.so", 1, 2, { "two_a", "shared" }, {}, {} },
        { "libthree.so", 1, 3, { "name1f", "name2f", "shared", "a_rather_long_name_of_an_entry_point_of_a_plugin" }, { "helper", "secret" }, {} },
        { "libfour.so", 1, 1, { "name", "name_", "Name" }, {}, { "name_" } },
        { "libnolist.so", 0, 0, {}, { "name1" }, {} },
        { "libnumber.so", 0, 2, { "x", "y" }, {}, {} },
        { "libzero.so", 0, 1, {}, { "z" }, {} },
        { "libempty.so", 1, 0, {}, {}, {} },
        { "lib", 1, 2, { "name1" }, { "name2" }, {} } };
    return L;
}
struct Loaded { int refs = 0; char* mem = nullptr; const char** list = nullptr; int size = 0; };
static Loaded ld[NL]; static char handles[NL]; static int opens, failopen; static long badcalls; static char dlerr[64];
static int cur_lib;
// an address of a function nobody calls, different for each library and name
static void* faddr(int l, const char* n) { size_t h = 1469598103u; for (const char* c = n; *c; c++) h = (h ^ (unsigned char)*c) * 16777619u; return (void*)(0x500000000000ul + ((unsigned long)l << 36) + (h & 0xffffffff) * 16); }
static bool member(const std::vector<const char*>& v, const char* n) { for (auto x : v) if (!strcmp(x, n)) return true; return false; }
template <int L> static int number() { Loaded& d = ld[L]; const Lib& b = libs()[L]; if (b.number == 1) return 0; if (b.number == 3) for (size_t i = 0; i < b.adv.size(); i++) { d.list[i] = d.mem + i * 64; } return (int)b.adv.size(); }
typedef int (*NF)(); static const NF numbers[NL] = { number<0>, number<1>, number<2>, number<3>, number<4>, number<5>, number<6>, number<7>, number<8> };
void* sim_dlopen(const char* f, int flag) {
    if (failopen) { failopen--; probe("dlopen failed"); return nullptr; }
    for (int l = 0; l < NL; l++) if (f && !strcmp(f, libs()[l].name)) {
        Loaded& d = ld[l]; const Lib& b = libs()[l]; opens++; no_faults(true);
        if (!d.refs++) { size_t n = b.adv.size(); d.size = (int)n; d.mem = (char*)malloc(n * 64 + 64); d.list = (const char**)malloc((n + 1) * sizeof(char*)); for (size_t i = 0; i < n; i++) { strcpy(d.mem + i * 64, b.adv[i]); d.list[i] = b.number == 3 ? nullptr : d.mem + i * 64; } d.list[n] = nullptr; }
        no_faults(false); return &handles[l];
    }
    return nullptr;
}
static int which(void* h) { long l = (char*)h - handles; return l >= 0 && l < NL ? (int)l : -1; }
void* sim_dlsym(void* h, const char* n) {
    if (!h) return !strcmp(n, "printf") ? (void*)0x700000 : nullptr; // the whole program
    int l = which(h); if (l < 0 || !ld[l].refs) { badcalls++; return nullptr; } const Lib& b = libs()[l];
    if (!strcmp(n, "get_symbol_number")) return b.number ? (void*)numbers[l] : nullptr;
    if (!strcmp(n, "entry_list")) return b.list ? (void*)ld[l].list : nullptr;
    if ((member(b.adv, n) && !member(b.absent, n)) || member(b.hidden, n)) return faddr(l, n);
    return nullptr;
}
char* sim_dlerror(void) { snprintf(dlerr, 64, "simulated error"); return dlerr; }
int sim_dlclose(void* h) {
    int l = which(h); if (l < 0 || !ld[l].refs) { badcalls++; return -1; }
    opens--; Loaded& d = ld[l];
    // the memory of the library goes away with the last reference
    if (!--d.refs) { for (int i = 0; i <= d.size; i++) d.list[i] = (const char*)0x10; memset(d.mem, '?', d.size * 64 + 63); free(d.list); free(d.mem); d = Loaded(); }
    return 0;
}

struct H : Harness {
    std::vector<std::string> props() override { return { "P01" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; long n = r.range(6, th ? 120 : 60); bool many = r.chance(0.05); int fm = r.below(3);
        if (many) p.add("fill", { r.range(250, 266), r.below(NL) });
        for (long i = 0; i < n; i++) switch (r.weighted({ 10, 7, 5, 8, 5, 4, 2, 1 })) {
            case 0: p.add("load", { r.chance(0.1) ? NL : r.below(NL), fm == 1 && r.chance(0.15), r.below(4) }); break;
            case 1: p.add("unload", { r.below(12), r.weighted({ 8, 2, 1 }) }); break;
            case 2: p.add("list", { r.below(12), r.chance(0.15) }); break;
            case 3: p.add("find", { r.below(12), r.below(16), r.chance(0.15) }); break;
            case 4: p.add("findall", { r.below(16) }); break;
            case 5: p.add("dl", { r.below(4), r.below(NL + 1), r.below(16) }); break;
            case 6: p.add("register", { r.below(2) }); break;
            default: p.add("restart");
        }
        if (fm == 2) for (int i = 0, m = (int)r.range(1, 3); i < m; i++) { std::vector<int> t; for (auto& o : p.ops) if (o.name == "load") t.push_back(o.id); if (!t.empty()) p.faults.push_back({ r.pick(t), (int)r.range(1, 2), F_ENOMEM, 0 }); }
        return p;
    }
    struct P { void* h; int lib; };
    std::vector<P> live; std::vector<void*> dead; bool reg; std::vector<std::pair<void*, int>> dls;
    void child_begin(const Plan&) override { libs(); live.clear(); dead.clear(); dls.clear(); reg = false; for (auto& d : ld) d = Loaded(); opens = failopen = 0; badcalls = 0; }
    static const char* nm(long k) { static const char* N[] = { "name1", "name2", "name3", "secret", "two_a", "shared", "name1f", "name2f", "a_rather_long_name_of_an_entry_point_of_a_plugin", "helper", "name", "name_", "Name", "printf", "", "entry" }; return N[k & 15]; }
    static bool usable(int l) { return l < NL && libs()[l].list && !libs()[l].adv.empty(); }
    void* expect(int l, const char* n) { const Lib& b = libs()[l]; if (member(b.absent, n)) return nullptr; return member(b.adv, n) || member(b.hidden, n) ? faddr(l, n) : nullptr; }
    bool load(int l, bool fail, bool mem, long pad) {
        std::string name = l < NL ? libs()[l].name : "libmissing.so"; std::vector<char> z(name.begin(), name.end()); z.push_back(0); z.insert(z.end(), pad, '#');
        failopen = fail; int before = opens, ff = faults_fired(); if (mem) arm_alloc(1, 1 << 20); void* h = load_plugin(z.data()); arm_alloc(0, 0); bool nomem = faults_fired() > ff; failopen = 0;
        std::fill(z.begin(), z.end(), '!');
        bool want = usable(l) && !fail && !nomem && live.size() < 256;
        if (!h && want) { bad("a plugin was refused", l, (long)live.size()); return false; }
        if (h && !want && !(nomem && usable(l) && !fail && live.size() < 256)) { bad("a plugin that cannot be used was loaded", l, (long)live.size()); return false; }
        if (opens != before + (h ? 1 : 0)) bad("libraries left open or closed by loading", opens - before, h != nullptr);
        if (h) { for (auto& x : live) if (x.h == h) bad("the handle of another plugin was given", l); dead.erase(std::remove(dead.begin(), dead.end(), h), dead.end()); live.push_back({ h, l }); }
        return h != nullptr;
    }
    void look(const P& x) {
        const Lib& b = libs()[x.lib]; int n = plugin_n_functions(x.h); if (n != (int)b.adv.size()) { bad("wrong number of functions", n, (long)b.adv.size()); return; }
        const char** v = plugin_function_names(x.h); if (!v) { bad("no list of names"); return; }
        for (int i = 0; i < n; i++) { const char* q = plugin_function_name(x.h, i + 1); if (!q || strcmp(q, b.adv[i]) || !v[i] || strcmp(v[i], b.adv[i])) { bad("wrong name of a function", x.lib, i); return; } }
        if (plugin_function_name(x.h, 0) || plugin_function_name(x.h, n + 1) || plugin_function_name(x.h, -3) || plugin_function_name(x.h, 1000000)) bad("a name beyond the list was given", x.lib);
    }
    void exec(const Plan& p, const Op& o) override {
        if (o.name == "load") load((int)o.A(0), o.A(1), true, o.A(2));
        else if (o.name == "fill") { static const int U[] = { 0, 1, 2, 3, 8 }; for (long i = 0; i < o.A(0); i++) load(i % 40 == 7 ? 5 : U[(o.A(1) + i) % 5], false, false, 0); for (auto& x : live) look(x); }
        else if (o.name == "unload") {
            int before = opens;
            if (o.A(1) == 2) { if (unload_plugin(nullptr) != -1) bad("no plugin at all was unloaded"); }
            else if (o.A(1) == 1 || live.empty()) { if (dead.empty()) return; if (unload_plugin(dead[o.A(0) % dead.size()]) == 0) bad("a plugin was unloaded twice"); }
            else {
                size_t k = o.A(0) % live.size(); P x = live[k]; if (unload_plugin(x.h) != 0) { bad("a plugin was not unloaded", x.lib); return; } live.erase(live.begin() + k); dead.push_back(x.h); before--;
            }
            if (opens != before) bad("libraries left open or closed by unloading", opens, before);
        } else if (o.name == "list") {
            if (o.A(1)) { if (plugin_n_functions(nullptr) || plugin_function_names(nullptr) || plugin_function_name(nullptr, 1)) bad("functions of no plugin at all"); if (!dead.empty()) { void* h = dead[o.A(0) % dead.size()]; if (plugin_n_functions(h) || plugin_function_names(h) || plugin_function_name(h, 1)) bad("functions of an unloaded plugin"); } }
            else if (!live.empty()) look(live[o.A(0) % live.size()]);
        } else if (o.name == "find") {
            const char* n = nm(o.A(1)); char z[64]; snprintf(z, 64, "%s", n);
            if (o.A(2)) { if (!dead.empty() && plugin_function(dead[o.A(0) % dead.size()], z)) bad("a function of an unloaded plugin was found"); }
            else if (!live.empty()) { P& x = live[o.A(0) % live.size()]; const void* f = plugin_function(x.h, z); if (f != expect(x.lib, n)) bad("wrong address of a function", x.lib, o.A(1)); }
        } else if (o.name == "findall") {
            const char* n = nm(o.A(0)); std::set<const void*> ok; for (auto& x : live) if (member(libs()[x.lib].adv, n)) ok.insert(expect(x.lib, n)); if (ok.empty()) ok.insert(nullptr);
            const void* f = plugin_function(nullptr, n); if (!ok.count(f)) bad("wrong address of a function of any plugin", o.A(0));
        } else if (o.name == "register") { if (!reg) { DlRegister((void*)sim_dlopen, (void*)sim_dlsym, (void*)sim_dlerror, (void*)sim_dlclose); reg = true; } }
        else if (o.name == "dl") {
            int before = opens, l = (int)o.A(1); const char* n = nm(o.A(2));
            switch (o.A(0)) {
                case 0: { void* h = DlOpen(l < NL ? libs()[l].name : "libmissing.so", 1); void* e = reg && l < NL ? (void*)&handles[l] : nullptr; if (h != e) bad("DlOpen", l, reg); if (h) { dls.push_back({ h, l }); before++; } break; }
                case 1: { if (reg && dls.empty()) return; auto x = reg ? dls[l % dls.size()] : std::make_pair((void*)&handles[0], 0); void* f = DlSym(x.first, n); if (f != (reg ? expect(x.second, n) : nullptr)) bad("DlSym", x.second, reg); break; }
                case 2: { if (reg && dls.empty()) return; auto x = reg ? dls[l % dls.size()] : std::make_pair((void*)&handles[0], 0); int e = DlClose(x.first); if (reg ? e != 0 : e == 0) bad("DlClose", e, reg); if (reg) { dls.erase(dls.begin() + l % dls.size()); before--; } break; }
                default: { char* e = DlError(); if (!e || !*e || (reg && strcmp(e, "simulated error"))) bad("DlError", reg); }
            }
            if (opens != before) bad("libraries left open or closed", opens, before);
        }
        // nothing that was not asked for has changed
        for (auto& x : live) if (plugin_n_functions(x.h) != (int)libs()[x.lib].adv.size()) { bad("a plugin has changed", x.lib); break; }
        if (badcalls) { bad("the loader was given a library that is not open", badcalls); badcalls = 0; }
        obs(K_OP, { (long)live.size(), opens });
    }
    void child_end(const Plan&) override { arm_alloc(0, 0); while (!live.empty()) { look(live.back()); if (unload_plugin(live.back().h)) bad("a plugin was not unloaded", live.back().lib); live.pop_back(); } for (auto& x : dls) DlClose(x.first); if (opens) bad("libraries are still open", opens); }
    void oracle(const Plan& p, Result& r) override {
        for (auto& o : r.hist) switch (o.kind) {
            case O_SIGNAL: r.violate("signal", std::string("process killed by a signal: ") + o.s); return;
            case O_EXIT: r.violate("exit", "the library ended the process, op " + S(o.op)); return;
            case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress"); return;
            case O_HEAP: r.violate("heap", o.s); return;
            case K_BAD: r.violate(o.s, std::string(o.s) + " " + S(o.v[0]) + " " + S(o.v[1]) + " (op " + S(o.op) + ")"); return;
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { int n = 0; for (auto& o : r.hist) if (o.kind == K_OP && o.v[0] > 0) n++; return n > 2; }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
