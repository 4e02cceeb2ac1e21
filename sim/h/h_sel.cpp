// Selection directives (excdes_new.c): which records the searches of standard files return.
#include "fstutil.h"
extern "C" {
typedef size_t F2;
int Xc_Select_ip1(int, int, const void*, int); int Xc_Select_ip2(int, int, void*, int); int Xc_Select_ip3(int, int, void*, int); int Xc_Select_date(int, int, int*, int);
int Xc_Select_etiquette(int, int, char**, int); int Xc_Select_nomvar(int, int, char**, int); int Xc_Select_typvar(int, int, char**, int); int Xc_Select_suppl(int, int, int, int, int, int, int, int, int, char);
int Xf_Select_etiquette(int, int, char*, int, int); int Xf_Select_nomvar(int, int, char*, int, int); int Xf_Select_typvar(int, int, char*, int, int);
int C_select_ip1(void*, int); int C_select_ip2(void*, int); int C_select_ip3(void*, int); int C_select_etiquette(char**, int); int C_select_nomvar(char**, int); int C_select_typvar(char**, int); int C_select_suppl(int, int, int, int, int, int, int, char);
int f_select_ip1_(void*, int*); int f_select_ip2_(void*, int*); int f_select_ip3_(void*, int*); int f_select_date_(int*, int*); int f_select_etiquette_(char*, int*, F2); int f_select_nomvar_(char*, int*, F2); int f_select_typvar_(char*, int*, F2); int f_select_suppl_(int*, int*, int*, int*, int*, int*, int*, char*, F2);
int C_select_groupset(int, int); int C_filtre_desire(); int C_filtre_exclure(); int f_filtre_desire_(); int f_filtre_exclure_();
int C_requetes_reset(int, int, int, int, int, int, int, int); void C_requetes_init(char*, const char*); int ReadRequestTable(char*);
int C_fst_match_req(int); int C_fstmatch_req(int); int f_fst_match_req_(int*); int fst_deactivate_filters(); int fst_reactivate_filters();
int XC_get_MAX_Nlist(); int XC_get_MAX_requetes();
}
using namespace sim;
enum { K_OPEN = O_USER, K_CLOSE, K_WRITE, K_ERASE, K_FIND, K_MATCH, K_SEL, K_BUNDLE, K_GROUP, K_RESET, K_INIT, K_FILT, K_TABLE, K_START, K_STEP, K_LIMITS };
enum { NV, TV, ET, DT, I1, I2, I3, SUP, NCRIT };
static const int MAXSET = 50, MAXLIST = 50;

// level codes: code, kind and value
struct Ip { int ip, kind; double p; };
static const Ip ips[] = { { 0, 2, 0 }, { 500, 2, 500 }, { 41394464, 2, 500 }, { 850, 2, 850 }, { 41744464, 2, 850 }, { 1000, 2, 1000 }, { 39945888, 2, 1000 }, { 12, 2, 12 }, { 42063040, 2, 12 }, { 1199, 3, 1 }, { 59868832, 3, 1 },
    { 2000, 1, 0 }, { 32505856, 1, 0 }, { 12000, 1, 1 }, { 26314400, 1, 1 }, { 99614720, 5, 0 }, { 93423264, 5, 1 }, { 12001, 0, 0 }, { 15728640, 0, 0 }, { 12101, 0, 500 }, { 7840032, 0, 500 }, { 6, 2, 6 }, { 18, 2, 18 }, { 24, 2, 24 }, { 176280768, 10, 12 }, { 177809344, 10, 6 }, { 300, 2, 300 }, { 100, 2, 100 } };
static const int NIP = sizeof ips / sizeof *ips;
static const Ip* ipof(int ip) { for (auto& x : ips) if (x.ip == ip) return &x; return nullptr; }
static const char* names[] = { "TT", "TTX", "UU", "UUAB", "GZ", ">>", "^^", "!!SF", "P0", "HY" };
static const char* types_[] = { "P", "A", "P@", "AX", "X" };
static const char* labels[] = { "EXP1", "EXP12", "EXP1 B", "OPERATION", "LONGETIKET12", "ABCDEFGHIJ", "E" };
static bool translatable(const std::string& nv) { return !(nv[0] == '<' || nv[0] == '>' || nv[0] == '[' || nv[0] == '!' || nv[0] == '^'); }
static int dateof(long k) { static const long dt[] = { 0, 720, 1440, 2160, 4320, 72, 144, 216, 360, 432, 8640, 17280, 3, 7, 723, 356 }; return stick(17280l * 365 * 20 + dt[k & 15]); }

struct R { std::string nv, tv, et; int ip1, ip2, ip3, date, ni, nj, ig1, ig2, ig3, ig4; char gt; long tag; };
static R mkrec(long k, long tag, long salt) {
    Rng r(hsh(k * 131 + salt, 21)); R x; int few = (int)(salt % 3);
    x.nv = padto(names[r.below(few ? 4 : 10)], 4); x.tv = padto(types_[r.below(5)], 2); x.et = padto(labels[r.below(7)], 12);
    x.ip1 = ips[r.below(NIP)].ip; x.ip2 = ips[r.chance(.5) ? 21 + r.below(5) : r.below(NIP)].ip; x.ip3 = ips[r.chance(.5) ? 0 : r.below(NIP)].ip; x.date = dateof(r.below(16));
    x.ni = (int)(2 + r.below(3)); x.nj = (int)(1 + r.below(2)); x.ig1 = (int)r.below(3); x.ig2 = (int)r.below(3); x.ig3 = (int)r.below(3); x.ig4 = (int)r.below(3); x.gt = "GZN"[r.below(3)]; x.tag = tag; return x;
}
// ------------------------------------------------------------------ directives
struct Dir { int set = 0; bool des = true; int what = 0; std::vector<int> v; std::vector<std::string> s; int sup[7]; char gt = ' '; int nelm = 0; bool fdelta = false; };
static Dir mkdir_(long seed, int set, bool des, int what) {
    Rng r(hsh(seed, 31)); Dir d; d.set = set; d.des = des; d.what = what;
    int n = r.weighted({ 6, 5, 1 }); n = n == 0 ? 1 : n == 1 ? (int)r.range(2, 6) : (int)r.range(7, MAXLIST);
    if (what <= ET) {
        for (int i = 0; i < n; i++) {
            std::string t = what == NV ? names[r.below(10)] : what == TV ? types_[r.below(5)] : labels[r.below(7)]; size_t w = what == NV ? 4 : what == TV ? 2 : 12;
            int k = r.weighted({ 6, 3, 4, 1 }); if (k == 1) t.resize(std::max<size_t>(1, r.below((long)t.size()) + 1)); else if (k == 2) t = padto(t, w); else if (k == 3) t += "LONGER_THAN_ALL";
            if (t.size() > w && k != 3) t.resize(w); d.s.push_back(t);
        }
        if (r.chance(.06)) d.s[0] = padto("", what == NV ? 4 : what == TV ? 2 : 12); d.nelm = n;
    } else if (what == DT) {
        int k = r.weighted({ 6, 3, 2, 2, 4, 1 });
        auto a = [&]() { return dateof(r.below(16)); };
        if (k == 0) for (int i = 0; i < n; i++) d.v.push_back(a());
        else if (k == 1) { int p = a(), q = a(); if (ticks(p) > ticks(q) && r.chance(.8)) std::swap(p, q); d.v = { p, -2, q }; }
        else if (k == 2) d.v = { a(), -2 };
        else if (k == 3) d.v = { -2, a() };
        else if (k == 4) { int p = a(), q = a(); if (ticks(p) > ticks(q)) std::swap(p, q); d.v = { p, -2, q, -3, 0 }; d.fdelta = r.chance(.6); static const int sec[] = { 360, 1800, 720, 600, 3600, 1080, 10800, 2520 }; if (d.fdelta) { float f = (float)sec[r.below(8)]; memcpy(&d.v[4], &f, 4); } else d.v[4] = (int)r.range(1, 6); }
        else d.v = { -1 };
        d.nelm = (int)d.v.size();
    } else if (what < SUP) {
        int k = r.weighted({ 7, 3, 1, 1, 2, 1 }); auto a = [&]() { return ips[r.below(NIP)].ip; };
        if (k == 0) for (int i = 0; i < n; i++) d.v.push_back(a());
        else if (k == 1) { const Ip& x = ips[r.below(NIP)]; int y = a(); for (int t = 0; t < 30 && ipof(y)->kind != x.kind; t++) y = a(); d.v = { x.ip, -2, y }; }
        else if (k == 2) d.v = { a(), -2 };
        else if (k == 3) d.v = { -2, a() };
        else if (k == 4) d.v = { (int)r.below(2) ? 0 : 500, -2, 1000, -3, (int)(r.below(2) ? 50 : r.range(1, 4) * 100) };
        else d.v = { -1 };
        d.nelm = (int)d.v.size();
    } else { for (auto& x : d.sup) x = -1; d.sup[r.below(2)] = (int)r.range(1, 4); if (r.chance(.7)) d.sup[3 + r.below(4)] = (int)r.below(3); if (r.chance(.3)) d.sup[3 + r.below(4)] = (int)r.below(3); if (r.chance(.3)) d.sup[2] = 1; if (r.chance(.4)) d.sup[r.below(2)] = -1; d.gt = r.chance(.5) ? ' ' : "GZN"[r.below(3)]; d.nelm = 1; }
    return d;
}
// ------------------------------------------------------------------ reference model
struct Crit_ { bool on = false; std::vector<int> v; std::vector<std::string> s; int mode = 0; long delta = 0; int lo = 0, hi = 0; int sup[7]; char gt; };
struct Set { bool on = false, des = false; Crit_ c[NCRIT]; };
struct State { Set s[MAXSET]; int first = 0, last = MAXSET - 1, bundle = -1; bool des = true; };
enum { VALUE = 1, RANGE, DELTA };
static bool apply(State& st, const Dir& d, int set, bool des) {
    if (set < 0 || set >= MAXSET || d.nelm <= 0 || d.nelm > MAXLIST) return false;
    Set& s = st.s[set]; if (s.on && s.des != des) return false;
    Crit_ c; c.on = true;
    if (d.what <= ET) c.s.assign(d.s.begin(), d.s.begin() + d.nelm);
    else if (d.what == SUP) { memcpy(c.sup, d.sup, sizeof c.sup); c.gt = d.gt; }
    else {
        std::vector<int> v(d.v.begin(), d.v.begin() + d.nelm); c.mode = VALUE; if (v[0] == -1) v.resize(1);
        if (d.what == DT && v.size() > 1) { int rg = 0; for (size_t i = 0; i < v.size(); i++) { if (v[i] == -3) { if (rg == 0 || i != 3 || i + 1 >= v.size()) return false; } if (v[i] == -2) { rg++; if (rg > 1 || i > 1) return false; } } }
        if (v.size() == 5 && v[1] == -2 && v[3] == -3) { c.mode = DELTA; c.lo = v[0]; c.hi = v[2]; if (d.what == DT && d.fdelta) { float f; memcpy(&f, &v[4], 4); c.delta = (long)(f + .5); } else c.delta = d.what == DT ? v[4] * 3600l : v[4]; }
        else if (v.size() > 1 && v[1] == -2) { c.mode = RANGE; c.lo = v[0]; c.hi = v.size() > 2 ? v[2] : -2; }
        else if (v.size() > 1 && v[0] == -2) { c.mode = RANGE; c.lo = -2; c.hi = v[1]; }
        else c.v = v;
    }
    s.on = true; s.des = des; s.c[d.what] = c; return true;
}
static bool m_str(const Crit_& c, const std::string& x, size_t w) { if (c.s[0].size() && c.s[0][0] == ' ') return true; for (auto& t : c.s) { size_t n = std::min(w, t.size()); if (x.compare(0, n, t, 0, n) == 0) return true; } return false; }
static bool m_date(const Crit_& c, int date) {
    if (c.mode == VALUE) { if (c.v[0] == -1) return true; for (int x : c.v) if (x == date) return true; return false; }
    long t = ticks(date), a = c.lo <= 0 ? t : ticks(c.lo), b = c.hi <= 0 ? t : ticks(c.hi); if (t < a || t > b) return false;
    return c.mode == RANGE || (c.delta > 0 && ((t - a) * 5 % c.delta) == 0);
}
static bool m_ip(const Crit_& c, int ip, bool tr) {
    if (c.mode == VALUE) { for (int x : c.v) if (x == ip || x == -1) return true; if (!tr) return false; const Ip* a = ipof(ip); for (int x : c.v) { const Ip* b = ipof(x); if (a && b && a->kind == b->kind && a->p == b->p) return true; } return false; }
    if (c.lo == -1) return true; if (!tr) return false; const Ip* a = ipof(ip); double p = a->p, lo = p, hi = p;
    if (c.lo >= 0) { const Ip* b = ipof(c.lo); if (b->kind != a->kind) return false; lo = b->p; } if (c.hi >= 0) { const Ip* b = ipof(c.hi); if (b->kind != a->kind) return false; hi = b->p; }
    if (lo > hi) std::swap(lo, hi); if (p < lo || p > hi) return false; if (c.mode == RANGE) return true;
    return fmod(p - lo, (double)c.delta) == 0;
}
// the value of C_fst_match_req
static int decide(const State& st, const R& r) {
    bool anydes = false; bool tr = translatable(r.nv);
    for (int i = st.first; i <= st.last; i++) {
        const Set& s = st.s[i]; if (!s.on) continue; anydes |= s.des; const Crit_* c = s.c; bool ok = true;
        if (c[NV].on) ok &= m_str(c[NV], r.nv, 4); if (c[TV].on) ok &= m_str(c[TV], r.tv, 2); if (c[ET].on) ok &= m_str(c[ET], r.et, 12); if (c[DT].on) ok &= m_date(c[DT], r.date);
        if (c[I1].on) ok &= m_ip(c[I1], r.ip1, tr); if (c[I2].on) ok &= m_ip(c[I2], r.ip2, tr); if (c[I3].on) ok &= m_ip(c[I3], r.ip3, tr);
        if (c[SUP].on) { int x[7] = { r.ni, r.nj, 1, r.ig1, r.ig2, r.ig3, r.ig4 }; for (int j = 0; j < 7; j++) ok &= c[SUP].sup[j] == -1 || c[SUP].sup[j] == x[j]; ok &= c[SUP].gt == ' ' || c[SUP].gt == r.gt; }
        if (ok) return s.des ? i + 1 : 0;
    }
    return anydes ? 0 : 1;
}
// ------------------------------------------------------------------ directive files
static std::vector<Dir> mktable(long seed, std::string& text, long style) {
    Rng r(hsh(seed, 41)); std::vector<Dir> v; int n = (int)r.range(1, 8); int first = 1 + (int)r.below(style & 1 ? 44 : 3); bool side[MAXSET]; for (auto& x : side) x = r.chance(.6); char b[200];
    for (int i = 0; i < n; i++) {
        int set = first + (int)r.below(3); Dir d = mkdir_((long)r.below(1 << 30), set, r.chance(.04) ? !side[set] : side[set], (int)r.below(NCRIT));
        for (auto& s : d.s) { if (d.what == NV) s = padto(s, std::max<size_t>(4, s.size())).substr(0, 4); else if (d.what == TV) s = padto(s, 2).substr(0, 2); else s = padto(s, 12).substr(0, 12); }
        static const char* wn[] = { "Nomvar    ", "Typvar    ", "Etiket    ", "Dates     ", "IP1       ", "IP2       ", "IP3       ", "Xtra      " };
        if (d.what >= I1 && d.what <= I3 && d.nelm == 5 && d.v[3] == -3) { d.v.resize(3); d.nelm = 3; } // intervals of levels cannot be written in a table
        const char* md = "value "; std::vector<int> w = d.v;
        if (d.what >= DT && d.what <= I3 && d.nelm > 1) {
            if (d.v[1] == -2) { md = "range "; if (d.what == DT && d.nelm == 5) { md = "delta "; int sec = d.v[4] * 3600; if (d.fdelta) { float f; memcpy(&f, &d.v[4], 4); sec = (int)(f + .5f); } float f = (float)sec; d.fdelta = true; memcpy(&d.v[4], &f, 4); w = { d.v[0], d.v[2], sec }; } else w = { d.v[0], d.nelm > 2 ? d.v[2] : -2 }; }
            else if (d.v[0] == -2) { md = "range "; w = { -2, d.v[1] }; }
        }
        int cnt = d.what == SUP ? 8 : d.what <= ET ? d.nelm : (int)w.size();
        snprintf(b, 200, "%2d, '%c', '%s', '%6s', %2d\n      ", set, d.des ? 'D' : 'E', wn[d.what], md, cnt); text += b;
        if (d.what == SUP) { for (int x : d.sup) { snprintf(b, 200, "%d, ", x); text += b; } snprintf(b, 200, "'%c'\n", d.gt); text += b; }
        else if (d.what <= ET) { for (size_t j = 0; j < d.s.size(); j++) text += (j ? ", '" : " '") + d.s[j] + "'"; text += "\n"; }
        else { for (size_t j = 0; j < w.size(); j++) text += (j ? ", " : " ") + std::to_string(w[j]); text += "\n"; }
        v.push_back(d);
    }
    text += " 0\n"; return v;
}
static const char* junk[] = { "1\n", "7, D, IP1\n 4\n", "2, 'D', 'IP1', 'value ', 3\n 500, 850\n", "3, 'E', 'Nomvar', 'value ', 2\n 'TT', 'UU\n", "2, 'D', 'Nothing', 'value ', 1\n 3\n", "60, 'D', 'IP1', 'value ', 1\n 500\n", "1, 'D', 'IP1', 'value ', 70\n 1\n", "2, 'D', 'Nomvar', 'value ', 1\n", "2, 'D', 'Dates', 'range ', 1\n 44\n", "2, 'D', 'Xtra', 'value ', 8\n 1, 2, 3\n", "-3, 'D', 'IP2', 'value ', 1\n 12\n", "4, 'D', 'a_word_that_is_much_longer_than_any_keyword', 'value ', 1\n 12\n" };

struct H : Harness {
    std::vector<std::string> props() override { return { "F07" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Plan p; p.prop = prop; p.seed = seed; Rng r(hsh(seed, 51)); p.cfg["ftn"] = hsh(seed, 52) % 3; long salt = p.cfg["salt"] = r.below(1000000); (void)salt; long pool = r.chance(.4) ? 12 : 60; long tag = 1;
        int nops = (int)(th ? r.range(15, 120) : r.range(10, 60)); int nset = r.chance(.25) ? MAXSET : (int)r.range(1, 5); std::vector<char> side(MAXSET); for (auto& x : side) x = r.chance(.6); bool tables = r.chance(.5), bundles = r.chance(.4), faults = tables && r.chance(.6); int nf = r.chance(.4) ? 2 : 1;
        auto wr = [&](long f) { p.add("write", { f, r.below(pool), tag++, r.below(4) == 0 }); };
        auto find = [&]() { return std::vector<long>{ r.below(nf), r.below(1 << 30), r.weighted({ 4, 4, 4, 3, 6 }), r.below(pool) }; };
        for (long f = 0; f < nf; f++) { p.add("open", { f }); int n = (int)r.range(4, 40); for (int i = 0; i < n; i++) wr(f); }
        p.add("limits");
        for (int i = 0; i < nops; i++) {
            int k = r.weighted({ 26, 30, 3, 3, 4, bundles ? 6 : 0, 2, 2, 2, tables ? 7 : 0, 3, 1, 2 });
            switch (k) {
                case 0: { long set = r.below(nset); if (bundles && r.chance(.5)) set = 0; bool des = side[set]; if (r.chance(.05)) des = !des; if (r.chance(.04)) set = r.chance(.5) ? MAXSET + r.below(3) : -1 - r.below(3); long bad = r.chance(.07) ? 1 + r.below(4) : 0;
                    p.add("sel", { set, des, r.below(NCRIT), r.below(1 << 30), r.below(bundles ? 4 : 2) * (bundles ? 1 : 3), bad }); if (r.chance(.6)) p.add("find", find()); break; }
                case 1: p.add("find", find()); break;
                case 2: wr(r.below(nf)); break;
                case 3: p.add("erase", { r.below(nf), r.below(1000) }); break;
                case 4: p.add("start", { r.below(nf), r.below(1 << 30), r.below(pool) }); for (int j = (int)r.range(1, 5); j > 0; j--) { p.add("step", { r.below(nf) }); if (r.chance(.4)) { long set = r.below(nset); p.add("sel", { set, side[set], r.below(NCRIT), r.below(1 << 30), 0, 0 }); } } break;
                case 5: p.add("bundle", { r.chance(.5), r.below(2) }); break;
                case 6: { long a = r.below(nset), b = r.below(nset); if (a > b && r.chance(.8)) std::swap(a, b); if (r.chance(.4)) b = MAXSET - 1; if (r.chance(.3)) a = 0; if (r.chance(.06)) b = MAXSET; if (r.chance(.06)) a = -1; p.add("group", { a, b }); break; }
                case 7: { long set = r.below(nset); p.add("reset", { set, r.below(2), r.below(128), side[set], r.below(NCRIT), r.below(1 << 30) }); break; }
                case 8: p.add("init"); break;
                case 9: { long w = r.weighted({ 12, 2, 2 }); if (r.chance(.3)) p.add("init"); p.add("table", { r.below(1 << 30), r.below(2), w, r.below(4096) }); if (w) p.add("init"); if (r.chance(.8)) p.add("find", find()); break; }
                case 10: p.add("filt", { r.chance(.4) }); break;
                case 11: p.add("closeall"); p.add("restart"); for (long f = 0; f < nf; f++) p.add("open", { f }); break;
                default: p.add("closeall"); for (long f = 0; f < nf; f++) p.add("open", { f }); break;
            }
        }
        p.add("filt", { 0 }); for (long m = 0; m < 5; m++) p.add("find", { 0, r.below(1 << 30), m, 0 });
        if (faults) for (auto& o : p.ops) if (o.name == "table" && r.chance(.7)) {
            int n = (int)r.range(1, 3); bool sh = r.chance(.7); long base = 0;
            for (int j = 0; j < n; j++) { if (sh) { p.faults.push_back({ o.id, (int)++base, F_SHORTR, r.range(1, 500) }); continue; } static const int k[] = { F_EIO_R, F_EINTR_R, F_EOPEN, F_EIO_R }; int kd = k[r.below(4)]; p.faults.push_back({ o.id, kd == F_EOPEN ? 1 : 1, kd, 0 }); break; }
            if (sh && r.chance(.6)) p.faults.push_back({ o.id, (int)base + 1, r.chance(.5) ? F_EIO_R : F_EINTR_R, 0 });
        }
        return p;
    }
    // -------------------------------------------------------------- child
    bool isopen[4]; bool active[4]; bool off;
    static std::string fname(long f) { return "/sim/sel" + std::to_string(f) + ".fst"; }
    static int unit(long f) { return 61 + (int)f; }
    void child_begin(const Plan&) override {
        for (int i = 0; i < 4; i++) isopen[i] = active[i] = false; off = false; no_faults(true);
        int u = 70; c_fnom(&u, "/sim/first.fst", "STD+RND", 0); c_fstouv(70, (char*)"RND"); c_fstfrm(70); c_fclos(70); no_faults(false);   // the first opening prepares the package
    }
    static long tagof(int h) { Meta m; if (get_prm(h, m) < 0) return -7; return m.npas; }
    std::vector<int> all(int iun) { std::vector<int> q(3000); int ni, nj, nk, n = 0; int old = fst_deactivate_filters(); int e = c_fstinl(iun, &ni, &nj, &nk, -1, (char*)" ", -1, -1, -1, (char*)" ", (char*)" ", q.data(), &n, 3000); if (!old) fst_reactivate_filters(); if (e < 0) n = 0; q.resize(n); return q; }
    struct Q { char et[16], tv[4], nv[8]; int dv, ip1, ip2, ip3; };
    static Q crit(long a, long k, long salt) {
        Rng r(hsh(a, 61)); R x = mkrec(k, 0, salt); Q q; bool wild = r.chance(.45);
        snprintf(q.et, 16, "%s", !wild && r.chance(.2) ? x.et.c_str() : " "); snprintf(q.tv, 4, "%s", !wild && r.chance(.25) ? x.tv.c_str() : " "); snprintf(q.nv, 8, "%s", !wild && r.chance(.4) ? x.nv.c_str() : " ");
        q.dv = !wild && r.chance(.12) ? x.date : -1; q.ip1 = !wild && r.chance(.2) ? x.ip1 : -1; q.ip2 = !wild && r.chance(.15) ? x.ip2 : -1; q.ip3 = !wild && r.chance(.12) ? x.ip3 : -1; return q;
    }
    static bool qmatch(const Q& q, const R& r) {
        if (q.dv != -1 && q.dv / 10 != r.date / 10) return false; if (q.et[0] != ' ' && r.et != padto(q.et, 12)) return false; if (q.tv[0] != ' ' && r.tv != padto(q.tv, 2)) return false; if (q.nv[0] != ' ' && r.nv != padto(q.nv, 4)) return false;
        return (q.ip1 == -1 || q.ip1 == r.ip1) && (q.ip2 == -1 || q.ip2 == r.ip2) && (q.ip3 == -1 || q.ip3 == r.ip3);
    }
    static Dir dirof(const Op& o) { Dir d = mkdir_(o.A(3), (int)o.A(0), o.A(1), (int)(o.A(2) % NCRIT)); long bad = o.A(5);
        if (bad == 1 && d.what != SUP) d.nelm = 0; if (bad == 2 && d.what != SUP) d.nelm = -1; if (bad == 3 && d.what != SUP) { d.nelm = MAXLIST + 1; d.s.resize(MAXLIST + 1, "TT"); d.v.resize(MAXLIST + 1, 500); }
        if (bad == 4 && d.what == DT) { d.v = { dateof(1), dateof(2), -2, dateof(3) }; d.nelm = 4; if (o.A(3) & 1) { d.v = { dateof(1), -2, dateof(2), -3 }; d.nelm = 4; } if (o.A(3) & 2) { d.v = { dateof(1), -3, 6 }; d.nelm = 3; } }
        return d; }
    // api 0: set number, 1: bundle from C, 2: bundle from Fortran, 3: set number, strings from Fortran
    static int select(const Dir& d, int api, int set, bool des) {
        int n = d.nelm; std::vector<int> v = d.v; v.shrink_to_fit(); std::vector<std::string> s = d.s; int* iv = (int*)malloc(v.size() * 4 + 1); memcpy(iv, v.data(), v.size() * 4); std::vector<char*> sp; for (auto& x : s) sp.push_back(&x[0]); int e = -99; int dx = des ? 1 : (d.nelm % 2 ? 0 : -1);
        size_t w = d.what == NV ? 4 : d.what == TV ? 2 : 12; std::string fs; for (auto& x : s) fs += padto(x, w).substr(0, w);
        int S[7]; memcpy(S, d.sup, sizeof S); char g = d.gt;
        switch (d.what) {
            case NV: e = api == 0 ? Xc_Select_nomvar(set, dx, sp.data(), n) : api == 1 ? C_select_nomvar(sp.data(), n) : api == 2 ? f_select_nomvar_(&fs[0], &n, w) : Xf_Select_nomvar(set, dx, &fs[0], n, (int)w); break;
            case TV: e = api == 0 ? Xc_Select_typvar(set, dx, sp.data(), n) : api == 1 ? C_select_typvar(sp.data(), n) : api == 2 ? f_select_typvar_(&fs[0], &n, w) : Xf_Select_typvar(set, dx, &fs[0], n, (int)w); break;
            case ET: e = api == 0 ? Xc_Select_etiquette(set, dx, sp.data(), n) : api == 1 ? C_select_etiquette(sp.data(), n) : api == 2 ? f_select_etiquette_(&fs[0], &n, w) : Xf_Select_etiquette(set, dx, &fs[0], n, (int)w); break;
            case DT: e = api == 1 || api == 2 ? f_select_date_(iv, &n) : Xc_Select_date(set, dx, iv, n); break;
            case I1: e = api == 1 ? C_select_ip1(iv, n) : api == 2 ? f_select_ip1_(iv, &n) : Xc_Select_ip1(set, dx, iv, n); break;
            case I2: e = api == 1 ? C_select_ip2(iv, n) : api == 2 ? f_select_ip2_(iv, &n) : Xc_Select_ip2(set, dx, iv, n); break;
            case I3: e = api == 1 ? C_select_ip3(iv, n) : api == 2 ? f_select_ip3_(iv, &n) : Xc_Select_ip3(set, dx, iv, n); break;
            default: e = api == 1 ? C_select_suppl(S[0], S[1], S[2], S[3], S[4], S[5], S[6], g) : api == 2 ? f_select_suppl_(S, S + 1, S + 2, S + 3, S + 4, S + 5, S + 6, &g, 1) : Xc_Select_suppl(set, dx, S[0], S[1], S[2], S[3], S[4], S[5], S[6], g); break;
        }
        free(iv); return e;
    }
    static Dir fortran(Dir d, int api) { if (api >= 2) { size_t w = d.what == NV ? 4 : d.what == TV ? 2 : 12; for (auto& x : d.s) x = padto(x, w).substr(0, w); } return d; }
    static Dir effective(const Op& o) { Dir d = dirof(o); int api = (int)(o.A(4) & 3); if (api >= 2 && d.what <= ET && d.nelm < 0) d.nelm = 0; return fortran(d, api); }
    void exec(const Plan& p, const Op& o) override {
        const std::string& nm = o.name; long f = o.A(0) & 3; int iun = unit(f); long salt = p.C("salt"); g_ftn = p.C("ftn") == 2 || (p.C("ftn") == 1 && hsh(o.id, p.seed) % 2);
        if (nm == "open") { if (isopen[f]) return; int u = iun; int e = c_fnom(&u, fname(f).c_str(), "STD+RND", 0), e2 = e == 0 ? c_fstouv(iun, (char*)"RND") : -9999; isopen[f] = e == 0 && e2 >= 0; obs(K_OPEN, { f, e, e2 }); return; }
        if (nm == "closeall") { for (long g = 0; g < 4; g++) if (isopen[g]) { int e = c_fstfrm(unit(g)), e2 = c_fclos(unit(g)); isopen[g] = active[g] = false; obs(K_CLOSE, { g, e, e2 }); } return; }
        if (nm == "limits") { obs(K_LIMITS, { XC_get_MAX_requetes(), XC_get_MAX_Nlist() }); return; }
        if (nm == "sel") { Dir d = effective(o); obs(K_SEL, { select(d, (int)(o.A(4) & 3), d.set, d.des) }); return; }
        if (nm == "bundle") { int e = o.A(0) ? (o.A(1) ? C_filtre_desire() : f_filtre_desire_()) : (o.A(1) ? C_filtre_exclure() : f_filtre_exclure_()); obs(K_BUNDLE, { o.A(0), e }); return; }
        if (nm == "group") { obs(K_GROUP, { o.A(0), o.A(1), C_select_groupset((int)o.A(0), (int)o.A(1)) }); return; }
        if (nm == "reset") { int m[7]; for (int i = 0; i < 7; i++) m[i] = o.A(1) && (o.A(2) >> i & 1) ? -1 : 0; int e = C_requetes_reset((int)o.A(0), m[0], m[1], m[2], m[3], m[4], m[5], m[6]), e2 = 0; if (o.A(1)) { Dir d = mkdir_(o.A(5), (int)o.A(0), o.A(3), (int)o.A(4)); e2 = select(d, 0, d.set, d.des); } obs(K_RESET, { e, e2 }); return; }
        if (nm == "init") { C_requetes_init(nullptr, nullptr); obs(K_INIT); return; }
        if (nm == "filt") { int e = o.A(0) ? fst_deactivate_filters() : fst_reactivate_filters(); obs(K_FILT, { o.A(0), e, off }); off = o.A(0); return; }
        if (nm == "table") {
            std::string t; mktable(o.A(0), t, o.A(1)); if (o.A(2) == 1) t.resize((size_t)(o.A(3) % (long)t.size())); if (o.A(2) == 2) { std::string j = junk[o.A(3) % 12]; t = o.A(3) & 64 ? j + t : t.substr(0, t.size() - 3) + j + (o.A(3) & 128 ? "" : " 0\n"); }
            fs_put("/sim/directives", t.data(), t.size()); char n[] = "/sim/directives"; int e = ReadRequestTable(n); obs(K_TABLE, { e }); return;
        }
        if (f >= 4 || !isopen[f]) return;
        if (nm == "write") {
            R x = mkrec(o.A(1), o.A(2), salt); active[f] = false; int w[8]; for (int i = 0; i < 8; i++) w[i] = (int)(x.tag * 16 + i); char g[2] = { x.gt, 0 };
            int e = c_fstecr(w, nullptr, -32, iun, x.date, 0, (int)x.tag, x.ni, x.nj, 1, x.ip1, x.ip2, x.ip3, (char*)x.tv.c_str(), (char*)x.nv.c_str(), (char*)x.et.c_str(), g, x.ig1, x.ig2, x.ig3, x.ig4, 2, (int)o.A(3));
            obs(K_WRITE, { f, e });
        } else if (nm == "erase") { active[f] = false; auto l = all(iun); if (l.empty()) return; int h = l[o.A(1) % l.size()]; long t = tagof(h); obs(K_ERASE, { f, c_fsteff(h), t }); }
        else if (nm == "start") { Q q = crit(o.A(1), o.A(2), salt); int a, b, c; int h = c_fstinf(iun, &a, &b, &c, q.dv, q.et, q.ip1, q.ip2, q.ip3, q.tv, q.nv); active[f] = true; obs(K_START, { f, h >= 0 ? tagof(h) : -1 }); if (h < 0) active[f] = false; }
        else if (nm == "step") { if (!active[f]) return; int a, b, c; int h = c_fstsui(iun, &a, &b, &c); obs(K_STEP, { f, h >= 0 ? tagof(h) : -1 }); if (h < 0) active[f] = false; }
        else if (nm == "find") {
            active[f] = false; Q q = crit(o.A(1), o.A(3), salt); int ni = 0, nj = 0, nk = 0; std::vector<int32_t> out; long mode = o.A(2) % 5, bad = 0;
            if (mode == 4) { for (int h : all(iun)) { int e = o.A(1) % 3 == 0 ? C_fstmatch_req(h) : o.A(1) % 3 == 1 ? f_fst_match_req_(&h) : C_fst_match_req(h); out.push_back((int)tagof(h)); out.push_back(e); } obs(K_MATCH, { f, (long)out.size() / 2, blob(out.data(), out.size() * 4) }); return; }
            if (mode == 0) { int h = c_fstinf(iun, &ni, &nj, &nk, q.dv, q.et, q.ip1, q.ip2, q.ip3, q.tv, q.nv); while (h >= 0 && out.size() < 3000) { out.push_back((int)tagof(h)); h = c_fstsui(iun, &ni, &nj, &nk); } }
            else if (mode == 1) { int h = c_fstinf(iun, &ni, &nj, &nk, q.dv, q.et, q.ip1, q.ip2, q.ip3, q.tv, q.nv); while (h >= 0 && out.size() < 3000) { out.push_back((int)tagof(h)); h = c_fstinfx(h, iun, &ni, &nj, &nk, q.dv, q.et, q.ip1, q.ip2, q.ip3, q.tv, q.nv); } }
            else if (mode == 2) { std::vector<int> l(3000); int n = 0; int e = c_fstinl(iun, &ni, &nj, &nk, q.dv, q.et, q.ip1, q.ip2, q.ip3, q.tv, q.nv, l.data(), &n, 3000); if (e < 0) bad = e; else for (int i = 0; i < n; i++) out.push_back((int)tagof(l[i])); }
            else { std::vector<int32_t> b(64, -1); int h = c_fstlir(b.data(), iun, &ni, &nj, &nk, q.dv, q.et, q.ip1, q.ip2, q.ip3, q.tv, q.nv); if (h >= 0) { out.push_back((int)tagof(h)); for (int i = 0; i < ni * nj && i < 64; i++) if (b[i] != out[0] * 16 + i) bad = -50; } }
            obs(K_FIND, { f, mode, (long)out.size(), blob(out.data(), out.size() * 4), bad });
        }
    }
    // -------------------------------------------------------------- oracle
    struct F { std::vector<R> r; bool open = false, dirty = false, lost = false, ordered = true; Q q; size_t pos = 0; bool act = false; };
    void oracle(const Plan& p, Result& r) override {
        std::map<long, F> fs; std::map<int, const Op*> byid; for (auto& o : p.ops) byid[o.id] = &o; int inc = 0; long salt = p.C("salt");
        std::vector<State> cand(1); bool unknown = false, off = false; char m[300];
        for (auto& o : r.hist) {
            if (o.inc != inc) { inc = o.inc; cand.assign(1, State()); unknown = off = false; for (auto& kv : fs) { if (kv.second.dirty) kv.second.lost = true; kv.second.open = kv.second.act = false; } }
            const Op* op = byid.count(o.op) ? byid[o.op] : nullptr; std::string at = op ? " (op " + std::to_string(o.op) + " " + op->name + ")" : "";
            switch (o.kind) {
                case O_SIGNAL: r.violate("signal", std::string("killed by a signal: ") + o.s + at); return; case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress" + at); return; case O_HEAP: r.violate("heap", o.s + at); return;
                case O_EXIT: r.violate("exit", "the process was ended" + at); return;
            }
            if (o.kind < O_USER || !op) continue;
            bool flt = false; bool hard = false, eop = false; for (auto& x : p.faults) if (x.op == o.op) { flt = true; if (x.kind == F_EIO_R || x.kind == F_EINTR_R) hard = true; if (x.kind == F_EOPEN) eop = true; }
            F& f = fs[o.v[0]];
            auto accepted = [&](const State& st, const R& x) { return off ? 1 : decide(st, x); };
            switch (o.kind) {
                case K_LIMITS: if (o.v[0] != MAXSET || o.v[1] != MAXLIST) return; break; // the model does not apply to other limits
                case K_OPEN: if (f.lost) break; if (o.v[1] != 0 || o.v[2] < 0) { r.violate("open", "open failed" + at); return; } f.open = true; break;
                case K_CLOSE: f.open = false; f.dirty = f.act = false; if (f.lost) break; if (o.v[1] < 0 || o.v[2] < 0) { r.violate("close", "close failed" + at); return; } break;
                case K_WRITE: {
                    f.dirty = true; f.act = false; if (f.lost) break; if (o.v[1] < 0) { r.violate("write", "write returned " + std::to_string(o.v[1]) + at); return; }
                    R x = mkrec(op->A(1), op->A(2), salt); bool done = false;
                    if (op->A(3)) for (size_t i = 0; i < f.r.size(); i++) { R& y = f.r[i]; if (y.nv == x.nv && y.tv == x.tv && y.et == x.et && y.ip1 == x.ip1 && y.ip2 == x.ip2 && y.ip3 == x.ip3) { bool same = y.ni == x.ni && y.nj == x.nj; if (!f.ordered) { f.lost = true; break; } if (same) y = x; else { f.r.erase(f.r.begin() + (long)i); f.r.push_back(x); f.ordered = false; } done = true; break; } }
                    if (!done) f.r.push_back(x); break;
                }
                case K_ERASE: f.dirty = true; f.act = false; if (f.lost) break; if (o.v[1] < 0) { r.violate("erase", "erase failed" + at); return; } for (size_t i = 0; i < f.r.size(); i++) if (f.r[i].tag == o.v[2]) { f.r.erase(f.r.begin() + (long)i); break; } break;
                case K_SEL: {
                    if (unknown) break; Dir d = effective(*op); int api = (int)(op->A(4) & 3); std::vector<State> keep;
                    for (auto& st : cand) { State t = st; bool bd = api == 1 || api == 2; bool ok = apply(t, d, bd ? st.bundle : d.set, bd ? st.des : d.des); if (ok == (o.v[0] == 0)) keep.push_back(t); }
                    if (keep.empty()) { snprintf(m, 300, "a directive returned %ld, the model says it is %s", (long)o.v[0], o.v[0] == 0 ? "refused" : "accepted"); r.violate("directive-status", m + at); return; } cand = keep; break;
                }
                case K_BUNDLE: if (unknown) break; for (auto& st : cand) { st.bundle++; st.des = o.v[0]; if ((st.bundle < MAXSET) != (o.v[1] == 0)) { r.violate("bundle-status", "a new set of directives returned " + std::to_string(o.v[1]) + at); return; } } break;
                case K_GROUP: { if (unknown) break; bool ok = o.v[0] >= 0 && o.v[1] < MAXSET && o.v[0] <= o.v[1]; if (ok != (o.v[2] == 0)) { r.violate("group-status", "choosing sets " + std::to_string(o.v[0]) + " to " + std::to_string(o.v[1]) + " returned " + std::to_string(o.v[2]) + at); return; } if (ok) for (auto& st : cand) { st.first = (int)o.v[0]; st.last = (int)o.v[1]; } break; }
                case K_RESET: {
                    if (unknown) break; if (o.v[0] != 0) { r.violate("reset-status", "reset returned " + std::to_string(o.v[0]) + at); return; }
                    for (auto& st : cand) { Set& s = st.s[op->A(0)]; s.on = false; static const int ord[] = { NV, TV, ET, DT, I1, I2, I3 }; for (int i = 0; i < 7; i++) if (!(op->A(1) && (op->A(2) >> i & 1))) s.c[ord[i]] = Crit_(); s.c[SUP] = Crit_();
                        if (op->A(1)) { Dir d = mkdir_(op->A(5), (int)op->A(0), op->A(3), (int)op->A(4)); if (apply(st, d, d.set, d.des) != (o.v[1] == 0)) { r.violate("directive-status", "a directive after a reset returned " + std::to_string(o.v[1]) + at); return; } } }
                    break;
                }
                case K_INIT: cand.assign(1, State()); unknown = false; break;
                case K_FILT: if ((o.v[1] != 0) != (o.v[2] != 0)) { r.violate("filter-switch", "the previous state returned is wrong" + at); return; } off = o.v[0]; break;
                case K_TABLE: {
                    if (unknown) break; std::string t; auto ds = mktable(op->A(0), t, op->A(1));
                    if (op->A(2)) { if (op->A(2) == 2 && o.v[0] == 0 && !(op->A(3) % 12 == 7 && op->A(3) & 64)) { r.violate("bad-table-accepted", "a table of directives with a malformed line was accepted" + at); return; } unknown = true; break; }
                    if (eop && o.v[0] != 0) break;
                    if (hard && o.v[0] != 0) { // a prefix of the directives
                        std::vector<State> nx; for (auto& st : cand) { State s = st; nx.push_back(s); for (auto& d : ds) { if (!apply(s, d, d.set, d.des)) break; nx.push_back(s); } } cand = nx; probe("prefix of a table"); break;
                    }
                    std::vector<State> nx; for (auto& st : cand) { State s = st; bool ok = true; for (auto& d : ds) if (!apply(s, d, d.set, d.des)) { ok = false; break; } if (ok == (o.v[0] == 0)) nx.push_back(s); }
                    if (nx.empty()) { r.violate("table-status", "reading a table of directives returned " + std::to_string(o.v[0]) + (flt ? " although only part of it was read or applied" : "") + at); return; } cand = nx; break;
                }
                case K_MATCH: {
                    if (f.lost || unknown) break; const int32_t* w = (const int32_t*)blob_at(o.v[2]); std::map<long, int> got; for (long i = 0; i < o.v[1]; i++) got[w[2 * i]] = w[2 * i + 1];
                    if (got.size() != f.r.size()) { r.violate("records", std::to_string(got.size()) + " records are listed without directives, " + std::to_string(f.r.size()) + " were written" + at); return; }
                    std::vector<State> keep; std::string why; for (auto& st : cand) { bool ok = true; for (auto& x : f.r) { int e = accepted(st, x); if (!got.count(x.tag) || got[x.tag] != e) { ok = false; snprintf(m, 300, "record %ld (%s %s %s ip1 %d ip2 %d ip3 %d): the directives give %d, expected %d", x.tag, x.nv.c_str(), x.tv.c_str(), x.et.c_str(), x.ip1, x.ip2, x.ip3, got.count(x.tag) ? got[x.tag] : -999, e); why = m; break; } } if (ok) keep.push_back(st); }
                    if (keep.empty()) { r.violate("decision", why + at); return; } cand = keep; break;
                }
                case K_FIND: {
                    if (f.lost || unknown) break; Q q = crit(op->A(1), op->A(3), salt); const int32_t* w = (const int32_t*)blob_at(o.v[3]); std::vector<long> got(w, w + o.v[2]); if (o.v[4]) { r.violate("read", "listing or reading failed (" + std::to_string(o.v[4]) + ")" + at); return; }
                    std::vector<State> keep; std::string why; for (auto& st : cand) { std::vector<long> e; for (auto& x : f.r) if (qmatch(q, x) && accepted(st, x)) e.push_back(x.tag); auto g = got; bool ok;
                        if (o.v[1] == 3) { ok = e.empty() ? g.empty() : g.size() == 1 && (f.ordered ? g[0] == e[0] : std::count(e.begin(), e.end(), g[0]) > 0); } else { if (!f.ordered) { std::sort(e.begin(), e.end()); std::sort(g.begin(), g.end()); } ok = e == g; }
                        if (ok) keep.push_back(st); else { long miss = 0, extra = 0; for (long x : e) if (!std::count(g.begin(), g.end(), x)) miss = x; for (long x : g) if (!std::count(e.begin(), e.end(), x)) extra = x; snprintf(m, 300, "a search returned %zu records, expected %zu (missing tag %ld, extra tag %ld)", g.size(), e.size(), miss, extra); why = m; } }
                    if (keep.empty()) { r.violate("search", why + at); return; } cand = keep; break;
                }
                case K_START: case K_STEP: {
                    if (o.kind == K_START) { f.q = crit(op->A(1), op->A(2), salt); f.pos = 0; f.act = true; } if (f.lost || unknown || !f.ordered) break; if (!f.act) break;
                    std::vector<State> keep; long want = -1; size_t np = 0; for (auto& st : cand) { size_t i = f.pos; while (i < f.r.size() && !(qmatch(f.q, f.r[i]) && accepted(st, f.r[i]))) i++; long e = i < f.r.size() ? f.r[i].tag : -1; if (e == o.v[1]) { keep.push_back(st); np = i + 1; } else want = e; }
                    if (keep.empty()) { r.violate("search-step", "the next record of a search is " + std::to_string(o.v[1]) + ", expected " + std::to_string(want) + at); return; } cand = keep; f.pos = np; if (o.v[1] < 0) f.act = false; break;
                }
            }
            if (cand.size() > 64) unknown = true;
            // a step whose result was not judged leaves the position unknown
            if ((o.kind == K_START || o.kind == K_STEP) && (f.lost || unknown || !f.ordered)) f.act = false;
            if (o.kind == K_FIND || o.kind == K_MATCH) f.act = false;
        }
    }
    bool nontrivial(const Plan&, const Result& r) override { int s = 0, g = 0; for (auto& o : r.hist) { if ((o.kind == K_SEL || o.kind == K_TABLE) && o.v[0] == 0) s++; if (o.kind == K_FIND && o.v[2] > 0) g++; if (o.kind == K_MATCH) { const int32_t* w = (const int32_t*)blob_at(o.v[2]); int a = 0, b = 0; for (long i = 0; i < o.v[1]; i++) (w[2 * i + 1] ? a : b)++; if (a && b) g++; } } return s && g; }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
