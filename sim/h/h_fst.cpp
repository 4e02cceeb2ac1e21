// RPN standard files, random access (fstd98.c, xdf98.c on top of c_baseio.c).
#include "sim.h"
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <functional>
extern "C" {
#include "rmn/fnom.h"
#include "rmn/fstd98.h"
}
using namespace sim;

enum { K_OPEN = O_USER, K_WRITE, K_ERASE, K_EDIT, K_CKPT, K_CLOSE, K_SCAN, K_FIND, K_NBR, K_LIR, K_LINK, K_BADH, K_LIC, K_LIS, K_LIRX, K_MSQ, K_IPS, K_COPY, K_DOWN, K_FILE, K_RO };

#include "fstutil.h"
static const char GUARD = 0x5d;
static uint8_t* clob;   // records that an unfinished rewrite may have replaced in place; survives crashes

struct H : Harness {
    std::vector<std::string> props() override { return { "F01", "F02", "F03", "F04", "F05" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; long tag = 1;
        bool link = prop == "F04", crash = prop == "F02", io = prop == "F05", search = prop == "F03";
        int nf = link ? (int)r.range(2, 4) : r.chance(0.7) ? 1 : 2; int n = (int)r.range(4, th ? 50 : 26);
        if (r.chance(0.25)) { p.cfg["ps"] = r.range(1, 3); p.cfg["nb"] = r.range(1, 4); }
        p.cfg["ftn"] = r.weighted({ 6, 3, 1 }); p.cfg["miss"] = r.weighted({ 4, 4, 2 }); p.cfg["turbo"] = r.chance(0.3) ? r.range(1, 2) : 0;
        bool big = r.chance(link ? 0.3 : 0.15); int nkeys = (int)r.pick(std::vector<int>{ 2, 4, 8, 40 });
        int shape = r.weighted({ 5, 2, 3, 1 });
        auto wr = [&](long f) {
            int kind = (int)(r.chance(0.4) ? r.below(D_BYTEN) : r.below(D_NK)); p.add("write", { f, kind, tag++, r.chance(0.5), r.below(nkeys), r.chance(0.7) ? shape : r.below(4) });
        };
        auto bulk = [&](long f) { long c = r.pick(std::vector<int>{ 40, 250, 254, 255, 256, 257, 300, 515 }); p.add("bulk", { f, c, tag, r.below(nkeys) }); tag += c; };
        for (long f = 0; f < nf; f++) { p.add("open", { f, 0 }); if (link || search || big) { if (r.chance(link ? 0.5 : 0.3) || (big && f == 0)) bulk(f); for (int i = (int)r.range(1, 5); i > 0; i--) wr(f); } }
        if (link) { p.add("link", { nf, r.below(2) }); }
        for (int i = 0; i < n; i++) {
            long f = link ? 0 : r.below(nf);
            std::vector<int> w = search ? std::vector<int>{ 12, 3, 3, 1, 1, 0, 2, 20, 5, 2, 1, 2, 4, 4, 6, 6, 6, 1, 2, 0 } : link ? std::vector<int>{ 8, 4, 3, 1, 0, 0, 8, 16, 5, 2, 0, 2, 2, 3, 3, 0, 3, 1, 1, 0 } : crash ? std::vector<int>{ 30, 6, 5, 8, 5, 6, 2, 4, 2, 2, 1, 1 } : io ? std::vector<int>{ 30, 8, 8, 4, 5, 3, 4, 8, 4, 3, 1, 2 } : std::vector<int>{ 30, 8, 8, 4, 5, 3, 4, 8, 4, 3, 1, 2, 1, 2, 1, 1, 1, 2, 5, 3, 3 };
            switch (r.weighted(w)) {
                case 0: wr(f); break;
                case 1: p.add("erase", { f, r.below(100000) }); break;
                case 2: p.add("edit", { f, r.below(100000), r.below(1 << 20), r.below(nkeys) }); break;
                case 3: p.add("ckpt", { f }); break;
                case 4: if (!link) { p.add("close", { f }); p.add("open", { f, r.chance(0.25) }); } break;
                case 5: if (!link) { p.add(r.chance(0.2) ? "exit0" : "restart"); for (long g = 0; g < nf; g++) p.add("open", { g, 0 }); } break;
                case 6: p.add("check", { f }); break;
                case 7: p.add("find", { f, r.below(1 << 20), r.below(nkeys), r.below(20), r.below(100000), r.below(1 << 20), r.below(nkeys) }); break;
                case 8: p.add("lir", { f, r.below(1 << 20), r.below(nkeys) }); break;
                case 9: p.add("nbr", { f }); break;
                case 10: bulk(f); break;
                case 12: p.add("lic", { f, r.below(1 << 20), r.below(nkeys), r.chance(0.5) ? 0 : r.range(1, 8) }); break;
                case 13: p.add("lis", { f, r.below(1 << 20), r.below(nkeys), r.below(2) }); break;
                case 14: p.add("lirx", { f, r.below(1 << 20), r.below(nkeys), r.below(100000) }); break;
                case 15: p.add("msq", { f, r.below(1 << 20), r.below(nkeys), r.below(1 << 30) }); break;
                case 16: p.add("ips", { f, r.below(1 << 20), r.below(nkeys), r.below(1 << 30) }); break;
                case 17: p.add("voi", { f, r.below(2) }); break;
                case 18: p.add("copy", { f, link ? 0 : r.below(nf), r.below(100000), tag++ }); break;
                case 20: p.add("close", { f }); p.add("fcheck", { f, 0, 0 }); p.add("fcheck", { f, r.range(1, 3), r.below(1 << 30) }); p.add("open", { f, r.chance(0.25) }); break;
                case 19: p.add("down", { f, r.below(100000) }); break;
                default: p.add("badh", { f, r.below(1 << 20) }); break;
            }
        }
        if (link) { p.add("unlink", { nf }); if (r.chance(0.6)) for (long f = 0; f < nf; f++) p.add("check", { f }); }
        for (long f = 0; f < nf; f++) p.add("close", { f });
        for (long f = 0; f < nf; f++) { if (prop == "F01") p.add("fcheck", { f, 0, 0 }); p.add("open", { f, 1 }); p.add("check", { f }); p.add("close", { f }); }
        if (crash || io) {
            int m = (int)r.range(1, 2);
            for (int i = 0; i < m; i++) {
                static const std::vector<int> ik = { F_SHORTW, F_ENOSPC, F_EIO_W, F_EIO_R, F_SHORTR, F_EINTR_W, F_EINTR_R, F_EOPEN };
                int kind = crash ? (r.chance(0.5) ? F_CRASH : F_TORN) : r.pick(ik);
                bool rdk = kind == F_EIO_R || kind == F_SHORTR || kind == F_EINTR_R; std::vector<int> t;
                for (auto& o : p.ops) {
                    int w = 0; const std::string& q = o.name;
                    if (kind == F_EOPEN) w = q == "open";
                    else if (rdk) w = q == "check" ? 4 : q == "find" || q == "lir" || q == "open" ? 2 : q == "write" && p.C("ps") ? 1 : q == "close" ? 1 : 0;
                    else w = q == "write" ? 4 : q == "ckpt" || q == "close" ? 4 : q == "bulk" ? 2 : q == "open" ? 1 : 0;
                    for (int k = 0; k < w; k++) t.push_back(o.id);
                }
                if (!t.empty()) p.faults.push_back({ r.pick(t), (int)r.range(1, r.chance(0.7) ? 2 : 12), kind, r.range(1, 999) });
            }
        }
        return p;
    }
    static int unit(long f) { return 30 + (int)f; }
    static std::string fname(long f) { return "/sim/fst" + std::to_string(f); }
    bool isopen[8], ro[8], linked; std::vector<uint8_t> asopened[8];
    void setup(const Plan&) override { clob = (uint8_t*)shared_user(8192); memset(clob, 0, 8192); }
    void child_begin(const Plan& p) override {
        if (p.C("ps")) { char b[64]; snprintf(b, 64, "%ld %ld", p.C("ps"), p.C("nb")); setenv("WA_CONFIG", b, 1); } else unsetenv("WA_CONFIG");
        for (int i = 0; i < 8; i++) isopen[i] = ro[i] = false; linked = false; g_ftn = p.C("ftn") != 0; g_miss = (int)p.C("miss"); miss_on();
        if (p.C("turbo") == 1) x_opt("TURBOCOMP", "BEST", 0); if (p.C("turbo") == 2) x_opt("TURBOCOMP", "1", 1);
    }
    // every live record, in the order the library lists them
    std::vector<int> list(int iun, int& e) {
        std::vector<int> l(6000, -1); int ni = 0, nj = 0, nk = 0, n = 0; char et[] = "            ", tv[] = "  ", nv[] = "    ";
        e = c_fstinl(iun, &ni, &nj, &nk, -1, et, -1, -1, -1, tv, nv, l.data(), &n, 6000);
        l.resize(std::max(0, std::min(n, 6000))); return l;
    }
    typedef std::function<int(void*, int, int*, int*, int*, int, size_t)> Reader;
    void put_rec(std::vector<int32_t>& out, int h, bool data, Reader rd = nullptr) {
        Meta m; int e = get_prm(h, m); size_t at = out.size(); out.resize(at + 6 + sizeof(Meta) / 4, 0);
        out[at] = h; out[at + 1] = e; memcpy(&out[at + 6], &m, sizeof m);
        long n = (long)m.ni * m.nj * m.nk; int kind = rec_kind(m);
        if (!data || e < 0 || (incarnation() > 0 && m.ig4 >= 0 && m.ig4 < 8192 && clob[m.ig4]) || n <= 0 || n > 2000000) { out[at + 2] = -9999; return; }
        size_t room = n * 8 + 64; std::vector<uint8_t> b(room + 4096, GUARD); int ni = -1, nj = -1, nk = -1; datalen(kind); int q = rd ? rd(b.data(), h, &ni, &nj, &nk, kind, n) : c_fstluk(b.data(), h, &ni, &nj, &nk); c_fst_data_length(4);
        size_t len = n * k_size(kind); bool clean = true; for (size_t i = (len + 7) / 8 * 8; i < b.size(); i++) if (b[i] != (uint8_t)GUARD) { clean = false; break; }
        out[at + 2] = q; out[at + 3] = ni == m.ni && nj == m.nj && nk == m.nk; out[at + 4] = clean; out[at + 5] = (int)((len + 3) / 4);
        size_t d = out.size(); out.resize(d + (len + 3) / 4); memcpy(&out[d], b.data(), len);
    }
    static void strs(const Crit& c, char* et, char* tv, char* nv) { snprintf(et, 16, "%s", c.et.c_str()); snprintf(tv, 4, "%s", c.tv.c_str()); snprintf(nv, 8, "%s", c.nv.c_str()); }
    static Crit mask(Crit c, long m) { static const int ms[] = { 0, 1, 0xff, 0xfffffff }; for (int i = 0; i < 3; i++) c.mask[i] = ms[m >> 2 * i & 3]; c.met = std::string(12, ' '); for (int i = 0; i < 12; i++) if ((m >> 8 & 3) == 1 ? (m >> (10 + i) & 1) : (m >> 8 & 3) == 2 ? i >= 1 + (m >> 10) % 11 : (m >> 8 & 3) == 3) c.met[i] = '*'; return c; }
    static Crit levels(Crit c, long m) {
        static const int l1[] = { 500, 1000, 28 }, l2[] = { 6, 12, 18 }, l3[] = { 1, 2 }; int which = 1 + (int)(m % 7);
        if (which & 1) { c.mode[0] = 1 + (m >> 4 & 1); c.ip1 = l1[(m >> 5) % 3]; if (m >> 7 & 1) c.more[0] = l1[(m >> 8) % 3]; }
        if (which & 2) { c.mode[1] = 1 + ((m >> 10 & 7) == 0); c.ip2 = l2[(m >> 13) % 3]; if (m >> 15 & 1) c.more[1] = l2[(m >> 16) % 3]; }
        if (which & 4) { c.mode[2] = 1 + ((m >> 18 & 7) == 0); c.ip3 = l3[(m >> 21) % 2]; }
        return c;
    }
    int wrec(long f, int kind, long tag, int rew, long key, int shape) {
        Meta m = mkmeta(kind, tag, mkkey(key), shape); auto b = field(kind, tag, m.ni, m.nj, m.nk); auto c = b; datalen(kind);
        int npak = (kind == D_RAW1 || kind == M_RAW1) ? (int)(tag % 2) : -m.nbits;
        char tv[4], nv[8], et[16], gt[4]; strcpy(tv, m.tv); strcpy(nv, m.nv); strcpy(et, m.et); strcpy(gt, m.gt);
        if (tag % 3 == 0) { auto cut = [](char* s) { for (int i = (int)strlen(s) - 1; i > 0 && s[i] == ' '; i--) s[i] = 0; }; cut(tv); cut(nv); cut(et); } // unpadded names are allowed
        int e = c_fstecr(b.data(), nullptr, npak, unit(f), m.date, m.deet, m.npas, m.ni, m.nj, m.nk, m.ip1, m.ip2, m.ip3, tv, nv, et, gt, m.ig1, m.ig2, m.ig3, m.ig4, k_dt(kind), rew);
        if (b != c) return -7777; return e;
    }
    void exec(const Plan& p, const Op& o) override {
        const std::string& nm = o.name; long f = o.A(0) & 7; int iun = unit(f);
        g_ftn = p.C("ftn") == 2 || (p.C("ftn") == 1 && (nm == "link" || nm == "unlink" || hsh(o.id, p.seed) % 2));
        if (nm == "open") {
            if (isopen[f]) return; obs(O_BEGIN, { f }); int u = iun; int e = c_fnom(&u, fname(f).c_str(), o.A(1) ? "STD+RND+OLD+R/O" : "STD+RND", 0), e2 = -9999;
            if (e == 0) e2 = c_fstouv(iun, (char*)"RND");
            if (e == 0 && e2 < 0) { c_fclos(iun); }
            isopen[f] = e == 0 && e2 >= 0; ro[f] = o.A(1); asopened[f].clear(); if (ro[f] && isopen[f]) fs_get(fname(f), asopened[f]); obs(K_OPEN, { f, e, e2, o.A(1) });
        } else if (nm == "link") {
            int l[8]; int n = (int)std::min(8l, o.A(0)); for (int i = 0; i < n; i++) { l[i] = unit(i); if (!isopen[i]) return; }
            int e = c_xdflnk(l, n); linked = true; obs(K_LINK, { n, e });
        } else if (nm == "unlink") {
            if (!linked) return; int l[8]; int n = (int)std::min(8l, o.A(0)); for (int i = 0; i < n; i++) { l[i] = unit(i); if (!isopen[i]) return; }
            int e = c_xdfunl(l, n); linked = false; obs(K_LINK, { 0, e });
        } else if (nm == "fcheck") {
            // the check of a file that is not open: as it is, cut short, or longer than it should be
            if (isopen[f]) return; std::string path = fname(f); std::vector<uint8_t> d; long how = o.A(1); if (!fs_get(path, d)) return;
            if (how == 1) { if (d.empty()) return; d.resize(o.A(2) % d.size()); } if (how == 2) { d.resize(d.size() + 1 + o.A(2) % 5000, 0x41); }
            if (how == 1 || how == 2) { path = "/sim/copy"; fs_put(path, d.data(), d.size()); } if (how == 3) path = "/sim/none/such";
            int e = x_check(path.c_str()); if (how == 1 || how == 2) fs_remove(path); obs(K_FILE, { f, e, how, (long)d.size() });
        } else if (!isopen[f]) return;
        else if (nm == "write") {
            if (ro[f]) { obs(K_RO, { f, wrec(f, (int)(o.A(1) % D_NK), o.A(2), linked ? 0 : (int)o.A(3), o.A(4), (int)o.A(5)), 0 }); return; } int kind = (int)(o.A(1) % D_NK); int rew = linked ? 0 : (int)o.A(3); long pre = -1;
            if (rew) { // the record that a rewrite replaces: the first one with the same names and ips
                Meta m = mkmeta(kind, o.A(2), mkkey(o.A(4)), (int)o.A(5)), q; int a, b, c; int h = c_fstinf(iun, &a, &b, &c, -1, m.et, m.ip1, m.ip2, m.ip3, m.tv, m.nv);
                if (h >= 0 && get_prm(h, q) >= 0) { pre = q.ig4; if (pre >= 0 && pre < 8192) clob[pre] = 1; }
            }
            obs(O_BEGIN, { f, pre });
            int e = wrec(f, kind, o.A(2), rew, o.A(4), (int)o.A(5)); obs(K_WRITE, { f, e, kind, o.A(2), rew, o.A(4), o.A(5), pre });
        } else if (nm == "bulk") {
            if (ro[f]) return;
            for (long i = 0; i < std::min(600l, o.A(1)); i++) { obs(O_BEGIN, { f, i }); int e = wrec(f, D_RAW, o.A(2) + i, 0, o.A(3) + i % 7, 4); obs(K_WRITE, { f, e, D_RAW, o.A(2) + i, 0, o.A(3) + i % 7, 4, -1 }); }
        } else if (nm == "erase" || nm == "edit") {
            if (ro[f] && (linked || nm == "edit")) return; int e0; auto l = list(iun, e0); if (l.empty()) return; int h = l[o.A(1) % l.size()]; Meta m; if (get_prm(h, m) < 0) return;
            if (ro[f]) { obs(K_RO, { f, c_fsteff(h), 1 }); return; }
            obs(O_BEGIN, { f, m.ig4 });
            if (nm == "erase") { int e = c_fsteff(h); int ni, nj, nk; static int32_t buf[1 << 20]; Meta m2; int e3 = -1; if (e == 0 && (long)m.ni * m.nj * m.nk < (1 << 18)) e3 = c_fstluk(buf, h, &ni, &nj, &nk); obs(K_ERASE, { f, e, m.ig4, e3, c_fsteff(h) }); }
            else {
                long w = o.A(2); if (m.npas > 50000) w &= ~7l; /* keep dates in range */ Key k = mkkey(o.A(3)); uint64_t g = hsh(w, 4);
                int date = w & 1 ? stamp(24 * 365 * 25 + (long)(g % 300)) : -1, deet = w & 2 ? (int)(g >> 8 & 1) * 3600 : -1, npas = w & 4 ? (int)(g >> 12 & 3) : -1;
                char tv[4], nv[8], et[16], gt[4]; snprintf(tv, 4, "%s", w & 8 ? tvs[k.tv] : " "); snprintf(nv, 8, "%s", w & 16 ? nvs[k.nv] : " "); snprintf(et, 16, "%s", w & 32 ? ets[k.et] : " "); snprintf(gt, 4, "%s", w & 64 ? gts[g >> 20 & 3] : " ");
                int ip1 = w & 128 ? k.ip1 : -1, ip2 = w & 256 ? k.ip2 : -1, ip3 = w & 512 ? k.ip3 : -1, ig1 = w & 1024 ? (int)(g >> 24 & 0xffffff) : -1, ig2 = w & 2048 ? (int)(g >> 30 & 0xffffff) : -1;
                int e = c_fst_edit_dir_plus(h, date, deet, npas, -1, -1, -1, ip1, ip2, ip3, tv, nv, et, gt, ig1, ig2, -1, -1, -1);
                obs(K_EDIT, { f, e, m.ig4, w, o.A(3) });
            }
        } else if (nm == "ckpt") { obs(O_BEGIN, { f }); obs(K_CKPT, { f, c_fstckp(iun) }); }
        else if (nm == "close") { if (linked) return; obs(O_BEGIN, { f }); int e = c_fstfrm(iun), e2 = c_fclos(iun); isopen[f] = false; obs(K_CLOSE, { f, e, e2 }); if (ro[f]) { std::vector<uint8_t> b; fs_get(fname(f), b); if (b != asopened[f]) obs(K_RO, { f, 0, 2 }); } }
        else if (nm == "check") {
            int e; auto l = list(iun, e); std::vector<int32_t> out; for (int h : l) put_rec(out, h, true);
            obs(K_SCAN, { f, e, (long)l.size(), blob(out.data(), out.size() * 4) });
        } else if (nm == "find") {
            int e0; auto l = list(iun, e0); int dv = -1; if (!l.empty()) { Meta m; if (get_prm(l[o.A(1) % l.size()], m) >= 0) dv = m.datev; }
            Crit c = mkcrit(o.A(1), o.A(2), dv); std::vector<int32_t> out; int ni = 0, nj = 0, nk = 0, cnt = 0, over = 0, err = 0, e1 = 0;
            char et[16], tv[4], nv[8]; snprintf(et, 16, "%s", c.et.c_str()); snprintf(tv, 4, "%s", c.tv.c_str()); snprintf(nv, 8, "%s", c.nv.c_str());
            long mode = o.A(3) % 5; // 0: inf/sui, 1: infx chain, 2: inl, 3: inl with a short list, 4: infx from any record, after another search
            long other = -1; if (o.A(3) >= 10) for (long g = 0; g < 8; g++) if (g != f && isopen[g] && !linked) other = g;
            std::vector<int32_t> rest;
            auto distract = [&](int un) { Crit d = mkcrit(o.A(5), o.A(6), -1); int a, b, e; char et2[16], tv2[4], nv2[8]; snprintf(et2, 16, "%s", d.et.c_str()); snprintf(tv2, 4, "%s", d.tv.c_str()); snprintf(nv2, 8, "%s", d.nv.c_str()); int h = c_fstinf(un, &a, &b, &e, -1, et2, d.ip1, d.ip2, d.ip3, tv2, nv2); for (int i = (int)(o.A(4) % 5); h >= 0 && i > 0; i--) h = c_fstsui(un, &a, &b, &e); };
            if (mode == 4) {
                if (l.empty()) mode = 2;
                else {
                    size_t k = o.A(4) % l.size(); if (o.A(4) % 3 == 0 && l.size() > 255) k = 255 - o.A(4) % 2;
                    for (size_t i = k + 1; i < l.size(); i++) { Meta m; get_prm(l[i], m); rest.push_back(m.ig4); }
                    distract(iun); int h = l[k];
                    while (cnt < 3000) { h = c_fstinfx(h, iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv); if (h < 0) break; put_rec(out, h, false); out.push_back(ni); out.push_back(nj); out.push_back(nk); cnt++; }
                    err = h;
                }
            } else
            if (mode <= 1 && mode >= 0) {
                int h = c_fstinf(iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv);
                while (h >= 0 && cnt < 3000) { put_rec(out, h, false); out.push_back(ni); out.push_back(nj); out.push_back(nk); cnt++; if (other >= 0 && cnt % 3 == 1) distract(unit(other)); h = mode == 0 ? c_fstsui(iun, &ni, &nj, &nk) : c_fstinfx(h, iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv); }
                err = h;
            } else if (mode <= 3) {
                std::vector<int> q(6001, -4242); int nmax = mode == 2 ? 6000 : 3; e1 = c_fstinl(iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv, q.data(), &cnt, nmax);
                over = q[nmax] != -4242; if (cnt > nmax) over = 1; cnt = std::max(0, std::min(cnt, nmax));
                for (int i = 0; i < cnt; i++) { put_rec(out, q[i], false); out.push_back(0); out.push_back(0); out.push_back(0); }
            }
            obs(K_FIND, { f, mode, c.datev, cnt, blob(out.data(), out.size() * 4), err, e1, over, blob(rest.data(), rest.size() * 4), (long)rest.size() });
        } else if (nm == "lir") {
            Crit c = mkcrit(o.A(1), o.A(2), -1); char et[16], tv[4], nv[8]; snprintf(et, 16, "%s", c.et.c_str()); snprintf(tv, 4, "%s", c.tv.c_str()); snprintf(nv, 8, "%s", c.nv.c_str());
            int ni = 0, nj = 0, nk = 0; int h = c_fstinf(iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv); Meta m; memset(&m, 0, sizeof m); int e = -1, h2 = -9999; long off = 0; c_fst_data_length(4);
            if (h >= 0 && (e = get_prm(h, m)) >= 0 && !(incarnation() > 0 && m.ig4 >= 0 && m.ig4 < 8192 && clob[m.ig4]) && (long)m.ni * m.nj * m.nk < 2000000) {
                int kind = rec_kind(m); std::vector<uint8_t> b((long)m.ni * m.nj * m.nk * 8 + 4096, GUARD); datalen(kind); h2 = c_fstlir(b.data(), iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv); c_fst_data_length(4); off = blob(b.data(), b.size());
            }
            obs(K_LIR, { f, h, e, h2, off, blob(&m, sizeof m), ni == m.ni && nj == m.nj && nk == m.nk });
        } else if (nm == "lic") {
            // search, check the other descriptors, read; a record with other dimensions or another grid is not read
            Crit c = mkcrit(o.A(1), o.A(2), -1); char et[16], tv[4], nv[8], gt[4]; strs(c, et, tv, nv); int ni = 1, nj = 1, nk = 1; int h = c_fstinf(iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv); Meta m; memset(&m, 0, sizeof m); strcpy(m.gt, "X"); m.ni = m.nj = m.nk = 1;
            if (h >= 0 && (get_prm(h, m) < 0 || (long)m.ni * m.nj * m.nk > 500000)) return; Meta q = m; long w = o.A(3); snprintf(gt, 4, "%s", m.gt);
            switch (w) { case 1: q.ni++; break; case 2: q.nj++; break; case 3: q.nk++; break; case 4: q.ig1 ^= 1 << o.A(1) % 24; break; case 5: q.ig2 ^= 1 << o.A(1) % 24; break; case 6: q.ig3 ^= 1 << o.A(1) % 24; break; case 7: q.ig4 ^= 1 << o.A(1) % 24; break; case 8: gt[0] = gt[0] == 'L' ? 'M' : 'L'; break; }
            int kind = rec_kind(m); size_t len = (long)m.ni * m.nj * m.nk * k_size(kind); std::vector<uint8_t> b(len + 4096, GUARD); datalen(kind);
            int e = x_lic(b.data(), iun, q.ni, q.nj, q.nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv, q.ig1, q.ig2, q.ig3, q.ig4, gt); c_fst_data_length(4); bool clean = true; for (size_t i = w || h < 0 ? 0 : (len + 7) / 8 * 8; i < b.size(); i++) clean &= b[i] == (uint8_t)GUARD;
            obs(K_LIC, { f, h, e, w, blob(&m, sizeof m), blob(b.data(), b.size()), clean });
        } else if (nm == "lis") {
            // the records that match, read one after the other by "read the next one"
            Crit c = mkcrit(o.A(1), o.A(2), -1); char et[16], tv[4], nv[8]; strs(c, et, tv, nv); std::vector<int> q(3001, -1); int ni, nj, nk, cnt = 0, k = 0, e; std::vector<int32_t> out; bool first = o.A(3), over = false, stopped = false;
            e = c_fstinl(iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv, q.data(), &cnt, 3000); if (e < 0 || cnt > 3000 || !cnt) return; int lim = std::min(cnt, 40);
            if (!first) c_fstinf(iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv);
            for (k = 0; k < lim; k++) {
                if (k == 0 && !first) { put_rec(out, q[0], true); continue; }
                bool did = false; put_rec(out, q[k], true, [&](void* b, int h, int* a1, int* a2, int* a3, int kind, size_t n) { did = true; int g = k == 0 ? k_def[kind].base == D_STR ? x_lirs(b, (int)n, iun, a1, a2, a3, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv) : c_fstlir(b, iun, a1, a2, a3, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv) : x_lis(b, iun, a1, a2, a3); return g >= 0 && g != h ? -5555 : g; });
                if (!did) { k++; stopped = true; break; } // not read (what it holds is not known): the search did not move
            }
            int end = -1; if (k == cnt && !stopped) { std::vector<uint8_t> b(64, GUARD); end = x_lis(b.data(), iun, &ni, &nj, &nk); for (auto x : b) over |= x != (uint8_t)GUARD; }
            obs(K_LIS, { f, cnt, k, blob(out.data(), out.size() * 4), end, over });
        } else if (nm == "lirx") {
            int e0; auto l = list(iun, e0); if (l.empty()) return; size_t k = o.A(3) % l.size(); Crit c = mkcrit(o.A(1), o.A(2), -1); char et[16], tv[4], nv[8]; strs(c, et, tv, nv); int ni = 0, nj = 0, nk = 0; std::vector<int32_t> rest, out;
            for (size_t i = k + 1; i < l.size(); i++) { Meta m; get_prm(l[i], m); rest.push_back(m.ig4); }
            int h = c_fstinfx(l[k], iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv), e = -1;
            if (h >= 0) put_rec(out, h, true, [&](void* b, int g, int* a1, int* a2, int* a3, int, size_t) { e = x_lirx(b, l[k], true, iun, a1, a2, a3, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv); return e >= 0 && e != g ? -5555 : e; });
            else { std::vector<uint8_t> b(1 << 21); e = x_lirx(b.data(), l[k], true, iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv); }
            obs(K_LIRX, { f, h, e, blob(out.data(), out.size() * 4), blob(rest.data(), rest.size() * 4), (long)rest.size() });
        } else if (nm == "msq") {
            // part of the criteria masked, then masked no more
            if (linked) return; Crit c = mask(mkcrit(o.A(1), o.A(2), -1), o.A(3)); char et[16], tv[4], nv[8], met[16]; strs(c, et, tv, nv); int a[3] = { c.mask[0], c.mask[1], c.mask[2] }, g[3] = { -1, -1, -1 }, z[3] = { 0, 0, 0 }; snprintf(met, 16, "%s", c.met.c_str());
            int e = x_msq(iun, a, a + 1, a + 2, met, 0); char got[16] = "............"; int e2 = x_msq(iun, g, g + 1, g + 2, got, 1); bool same = g[0] == c.mask[0] && g[1] == c.mask[1] && g[2] == c.mask[2] && !strncmp(got, c.met.c_str(), 12);
            std::vector<int> q(3001, -1); int ni, nj, nk, n1 = 0, n2 = 0; std::vector<int32_t> o1, o2; int r1 = c_fstinl(iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv, q.data(), &n1, 3000);
            for (int i = 0; i < n1 && r1 >= 0; i++) put_rec(o1, q[i], false);
            char none[] = "            "; x_msq(iun, z, z + 1, z + 2, none, 0); int r2 = c_fstinl(iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv, q.data(), &n2, 3000); for (int i = 0; i < n2 && r2 >= 0; i++) put_rec(o2, q[i], false);
            obs(K_MSQ, { f, e, e2, same, r1, n1, blob(o1.data(), o1.size() * 4), r2, n2, blob(o2.data(), o2.size() * 4) });
        } else if (nm == "ips") {
            // levels given by value: every coding of a level, or its new style coding only
            Crit c = levels(mkcrit(o.A(1), o.A(2), -1), o.A(3)); char et[16], tv[4], nv[8]; strs(c, et, tv, nv); int ip[3] = { c.ip1, c.ip2, c.ip3 }; bool full = o.A(3) >> 20 & 1;
            for (int i = 2; i >= 0; i--) if (c.mode[i]) { ip[i] = x_ip(i + 1, c.mode[i] == 1, (float)(c.mode[i] ? ip[i] : 0), 2); if (c.more[i] >= 0) x_ip(i + 1, c.mode[i] == 1, (float)c.more[i], 2); if (full) for (int k = 0; k < 60; k++) x_ip(i + 1, c.mode[i] == 1, 300.5f + k, 2); }
            int ni = 0, nj = 0, nk = 0; std::vector<int32_t> out, o2; int h = c_fstinf(iun, &ni, &nj, &nk, c.datev, et, ip[0], ip[1], ip[2], tv, nv); if (h >= 0) put_rec(out, h, false);
            Crit d = mkcrit(o.A(1), o.A(2), -1); int h2 = c_fstinf(iun, &ni, &nj, &nk, d.datev, et, d.ip1, d.ip2, d.ip3, tv, nv); if (h2 >= 0) put_rec(o2, h2, false); // plain criteria again
            obs(K_IPS, { f, h, blob(out.data(), out.size() * 4), h2, blob(o2.data(), o2.size() * 4) });
        } else if (nm == "voi") { x_voi(iun, o.A(1) ? "" : "NEWSTYLE+NINJNK+DATEV+GRIDINFO+IP1+IP2+IP3"); }
        else if (nm == "copy") {
            // a record copied without being decoded
            long g = o.A(1) & 7; if (linked || !isopen[g] || ro[g]) return; int e0; auto l = list(iun, e0); if (l.empty()) return; int h = l[o.A(2) % l.size()]; Meta m; if (get_prm(h, m) < 0 || (long)m.ni * m.nj * m.nk > 200000 || m.nbits > 64 || (incarnation() > 0 && m.ig4 >= 0 && m.ig4 < 8192 && clob[m.ig4])) return;
            std::vector<uint32_t> b((size_t)m.ni * m.nj * m.nk * 4 + 4096); int ni, nj, nk; x_opt("IMAGE", "1", 2); int e = c_fstluk(b.data(), h, &ni, &nj, &nk), e2 = -9999;
            if (e >= 0) e2 = c_fstecr(b.data(), nullptr, -m.nbits, unit(g), m.date, m.deet, m.npas, m.ni, m.nj, m.nk, m.ip1, m.ip2, m.ip3, m.tv, m.nv, m.et, m.gt, m.ig1, m.ig2, m.ig3, (int)o.A(3), m.datyp, 0);
            x_opt("IMAGE", "0", 2); obs(K_COPY, { g, e2, m.ig4, o.A(3), e, f });
        } else if (nm == "down") {
            // a 64 bit field read into 32 bits
            int e0; auto l = list(iun, e0); std::vector<int> d; for (int h : l) { Meta m; if (get_prm(h, m) >= 0 && k_def[rec_kind(m)].base == D_F64 && (long)m.ni * m.nj * m.nk < 100000) d.push_back(h); } if (d.empty()) return; int h = d[o.A(1) % d.size()]; Meta m; get_prm(h, m);
            std::vector<float> b((size_t)m.ni * m.nj * m.nk + 1024, -7777.f); int ni, nj, nk; x_opt("REDUCTION32", "1", 2); int e = c_fstluk(b.data(), h, &ni, &nj, &nk); x_opt("REDUCTION32", "0", 2); obs(K_DOWN, { f, e, m.ig4, blob(b.data(), b.size() * 4) });
        } else if (nm == "nbr") obs(K_NBR, { f, c_fstnbr(iun), c_fstnbrv(iun) });
        else if (nm == "badh") {
            // handles that do not exist must be refused
            int e0; auto l = list(iun, e0); if (l.empty()) return; int last = l.back(); long k = o.A(1); int pages = last >> 19 & 0xfff; int h;
            switch (k % 4) { case 0: h = (last & 0x7ffff) | (pages + 40 + (int)(k >> 4) % 7) << 19 /* beyond every page, also of records all erased */; break; case 1: h = (last & ~(0x1ff << 10)) | 300 << 10; break; case 2: h = (last & ~0x3ff) | (100 + (int)(k >> 4) % 27); break; default: h = (int)l.size() < 256 && !linked ? (last & ~(0x1ff << 10)) | 256 << 10 : (last & ~(0x1ff << 10)) | 511 << 10; }
            Meta m; int a = get_prm(h, m), ni, nj, nk; static int32_t buf[1 << 20]; int b = c_fstluk(buf, h, &ni, &nj, &nk), c = ro[f] ? -1 : c_fsteff(h);
            // neither may a record of another file be the start of a search
            int d = -9; if (!linked) for (long g = 0; g < 8 && d == -9; g++) if (g != f && isopen[g]) { int e1; auto l2 = list(unit(g), e1); if (l2.empty()) continue; char et[] = "            ", tv[] = "  ", nv[] = "    "; d = c_fstinfx(l2[k % l2.size()], iun, &ni, &nj, &nk, -1, et, -1, -1, -1, tv, nv); }
            obs(K_BADH, { f, a, b, c, k % 4, d });
        }
    }
    // ------------------------------------------------------------------ oracle
    struct Rec { Meta m; int kind; long tag; long dt; /* what the field is made of */ };
    struct F { std::vector<Rec> mem, disk; std::map<long, std::vector<Rec>> old; std::set<long> clobbered; bool open = false, committed = false, fuzzy = false, incommit = false, ordered = true, ro = false, mustclose = false, touched = false, marked = false, rofall = false; };
    static void apply_edit(Meta& m, long w, long key) {
        Key k = mkkey(key); uint64_t g = hsh(w, 4); bool dt = false; int dv = m.datev;
        if (w & 1) { dv = stamp(24 * 365 * 25 + (long)(g % 300)); } if (w & 2) m.deet = (int)(g >> 8 & 1) * 3600; if (w & 4) m.npas = (int)(g >> 12 & 3);
        if (w & 8) snprintf(m.tv, 4, "%s", padto(tvs[k.tv], 2).c_str()); if (w & 16) snprintf(m.nv, 8, "%s", padto(nvs[k.nv], 4).c_str()); if (w & 32) snprintf(m.et, 16, "%s", padto(ets[k.et], 12).c_str()); if (w & 64) snprintf(m.gt, 4, "%s", gts[g >> 20 & 3]);
        if (w & 128) m.ip1 = k.ip1; if (w & 256) m.ip2 = k.ip2; if (w & 512) m.ip3 = k.ip3; if (w & 1024) m.ig1 = (int)(g >> 24 & 0xffffff); if (w & 2048) m.ig2 = (int)(g >> 30 & 0xffffff);
        m.datev = dv; m.date = stick(ticks(dv) - (long)m.deet * m.npas / 5); (void)dt;
    }
    struct Got { int h, e, q, dims, clean, len; Meta m; const uint8_t* d; int ni, nj, nk; };
    static std::vector<Got> parse(long off, long cnt, bool tail) {
        std::vector<Got> v; const int32_t* w = (const int32_t*)blob_at(off);
        for (long i = 0; i < cnt; i++) { Got g; g.h = w[0]; g.e = w[1]; g.q = w[2]; g.dims = w[3]; g.clean = w[4]; g.len = w[5]; memcpy(&g.m, w + 6, sizeof(Meta)); w += 6 + sizeof(Meta) / 4; g.d = (const uint8_t*)w; w += g.q == -9999 ? 0 : g.len; if (tail) { g.ni = w[0]; g.nj = w[1]; g.nk = w[2]; w += 3; } v.push_back(g); }
        return v;
    }
    void oracle(const Plan& p, Result& r) override {
        g_miss = (int)p.C("miss");
        std::map<long, F> fs; int curinc = 0; std::map<int, const Op*> byid; for (auto& o : p.ops) byid[o.id] = &o; std::map<int, const Obs*> pend; int nlink = 0; bool iofault = false;
        auto faulty = [&](int op) { for (auto& f : p.faults) if (f.op == op) return true; return false; };
        auto mk = [&](const Obs& o) { Rec x; x.kind = (int)o.v[2]; x.tag = x.dt = o.v[3]; x.m = mkmeta(x.kind, x.tag, mkkey(o.v[5]), (int)o.v[6]); return x; };
        auto key = [](const Rec& x) { return std::string(x.m.tv) + x.m.nv + x.m.et + std::to_string(x.m.ip1) + "," + std::to_string(x.m.ip2) + "," + std::to_string(x.m.ip3); };
        auto write = [&](F& f, const Rec& x, bool rew, long pre, bool maybe) -> bool {
            f.touched = true; if (f.fuzzy) f.incommit = true;
            if (rew) {
                bool any = false; for (auto& y : f.mem) any |= key(y) == key(x);
                if (pre < 0) { if (any && !f.fuzzy && !maybe) return false; }
                else for (size_t i = 0; i < f.mem.size(); i++) if (f.mem[i].tag == pre) {
                    if (key(f.mem[i]) != key(x)) { if (f.fuzzy || maybe) break; return false; }
                    f.ordered = false; f.clobbered.insert(pre); // whether it stays in place follows from lengths
                    if (maybe) { f.incommit = true; return true; }
                    f.mem[i] = x; return true;
                }
            }
            if (!maybe) f.mem.push_back(x);
            return true;
        };
        // the writer is gone: what the file holds is its last committed state
        auto lost = [&]() { for (auto& kv : fs) { F& f = kv.second; if (!f.open) continue; f.open = false; if (!f.ro) f.fuzzy = f.marked = true; } };
        auto commit = [&](F& f) { if (f.rofall && f.touched) f.fuzzy = true; if (f.fuzzy) { f.incommit = true; f.committed = true; return; } f.disk = f.mem; f.clobbered.clear(); f.committed = true; f.incommit = false; f.fuzzy = false; f.touched = false; };
        // search order of linked files: first file, then the others
        auto view = [&](long f) { std::vector<const Rec*> v; for (auto& x : fs[f].mem) v.push_back(&x); for (int i = (int)f + 1; i < nlink; i++) for (auto& x : fs[i].mem) v.push_back(&x); return v; };
        for (size_t i = 0; i < r.hist.size(); i++) {
            const Obs& o = r.hist[i];
            if (o.inc != curinc) { curinc = o.inc; lost(); nlink = 0; pend.clear(); }
            if (o.kind == O_BEGIN) { pend[o.op] = &r.hist[i]; continue; }
            std::string opn = byid.count(o.op) ? byid[o.op]->name : "?";
            // reading a file whose last commit was cut by a crash: what it holds is a mixture, nothing is promised for decoding it
            if ((o.kind == O_SIGNAL || o.kind == O_EXIT || o.kind == O_HANG || o.kind == O_HEAP) && byid.count(o.op) && fs[byid[o.op]->A(0)].incommit) return;
            switch (o.kind) {
                case O_SIGNAL: r.violate("signal", std::string("process killed by a signal in op ") + std::to_string(o.op) + " " + opn + ": " + o.s); return;
                case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress"); return;
                case O_HEAP: r.violate("heap", o.s); return;
                case O_EXIT: if (!faulty(o.op) && !iofault) { r.violate("unexpected-exit", "the library ended the process (exit " + std::to_string(o.v[0]) + ") with no injected fault, op " + std::to_string(o.op) + " " + opn); return; } // fallthrough
                case O_CRASH: {
                    auto b = pend.find(o.op);
                    if (b != pend.end() && byid.count(o.op)) {
                        F& f = fs[b->second->v[0]];
                        if (opn == "ckpt" || opn == "close") f.incommit = true;
                        if (opn == "open" && !byid[o.op]->A(1)) { f.marked = true; if (!f.committed) f.fuzzy = f.incommit = true; }
                        if (opn == "write") { const Op& w = *byid[o.op]; Rec x; x.kind = (int)(w.A(1) % D_NK); x.tag = x.dt = w.A(2); x.m = mkmeta(x.kind, x.tag, mkkey(w.A(4)), (int)w.A(5)); write(f, x, w.A(3) && !nlink, b->second->v[1], true); }
                    }
                    lost(); pend.erase(o.op); continue;
                }
                case O_DONE: continue;
            }
            if (o.kind < O_USER) continue;
            F& f = fs[o.v[0]]; bool ff = faulty(o.op) ; std::string at = " (op " + std::to_string(o.op) + " " + opn + ", file " + std::to_string(o.v[0]) + ")"; pend.erase(o.op);
            if (ff) iofault = true;
            switch (o.kind) {
                case K_OPEN: {
                    bool rd = o.v[3]; f.open = false;
                    if (o.v[1] != 0) { if (!ff && (f.committed || !rd)) { r.violate("fnom", "the unit could not be connected" + at); return; } break; }
                    if (o.v[2] < 0) {
                        if (ff) break;
                        if (f.marked && !rd && o.v[2] == -21) break;
                        if (f.fuzzy) { if (!f.committed || f.incommit) break; } // a file still marked as being written may be refused for writing
                        else if (!f.committed) { if (rd || f.mustclose) break; }
                        r.violate("open-failed", "open returned " + std::to_string(o.v[2]) + at); return;
                    }
                    f.open = true; f.ro = rd; f.rofall = ff; // a file that cannot be opened for writing is opened for reading
                    if (!f.fuzzy && f.committed && o.v[2] < (long)f.mem.size()) { r.violate("open-count", "open reports " + std::to_string(o.v[2]) + " records, at least " + std::to_string(f.mem.size()) + " exist" + at); return; }
                    if (!f.fuzzy) f.mem = f.disk;
                    else if (!f.incommit) { f.mem = f.disk; if (!rd && f.clobbered.empty()) f.fuzzy = false; }
                    break;
                }
                case K_WRITE: {
                    Rec x = mk(o);
                    if (o.v[1] == -7777) { r.violate("caller-buffer", "the caller's field changed" + at); return; }
                    if (o.v[1] < 0) { if (!ff && !f.rofall && !f.incommit) { r.violate("write-failed", "write returned " + std::to_string(o.v[1]) + at); return; } write(f, x, o.v[4], o.v[7], true); f.mustclose = true; break; }
                    if (!write(f, x, o.v[4], o.v[7], false)) { r.violate("rewrite-target", "the search for the record to replace did not find the right one" + at); return; } break;
                }
                case K_ERASE: {
                    if (nlink) { if (o.v[1] != 0) break; for (auto& kv : fs) { auto& m = kv.second.mem; m.erase(std::remove_if(m.begin(), m.end(), [&](const Rec& x) { return x.tag == o.v[2]; }), m.end()); } break; }
                    if (o.v[1] != 0) { if (!ff && !f.rofall && !f.incommit) { r.violate("erase-failed", "erase returned " + std::to_string(o.v[1]) + at); return; } break; }
                    if (o.v[3] >= 0 && !f.incommit) { r.violate("erased-readable", "a record just erased can still be read" + at); return; }
                    if (o.v[4] >= 0 && !f.incommit) { r.violate("erased-twice", "a record just erased can be erased again" + at); return; }
                    f.touched = true; if (f.fuzzy) f.incommit = true; f.mem.erase(std::remove_if(f.mem.begin(), f.mem.end(), [&](const Rec& x) { return x.tag == o.v[2]; }), f.mem.end()); break;
                }
                case K_EDIT: {
                    if (o.v[1] != 0) { if (!ff && !nlink && !f.rofall && !f.incommit) { r.violate("edit-failed", "edit returned " + std::to_string(o.v[1]) + at); return; } break; }
                    f.touched = true; if (f.fuzzy) f.incommit = true; for (auto& kv : fs) if (&kv.second == &f || nlink) for (auto& x : kv.second.mem) if (x.tag == o.v[2]) { f.old[x.tag].push_back(x); apply_edit(x.m, o.v[3], o.v[4]); } break;
                }
                case K_CKPT: if (o.v[1] < 0) { if (!ff && !f.incommit) { r.violate("ckpt-failed", "checkpoint returned " + std::to_string(o.v[1]) + at); return; } f.incommit = true; break; } if (!f.ro) commit(f); break;
                case K_CLOSE: f.open = false; if (o.v[1] < 0 || o.v[2] < 0) { if (!ff && !iofault) { r.violate("close-failed", "close returned " + std::to_string(o.v[1]) + "," + std::to_string(o.v[2]) + at); return; } f.fuzzy = true; f.incommit = true; break; } if (!f.ro) commit(f); break;
                case K_LINK: if (o.v[1] < 0) { r.violate("link-failed", "link returned " + std::to_string(o.v[1])); return; } nlink = (int)o.v[0]; break;
                case K_RO: if (o.v[1] >= 0) { r.violate("read-only-changed", std::string(o.v[2] == 0 ? "a record was written to a file opened for reading only" : o.v[2] == 1 ? "a record of a file opened for reading only was erased" : "the bytes of a file opened for reading only changed while it was open") + at); return; } if (o.v[1] == -7777) { r.violate("caller-buffer", "the caller's field changed" + at); return; } break;
                case K_BADH: if (o.v[5] >= 0) { r.violate("bad-handle", "a search from a record of another file was accepted" + at); return; } if (o.v[1] >= 0 || o.v[2] >= 0 || o.v[3] >= 0) { r.violate("bad-handle", "a handle that names no record was accepted (prm " + std::to_string(o.v[1]) + ", read " + std::to_string(o.v[2]) + ", erase " + std::to_string(o.v[3]) + ", kind " + std::to_string(o.v[4]) + ")" + at); return; } break;
                case K_NBR: {
                    if (f.fuzzy) break; long n = (long)f.mem.size();
                    if (o.v[2] != n) { r.violate("nbrv", "number of valid records is " + std::to_string(o.v[2]) + ", expected " + std::to_string(n) + at); return; } break;
                }
                case K_SCAN: {
                    if (o.v[1] < 0) { if (!ff) { r.violate("list-failed", "listing returned " + std::to_string(o.v[1]) + at); return; } break; }
                    auto got = parse(o.v[3], o.v[2], false); auto exp = view(o.v[0]);
                    if (f.fuzzy && !nlink) { if (!fuzzy_scan(f, got, r, at)) return; break; }
                    if (!cmp(f, exp, got, true, r, at, ff, nlink)) return; break;
                }
                case K_FIND: {
                    if (f.fuzzy || ff) break; Crit c = mkcrit(byid[o.op]->A(1), byid[o.op]->A(2), -1); { Crit c2 = mkcrit(byid[o.op]->A(1), byid[o.op]->A(2), (int)o.v[2]); c = c2; if (o.v[2] == -1) c.datev = -1; }
                    std::vector<const Rec*> exp; for (auto x : view(o.v[0])) if (matches(c, x->m)) exp.push_back(x);
                    auto got = parse(o.v[4], o.v[3], true);
                    if (o.v[1] == 4) {
                        std::vector<const Rec*> e2; const int32_t* t = (const int32_t*)blob_at(o.v[8]);
                        for (long i = 0; i < o.v[9]; i++) for (auto x : exp) if (x->tag == t[i]) e2.push_back(x);
                        exp = e2; for (size_t i = 0; i < got.size() && i < exp.size(); i++) if (got[i].m.ig4 != exp[i]->tag) { r.violate("search-next", "a search continued from a record returned tag " + std::to_string(got[i].m.ig4) + ", expected " + std::to_string(exp[i]->tag) + at); return; }
                    }
                    if (o.v[7]) { r.violate("list-overrun", "more handles returned than the caller's list can hold" + at); return; }
                    if (o.v[1] == 3 && exp.size() > 3) { if (o.v[6] != -(long)exp.size() || got.size() != 3) { r.violate("list-short", "listing into 3 places returned " + std::to_string(o.v[6]) + " and " + std::to_string(got.size()) + " handles, " + std::to_string(exp.size()) + " match" + at); return; } bool ord = true; for (int i = (int)o.v[0]; i <= (int)o.v[0] || i < nlink; i++) ord &= fs[i].ordered; if (ord) exp.resize(3); else break; }
                    else if (o.v[1] >= 2 && o.v[1] <= 3 && o.v[6] < 0) { r.violate("list-failed", "listing returned " + std::to_string(o.v[6]) + at); return; }
                    if (!cmp(f, exp, got, false, r, at, false, nlink)) return;
                    if (o.v[1] <= 1 || o.v[1] == 4) for (auto& g : got) if (g.ni != g.m.ni || g.nj != g.m.nj || g.nk != g.m.nk) { r.violate("search-dims", "search returned wrong dimensions" + at); return; }
                    break;
                }
                case K_LIC: {
                    if (f.fuzzy || ff) break; Crit c = mkcrit(byid[o.op]->A(1), byid[o.op]->A(2), -1); Meta m; memcpy(&m, blob_at(o.v[4]), sizeof m); const Rec* x = nullptr; long nm = 0; for (auto e : view(o.v[0])) if (matches(c, e->m)) { nm++; if (e->tag == m.ig4) x = e; }
                    if (o.v[1] < 0) { if (nm) { r.violate("search-miss", "search found nothing, " + std::to_string(nm) + " records match" + at); return; } if (o.v[2] >= 0) { r.violate("lic-found", "a read found a record though none matches" + at); return; } }
                    else if (!x) { r.violate("search-wrong", "search found a record that does not match" + at); return; }
                    if (!o.v[6]) { r.violate("lic-overrun", std::string(o.v[3] || o.v[1] < 0 ? "a read that was refused changed the caller's field" : "reading wrote beyond the field") + at); return; }
                    if (o.v[3]) { if (o.v[2] >= 0) { r.violate("lic-accepted", "a record was read though its descriptors differ from those asked for (difference " + std::to_string(o.v[3]) + ")" + at); return; } break; }
                    if (o.v[1] < 0) break; if (o.v[2] < 0) { r.violate("read-failed", "search, check and read returned " + std::to_string(o.v[2]) + at); return; }
                    std::string why; if (!same_field(x->kind, x->dt, m.ni, m.nj, m.nk, blob_at(o.v[5]), why)) { r.violate("wrong-data", why + at); return; } break;
                }
                case K_LIS: {
                    if (f.fuzzy || ff) break; Crit c = mkcrit(byid[o.op]->A(1), byid[o.op]->A(2), -1); std::vector<const Rec*> exp; for (auto x : view(o.v[0])) if (matches(c, x->m)) exp.push_back(x);
                    if (o.v[1] != (long)exp.size()) { r.violate("list-count", "listing returned " + std::to_string(o.v[1]) + " records, " + std::to_string(exp.size()) + " match" + at); return; }
                    auto got = parse(o.v[3], o.v[2], false); for (auto& g : got) if (g.q == -5555) { r.violate("read-next", "reading the next record returned another one than listing gives" + at); return; }
                    if (o.v[2] == o.v[1]) { if (!cmp(f, exp, got, true, r, at, false, nlink)) return; if (o.v[4] >= 0) { r.violate("read-next-end", "a record was read after the last one that matches" + at); return; } if (o.v[5]) { r.violate("read-next-end", "reading past the last record changed the caller's field" + at); return; } }
                    else for (auto& g : got) { std::vector<const Rec*> one; for (auto x : exp) if (x->tag == g.m.ig4) one.push_back(x); if (!cmp(f, one, { g }, true, r, at, false, nlink)) return; }
                    break;
                }
                case K_LIRX: {
                    if (f.fuzzy || ff) break; Crit c = mkcrit(byid[o.op]->A(1), byid[o.op]->A(2), -1); std::vector<const Rec*> exp; const int32_t* t = (const int32_t*)blob_at(o.v[4]);
                    for (long i = 0; i < o.v[5]; i++) for (auto x : view(o.v[0])) if (x->tag == t[i] && matches(c, x->m)) exp.push_back(x);
                    if (exp.empty()) { if (o.v[1] >= 0 || o.v[2] >= 0) { r.violate("search-next", "a search continued from a record found one though no later record matches" + at); return; } break; }
                    if (o.v[1] < 0) { r.violate("search-next", "a search continued from a record found nothing, " + std::to_string(exp.size()) + " later records match" + at); return; }
                    auto got = parse(o.v[3], 1, false); if (got[0].m.ig4 != exp[0]->tag) { r.violate("search-next", "a search continued from a record returned tag " + std::to_string(got[0].m.ig4) + ", expected " + std::to_string(exp[0]->tag) + at); return; }
                    if (got[0].q == -5555) { r.violate("search-next", "a read continued from a record found another record than the search does" + at); return; }
                    exp.resize(1); if (!cmp(f, exp, got, true, r, at, false, nlink)) return; break;
                }
                case K_MSQ: {
                    if (f.fuzzy || ff) break; if (o.v[1] < 0 || o.v[2] < 0 || !o.v[3]) { r.violate("mask", "search masks could not be set and obtained again" + at); return; }
                    Crit c = mkcrit(byid[o.op]->A(1), byid[o.op]->A(2), -1), k = mask(c, byid[o.op]->A(3)); std::vector<const Rec*> e1, e2; for (auto x : view(o.v[0])) { if (matches(k, x->m)) e1.push_back(x); if (matches(c, x->m)) e2.push_back(x); }
                    if (o.v[4] < 0 || o.v[7] < 0) { r.violate("list-failed", "listing failed" + at); return; }
                    if (!cmp(f, e1, parse(o.v[6], o.v[5], false), false, r, at + " with part of the criteria masked", false, nlink)) return; if (!cmp(f, e2, parse(o.v[9], o.v[8], false), false, r, at + " after masks were taken off", false, nlink)) return; break;
                }
                case K_IPS: {
                    if (f.fuzzy || ff) break; Crit c = mkcrit(byid[o.op]->A(1), byid[o.op]->A(2), -1), k = levels(c, byid[o.op]->A(3));
                    for (int w = 0; w < 2; w++) {
                        std::vector<const Rec*> exp; for (auto x : view(o.v[0])) if (matches(w ? c : k, x->m)) exp.push_back(x); std::string how = w ? " (search by coded ips, after one by level)" : " (search by level)";
                        long h = w ? o.v[3] : o.v[1]; if (h < 0) { if (!exp.empty()) { r.violate("search-miss", "search found nothing, " + std::to_string(exp.size()) + " records match" + how + at); return; } continue; }
                        auto got = parse(w ? o.v[4] : o.v[2], 1, false); const Rec* x = nullptr; for (auto e : exp) if (e->tag == got[0].m.ig4) x = e;
                        if (!x) { r.violate("search-wrong", "search found a record that does not match" + how + at); return; }
                        if (f.ordered && !nlink && x != exp[0]) { r.violate("search-order", "search did not return the first matching record" + how + at); return; }
                    }
                    break;
                }
                case K_FILE: {
                    if (o.v[2] == 0) { if (f.committed && !f.fuzzy && !f.marked && o.v[1] != 0) { r.violate("check-refused", "the check of a file that was closed returned " + std::to_string(o.v[1]) + at); return; } }
                    else if (o.v[1] >= 0) { r.violate("check-accepted", std::string("the check accepted a file that ") + (o.v[2] == 1 ? "was cut to " + std::to_string(o.v[3]) + " bytes" : o.v[2] == 2 ? "has bytes added to its end" : "does not exist") + at); return; }
                    break;
                }
                case K_COPY: {
                    const Rec* src = nullptr; for (auto& kv : fs) for (auto& x : kv.second.mem) if (x.tag == o.v[2]) src = &x; F& sf = fs[o.v[5]];
                    if (!src || sf.fuzzy || f.fuzzy || f.rofall) { f.fuzzy = f.incommit = true; break; }
                    if (o.v[4] < 0 || o.v[1] < 0) { r.violate("copy-failed", "copying a record returned " + std::to_string(o.v[4]) + "," + std::to_string(o.v[1]) + at); return; }
                    Rec y = *src; y.tag = o.v[3]; y.m.ig4 = (int)o.v[3]; write(f, y, false, -1, false); break;
                }
                case K_DOWN: {
                    const Rec* x = nullptr; for (auto v : view(o.v[0])) if (v->tag == o.v[2]) x = v; if (f.fuzzy || ff || !x || k_def[x->kind].base != D_F64) break;
                    if (o.v[1] < 0) { r.violate("read-failed", "reading a listed record returned " + std::to_string(o.v[1]) + at); return; }
                    auto b = field(x->kind, x->dt, x->m.ni, x->m.nj, x->m.nk); long n = (long)x->m.ni * x->m.nj * x->m.nk; const double* d = (const double*)b.data(); const float* g = (const float*)blob_at(o.v[3]);
                    for (long i = 0; i < n; i++) if (g[i] != (float)d[i]) { r.violate("wrong-data", "a 64 bit value read into 32 bits is " + std::to_string(g[i]) + ", expected " + std::to_string((float)d[i]) + at); return; }
                    for (long i = n; i < n + 1024; i++) if (g[i] != -7777.f) { r.violate("read-overrun", "reading 64 bit values into 32 bits wrote beyond the field" + at); return; }
                    break;
                }
                case K_LIR: {
                    if (f.fuzzy || ff) break; Crit c = mkcrit(byid[o.op]->A(1), byid[o.op]->A(2), -1);
                    std::vector<const Rec*> exp; for (auto x : view(o.v[0])) if (matches(c, x->m)) exp.push_back(x);
                    if (o.v[1] < 0) { if (!exp.empty()) { r.violate("search-miss", "search found nothing, " + std::to_string(exp.size()) + " records match" + at); return; } break; }
                    Meta m; memcpy(&m, blob_at(o.v[5]), sizeof m); const Rec* x = nullptr; for (auto e : exp) if (e->tag == m.ig4) x = e;
                    if (!x) { r.violate("search-wrong", "search found a record that does not match" + at); return; }
                    if (f.ordered && x != exp[0] && !nlink) { r.violate("search-order", "search did not return the first matching record" + at); return; }
                    std::string why; if (o.v[3] == -9999) break; if (o.v[3] < 0 || !o.v[6]) { r.violate("read-failed", "search and read returned " + std::to_string(o.v[3]) + at); return; }
                    if (!same_field(x->kind, x->dt, m.ni, m.nj, m.nk, blob_at(o.v[4]), why)) { r.violate("wrong-data", why + at); return; }
                    break;
                }
            }
        }
    }
    bool cmp(F& f, const std::vector<const Rec*>& exp, const std::vector<Got>& got, bool data, Result& r, const std::string& at, bool ff, int nlink) {
        std::map<long, int> want; std::map<long, const Rec*> by; for (auto x : exp) { want[x->tag]++; by[x->tag] = x; }
        for (auto& g : got) {
            if (g.e < 0) { if (ff) continue; r.violate("prm-failed", "descriptors of a listed record could not be obtained (" + std::to_string(g.e) + ")" + at); return false; }
            if (!want.count(g.m.ig4)) { r.violate("extra-record", "a record that should not be there was returned: tag " + std::to_string(g.m.ig4) + at); return false; }
            if (--want[g.m.ig4] < 0) { r.violate("duplicate-record", "a record was returned twice: tag " + std::to_string(g.m.ig4) + at); return false; }
            const Rec* x = by[g.m.ig4]; std::string d = diff(x->m, g.m); if (!d.empty()) { r.violate("wrong-descriptor", d + ", tag " + std::to_string(x->tag) + at); return false; }
            if (!data || g.q == -9999) continue;
            if (g.q < 0) { if (ff) continue; r.violate("read-failed", "reading a listed record returned " + std::to_string(g.q) + at); return false; }
            if (!g.dims) { r.violate("read-dims", "reading returned other dimensions than the descriptors" + at); return false; }
            if (!g.clean) { r.violate("read-overrun", "reading wrote beyond the field (kind " + std::to_string(x->kind) + ", tag " + std::to_string(x->tag) + ")" + at); return false; }
            std::string why; if (!same_field(x->kind, x->dt, x->m.ni, x->m.nj, x->m.nk, g.d, why)) { r.violate("wrong-data", why + ", tag " + std::to_string(x->tag) + at); return false; }
        }
        if (ff) return true;
        for (auto& kv : want) if (kv.second > 0) { r.violate("lost-record", "a record is missing: tag " + std::to_string(kv.first) + ", " + std::to_string(got.size()) + " of " + std::to_string(exp.size()) + at); return false; }
        if (f.ordered && !nlink) for (size_t i = 0; i < got.size() && i < exp.size(); i++) if (got[i].m.ig4 != exp[i]->tag) { r.violate("order", "records are not listed in the order they were written" + at); return false; }
        return true;
    }
    // first look at a file whose writer died: everything committed and not replaced since must be there and right;
    // anything else must be something that was written at some time
    bool fuzzy_scan(F& f, const std::vector<Got>& got, Result& r, const std::string& at) {
        std::map<long, const Rec*> d, m; for (auto& x : f.disk) d[x.tag] = &x; for (auto& x : f.mem) m[x.tag] = &x;
        std::vector<Rec> now; std::set<long> seen;
        for (auto& g : got) {
            long t = g.m.ig4; const Rec* x = d.count(t) ? d[t] : nullptr; const Rec* y = m.count(t) ? m[t] : nullptr;
            if (f.incommit) { if (!x && !y) continue; }
            else if (!x) { r.violate("uncommitted-record", "after a crash a record appears that was never committed: tag " + std::to_string(t) + at); return false; }
            if (g.e < 0) { r.violate("prm-failed", "descriptors could not be obtained" + at); return false; }
            if (!seen.insert(t).second) { if (f.incommit) continue; r.violate("duplicate-record", "a record was returned twice" + at); return false; }
            std::string d1 = x ? diff(x->m, g.m) : "no", d2 = y ? diff(y->m, g.m) : "no"; bool okm = d1.empty() || (f.incommit && d2.empty());
            if (!okm) { if (f.incommit) continue; r.violate("wrong-descriptor-after-crash", (x ? d1 : d2) + at); return false; }
            Rec z = d1.empty() && x ? *x : *y;
            if (!f.clobbered.count(t)) {
                if (g.q == -9999 || (g.q < 0 && !x)) { if (x || f.incommit) now.push_back(z); continue; } // what was never committed may be incomplete
                if (g.q < 0) { r.violate("read-failed-after-crash", "reading a committed record returned " + std::to_string(g.q) + at); return false; }
                if (!x) continue; std::string why; if (!same_field(z.kind, z.dt, z.m.ni, z.m.nj, z.m.nk, g.d, why)) { r.violate("wrong-data-after-crash", why + ", tag " + std::to_string(t) + at); return false; }
            }
            now.push_back(z);
        }
        if (!f.incommit) for (auto& x : f.disk) if (!seen.count(x.tag)) { r.violate("lost-committed-record", "a committed record is missing after a crash: tag " + std::to_string(x.tag) + ", " + std::to_string(got.size()) + " of " + std::to_string(f.disk.size()) + at); return false; }
        if (f.incommit) for (auto& x : f.disk) if (!seen.count(x.tag) && m.count(x.tag) && diff(m[x.tag]->m, x.m).empty() && !f.clobbered.count(x.tag)) { probe("record lost in a torn commit"); }
        // replaced contents are unknown from here on: leave such files to read-only checks
        if (f.incommit || !f.clobbered.empty()) return true;
        f.mem = f.disk = now; f.fuzzy = false; return true;
    }
    bool nontrivial(const Plan& p, const Result& r) override { int w = 0, rd = 0; for (auto& o : r.hist) { if (o.kind == K_WRITE && o.v[1] >= 0) w++; if ((o.kind == K_SCAN && o.v[2] > 0) || (o.kind == K_FIND && o.v[3] > 0)) rd++; } return w >= 2 && rd >= 1; }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
