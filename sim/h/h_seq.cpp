// Sequential standard files (fstd98.c, xdf98.c in SEQ mode, on top of c_baseio.c).
#include "sim.h"
#include <unistd.h>
#include "fstutil.h"
using namespace sim;

enum { K_OPEN = O_USER, K_WRITE, K_SEARCH, K_LIST, K_ERASE, K_POS, K_WEO, K_EOF, K_CKPT, K_CLOSE, K_SCAN, K_REFUSE };
static const char GUARD = 0x5d;

struct H : Harness {
    std::vector<std::string> props() override { return { "F06" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; long tag = 1; int mode = r.weighted({ 6, 3, 2 }); // fault-free, crash, I/O faults
        int nf = r.chance(0.75) ? 1 : 2; int n = (int)r.range(5, th ? 60 : 32); int nkeys = (int)r.pick(std::vector<int>{ 2, 4, 8, 40 });
        p.cfg["miss"] = r.weighted({ 4, 4, 2 }); p.cfg["ftn"] = r.weighted({ 6, 3, 1 });
        if (r.chance(0.25)) { p.cfg["ps"] = r.range(1, 3); p.cfg["nb"] = r.range(1, 4); if (mode == 1) mode = 0; }
        if (r.chance(0.1)) p.cfg["rnd"] = 1; // file 1 is a random-access file written first, then read sequentially
        int shape = r.weighted({ 5, 2, 3, 1 });
        auto wr = [&](long f) { p.add("write", { f, r.below(D_NK), tag++, r.below(2), r.below(nkeys), r.chance(0.7) ? shape : r.below(4) }); };
        auto op = [&](long f, long m) { p.add("open", { f, m }); };
        bool grow = r.chance(0.5); // histories that mostly append, and histories that overwrite anywhere
        for (long f = 0; f < nf; f++) { op(f, 0); for (int i = (int)r.range(1, 8); i > 0; i--) wr(f); }
        for (int i = 0; i < n; i++) {
            long f = r.below(nf);
            switch (r.weighted({ 16, 10, 10, 6, 8, 5, 14, 12, 5, 3, 6, 3, 3, 2, mode == 1 ? 4 : 1, 4, 3 })) {
                case 0: if (grow && r.chance(0.7)) { p.add("rwd", { f }); for (int k = (int)r.range(1, 3); k > 0; k--) p.add("app", { f }); } for (int k = (int)r.range(1, 3); k > 0; k--) wr(f); break;
                case 1: p.add("rwd", { f }); break;
                case 2: p.add("skp", { f, r.range(1, 6) }); break;
                case 3: p.add("skp", { f, -r.range(1, 6) }); break;
                case 4: p.add("app", { f }); break;
                case 5: p.add("weo", { f, r.chance(0.3) ? 15 : r.range(1, 14) }); break;
                case 6: p.add("inf", { f, r.below(1 << 20), r.below(nkeys), r.below(1 << 20) }); break;
                case 7: p.add("sui", { f, r.below(1 << 20) }); break;
                case 8: p.add("inx", { f, r.below(1 << 20), r.below(nkeys), r.below(1 << 20), r.chance(0.5) }); break;
                case 9: p.add("inl", { f, r.below(1 << 20), r.below(nkeys) }); break;
                case 10: p.add("eff", { f, r.below(2) }); break;
                case 11: p.add("eof", { f }); break;
                case 12: p.add("close", { f }); op(f, r.chance(0.25)); break;
                case 13: p.add("ckpt", { f }); break;
                case 14: p.add(r.chance(0.2) ? "exit0" : "restart"); for (long g = 0; g < nf; g++) op(g, 0); break;
                case 15: p.add("scan", { f }); break;
                default: p.add("refuse", { f, r.below(5) }); break;
            }
        }
        for (long f = 0; f < nf; f++) p.add("close", { f });
        for (long f = 0; f < nf; f++) { op(f, 1); p.add("scan", { f }); p.add("close", { f }); }
        if (mode) for (int i = (int)r.range(1, 2); i > 0; i--) {
            static const std::vector<int> ik = { F_SHORTW, F_ENOSPC, F_EIO_W, F_EIO_R, F_SHORTR, F_EINTR_W, F_EINTR_R, F_EOPEN };
            int kind = mode == 1 ? (r.chance(0.5) ? F_CRASH : F_TORN) : r.pick(ik); bool rdk = kind == F_EIO_R || kind == F_SHORTR || kind == F_EINTR_R; std::vector<int> t;
            for (auto& o : p.ops) {
                const std::string& q = o.name; int w = 0;
                if (kind == F_EOPEN) w = q == "open"; else if (rdk) w = q == "scan" ? 4 : q == "inf" || q == "sui" || q == "skp" || q == "app" || q == "open" ? 2 : 0;
                else w = q == "write" ? 4 : q == "weo" || q == "eff" || q == "close" || q == "ckpt" ? 2 : q == "open" ? 1 : 0;
                for (int k = 0; k < w; k++) t.push_back(o.id);
            }
            if (!t.empty()) p.faults.push_back({ r.pick(t), (int)r.range(1, r.chance(0.7) ? 3 : 12), kind, r.range(1, 999) });
        }
        return p;
    }
    static int unit(long f) { return 40 + (int)f; }
    static std::string fname(long f) { return "/sim/seq" + std::to_string(f); }
    bool isopen[4], ro[4]; int last[4]; std::map<int, int> seen[4];   // seen: handle -> tag, of records found
    void child_begin(const Plan& p) override {
        if (p.C("ps")) { char b[64]; snprintf(b, 64, "%ld %ld", p.C("ps"), p.C("nb")); setenv("WA_CONFIG", b, 1); } else unsetenv("WA_CONFIG");
        for (int i = 0; i < 4; i++) { isopen[i] = ro[i] = false; last[i] = -1; } g_ftn = p.C("ftn") != 0; g_miss = (int)p.C("miss"); miss_on();
    }
    // descriptors and data of the record just found: handle, prm, luk, dims ok, clean, len, Meta, data
    long put_rec(int h) {
        Meta m; std::vector<int32_t> out(6 + sizeof(Meta) / 4, 0); int e = get_prm(h, m); out[0] = h; out[1] = e; memcpy(&out[6], &m, sizeof m);
        long n = (long)m.ni * m.nj * m.nk; int kind = rec_kind(m); out[2] = -9999;
        if (e >= 0 && n > 0 && n < 2000000) {
            std::vector<uint8_t> b(n * 8 + 64 + 4096, GUARD); int ni = -1, nj = -1, nk = -1; datalen(kind); out[2] = c_fstluk(b.data(), h, &ni, &nj, &nk); c_fst_data_length(4);
            size_t len = n * k_size(kind); bool clean = true; for (size_t i = (len + 7) / 8 * 8; i < b.size(); i++) if (b[i] != (uint8_t)GUARD) { clean = false; break; }
            out[3] = ni == m.ni && nj == m.nj && nk == m.nk; out[4] = clean; out[5] = (int)((len + 3) / 4); size_t d = out.size(); out.resize(d + out[5]); memcpy(&out[d], b.data(), len);
        }
        return blob(out.data(), out.size() * 4);
    }
    int tagof(int h) { Meta m; return h >= 0 && get_prm(h, m) >= 0 ? m.ig4 : -1; }
    void exec(const Plan& p, const Op& o) override {
        const std::string& nm = o.name; long f = o.A(0) & 3; int iun = unit(f); int ni = 0, nj = 0, nk = 0;
        auto strs = [](const Crit& c, char* et, char* tv, char* nv) { snprintf(et, 16, "%s", c.et.c_str()); snprintf(tv, 4, "%s", c.tv.c_str()); snprintf(nv, 8, "%s", c.nv.c_str()); };
        char et[16], tv[4], nv[8]; g_ftn = p.C("ftn") == 2 || (p.C("ftn") == 1 && hsh(o.id, p.seed) % 2);
        if (nm == "open") {
            if (isopen[f]) return; obs(O_BEGIN, { f }); int u = iun; int e = c_fnom(&u, fname(f).c_str(), o.A(1) ? "STD+SEQ+OLD+R/O" : "STD+SEQ", 0), e2 = -9999;
            if (e == 0) e2 = c_fstouv(iun, (char*)"SEQ");
            if (e == 0 && e2 < 0) c_fclos(iun);
            isopen[f] = e == 0 && e2 >= 0; ro[f] = o.A(1); last[f] = -1; seen[f].clear(); obs(K_OPEN, { f, e, e2, o.A(1) });
        } else if (!isopen[f]) return;
        else if (nm == "write") {
            if (ro[f]) return; int kind = (int)(o.A(1) % D_NK); long tag = o.A(2); Meta m = mkmeta(kind, tag, mkkey(o.A(4)), (int)o.A(5)); auto b = field(kind, tag, m.ni, m.nj, m.nk); auto c = b; datalen(kind);
            obs(O_BEGIN, { f });
            int e = c_fstecr(b.data(), nullptr, (kind == D_RAW1 || kind == M_RAW1) ? (int)(tag % 2) : -m.nbits, iun, m.date, m.deet, m.npas, m.ni, m.nj, m.nk, m.ip1, m.ip2, m.ip3, m.tv, m.nv, m.et, m.gt, m.ig1, m.ig2, m.ig3, m.ig4, k_dt(kind), (int)o.A(3));
            c_fst_data_length(4); last[f] = -1; seen[f].clear(); obs(K_WRITE, { f, e, kind, tag, o.A(4), o.A(5), b != c });
        } else if (nm == "rwd") { obs(K_POS, { f, 0, 0, c_fstrwd(iun) }); last[f] = -1; }
        else if (nm == "skp") { obs(K_POS, { f, 1, o.A(1), c_fstskp(iun, (int)o.A(1)) }); last[f] = -1; }
        else if (nm == "app") { char q[] = " "; obs(K_POS, { f, 2, 0, c_fstapp(iun, q) }); last[f] = -1; }
        else if (nm == "weo") { if (ro[f]) return; obs(O_BEGIN, { f }); int e = c_fstweo(iun, (int)o.A(1)); last[f] = -1; seen[f].clear(); obs(K_WEO, { f, e, o.A(1) }); }
        else if (nm == "inf" || nm == "inx" || nm == "sui") {
            long mode = nm == "inf" ? 0 : nm == "sui" ? 1 : 2; Crit c = mkcrit(o.A(1), o.A(2), stamp(24 * 365 * 20 + (o.A(3) % 2000) * 6)); strs(c, et, tv, nv); int h, from = -1; bool lir = mode == 0 && o.A(1) % 5 == 0, lis = mode == 1 && o.A(1) % 4 == 0; obs(O_BEGIN, { f });
            long off = -1, fromtag = -1;
            if (mode == 2 && !o.A(4)) { if (seen[f].empty()) return; auto it = seen[f].begin(); std::advance(it, o.A(3) % seen[f].size()); from = it->first; fromtag = it->second; } // from a record found earlier
            if (mode == 2 && o.A(4)) from = 0;
            if (mode == 0) h = c_fstinf(iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv);
            else if (mode == 1) h = c_fstsui(iun, &ni, &nj, &nk);
            else h = c_fstinfx(from, iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv);
            (void)lir; (void)lis;
            if (h >= 0) { last[f] = h; off = put_rec(h); int t = tagof(h); if (t >= 0) seen[f][h] = t; } else last[f] = -1;
            obs(K_SEARCH, { f, mode, h, off, ni, nj, nk, fromtag, from });
        } else if (nm == "inl") {
            Crit c = mkcrit(o.A(1), o.A(2), -1); strs(c, et, tv, nv); std::vector<int> q(601, -4242); int cnt = 0; int nmax = o.A(1) % 3 ? 600 : 3;
            int e = c_fstinl(iun, &ni, &nj, &nk, c.datev, et, c.ip1, c.ip2, c.ip3, tv, nv, q.data(), &cnt, nmax); std::vector<int32_t> t; bool over = q[nmax] != -4242; last[f] = -1;
            for (int i = 0; i < std::min(cnt, nmax); i++) { t.push_back(q[i]); t.push_back(seen[f].count(q[i]) ? seen[f][q[i]] : -1); }
            obs(K_LIST, { f, e, cnt, nmax, over, blob(t.data(), t.size() * 4) });
        } else if (nm == "eff") {
            if (ro[f] || last[f] < 0) return; int h = last[f]; int t = seen[f].count(h) ? seen[f][h] : -1; obs(O_BEGIN, { f });
            int e = c_fsteff(h); int e2 = -1, e3 = -1; static int32_t buf[1 << 20]; Meta m; if (get_prm(h, m) < 0 || (long)m.ni * m.nj * m.nk < (1 << 18)) e2 = c_fstluk(buf, h, &ni, &nj, &nk); e3 = c_fsteff(h);
            seen[f].erase(h); last[f] = -1; obs(K_ERASE, { f, e, t, e2, e3 });
        } else if (nm == "eof") obs(K_EOF, { f, c_fsteof(iun) });
        else if (nm == "ckpt") { obs(O_BEGIN, { f }); obs(K_CKPT, { f, c_fstckp(iun) }); }
        else if (nm == "close") { obs(O_BEGIN, { f }); int e = c_fstfrm(iun), e2 = c_fclos(iun); isopen[f] = false; obs(K_CLOSE, { f, e, e2 }); }
        else if (nm == "refuse") {
            int e; Meta m; int l[2] = { iun, iun };
            switch (o.A(1) % 5) {
                case 0: e = c_fst_edit_dir_plus(last[f] >= 0 ? last[f] : 0x10 | (int)f, -1, -1, -1, -1, -1, -1, 1, -1, -1, (char*)" ", (char*)" ", (char*)" ", (char*)" ", -1, -1, -1, -1, -1); break;
                case 1: if (!ro[f]) return; { auto b = field(D_RAW, 1, 2, 1, 1); e = c_fstecr(b.data(), nullptr, -32, iun, 0, 0, 0, 2, 1, 1, 0, 0, 0, (char*)"P", (char*)"TT", (char*)"E", (char*)"X", 0, 0, 0, 0, 0, 0); } break;
                case 2: if (!ro[f] || last[f] < 0) return; e = c_fsteff(last[f]); break;
                case 3: if (!ro[f]) return; e = c_fstweo(iun, 1 + (int)(o.id % 15)); break;
                default: e = get_prm(0x7fffffff & ~0x7f | (last[f] >= 0 ? last[f] & 0x7f : 127), m); break;
            }
            (void)l; obs(K_REFUSE, { f, o.A(1) % 5, e });
        } else if (nm == "scan") {
            // everything from the start, marks included
            obs(O_BEGIN, { f }); c_fstrwd(iun); std::vector<int32_t> out; int cnt = 0, e = 0; char a[] = "            ", b[] = "  ", c[] = "    "; last[f] = -1;
            int h = c_fstinf(iun, &ni, &nj, &nk, -1, a, -1, -1, -1, b, c);
            for (; cnt < 2000; cnt++) {
                if (h >= 0) { out.push_back(-1); out.push_back((int)put_rec(h)); out.push_back(ni); out.push_back(nj); out.push_back(nk); }
                else { int l = c_fsteof(iun); out.push_back(l); out.push_back(h); out.push_back(0); out.push_back(0); out.push_back(0); if (l == 15 || l <= 0) { cnt++; break; } }
                h = c_fstsui(iun, &ni, &nj, &nk);
            }
            obs(K_SCAN, { f, cnt, blob(out.data(), out.size() * 4), e });
        }
    }
    // ------------------------------------------------------------------ oracle
    struct Item { int mark = 0; bool live = true; int kind = 0; long tag = 0; Meta m; };   // mark 1..14, or a record
    struct F { std::vector<Item> it; size_t cur = 0; bool open = false, ro = false, exists = false, target = false, posok = true, marked = false, wasro = false, broken = false, durable = false; Crit c; int fail = 0; size_t sure = SIZE_MAX; long found = -1; bool any = false; };
    // sure: items from there on are unknown (an interrupted write)
    static bool rec(const Item& x, long off, Result& r, const std::string& at, bool ff, int ni, int nj, int nk) {
        const int32_t* w = (const int32_t*)blob_at(off); Meta m; memcpy(&m, w + 6, sizeof m); const uint8_t* d = (const uint8_t*)(w + 6 + sizeof(Meta) / 4);
        if (w[1] < 0) { if (ff) return true; r.violate("prm-failed", "descriptors of a found record could not be obtained (" + std::to_string(w[1]) + ")" + at); return false; }
        if (m.ig4 != x.tag) { r.violate("wrong-record", "found tag " + std::to_string(m.ig4) + ", expected " + std::to_string(x.tag) + at); return false; }
        std::string why = diff(x.m, m); if (!why.empty()) { r.violate("wrong-descriptor", why + ", tag " + std::to_string(x.tag) + at); return false; }
        if (ni != m.ni || nj != m.nj || nk != m.nk) { r.violate("search-dims", "search returned wrong dimensions" + at); return false; }
        if (w[2] == -9999) return true;
        if (w[2] < 0) { if (ff) return true; r.violate("read-failed", "reading a found record returned " + std::to_string(w[2]) + at); return false; }
        if (!w[3]) { r.violate("read-dims", "reading returned other dimensions than the descriptors" + at); return false; }
        if (!w[4]) { r.violate("read-overrun", "reading wrote beyond the field" + at); return false; }
        if (!same_field(x.kind, x.tag, m.ni, m.nj, m.nk, d, why)) { r.violate("wrong-data", why + ", tag " + std::to_string(x.tag) + at); return false; }
        return true;
    }
    void oracle(const Plan& p, Result& r) override {
        g_miss = (int)p.C("miss");
        std::map<long, F> fs; int curinc = 0; std::map<int, const Op*> byid; for (auto& o : p.ops) byid[o.id] = &o; std::map<int, const Obs*> pend; bool iofault = false; bool paged = p.C("ps");
        auto faulty = [&](int op) { for (auto& f : p.faults) if (f.op == op) return true; return false; };
        auto lost = [&]() { for (auto& kv : fs) { F& f = kv.second; if (!f.open) continue; f.open = false; if (!f.ro) { f.marked = true; if (paged) { f.sure = 0; if (!f.durable) f.broken = true; } } } };
        auto hit = [&](F& f) { f.sure = f.posok ? std::min(f.sure, f.cur) : 0; f.posok = false; };
        for (size_t i = 0; i < r.hist.size(); i++) {
            const Obs& o = r.hist[i];
            if (o.inc != curinc) { curinc = o.inc; lost(); pend.clear(); }
            if (o.kind == O_BEGIN) { pend[o.op] = &r.hist[i]; continue; }
            std::string opn = byid.count(o.op) ? byid[o.op]->name : "?";
            switch (o.kind) {
                case O_SIGNAL: if (pend.count(o.op) && fs[pend[o.op]->v[0]].sure != SIZE_MAX && opn != "open") { lost(); pend.erase(o.op); continue; } // decoding what an interrupted write left
                    r.violate("signal", std::string("process killed by a signal in op ") + std::to_string(o.op) + " " + opn + ": " + o.s); return;
                case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress in op " + std::to_string(o.op) + " " + opn); return;
                case O_HEAP: { bool dmg = false; for (auto& kv : fs) if (kv.second.sure != SIZE_MAX) dmg = true; if (dmg) { lost(); continue; } }   // as above
                    r.violate("heap", o.s); return;
                case O_EXIT: if (!faulty(o.op) && !iofault && !(pend.count(o.op) && (fs[pend[o.op]->v[0]].sure != SIZE_MAX || !fs[pend[o.op]->v[0]].posok))) { r.violate("unexpected-exit", "the library ended the process (exit " + std::to_string(o.v[0]) + ") with no injected fault, op " + std::to_string(o.op) + " " + opn); return; } // fallthrough
                case O_CRASH: {
                    auto b = pend.find(o.op);
                    if (b != pend.end()) { F& f = fs[b->second->v[0]]; if (opn == "write" || opn == "weo") hit(f); if (opn == "eff") f.sure = std::min(f.sure, f.found < 0 ? 0 : (size_t)f.found); if (opn == "open" && !f.exists) { f.sure = 0; f.exists = f.marked = f.broken = true; } if (opn == "open" && !byid[o.op]->A(1)) f.marked = true; if (opn == "close" || opn == "ckpt") f.marked = true; }
                    lost(); pend.erase(o.op); continue;
                }
                case O_DONE: continue;
            }
            if (o.kind < O_USER) continue;
            F& f = fs[o.v[0]]; bool ff = faulty(o.op); std::string at = " (op " + std::to_string(o.op) + " " + opn + ", file " + std::to_string(o.v[0]) + ")"; pend.erase(o.op);
            if (ff) iofault = true;
            auto fuzzy = [&]() { return f.sure != SIZE_MAX || !f.posok; };
            // where a search from the current position ends: index of the match, or of the mark that stops it
            auto search = [&](size_t& at, bool& found) { size_t k = at; for (; k < f.it.size(); k++) { const Item& x = f.it[k]; if (x.mark) { at = k + 1; found = false; f.fail = x.mark; return k; } if (x.live && matches(f.c, x.m)) { at = k + 1; found = true; return k; } } at = k; found = false; f.fail = 15; return k; };
            switch (o.kind) {
                case K_OPEN: {
                    bool rd = o.v[3]; f.open = false;
                    if (o.v[1] != 0) { if (!ff && (f.exists || !rd) && f.sure != 0) { r.violate("fnom", "the unit could not be connected" + at); return; } break; }
                    if (o.v[2] < 0) {
                        if (ff || (f.marked && !rd) || (!f.exists && (rd || iofault)) || (f.sure == 0)) { if (!rd && !f.exists && ff) { f.sure = 0; f.exists = f.marked = f.broken = true; } break; }
                        r.violate("open-failed", "open returned " + std::to_string(o.v[2]) + at); return;
                    }
                    f.open = true; f.ro = rd; f.wasro = ff; f.cur = 0; f.target = false; f.fail = -1; f.posok = !ff; f.found = -1; f.exists = true;
                    break;
                }
                case K_WRITE: {
                    if (o.v[6]) { r.violate("caller-buffer", "the caller's field changed" + at); return; }
                    if (o.v[1] < 0) { if (!ff && !fuzzy() && !f.wasro) { r.violate("write-failed", "write returned " + std::to_string(o.v[1]) + at); return; } hit(f); break; }
                    if (!f.posok || f.sure < f.cur) { hit(f); break; }
                    f.it.resize(std::min(f.it.size(), f.cur)); Item x; x.kind = (int)o.v[2]; x.tag = o.v[3]; x.m = mkmeta(x.kind, x.tag, mkkey(o.v[4]), (int)o.v[5]); f.it.push_back(x); f.cur++; f.found = -1; f.fail = -1;
                    if (f.sure >= f.cur - 1 && f.posok && !f.broken) f.sure = SIZE_MAX;   // all that follows is known again
                    if (ff || f.wasro) { f.cur--; hit(f); }
                    break;
                }
                case K_WEO: {
                    if (o.v[1] < 0) { if (!ff && !fuzzy() && !f.wasro) { r.violate("weo-failed", "writing an end of file mark returned " + std::to_string(o.v[1]) + at); return; } hit(f); break; }
                    if (!f.posok || f.sure < f.cur) { hit(f); break; }
                    f.it.resize(std::min(f.it.size(), f.cur)); if (o.v[2] < 15) { Item x; x.mark = (int)o.v[2]; f.it.push_back(x); f.cur++; } f.found = -1; f.fail = -1; if (!f.broken) f.sure = SIZE_MAX;
                    if (ff || f.wasro) hit(f), f.sure = f.cur ? f.cur - 1 : 0;
                    break;
                }
                case K_POS: {
                    f.found = -1; f.fail = -1;
                    if (o.v[1] == 0) { if (o.v[3] < 0) { r.violate("rewind-failed", "rewind returned " + std::to_string(o.v[3]) + at); return; } f.cur = 0; f.posok = true; break; }
                    if (ff) { f.posok = false; break; } if (fuzzy()) { f.posok = false; break; }
                    long n = o.v[1] == 2 ? 1 << 20 : o.v[2]; bool bad = false;
                    if (n > 0) while (n-- > 0 && f.cur < f.it.size() && !f.it[f.cur].mark) f.cur++;
                    else for (n = -n; n > 0 && f.cur > 0; n--) { if (f.it[f.cur - 1].mark) { bad = true; break; } f.cur--; }
                    if (!bad && o.v[3] < 0) { r.violate("position-failed", "positioning returned " + std::to_string(o.v[3]) + at); return; }  // back over a mark: refused or ignored, the position stays
                    break;
                }
                case K_SEARCH: {
                    f.found = -1;
                    if (o.v[1] != 1) { Crit c = mkcrit(byid[o.op]->A(1), byid[o.op]->A(2), stamp(24 * 365 * 20 + (byid[o.op]->A(3) % 2000) * 6)); f.c = c; f.target = true; }
                    if (o.v[1] == 2) {
                        if (o.v[8] == 0) { f.cur = 0; f.posok = true; }
                        else { size_t k = 0; while (k < f.it.size() && (f.it[k].mark || f.it[k].tag != o.v[7])) k++; if (k < f.it.size() && k < f.sure) { f.cur = k + 1; f.posok = true; } else f.posok = false; }
                    }
                    if (!f.posok || ff) { f.posok = false; f.fail = -1; break; }
                    if (!f.target) { if (o.v[2] >= 0) { r.violate("search-no-target", "a search was continued that was never begun" + at); return; } break; }
                    size_t k0 = f.cur; bool found; size_t k = search(f.cur, found);
                    if (k >= f.sure) { f.cur = k0; f.posok = false; f.fail = -1; if (o.v[2] >= 0) { const int32_t* w = (const int32_t*)blob_at(o.v[3]); (void)w; } break; }
                    if (!found) { if (o.v[2] >= 0) { r.violate("search-wrong", "a search found a record, none matches before the next mark" + at); return; } break; }
                    if (o.v[2] < 0) { r.violate("search-miss", "a search returned " + std::to_string(o.v[2]) + ", tag " + std::to_string(f.it[k].tag) + " matches" + at); return; }
                    f.found = (long)k; f.fail = -1; if (!rec(f.it[k], o.v[3], r, at, false, (int)o.v[4], (int)o.v[5], (int)o.v[6])) return; f.any = true; break;
                }
                case K_LIST: {
                    f.found = -1; f.target = true; f.c = mkcrit(byid[o.op]->A(1), byid[o.op]->A(2), -1); f.fail = -1;
                    if (ff || !f.posok) { f.posok = false; break; }
                    if (o.v[4]) { r.violate("list-overrun", "more handles returned than the caller's list can hold" + at); return; }
                    std::vector<size_t> l; for (;;) { bool found; size_t k = search(f.cur, found); if (k >= f.sure) { f.posok = false; break; } if (!found) break; l.push_back(k); } f.fail = -1;
                    if (!f.posok) break; long n = (long)l.size(), nmax = o.v[3]; const int32_t* t = (const int32_t*)blob_at(o.v[5]);
                    if (n > nmax ? o.v[1] != -n : o.v[1] < 0) { r.violate("list-result", "listing into " + std::to_string(nmax) + " places returned " + std::to_string(o.v[1]) + ", " + std::to_string(n) + " match" + at); return; }
                    if (o.v[2] != std::min(n, nmax)) { r.violate("list-count", "listing gave " + std::to_string(o.v[2]) + " records, " + std::to_string(n) + " match" + at); return; }
                    for (long j = 0; j < std::min(n, nmax); j++) { if (t[2 * j + 1] >= 0 && t[2 * j + 1] != f.it[l[j]].tag) { r.violate("list-wrong", "the list holds tag " + std::to_string(t[2 * j + 1]) + " where " + std::to_string(f.it[l[j]].tag) + " matches" + at); return; } if (j && t[2 * j] == t[2 * j - 2]) { r.violate("list-duplicate", "a handle is listed twice" + at); return; } }
                    break;
                }
                case K_ERASE: {
                    f.fail = -1; if (f.found < 0) { for (size_t k = 0; k < f.it.size(); k++) if (!f.it[k].mark && f.it[k].tag == o.v[2]) f.found = (long)k; if (f.found < 0) { f.sure = 0; break; } }
                    if (o.v[1] != 0) { if (!ff && !f.wasro) { r.violate("erase-failed", "erase returned " + std::to_string(o.v[1]) + at); return; } f.sure = std::min(f.sure, (size_t)f.found); break; }
                    if (f.wasro) { f.sure = 0; break; } f.it[f.found].live = false; if (ff) f.sure = std::min(f.sure, (size_t)f.found);
                    if (!ff && o.v[3] >= 0) { r.violate("erased-readable", "a record just erased can still be read" + at); return; }
                    if (!ff && o.v[4] >= 0) { r.violate("erased-twice", "a record just erased can be erased again" + at); return; } f.found = -1;
                    break;
                }
                case K_EOF: if (f.fail > 0 && f.posok && !ff && o.v[1] != f.fail) { r.violate("eof-level", "end of file level is " + std::to_string(o.v[1]) + ", expected " + std::to_string(f.fail) + at); return; } break;
                case K_CKPT: if (o.v[1] >= 0 && !ff) f.durable = true; if (o.v[1] < 0) { if (!ff && !iofault) { r.violate("ckpt-failed", "checkpoint returned " + std::to_string(o.v[1]) + at); return; } f.sure = 0; } else if (ff) f.sure = 0; break;
                case K_CLOSE: f.open = false; if (o.v[1] >= 0 && o.v[2] >= 0 && !ff && !iofault) f.durable = true; if (o.v[1] < 0 || o.v[2] < 0) { if (!ff && !iofault) { r.violate("close-failed", "close returned " + std::to_string(o.v[1]) + "," + std::to_string(o.v[2]) + at); return; } } if (ff && !f.ro) { f.sure = 0; f.marked = true; } else if (!f.ro && !f.wasro && !iofault) f.marked = false; break;
                case K_REFUSE: if (o.v[2] >= 0) { r.violate("not-refused", std::string(o.v[1] == 0 ? "editing the descriptors of a sequential file" : o.v[1] == 4 ? "a handle that names no record" : "changing a file opened read-only") + " was accepted" + at); return; } break;
                case K_SCAN: {
                    const int32_t* t = (const int32_t*)blob_at(o.v[2]); f.cur = 0; f.posok = true; f.target = true; f.c = { -1, " ", -1, -1, -1, " ", " ", 0 }; f.found = -1;
                    for (long j = 0; j < o.v[1]; j++, t += 5) {
                        bool found; size_t k = search(f.cur, found);
                        if (k >= f.sure || ff) { f.posok = false; break; }
                        if (found) { if (t[0] != -1) { r.violate("lost-record", "a record is missing: tag " + std::to_string(f.it[k].tag) + at); return; } if (!rec(f.it[k], t[1], r, at, false, t[2], t[3], t[4])) return; f.any = true; }
                        else if (t[0] == -1) { r.violate("extra-record", "a record was returned where an end of file was expected" + at); return; }
                        else if (t[0] != f.fail) { r.violate("eof-level", "end of file level is " + std::to_string(t[0]) + ", expected " + std::to_string(f.fail) + at); return; }
                        if (!found && f.fail == 15) { if (f.cur > f.it.size()) f.cur = f.it.size(); break; }
                    }
                    f.fail = -1; break;
                }
            }
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { int w = 0, rd = 0; for (auto& o : r.hist) { if (o.kind == K_WRITE && o.v[1] >= 0) w++; if ((o.kind == K_SCAN && o.v[1] > 1) || (o.kind == K_SEARCH && o.v[2] >= 0)) rd++; } return w >= 2 && rd >= 1; }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
