// Word-addressable files of another machine (c_baseio.c): the library starts a server there,
// waits for its connection and sends it what is read and written.  The server is simulated.
#include "sim.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <algorithm>
extern "C" {
#include "rmn/fnom.h"
int32_t wawrit2_(const int32_t*, const void*, const uint32_t*, const int32_t*); int32_t waread2_(const int32_t*, void*, const uint32_t*, const int32_t*); int32_t wasize_(const int32_t*); int32_t waclos2_(const int32_t*); int32_t fclos_(const int32_t*);
}
using namespace sim;
static uint32_t val(long tag, long i) { uint64_t z = (uint64_t)tag * 0x9e3779b97f4a7c15ull + (uint64_t)i * 0xbf58476d1ce4e5b9ull; z ^= z >> 29; z *= 0x94d049bb133111ebull; z ^= z >> 32; return (uint32_t)z | 1; }
static void nap(int64_t ms) { if (ms <= 0) return; struct timespec ts = { (time_t)(ms / 1000), (long)(ms % 1000) * 1000000 }; nanosleep(&ts, nullptr); }
static std::string S(long x) { return std::to_string(x); }
enum { K_BAD = O_USER, K_OPEN, K_WRITE, K_READ, K_SIZE, K_CLOSE, K_FILE, K_FLUSH };
static void bad(const char* what, long a = 0, long b = 0) { obs(K_BAD, { a, b }, what); }

// ---------------------------------------------------------------- the files of the other machines
enum { NF = 6, MAXW = 24000, NU = 5 };
static const struct { const char* host; const char* name; } FILES[NF] = {
    { "hosta", "/data/a1" }, { "hosta", "rel/b.std" }, { "h.b-c.example", "/data/a1" }, { "hostd", "dir/c@d" }, { "hostd", "/data/e:1" },
    { "a-name.of.a.host.that.is.as.long.as.some.names.of.hosts.are.in.the.networks.of.centres.with.many.clusters", "/MixedCase/File" } };
struct Remote { long n[NF]; uint32_t w[NF][MAXW]; };
static Remote* rem() { return (Remote*)shared_user(sizeof(Remote)); }

// ---------------------------------------------------------------- the server
// what the next server does: 0 as it should, 1 never connects, 2 connects too late, 3 closes at once, 4 answers a wrong checksum, 5 closes in the middle of the answer, 6 connects late but in time
static struct { int on, f, ro, how; long delay, lag; int port, called; } want;
struct Session { int done = 0, closed = 0, eof = 0; };
static Session* sess[NU + 1]; // of the unit
static Session* now;
static bool rd(int fd, void* b, size_t n) { uint8_t* p = (uint8_t*)b; while (n) { ssize_t k = read(fd, p, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; p += k; n -= k; } return true; }
static bool wr(int fd, const void* b, size_t n) { const uint8_t* p = (const uint8_t*)b; while (n) { ssize_t k = write(fd, p, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; p += k; n -= k; } return true; }
static void server(int f, int ro, int how, long delay, long lag, int port, Session* s) {
    set_op(-7); nap(delay);
    if (how == 1) { s->done = 1; return; }
    int fd = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(0x7f000001);
    if (connect(fd, (struct sockaddr*)&a, sizeof a) < 0) { if (how != 2) bad("the library does not listen at the address it gave", port); close(fd); s->done = 1; return; }
    if (how == 3) { nap(lag); close(fd); s->done = 1; return; }
    Remote* R = rem(); bool first = true; s->eof = 1;
    for (;;) {
        uint32_t q[5]; if (!rd(fd, q, sizeof q)) break;
        for (auto& x : q) x = ntohl(x);
        long addr = q[1], nw = q[2]; int mode = (int)q[3];
        if (q[0] != 0xBABE || q[4] != (q[0] ^ q[1] ^ q[2] ^ q[3]) || mode < 1 || mode > 4) { bad("the server received a request that is not one", q[3], q[0]); break; }
        if (first != (mode == 4)) { bad("unexpected order of requests", mode, first); break; }
        first = false; nap(lag);
        if (mode == 4) {
            if (addr || nw) bad("size request with an address", addr, nw);
            uint32_t r[5] = { 0xBABE, 0, (uint32_t)R->n[f], 4, 0xBABE ^ 4 }; if (how == 4) r[4] ^= 0x100; for (auto& x : r) x = htonl(x);
            if (how == 5) { wr(fd, r, 8); break; }
            if (!wr(fd, r, sizeof r)) break;
        } else if (mode == 1) {
            if (addr < 1 || nw < 1 || addr + nw - 1 > R->n[f]) { bad("words that the file does not have were asked for", addr, nw); break; }
            std::vector<uint32_t> b(nw); for (long i = 0; i < nw; i++) b[i] = htonl(R->w[f][addr - 1 + i]);
            if (!wr(fd, b.data(), nw * 4)) break;
        } else if (mode == 2) {
            if (ro) { bad("a write to a file connected for reading was sent"); break; }
            if (addr < 1 || nw < 1 || addr + nw - 1 > MAXW || addr > R->n[f] + 1) { bad("a write outside the file was sent", addr, nw); break; }
            std::vector<uint32_t> b(nw); if (!rd(fd, b.data(), nw * 4)) { s->eof = 2; break; }
            for (long i = 0; i < nw; i++) R->w[f][addr - 1 + i] = ntohl(b[i]);
            R->n[f] = std::max(R->n[f], addr + nw - 1);
        } else { s->closed = 1; uint8_t c; if (read(fd, &c, 1) > 0) bad("something was sent after the closing request"); s->eof = 0; break; }
    }
    close(fd); s->done = 1;
}
static int started(const char* cmd) {
    want.called++;
    if (!want.on) { bad("a server was started for a file of this machine"); return -1; }
    char prog[64] = "", addr[64] = "", mode[16] = ""; std::vector<char> name(4096, 0), host(4096, 0), more(8, 0);
    int n = strlen(cmd) < 4000 ? sscanf(cmd, "%63s %4095s %15s %63s %4095s %4s", prog, name.data(), mode, addr, host.data(), more.data()) : 0;
    int port = 0; const char* c = strrchr(addr, ':'); if (c) port = atoi(c + 1);
    if (n != 5 || strcmp(prog, "r.remote_wa_server") || strcmp(name.data(), FILES[want.f].name) || strcmp(host.data(), FILES[want.f].host) || strcmp(mode, want.ro ? "R/O" : "R/W") || port <= 0) { char m[64]; snprintf(m, 64, "wrong command '%s'", cmd); bad(m, n, want.f); return -1; }
    want.port = port; Session* s = now = new Session; auto w = want;
    spawn([w, port, s] { server(w.f, w.ro, w.how, w.delay, w.lag, port, s); });
    return 0;
}

// ---------------------------------------------------------------- an archive, to be opened as a subfile (format 4)
static void be(std::vector<uint8_t>& b, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) b.push_back((uint8_t)(v >> (8 * i))); }
static std::vector<uint8_t> archive() {
    std::vector<uint8_t> b; be(b, 4, 4); be(b, 0, 4); b.push_back(0); const char* s = "CMCARCHS"; b.insert(b.end(), s, s + 8); b.resize(32, 0);
    for (int k = 0; k < 2; k++) { long units = 20 + k * 7, nt = units + 2 + 2; be(b, nt, 4); be(b, units, 4); size_t at = b.size(); b.resize(at + 16, 0); b[at] = 1; b[at + 1] = 'm'; b[at + 2] = '0' + k; for (long i = 0; i < units * 2; i++) be(b, val(900 + k, i), 4); be(b, nt, 4); be(b, units, 4); }
    return b;
}

struct H : Harness {
    std::vector<std::string> props() override { return { "W05" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; p.sched_seed = r.next();
        static const std::vector<double> ps = { 0.3, 0.1, 0.02, 0 }; p.sched_p = r.pick(ps);
        p.cfg["sockbuf"] = r.chance(0.3) ? r.range(64, 6000) : 65536; p.cfg["paged"] = r.chance(0.3); p.cfg["api"] = r.chance(0.3);
        for (int f = 0; f < NF; f++) p.cfg["n" + S(f)] = r.chance(0.3) ? 0 : r.weighted({ 2, 2 }) ? r.range(1, 3000) : r.range(1, 40);
        long tag = 1, nu = r.range(1, 4), n = r.range(10, th ? 70 : 36), left = 26; int fm = r.weighted({ 5, 3, 3 });
        for (long i = 0; i < n; i++) {
            long u = r.below(nu); int k = r.weighted({ i < nu ? 40 : 8, 24, 24, 4, 6, 2, 1 });
            long len = r.weighted({ 4, 4, 2 }); len = len == 0 ? r.range(1, 8) : len == 1 ? r.range(1, 600) : r.range(600, 4000);
            if (k == 0 && left) { left--; long how = r.chance(0.72) ? 0 : r.range(1, 6); p.add("open", { u, r.chance(0.15) ? 100 + r.below(3) : r.below(NF), r.chance(0.25), how, how == 2 ? r.range(5200, 30000) : how == 6 ? r.range(500, 4800) : r.below(3) ? 0 : r.range(1, 400), r.chance(0.2) ? r.range(1, 3000) : 0, r.below(4) }); }
            else if (k == 1) p.add("write", { u, r.weighted({ 4, 5, 1, 1 }), r.below(100000), len, tag++ });
            else if (k == 2) p.add("read", { u, r.weighted({ 2, 6, 2 }), r.below(100000), len });
            else if (k == 3) p.add("size", { u });
            else if (k == 4) p.add("close", { u, r.below(2) });
            else if (k == 5) p.add("flush", { u });
            else p.add("long", { r.range(170, 900) });
        }
        for (long u = 0; u < nu; u++) { p.add("read", { u, 1, 0, 30000 }); p.add("close", { u, 0 }); }
        if (fm) { int m = (int)r.range(1, 3); for (int i = 0; i < m; i++) {
            static const std::vector<int> soft = { F_SSHORTR, F_SSHORTR, F_SSHORTW, F_SEINTR_SEL, F_SDELAY }, hard = { F_SRESET, F_SEOF };
            int k = fm == 2 && !i ? r.pick(hard) : r.pick(soft); std::vector<int> t; for (auto& o : p.ops) if (o.name == "read" || (o.name == "open" && o.A(1) < 100) || (o.name == "write" && k != F_SEOF && k != F_SSHORTR && k != F_SDELAY)) t.push_back(o.id);
            if (!t.empty()) p.faults.push_back({ r.pick(t), (int)r.range(1, k == F_SSHORTR || k == F_SSHORTW ? 2 : 3), k, r.range(1, k == F_SDELAY ? 9000 : 999) }); } }
        return p;
    }
    void setup(const Plan& p) override { Remote* R = rem(); for (int f = 0; f < NF; f++) { R->n[f] = std::min<long>(p.C("n" + S(f)), 4000); for (long i = 0; i < R->n[f]; i++) R->w[f][i] = val(500 + f, i); } auto a = archive(); fs_put("/sim/arc", a.data(), a.size()); }
    struct U { int on = 0, f = -1, ro = 0, arc = 0; }; U un[NU];
    void child_begin(const Plan& p) override {
        signal(SIGPIPE, SIG_IGN); system_hook = started; want = {}; now = nullptr; for (auto& s : sess) s = nullptr; for (auto& u : un) u = U();
        if (p.C("paged")) setenv("WA_CONFIG", "1 2", 1); else unsetenv("WA_CONFIG");
    }
    static int unit(long u) { return 30 + (int)u; }
    bool inuse(long f) { for (auto& u : un) if (u.on && u.f == f) return true; return false; }
    // the server has nothing left to do: it was told that the file is closed, or lost its client
    bool wait_end(Session* s) { for (int i = 0; i < 400 && !s->done; i++) nap(i < 10 ? 20 : 1000); return s->done; }
    void exec(const Plan& p, const Op& o) override {
        long u = o.A(0) % NU; int iun = unit(u); U& x = un[u]; bool ft = p.C("api") && (o.id * 7 + p.seed) % 3 == 0;
        if (o.name == "open") {
            long f = o.A(1); if (x.on || (f < 100 && f >= NF) || inuse(f)) return;
            bool local = f >= 100; static const char* T[] = { "RND+REMOTE", "STD+RND+REMOTE", "rnd+remote", "REMOTE+RND+R/W" }; std::string t = T[o.A(6) & 3], name;
            bool ro = o.A(2); if (ro) t = (o.A(6) & 1) ? "RND+R/O+REMOTE" : "RND+REMOTE+R/O";
            if (local) { name = f == 100 ? "/sim/loc" : f == 101 ? "/sim/arc@m0" : "/sim/arc@m1"; if (f == 100) t = (o.A(6) & 1) ? "RND+REMOTE" : "RND"; else t = "RND"; ro = f != 100; }
            else name = std::string(FILES[f].host) + ":" + FILES[f].name;
            want = { local ? 0 : 1, (int)f, ro, (int)o.A(3) % 7, o.A(4), std::min(o.A(5), 5000l), 0, 0 }; now = nullptr; int files = open_files();
            obs(O_BEGIN, { u, f });
            int e = c_fnom(&iun, name.c_str(), t.c_str(), 0);
            int called = want.called; want.on = 0; bool refused = true;
            if (!local && want.port) { no_faults(true); int fd = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(want.port); a.sin_addr.s_addr = htonl(0x7f000001); refused = connect(fd, (struct sockaddr*)&a, sizeof a) < 0; close(fd); no_faults(false); }
            bool ended = true; if (e && now) ended = wait_end(now);
            int more = open_files() - files - (local && !e ? 1 : 0);
            if (!e) { x.on = 1; x.f = (int)f; x.ro = ro; sess[u] = local ? nullptr : now; }
            int e2 = 0; if (!e && local) { e2 = c_waopen2(iun); if (e2 > 0) e2 = 0; }
            obs(K_OPEN, { u, f, e, e2, called, refused, ended, more, e ? -1 : (ft ? wasize_(&iun) : c_wasize(iun)), ro, local });
        } else if (o.name == "long") {
            // a name of a host longer than any: refused, or sent whole
            want = {}; want.on = 1; want.f = 0; now = nullptr; std::string host(std::min(std::max(o.A(0), 1l), 3000l), 'h'); int l = 77; long before = want.called;
            system_hook = [](const char* c) { want.called++; std::string s(c); size_t k = s.rfind(' '); want.f = (int)(k == std::string::npos ? 0 : s.size() - k - 1); return -1; };
            obs(O_BEGIN, { 99, 0 });
            int e = c_fnom(&l, (host + ":/data/x").c_str(), "RND+REMOTE", 0); system_hook = started; want.on = 0;
            if (!e) bad("a file was connected without a server", (long)host.size()); if (want.called > before && want.f != (int)host.size()) bad("the name of the host was cut", (long)host.size(), want.f);
            want.called = 0; obs(K_FLUSH, { 99, e });
        } else if (!x.on) return;
        else if (o.name == "write") {
            long size = c_wasize(iun), len = std::max(1l, std::min(o.A(3), 4000l)), pos = o.A(1), a = o.A(2), off = pos == 0 ? size + 1 : pos == 1 ? 1 + a % (size + 1) : pos == 2 ? size + 1 + a % 2000 : std::max(1l, size - a % 5); if (off + len + 1 > MAXW) return;
            std::vector<uint32_t> b(len + 1), c; for (long i = 0; i < len; i++) b[i] = val(o.A(4), i); b[len] = 0xfeedbeef; c = b; uint32_t uo = (uint32_t)off; int il = (int)len;
            obs(O_BEGIN, { u, off, len, o.A(4) });
            int n = ft ? wawrit2_(&iun, b.data(), &uo, &il) : c_wawrit2(iun, b.data(), uo, il);
            obs(K_WRITE, { u, off, len, o.A(4), n, c_wasize(iun), b == c });
        } else if (o.name == "read") {
            long size = c_wasize(iun), len = std::max(1l, std::min(o.A(3), (long)MAXW)), pos = o.A(1), a = o.A(2), off = pos == 0 ? 1 : pos == 1 ? 1 + a % (size + 1) : std::max(1l, size - 3 + a % 7); if (o.A(3) >= MAXW) off = 1;
            std::vector<uint32_t> b(len + 2, 0xabababab); uint32_t uo = (uint32_t)off; int il = (int)len;
            obs(O_BEGIN, { u, off, len });
            int n = ft ? waread2_(&iun, b.data(), &uo, &il) : c_waread2(iun, b.data(), uo, il);
            obs(K_READ, { u, off, len, n, blob(b.data(), b.size() * 4) });
        } else if (o.name == "size") obs(K_SIZE, { u, ft ? wasize_(&iun) : c_wasize(iun), c_numblks(iun) });
        else if (o.name == "flush") { obs(O_BEGIN, { u }); int e = c_waflush(iun); obs(K_FLUSH, { u, e }); }
        else if (o.name == "close") {
            obs(O_BEGIN, { u });
            int e = 0, e2; if (o.A(1)) e = ft ? waclos2_(&iun) : c_waclos2(iun);
            e2 = ft ? fclos_(&iun) : c_fclos(iun);
            bool ended = true; int closed = 1, eof = 0; if (sess[u]) { ended = wait_end(sess[u]); closed = sess[u]->closed; eof = sess[u]->eof; }
            obs(K_CLOSE, { u, e, e2, ended, closed, eof }); file(x.f);
            x = U(); sess[u] = nullptr;
        }
    }
    void file(long f) { if (f < 0 || f >= NF) return; Remote* R = rem(); long n = std::min<long>(R->n[f], MAXW); obs(K_FILE, { f, n, blob(R->w[f], n * 4) }); }
    void child_end(const Plan& p) override { set_op(-9); no_faults(true); for (int u = 0; u < NU; u++) if (un[u].on) { Session* s = sess[u]; c_fclos(unit(u)); if (s) wait_end(s); } for (int f = 0; f < NF; f++) file(f); }
    void oracle(const Plan& p, Result& r) override {
        struct W { uint32_t v = 0; std::vector<uint32_t> alt; }; struct F { std::vector<W> w; long lo = 0; /* it has at least that many words */ std::vector<int> by; };
        F fs[NF + 1]; struct X { bool on = false, broken = false; long f = 0; bool ro = false; }; X xs[NU]; int inc = 0;
        for (int f = 0; f < NF; f++) { fs[f].w.resize(std::min<long>(p.C("n" + S(f)), 4000)); for (size_t i = 0; i < fs[f].w.size(); i++) fs[f].w[i].v = val(500 + f, i); fs[f].lo = (long)fs[f].w.size(); }
        std::map<int, const Obs*> pend;
        auto hit = [&](int op, bool hard) { for (auto& f : p.faults) if (f.op == op && (!hard || f.kind == F_SRESET || f.kind == F_SEOF)) return true; return false; };
        auto apply = [&](F& f, long off, long len, long tag) {
            long old = (long)f.w.size(); if (off + len - 1 > old) f.w.resize(off + len - 1);
            for (long i = 0; i < len; i++) { W& w = f.w[off - 1 + i]; w.alt.push_back(w.v); w.v = val(tag, i); }
        };
        auto settle = [&](F& f) { for (auto& w : f.w) w.alt.clear(); f.lo = (long)f.w.size(); };
        bool loc = true; // what the file of this machine holds is known: an ended process may have left modified pages unwritten
        auto gone = [&]() { for (auto& x : xs) { if (x.on && x.f == 100) loc = false; x.on = false; x.broken = false; } };
        // a write is not acknowledged: after a lost connection the server may or may not have received it
        bool unsure = false; for (auto& f : p.faults) if (f.kind == F_SRESET || f.kind == F_SEOF) unsure = true;
        for (size_t i = 0; i < r.hist.size(); i++) {
            const Obs& o = r.hist[i]; std::string at = " (op " + S(o.op) + ", unit " + S(o.v[0]) + ")";
            if (o.inc != inc) { inc = o.inc; gone(); }
            switch (o.kind) {
                case O_BEGIN: pend[o.op] = &r.hist[i]; continue;
                case O_SIGNAL: r.violate("signal", std::string("process killed by a signal: ") + o.s); return;
                case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress"); return;
                case O_HEAP: r.violate("heap", o.s); return;
                case O_EXIT: {
                    auto b = pend.find(o.op); const Op* op = nullptr; for (auto& q : p.ops) if (q.id == o.op) op = &q;
                    bool broken = op && b != pend.end() && b->second->v[0] < NU && xs[b->second->v[0]].broken;
                    if (!op || !(hit(o.op, true) || broken) || (op->name != "read" && op->name != "write")) { r.violate("unexpected-exit", "the library ended the process without a lost connection, op " + S(o.op)); return; }
                    if (op->name == "write") { X& x = xs[b->second->v[0]]; if (x.on && x.f < NF) apply(fs[x.f], b->second->v[1], b->second->v[2], b->second->v[3]); }
                    gone(); continue;
                }
                case O_CRASH: case O_DONE: continue;
                case K_BAD: r.violate(o.s, std::string(o.s) + " " + S(o.v[0]) + " " + S(o.v[1]) + " (op " + S(o.op) + ")"); return;
            }
            switch (o.kind) {
                case K_OPEN: {
                    const Op* op = nullptr; for (auto& q : p.ops) if (q.id == o.op) op = &q; if (!op) continue;
                    bool local = o.v[10], ok = o.v[2] == 0 && o.v[3] == 0; int how = local ? 0 : (int)(op->A(3) % 7); bool fail = how >= 1 && how <= 5;
                    if (local ? o.v[4] != 0 : o.v[4] != 1) { r.violate("server", "the server was started " + S(o.v[4]) + " times" + at); return; }
                    if (!o.v[5]) { r.violate("still-listening", "the library still waits for a connection after the file was connected or refused" + at); return; }
                    if (!o.v[6]) { r.violate("connection-left", "the connection of a file that was refused stays open" + at); return; }
                    if (o.v[7]) { r.violate("descriptors", S(o.v[7]) + " more descriptors are open after connecting a file" + at); return; }
                    if (ok && fail) { r.violate("refused-expected", "a file was connected to a server that fails (" + S(how) + ")" + at); return; }
                    if (!ok && !fail && !hit(o.op, true)) { r.violate("open-failed", "a file whose server answers was refused" + at); return; }
                    if (!ok) break;
                    X& x = xs[o.v[0]]; x = X(); x.on = true; x.f = o.v[1]; x.ro = o.v[9];
                    if (hit(o.op, true)) { x.broken = true; }
                    if (x.f < NF) { F& f = fs[x.f]; long sz = o.v[8]; if (sz < f.lo || sz > (long)f.w.size()) { r.violate("size", "the size is " + S(sz) + ", expected " + S(f.lo) + (f.lo == (long)f.w.size() ? "" : " to " + S(f.w.size())) + at); return; }
                        while ((long)f.w.size() > sz) f.w.pop_back(); f.lo = sz; }
                    else if (x.f == 100 && loc) { F& f = fs[NF]; if (o.v[8] != (long)f.w.size()) { r.violate("size", "the size of a file of this machine is " + S(o.v[8]) + ", expected " + S(f.w.size()) + at); return; } }
                    break;
                }
                case K_WRITE: {
                    X& x = xs[o.v[0]]; if (!x.on || (x.f == 100 && !loc)) break; if (!o.v[6]) { r.violate("caller-buffer", "the caller's buffer changed" + at); return; }
                    if (x.ro) { if (o.v[4] >= 0) { r.violate("read-only", "a write to a file connected for reading returned " + S(o.v[4]) + at); return; } break; }
                    if (o.v[4] != o.v[2]) { r.violate("write-count", "a write of " + S(o.v[2]) + " words returned " + S(o.v[4]) + at); return; }
                    F& f = x.f < NF ? fs[x.f] : fs[NF]; apply(f, o.v[1], o.v[2], o.v[3]);
                    if (x.f >= NF) settle(f);
                    if (hit(o.op, true)) x.broken = true;
                    if (o.v[5] != (long)f.w.size()) { r.violate("size", "the size after a write is " + S(o.v[5]) + ", expected " + S(f.w.size()) + at); return; }
                    break;
                }
                case K_READ: {
                    X& x = xs[o.v[0]]; if (!x.on || (x.f == 100 && !loc)) break; long off = o.v[1], len = o.v[2], n = o.v[3]; const uint32_t* b = (const uint32_t*)blob_at(o.v[4]); F a; F* f;
                    if (x.f > 100) { a.w.resize((20 + (x.f - 101) * 7) * 2); for (size_t k = 0; k < a.w.size(); k++) a.w[k].v = val(900 + x.f - 101, k); f = &a; } else f = x.f < NF ? &fs[x.f] : &fs[NF];
                    long sz = (long)f->w.size(), exp = off > sz + 2 ? -2 : sz == 0 ? 0 : std::max(0l, std::min(len, sz - off + 1));
                    if (n != exp) { r.violate("read-count", "a read of " + S(len) + " words at " + S(off) + " returned " + S(n) + ", expected " + S(exp) + ", size " + S(sz) + at); return; }
                    for (long k = 0; k < n; k++) { W& w = f->w[off - 1 + k]; if (b[k] == w.v) { w.alt.clear(); continue; } if (std::find(w.alt.begin(), w.alt.end(), b[k]) != w.alt.end() && unsure) { w.v = b[k]; w.alt.clear(); continue; }
                        char m[160]; snprintf(m, 160, "word %ld reads 0x%08x, expected 0x%08x%s", off + k, b[k], w.v, at.c_str()); r.violate("wrong-data", m); return; }
                    for (long k = std::max(0l, n); k < len + 2; k++) if (b[k] != 0xabababab) { r.violate("read-overrun", "words beyond the returned count were changed" + at); return; }
                    if (n > 0 && hit(o.op, true)) x.broken = true;
                    break;
                }
                case K_SIZE: { X& x = xs[o.v[0]]; if (!x.on || (x.f == 100 && !loc)) break; long sz = x.f > 100 ? (20 + (x.f - 101) * 7) * 2 : x.f < NF ? (long)fs[x.f].w.size() : (long)fs[NF].w.size(); if (o.v[1] != sz || o.v[2] != (sz + 255) / 256) { r.violate("size", "size query returned " + S(o.v[1]) + " words, " + S(o.v[2]) + " blocks; expected " + S(sz) + at); return; } break; }
                case K_FLUSH: if (o.v[0] < NU && o.v[1]) { r.violate("flush", "flushing returned " + S(o.v[1]) + at); return; } break;
                case K_CLOSE: {
                    X& x = xs[o.v[0]]; if (!x.on) break;
                    if (!x.broken && !hit(o.op, true)) { if (o.v[1] || o.v[2]) { r.violate("close-failed", "closing returned " + S(o.v[1]) + ", " + S(o.v[2]) + at); return; } if (!o.v[4] || o.v[5]) { r.violate("close", "the server was not told that the file is closed" + at); return; } }
                    if (!o.v[3]) { r.violate("connection-left", "the connection stays open after the file is closed" + at); return; }
                    x.on = false; break;
                }
                case K_FILE: {
                    F& f = fs[o.v[0]]; const uint32_t* b = (const uint32_t*)blob_at(o.v[2]); long sz = (long)f.w.size(); bool un = unsure;
                    if (un ? o.v[1] < f.lo || o.v[1] > sz : o.v[1] != sz) { r.violate("size", "the file on the other machine has " + S(o.v[1]) + " words, expected " + S(sz) + " (op " + S(o.op) + ")"); return; }
                    for (long k = 0; k < o.v[1]; k++) { W& w = f.w[k]; if (b[k] == w.v || (un && std::find(w.alt.begin(), w.alt.end(), b[k]) != w.alt.end())) { w.v = b[k]; w.alt.clear(); continue; } char m[160]; snprintf(m, 160, "word %ld of the file on the other machine is 0x%08x, expected 0x%08x (op %d)", k + 1, b[k], w.v, o.op); r.violate("wrong-data", m); return; }
                    f.w.resize(o.v[1]); f.lo = o.v[1]; break;
                }
            }
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { int w = 0, rd = 0; for (auto& o : r.hist) { if (o.kind == K_WRITE && o.v[4] > 0) w++; if (o.kind == K_READ && o.v[3] > 0) rd++; } return w >= 1 && rd >= 1; }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
