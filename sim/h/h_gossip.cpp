// Gossip records, streams, channel files and the model gossip interface (gossip_sock.c,
// client_timeout.c, gossip_thread.c, mgilib2.c) over simulated sockets and threads.
#include "sim.h"
#include <sys/socket.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <algorithm>
#include <deque>
extern "C" {
#include "rmn/gossip.h"
void set_stream_timeout(const int, const int); int get_stream_timeout(int);
int store_channel_data(char*, int, char*); int read_data_file(char*, char*, int);
int send_command_to_server(const int, const char* const);
int mgi_init_(const char*, long); int mgi_open_(const int*, const char*, long); int mgi_read_(const int*, void*, const int*, const char*, long);
int mgi_write_(int*, void*, int*, const char*, long); int mgi_clos_(int*); int mgi_term_(); void mgi_set_timeout_(int*, int*); void mgi_set_retry_connect_(int*);
void init_client_table(const int);
}
using namespace sim;
enum { K_BAD = O_USER, K_W, K_R, K_STREAM, K_TO, K_SET, K_GET, K_STORE, K_LOAD, K_MOPEN, K_MW, K_MR, K_END };
static void bad(const char* what, long a = 0, long b = 0) { obs(K_BAD, { a, b }, what); }
static uint8_t pat(long tag, long i) { uint64_t z = (uint64_t)(tag + 1) * 0x9e3779b97f4a7c15ull + (uint64_t)(i + 7) * 0xbf58476d1ce4e5b9ull; z ^= z >> 31; z *= 0x94d049bb133111ebull; return (uint8_t)(z >> 40); }
static void nap(int64_t ms) { if (ms <= 0) return; struct timespec ts = { (time_t)(ms / 1000), (long)(ms % 1000) * 1000000 }; nanosleep(&ts, nullptr); }
static bool is_io(int k) { return k >= F_SSHORTR && k <= F_SEOF; }

// ------------------------------------------------------------------ G01
// one pair of threads per channel; both walk the operations of the channel in order
static bool refused(const Op& o) { long n = o.A(2); return n == 0 || (o.A(4) == 3 && o.A(5) != 0) || (o.A(4) == 4 && std::max(1l, n - o.A(5)) < n); }
// a lost connection may look like a refusal; what follows on such a channel means nothing
static bool cut(const Plan& p, const Op& o) { for (auto& f : p.faults) if (f.op == o.id && (f.kind == F_SEOF || f.kind == F_SRESET)) return true; return false; }
static void rec_side(const Plan& p, long chan, int side, int fd) {
    for (auto& o : p.ops) {
        if (o.name != "rec" || o.A(0) != chan) continue;
        set_op(o.id);
        bool wr = o.A(1) == side; int n = (int)o.A(2), tok = (int)o.A(3); long nb = (long)n * tok;
        if (wr) {
            std::vector<uint8_t> b(nb + 16); for (long i = 0; i < nb; i++) b[i] = pat(o.id, i); for (int i = 0; i < 16; i++) b[nb + i] = 0xe7; std::vector<uint8_t> c = b;
            nap(o.A(6));
            int e = write_record(fd, b.data(), n, tok);
            obs(K_W, { chan, e, b == c });
            // a record refused by the reader leaves the channel in use, a transport error does not
            if (e && (!refused(o) || cut(p, o))) { close(fd); return; }
        } else {
            int mode = (int)o.A(4); // 0 any length into a new buffer, 1 exact, 2 maximum, 3 wrong exact, 4 too small maximum, 5 unspecified length into the caller's buffer
            int len = mode == 1 ? n : mode == 3 ? n + (int)o.A(5) : 0, max = mode == 1 || mode == 3 ? std::max(n, len) : mode == 2 ? n + (int)o.A(5) : mode == 4 ? std::max(1, n - (int)o.A(5)) : 0;
            std::vector<uint8_t> b; if (mode != 0 || o.A(5) % 2) { b.assign((size_t)std::max<long>(nb, (long)max * tok) + 16, 0xe7); }
            bool own = b.empty();
            void* q = read_record(fd, own ? nullptr : b.data(), &len, max, tok);
            bool same = true, over = false;
            if (q) { if (!own && q != b.data()) bad("read_record returned another buffer"); const uint8_t* u = (uint8_t*)q; for (long i = 0; i < nb && (long)len * tok >= nb; i++) if (u[i] != pat(o.id, i)) same = false; }
            if (!own) for (size_t i = std::min<size_t>(q ? nb : (mode == 4 ? (size_t)max * tok : b.size() - 16), b.size() - 16); i < b.size(); i++) if (b[i] != 0xe7) over = true;
            obs(K_R, { chan, q != nullptr, len, same, over, mode });
            if (own && q) free(q);
            if (!q && (!refused(o) || cut(p, o))) { close(fd); return; }
        }
    }
    close(fd);
}

// ------------------------------------------------------------------ N01: a small gossip server
struct Rec { std::vector<uint8_t> d; };
static std::map<std::string, std::deque<Rec>>& chans = *new std::map<std::string, std::deque<Rec>>;
static int srv_fd, srv_stop, srv_clients; static long delay_ms, srv_got, nack_every, srv_writes, srv_nacked;
static int readcmd(int fd, std::string& buf, std::function<bool(const std::string&)> complete) {
    buf.clear();
    for (;;) { char b[256]; ssize_t n = read(fd, b, sizeof b); if (n < 0 && errno == EINTR) continue; if (n <= 0) return -1; buf.append(b, n); if (complete(buf)) return 0; }
}
static void serve(extendedClientSlot* s) {
    int fd = s->socket; set_op(-7); std::string c; bool ok = true;
    auto two = [](const std::string& b) { return std::count(b.begin(), b.end(), ':') >= 2; };
    auto fin = [](const std::string& b) { if (b.compare(0, 4, "EXEC") == 0 || b.compare(0, 3, "END") == 0) { size_t k = b.find("#"); return k != std::string::npos || b == "END"; } return b == "READ" || b == "WRITE"; };
    if (readcmd(fd, c, two) || c.compare(0, 6, "LOGIN ")) ok = false; else send_ack_nack(fd, 0);
    if (ok && readcmd(fd, c, fin)) ok = false;
    if (ok) {
        if (c.compare(0, 3, "END") == 0) { send_ack_nack(fd, 0); }
        else {
            char mode[16] = "", name[64] = ""; sscanf(c.c_str(), "EXEC %15s %63s", mode, name); send_ack_nack(fd, 0);
            while (!readcmd(fd, c, fin)) {
                if (c == "WRITE" && !strcmp(mode, "write")) {
                    send_ack_nack(fd, 0); int len = 0; nap(delay_ms); void* q = read_record(fd, nullptr, &len, 0, 1);
                    if (!q) break;
                    Rec r; r.d.assign((uint8_t*)q, (uint8_t*)q + len); free(q); if (nack_every && ++srv_writes % nack_every == 0) { srv_nacked++; send_ack_nack(fd, 1); continue; } chans[name].push_back(r); srv_got++; send_ack_nack(fd, 0);
                } else if (c == "READ" && !strcmp(mode, "read")) {
                    send_ack_nack(fd, 0); while (chans[name].empty() && !srv_stop) nap(10);
                    if (chans[name].empty()) break;
                    nap(delay_ms); Rec r = chans[name].front();
                    if (write_record(fd, r.d.data(), (int)r.d.size(), 1)) { continue; }
                    chans[name].pop_front(); send_ack_nack(fd, 0);
                } else { send_ack_nack(fd, 1); }
            }
        }
    }
    close(fd); decrement_client_count(); srv_clients--; exit_from_client_thread(s);
}
static void server_loop() {
    set_op(-7);
    for (;;) { int c = accept_from_sock(srv_fd); if (srv_stop) { if (c >= 0) close(c); break; } if (c < 0) continue; srv_clients++; char cmd[] = "serve"; start_client_thread_2(serve, 1, 1, c, cmd, nullptr, nullptr); }
}

struct H : Harness {
    std::vector<std::string> props() override { return { "G01", "G02", "G04", "N01" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; p.sched_seed = r.next();
        static const std::vector<double> ps = { 0.3, 0.1, 0.03, 0.01 }; p.sched_p = r.pick(ps);
        static const std::vector<int> soft = { F_SSHORTR, F_SSHORTW, F_SEINTR_R, F_SEINTR_W, F_SDELAY, F_SEINTR_SEL }, hard = { F_SRESET, F_SEOF };
        int fm = r.weighted({ 4, 4, 2 }); // none, tolerable, connection lost
        if (prop == "G01") {
            long nc = p.cfg["nc"] = r.weighted({ 4, 2, 1 }) + 1; p.cfg["sockbuf"] = r.chance(0.3) ? r.range(64, 4000) : 65536;
            long n = r.range(1, th ? 24 : 12);
            for (long i = 0; i < n; i++) {
                static const std::vector<long> toks = { 1, 2, 4, 8 }; long tok = r.pick(toks);
                long len = r.weighted({ 1, 8, 6, 3, 2 }); len = len == 0 ? 0 : len == 1 ? r.range(1, 9) : len == 2 ? r.range(10, 300) : len == 3 ? r.range(120, 1100) : r.range(1000, 6000);
                long mode = r.weighted({ 6, 5, 4, 2, 2, 2 });
                p.add("rec", { r.below(nc), r.below(2), len, tok, mode, r.range(0, 5), r.chance(0.2) ? r.range(1, 5000) : 0 });
            }
            p.add("go");
            if (fm) { int m = (int)r.range(1, 3); for (int i = 0; i < m; i++) { int k = fm == 1 || i ? r.pick(soft) : r.pick(hard); p.faults.push_back({ (int)r.below(n), (int)r.range(1, 4), k, r.range(1, k == F_SDELAY ? 9000 : 999) }); } }
        } else if (prop == "G02") {
            long n = r.range(1, th ? 16 : 9); p.cfg["sockbuf"] = r.chance(0.4) ? r.range(64, 4000) : 65536; p.cfg["nf"] = r.range(1, 4);
            for (long i = 0; i < n; i++) switch (r.weighted({ 6, 4, 5, 1 })) {
                case 0: p.add("xfer", { r.below(4), r.below(2), r.weighted({ 3, 2, 1 }) == 0 ? r.range(1, 60) : r.range(1, 9000), r.chance(0.3) ? r.range(1, 170) * 1000 : 0 }); break;
                case 1: p.add("silent", { r.below(4), r.below(2), r.range(1, 200), r.range(0, 1) }); break;
                case 2: p.add("timeout", { r.below(4), r.below(2), r.weighted({ 2, 3 }) ? r.range(1, 170) : r.range(1, 5), r.chance(0.15) }); break;
                default: p.add("reuse", { r.below(4) });
            }
            p.add("go");
            if (fm) { int m = (int)r.range(1, 2); for (int i = 0; i < m; i++) { int k = fm == 1 ? (r.chance(0.5) ? F_SSHORTR : r.chance(0.5) ? F_SSHORTW : F_SEINTR_SEL) : r.chance(0.5) ? r.pick(hard) : r.pick(soft); if (k == F_SDELAY) k = F_SSHORTR; std::vector<int> t; for (auto& o : p.ops) if (o.name == "xfer" || o.name == "silent") t.push_back(o.id); if (!t.empty()) p.faults.push_back({ r.pick(t), (int)r.range(1, 2), k, r.range(1, 999) }); } }
        } else if (prop == "G04") {
            p.sched_p = 0; long n = r.range(2, th ? 24 : 12);
            for (long i = 0; i < n; i++) switch (r.weighted({ 6, 6, 5, 5, 1 })) {
                case 0: p.add("set", { r.below(3), r.range(1, 255), r.weighted({ 1, 1, 1 }) == 0 ? r.range(1, 99) : r.range(1024, 65535) }); break;
                case 1: p.add("get", { r.below(3) }); break;
                case 2: p.add("store", { r.below(3), r.weighted({ 2, 1 }) == 0 ? r.range(1, 50) : r.range(1, 9000) }); break;
                case 3: p.add("load", { r.below(3) }); break;
                default: p.add("restart");
            }
            for (long i = 0; i < 3; i++) { p.add("get", { i }); p.add("load", { i }); }
            if (fm) { int m = (int)r.range(1, 2); for (int i = 0; i < m; i++) {
                static const std::vector<int> io = { F_SHORTW, F_ENOSPC, F_EIO_W, F_EIO_R, F_SHORTR, F_CRASH, F_TORN, F_TORN, F_EOPEN }; int k = r.pick(io); std::vector<int> t;
                for (auto& o : p.ops) { bool rd = o.name == "get" || o.name == "load", wr = o.name == "set" || o.name == "store"; if ((k == F_EIO_R || k == F_SHORTR) ? rd : (k == F_CRASH || k == F_EOPEN) ? rd || wr : wr) t.push_back(o.id); }
                if (!t.empty()) p.faults.push_back({ r.pick(t), (int)r.range(1, k == F_CRASH ? 4 : 1), k, k == F_EOPEN ? EACCES : r.range(1, 999) }); } }
        } else {
            long n = r.range(2, th ? 24 : 12), nc = p.cfg["nc"] = r.range(1, 3); p.cfg["delay"] = r.chance(0.5) ? r.range(1, 3000) : 0; p.cfg["late"] = r.chance(0.15) ? r.range(1, 45) : 0;
            p.cfg["sockbuf"] = r.chance(0.2) ? r.range(64, 4000) : 65536; p.cfg["srvname"] = r.below(2); p.cfg["nack"] = r.chance(0.2) ? r.range(2, 5) : 0;
            for (long i = 0; i < n; i++) switch (r.weighted({ 8, 8, 1 })) {
                case 0: p.add("mw", { r.below(nc), r.below(4), r.weighted({ 3, 2, 1 }) == 2 ? r.range(300, 4000) : r.range(1, 40) }); break;
                case 1: p.add("mr", { r.below(nc), r.chance(0.1) ? r.range(1, 3) : 0 }); break;
                default: p.add("mclos", { r.below(nc), r.below(2) });
            }
            if (r.chance(0.6)) p.add("mterm"); 
            if (fm) { int m = (int)r.range(1, 2); for (int i = 0; i < m; i++) { int k = fm == 1 ? r.pick(soft) : r.chance(0.3) ? F_CONNREFUSED : r.pick(hard); p.faults.push_back({ (int)r.below(n), (int)r.range(1, 6), k, k == F_CONNREFUSED ? 0 : r.range(1, k == F_SDELAY ? 9000 : 999) }); } }
        }
        return p;
    }
    void setup(const Plan& p) override { fs_mkdir("/sim/.gossip"); fs_mkdir("/sim/.ssh"); fs_put("/sim/.gossip/.Bauth", "424242\n", 7); fs_put("/sim/.ssh/id_rsa.pub", "ssh-rsa AAAA\n", 13); *model() = Model(); }
    struct FM { char cur[64]; int have; int fuzzy; };
    struct Model { int dummy; };
    Model* model() { return (Model*)shared_user(sizeof(Model)); }
    // MGI client state
    int mchan[8][2], mopen[8][2], up;
    void child_begin(const Plan& p) override { signal(SIGPIPE, SIG_IGN); memset(mchan, 0, sizeof mchan); memset(mopen, 0, sizeof mopen); up = 0; if (p.prop != "G04") { extern_sockbuf(p.C("sockbuf", 65536)); } if (p.C("srvname")) setenv("GOSSIPSERVER", "simchan", 1); else unsetenv("GOSSIPSERVER"); }
    static void extern_sockbuf(long n);
    const char* sname(const Plan& p) { return p.C("srvname") ? "simchan" : "mgi"; }
    void start_server(const Plan& p) {
        if (up) return; up = 1; srv_stop = 0; srv_clients = 0; delay_ms = p.C("delay"); nack_every = p.C("nack"); srv_writes = srv_nacked = 0;
        int port = 0; char addr[64]; srv_fd = bind_to_localport(&port, addr, sizeof addr); 
        int e = set_host_and_port(sname(p), addr); if (e || port <= 0) bad("set_host_and_port failed", e, port);
        long late = p.C("late");
        spawn([late] { set_op(-7); nap(late * 1000); listen(srv_fd, 8); server_loop(); });
    }
    static std::string chname(long c) { return "chan" + std::to_string(c) + "#"; }
    bool mgi_ready(const Plan& p, long c, int w) {
        start_server(p);
        if (mchan[c][w] <= 0) { std::string nm = chname(c); mchan[c][w] = mgi_init_(nm.c_str(), (long)nm.size()); if (mchan[c][w] <= 0) { obs(K_MOPEN, { c, w, mchan[c][w], 0 }); return false; } }
        if (!mopen[c][w]) { int e = mgi_open_(&mchan[c][w], w ? "W" : "R", 1); obs(K_MOPEN, { c, w, mchan[c][w], e }); mopen[c][w] = e == mchan[c][w]; }
        return mopen[c][w];
    }
    static const char* dts() { return "IRDC"; }
    static int dsz(int t) { return t == 2 ? 8 : t == 3 ? 1 : 4; }
    struct Sent { long op; int t, n; }; std::deque<Sent> q[8];   // what the client wrote and the server acknowledged, per channel
    void exec(const Plan& p, const Op& o) override {
        if (p.prop == "G01") {
            if (o.name != "go") return; int nc = (int)p.C("nc", 1);
            for (int c = 0; c < nc; c++) { int sv[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, sv); for (int s = 0; s < 2; s++) { int fd = sv[s]; spawn([&p, c, s, fd] { rec_side(p, c, s, fd); }); } }
            join_all(); obs(K_END, {});
        } else if (p.prop == "G02") {
            if (o.name != "go") return; int nf = (int)p.C("nf", 1); static int fd[8][2]; static int to[8][2]; static bool dead[8];
            for (int c = 0; c < nf; c++) { int sv[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, sv); fd[c][0] = sv[0]; fd[c][1] = sv[1]; to[c][0] = to[c][1] = 180; dead[c] = false; }
            for (auto& q : p.ops) {
                long c = q.A(0) % nf; int s = (int)q.A(1) & 1; set_op(q.id); if (dead[c] && q.name != "reuse") continue;
                if (q.name == "timeout") { int v = (int)q.A(2); set_stream_timeout(fd[c][s], q.A(3) ? -v : v); to[c][s] = v; }
                else if (q.name == "reuse") { close(fd[c][0]); close(fd[c][1]); int sv[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, sv); fd[c][0] = sv[0]; fd[c][1] = sv[1]; init_client_table(sv[0]); init_client_table(sv[1]); to[c][0] = to[c][1] = 180; dead[c] = false; }
                else if (q.name == "xfer") {
                    long n = q.A(2); int w = fd[c][s], rd = fd[c][1 - s]; long delay = q.A(3); if (delay >= 1000l * to[c][1 - s]) delay = 0; int id = q.id;
                    static long we, re, t0; static bool same; we = re = -99; same = true; 
                    spawn([=] { set_op(id); std::vector<uint8_t> b(n); for (long i = 0; i < n; i++) b[i] = pat(id, i); nap(delay); we = write_stream(w, (char*)b.data(), (int)n); if (we) shutdown(w, SHUT_WR); });
                    spawn([=] { set_op(id); std::vector<uint8_t> b(n + 8, 0xe7); re = read_stream(rd, (char*)b.data(), (int)n); for (long i = 0; i < n && re == n; i++) if (b[i] != pat(id, i)) same = false; for (int i = 0; i < 8; i++) if (b[n + i] != 0xe7) bad("read_stream wrote past the buffer"); if (re != n) shutdown(rd, SHUT_RD); });
                    join_all(); obs(K_STREAM, { c, n, we, re, same }); if (re != n || we) dead[c] = true;
                } else if (q.name == "silent") {
                    // nobody writes, or nobody reads and the connection is full
                    int f = fd[c][s]; int64_t a = now_ns(); long res; long T = to[c][s];
                    if (q.A(3) == 0) { std::vector<char> b(q.A(2)); res = read_stream(f, b.data(), (int)b.size()); }
                    else { set_op(-7); std::vector<char> b(p.C("sockbuf", 65536) + 1 + q.A(2)); int fl = fcntl(f, F_GETFL); fcntl(f, F_SETFL, fl | O_NONBLOCK); while (write(f, b.data(), b.size()) > 0 || errno == EINTR); fcntl(f, F_SETFL, fl); set_op(q.id); b.resize(q.A(2)); a = now_ns(); res = write_stream(f, b.data(), (int)b.size()); dead[c] = true; }
                    obs(K_TO, { c, q.A(3), T, res, (now_ns() - a) / 1000000, get_stream_timeout(f) });
                }
            }
            obs(K_END, {});
        } else if (p.prop == "G04") {
            static const char* nm[3] = { "mgi", "chan_b", "x" }; long f = o.A(0) % 3;
            if (o.name == "set") { char b[64]; snprintf(b, 64, "10.1.2.%ld:%ld", o.A(1), o.A(2)); obs(O_BEGIN, { f }, b); int e = set_host_and_port(nm[f], b); obs(K_SET, { f, e }, b); }
            else if (o.name == "get") { char* s = get_host_and_port(nm[f]); obs(K_GET, { f, s != nullptr }, s ? s : ""); if (s) free(s); }
            else if (o.name == "store") { std::vector<char> b(o.A(1)); for (size_t i = 0; i < b.size(); i++) b[i] = (char)pat(o.id, i); obs(O_BEGIN, { f, o.A(1) }); int e = store_channel_data(b.data(), (int)b.size(), (char*)nm[f]); obs(K_STORE, { f, e, o.A(1) }); }
            else if (o.name == "load") {
                char fn[80]; snprintf(fn, 80, "mgi_%s_gsave", nm[f]); bool ex = fs_exists(std::string("/sim/") + fn); if (!ex) return;
                int n = get_file_size(fn); std::vector<char> b(std::max(n, 0) + 16, (char)0xe7); char fn2[80]; strcpy(fn2, fn); obs(O_BEGIN, { f });
                int e = read_data_file(fn2, b.data(), n); bool over = false; for (int i = 0; i < 16; i++) if ((uint8_t)b[std::max(n, 0) + i] != 0xe7) over = true;
                char gb[80]; snprintf(gb, 80, "/sim/mgi_%s_gback", nm[f]);
                obs(K_LOAD, { f, n, e, over, blob(b.data(), b.size()), fs_exists(std::string("/sim/") + fn), fs_exists(gb) });
            }
        } else {
            long c = o.A(0);
            if (o.name == "mw") {
                if (!mgi_ready(p, c, 1)) return; int t = (int)o.A(1), n = (int)o.A(2), sz = dsz(t); std::vector<uint8_t> b((size_t)n * sz + 8), k; for (long i = 0; i < n * sz; i++) b[i] = t == 3 ? 'a' + pat(o.id, i) % 26 : pat(o.id, i); k = b; char dt = dts()[t];
                obs(O_BEGIN, { c }); long got0 = srv_got, nack0 = srv_nacked;
                int e = mgi_write_(&mchan[c][1], b.data(), &n, &dt, t == 3 ? n : 1);
                obs(K_MW, { c, t, n, e, b == k, srv_got - got0, srv_nacked - nack0 });
                if (e < 0) { mopen[c][1] = 0; }
            } else if (o.name == "mr") {
                // what is next in the channel, as the server holds it
                start_server(p); std::string nm = chname(c); if (chans[nm].empty() || mchan[c][1] <= 0) return;
                if (!mgi_ready(p, c, 0)) return; if (chans[nm].empty()) return;
                const Sent s = front(p, c); if (s.n == 0) return; int n = s.n, sz = dsz(s.t); if (o.A(1) && n > 1) n = n - 1 > o.A(1) ? n - (int)o.A(1) : n;
                bool wrong = n != s.n; std::vector<uint8_t> b((size_t)n * sz + 16, 0xe7); char dt = dts()[s.t]; size_t left = chans[nm].size();
                obs(O_BEGIN, { c });
                int e = mgi_read_(&mchan[c][0], b.data(), &n, &dt, s.t == 3 ? n : 1); int asked = wrong ? -1 : s.n; bool same = true; for (long i = 0; e >= 0 && i < (long)s.n * sz; i++) { uint8_t w = s.t == 3 ? 'a' + pat(s.op, i) % 26 : pat(s.op, i); if (!wrong && b[i] != w) same = false; }
                bool over = false; for (int i = 0; i < 16; i++) if (b[b.size() - 16 + i] != 0xe7) over = true;
                obs(K_MR, { c, s.t, s.n, e, asked, same, over, (int64_t)left - (int64_t)chans[nm].size() });
                if (e < 0 && !wrong) mopen[c][0] = 0;
            } else if (o.name == "mclos") { int w = (int)o.A(1); if (mchan[c][w] > 0 && mopen[c][w]) { mgi_clos_(&mchan[c][w]); mopen[c][w] = 0; mchan[c][w] = 0; } }
            else if (o.name == "mterm") { mgi_term_(); }
        }
    }
    // the record at the head of a channel: the server holds the bytes, the plan says what they stand for
    Sent front(const Plan& p, long c) {
        auto& d = chans[chname(c)].front().d;
        for (auto& o : p.ops) if (o.name == "mw" && o.A(0) == c) {
            int t = (int)o.A(1), sz = dsz(t); long n = o.A(2); if ((size_t)n * sz != d.size()) continue; bool eq = true;
            for (long i = 0; i < n && eq; i++) for (int k = 0; k < sz; k++) { uint8_t w = t == 3 ? 'a' + pat(o.id, i) % 26 : pat(o.id, i * sz + (sz - 1 - k)); if (d[i * sz + k] != w) { eq = false; break; } }
            if (eq) return { o.id, t, (int)n };
        }
        bad("the server holds a record nobody wrote", c, (long)d.size()); return { 0, 0, 0 };
    }
    void child_end(const Plan& p) override {
        if (p.prop == "N01" && up) { srv_stop = 1; obs(K_END, {}); finish_child(0); }
    }
    void oracle(const Plan& p, Result& r) override {
        std::map<int, const Op*> byid; for (auto& o : p.ops) byid[o.id] = &o;
        auto has = [&](int op, bool hardonly = false) { for (auto& f : p.faults) if (f.op == op && (!hardonly || f.kind == F_SRESET || f.kind == F_SEOF || f.kind == F_CONNREFUSED)) return true; return false; };
        bool anyhard = false, anyeintr = false; for (auto& f : p.faults) { if (f.kind == F_SRESET || f.kind == F_SEOF) anyhard = true; if (f.kind == F_SEINTR_R || f.kind == F_SEINTR_W || f.kind == F_SEINTR_SEL) anyeintr = true; }
        std::map<int, std::pair<int, int>> rec; // G01: op -> writer result, reader result (1 ok, 2 refused)
        std::set<long> broken; bool end = false;
        struct CF { bool known = false; std::string cur; std::set<std::string> maybe; bool unsure = false; }; CF cf[3]; struct DF { bool known = false; long op = -1, n = 0; }; DF df[3];
        std::map<int, const Obs*> pend; int inc = 0;
        std::map<long, std::deque<int>> mq; std::map<long, std::set<int>> mfuzzy; bool mhard = false;
        for (auto& ob : r.hist) {
            const Obs& o = ob;
            switch (o.kind) {
                case O_SIGNAL: r.violate("signal", std::string("killed by a signal: ") + o.s); return;
                case O_HANG: r.violate("hang", "no progress"); return;
                case O_DEADLOCK: r.violate("deadlock", "both ends wait for ever"); return;
                case O_HEAP: r.violate("heap", o.s); return;
                case O_UNINIT_MUTEX: r.violate("mutex", o.s); return;
                case O_EXIT: r.violate("exit", "the library ended the process"); return;
                case K_BAD: r.violate("invariant", std::string(o.s) + " (" + std::to_string(o.v[0]) + ", " + std::to_string(o.v[1]) + ")"); return;
                case O_BEGIN: pend[o.op] = &o; break;
                case O_CRASH: {
                    auto b = pend.find(o.op); if (b == pend.end()) break; std::string n = byid[o.op]->name; long f = b->second->v[0];
                    if (n == "set") { cf[f].maybe.insert(b->second->s); cf[f].unsure = true; } else if (n == "store" || n == "load") df[f].known = false;
                    break;
                }
                case O_DONE: case K_END: end = true; break;
                // ---- G01
                case K_W: {
                    const Op& q = *byid[o.op]; rec[o.op].first = o.v[1] == 0 ? 1 : 2;
                    if (!o.v[2]) { r.violate("buffer-changed", "write_record changed the caller's data (op " + std::to_string(o.op) + ")"); return; }
                    if (o.v[1] == 0 && refused(q)) { r.violate("refused-accepted", "write_record reported success for a record its reader refuses (op " + std::to_string(o.op) + ")"); return; }
                    if (o.v[1] && !refused(q) && !anyhard) { r.violate("write-failed", "write_record failed without a lost connection (op " + std::to_string(o.op) + ")"); return; }
                    break;
                }
                case K_R: {
                    const Op& q = *byid[o.op]; rec[o.op].second = o.v[1] ? 1 : 2;
                    if (o.v[4]) { r.violate("overrun", "read_record wrote beyond the caller's buffer (op " + std::to_string(o.op) + ")"); return; }
                    if (o.v[1] && refused(q)) { r.violate("refused-accepted", "read_record accepted a record of the wrong length (op " + std::to_string(o.op) + ")"); return; }
                    if (o.v[1] && (!o.v[3] || o.v[2] != q.A(2))) { r.violate("data", "read_record delivered other data than was written: length " + std::to_string(o.v[2]) + " of " + std::to_string(q.A(2)) + " (op " + std::to_string(o.op) + ")"); return; }
                    if (!o.v[1] && !refused(q) && !anyhard) { r.violate("read-failed", "read_record failed without a lost connection (op " + std::to_string(o.op) + ")"); return; }
                    break;
                }
                // ---- G02
                case K_STREAM: {
                    bool f = has(o.op); 
                    if (o.v[3] == o.v[1] && !o.v[4]) { r.violate("data", "read_stream delivered other bytes than were written"); return; }
                    bool tol = true; for (auto& x : p.faults) if (x.op == o.op && (x.kind == F_SRESET || x.kind == F_SEOF || x.kind == F_SEINTR_R || x.kind == F_SEINTR_W)) tol = false;
                    if (tol && (o.v[2] || o.v[3] != o.v[1])) { r.violate("transfer-failed", "a transfer failed on a working connection: write_stream " + std::to_string(o.v[2]) + ", read_stream " + std::to_string(o.v[3]) + " of " + std::to_string(o.v[1])); return; }
                    if (o.v[2] == 0 && o.v[3] != o.v[1] && !f) { r.violate("lost", "written but not read"); return; }
                    if (o.v[2] > 0 || o.v[3] > o.v[1]) { r.violate("result", "more bytes reported than asked for"); return; }
                    break;
                }
                case K_TO: {
                    bool f = has(o.op); (void)f;
                    if (o.v[1] == 0 ? o.v[3] > 0 : o.v[3] >= 0) { r.violate("silent-success", "a transfer with a silent peer reported success"); return; }
                    bool soft = false, hard = false; for (auto& x : p.faults) if (x.op == o.op) { if (x.kind == F_SRESET || x.kind == F_SEOF || x.kind == F_SEINTR_R || x.kind == F_SEINTR_W) hard = true; else soft = true; } (void)soft;
                    if (o.v[4] > o.v[2] * 1000 * 3 + 100) { r.violate("timeout-late", "a transfer with a silent peer took " + std::to_string(o.v[4]) + " ms, its timeout is " + std::to_string(o.v[2]) + " s"); return; }
                    if (!hard && o.v[4] < o.v[2] * 1000 - 10) { r.violate("timeout-early", "a transfer with a silent peer was given up after " + std::to_string(o.v[4]) + " ms, its timeout is " + std::to_string(o.v[2]) + " s"); return; }
                    if (o.v[5] != o.v[2]) { r.violate("timeout-value", "the timeout of a stream was set to " + std::to_string(o.v[2]) + " and reads " + std::to_string(o.v[5])); return; }
                    break;
                }
                // ---- G04
                case K_SET: { CF& c = cf[o.v[0]]; if (o.v[1] == 0) { c.known = true; c.cur = o.s; c.maybe.clear(); c.unsure = false; } else { if (!has(o.op)) { r.violate("set-failed", "set_host_and_port failed"); return; } c.unsure = true; c.maybe.insert(o.s); } break; }
                case K_GET: {
                    CF& c = cf[o.v[0]]; bool f = has(o.op);
                    if (!o.v[1]) { if (c.known && !c.unsure && !f) { r.violate("get-failed", "the address of a channel was set and cannot be read"); return; } break; }
                    if (o.v[1] && !(c.known && c.cur == o.s) && !c.maybe.count(o.s)) { r.violate("address", std::string("a channel's address reads ") + o.s + (c.known ? ", it was set to " + c.cur : ", it was never set")); return; }
                    break;
                }
                case K_STORE: { DF& d = df[o.v[0]]; if (o.v[1] == 0) { d.known = true; d.op = o.op; d.n = o.v[2]; } else { if (!has(o.op)) { r.violate("store-failed", "store_channel_data failed"); return; } d.known = false; } break; }
                case K_LOAD: {
                    DF& d = df[o.v[0]]; bool f = has(o.op);
                    if (o.v[3]) { r.violate("overrun", "read_data_file wrote beyond the buffer"); return; }
                    if (!d.known) break;
                    if (o.v[2] < 0) { if (!f) { r.violate("load-failed", "saved channel data cannot be read"); return; } if (!o.v[5]) { r.violate("lost", "saved channel data was not read and is gone"); return; } break; }
                    if (o.v[1] != d.n && !f) { r.violate("size", "saved " + std::to_string(d.n) + " bytes, the file has " + std::to_string(o.v[1])); return; }
                    if (o.v[2] != d.n) { r.violate("load-size", "saved " + std::to_string(d.n) + " bytes, got " + std::to_string(o.v[2])); return; }
                    const uint8_t* b = blob_at(o.v[4]); for (long i = 0; i < d.n; i++) if (b[i] != pat(d.op, i)) { r.violate("data", "saved channel data came back changed at byte " + std::to_string(i)); return; }
                    if (o.v[5] || !o.v[6]) { r.violate("rename", "data that was read was not renamed to the backup name"); return; }
                    d.known = false; break;
                }
                // ---- N01
                case K_MOPEN: if (o.v[2] <= 0 ? true : o.v[3] != o.v[2]) { if (!anyhard && !has(o.op) && p.C("late") < 90) { r.violate("open-failed", "mgi_open failed with a server running: " + std::to_string(o.v[2]) + ", " + std::to_string(o.v[3])); return; } } break;
                case K_MW: {
                    if (!o.v[4]) { r.violate("buffer-changed", "mgi_write changed the caller's data"); return; }
                    if (o.v[3] < 0) { if (!anyhard && o.v[6] == 0) { r.violate("write-failed", "mgi_write failed without a lost connection"); return; } break; }
                    if (o.v[5] != 1) { r.violate("not-received", "mgi_write succeeded and the server received " + std::to_string(o.v[5]) + " records"); return; }
                    break;
                }
                case K_MR: {
                    if (o.v[6]) { r.violate("overrun", "mgi_read wrote beyond the caller's buffer"); return; }
                    if (o.v[4] == -1) { if (o.v[3] >= 0) { r.violate("wrong-length", "mgi_read accepted a record of another length"); return; } if (o.v[7] != 0 && !anyhard) { r.violate("consumed", "a record refused by its reader is gone"); return; } break; }
                    if (o.v[3] < 0) { if (!anyhard) { r.violate("read-failed", "mgi_read failed without a lost connection"); return; } break; }
                    if (o.v[3] != o.v[2] || !o.v[5]) { r.violate("data", "mgi_read returned " + std::to_string(o.v[3]) + " of " + std::to_string(o.v[2]) + " elements, or changed data"); return; }
                    break;
                }
            }
        }
        if (p.prop == "G01" && end) for (auto& kv : rec) if (kv.second.first == 1 && kv.second.second != 1) { r.violate("lost-record", "write_record reported success, the reader did not get the record (op " + std::to_string(kv.first) + ")"); return; }
        bool go = p.prop == "G04" || p.prop == "N01"; for (auto& o : p.ops) if (o.name == "go") go = true;
        if (go && !end) r.violate("no-end", "the run did not end normally");
    }
    bool nontrivial(const Plan& p, const Result& r) override { int n = 0; for (auto& o : r.hist) if ((o.kind == K_R && o.v[1]) || (o.kind == K_STREAM && o.v[3] == o.v[1]) || o.kind == K_TO || (o.kind == K_GET && o.v[1]) || (o.kind == K_LOAD && o.v[2] > 0) || (o.kind == K_MR && o.v[3] > 0) || (o.kind == K_MW && o.v[3] >= 0)) n++; return n > 0; }
};
namespace sim { extern long g_sockbuf; }
void H::extern_sockbuf(long n) { sim::g_sockbuf = n; }
int main(int argc, char** argv) { H h; return sim::main(argc, argv, h); }
