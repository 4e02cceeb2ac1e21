// Thread helpers (f90_threads.c) and the gossip client table (gossip_thread.c).
#include "sim.h"
#include <pthread.h>
#include <algorithm>
extern "C" {
// f90_threads.c has no header
typedef struct event event;
pthread_mutex_t* c_create_lock(); int c_destroy_lock(pthread_mutex_t*); int c_acquire_lock(pthread_mutex_t*); int c_release_lock(pthread_mutex_t*);
int create_lock_(pthread_mutex_t**); int destroy_lock_(pthread_mutex_t**); int acquire_lock_(pthread_mutex_t**); int release_lock_(pthread_mutex_t**);
event* c_create_event(); int c_post_event(event*, int); int c_check_event(event*); int c_wait_event(event*, int); int c_destroy_event(event*);
int create_event_(event**); int post_event_(event**, int*); int check_event_(event**); int wait_event_(event**, int*); int destroy_event_(event**);
int c_create_thread(void* (*)(void*), void*); int c_join_thread(int); int c_id_thread();
int create_thread_(void* (*)(void*), void*); int join_thread_(int*); int id_thread_();
#include "rmn/gossip.h"
int exit_from_client(int);
int is_exit_requested();
}
using namespace sim;
enum { K_BAD = O_USER, K_SUM, K_JOIN, K_CLIENT, K_COUNT, K_STARTED };

static const Plan* PL;
struct TArg { int t; int done; int got_id; };

// ------------------------------------------------------------------ T01
static pthread_mutex_t* locks_[8]; static int inside_[8]; static long counter_[8];
static event* ev_[8]; static event* pair_[8]; static TArg* targ_; static int nthr_;
static void bad(const char* what, long a = 0, long b = 0) { obs(K_BAD, { a, b }, what); }
static void acq(const Plan& p, int l) { int e = p.C("ftn") ? acquire_lock_(&locks_[l]) : c_acquire_lock(locks_[l]); if (e) bad("acquire_lock failed", l, e); }
static void rel(const Plan& p, int l) { int e = p.C("ftn") ? release_lock_(&locks_[l]) : c_release_lock(locks_[l]); if (e) bad("release_lock failed", l, e); }
static void crit(int l, long n) {
    for (long i = 0; i < n; i++) {
        if (inside_[l]) bad("two threads hold the same lock", l);
        inside_[l] = 1; long v = counter_[l]; step_point(); step_point(); counter_[l] = v + 1; step_point(); inside_[l] = 0;
    }
}
static int post(const Plan& p, event* e, int v) { int r = p.C("ftn") ? post_event_(&e, &v) : c_post_event(e, v); if (r != v) bad("post_event result", v, r); return r; }
static void wait(const Plan& p, event* e, int v, bool fin) {
    int r = p.C("ftn") ? wait_event_(&e, &v) : c_wait_event(e, v); if (r != v) bad("wait_event result", v, r);
    if (fin) { int c = p.C("ftn") ? check_event_(&e) : c_check_event(e); if (c != v) bad("wait_event returned before the event had the value", v, c); }
}
static void* worker(void* a) {
    TArg* ta = (TArg*)a; const Plan& p = *PL; int t = ta->t;
    ta->got_id = p.C("ftn") ? id_thread_() : c_id_thread();
    for (auto& o : p.ops) {
        if (o.name == "crit" && o.A(0) == t) { set_op(o.id); int l = o.A(1); acq(p, l); crit(l, o.A(2)); rel(p, l); }
        else if (o.name == "nest" && o.A(0) == t) { set_op(o.id); int l = std::min(o.A(1), o.A(2)), m = std::max(o.A(1), o.A(2)); if (l == m) continue; acq(p, l); crit(l, 1); acq(p, m); crit(m, 1); if (o.A(3)) { rel(p, l); crit(m, 1); rel(p, m); } else { rel(p, m); crit(l, 1); rel(p, l); } }
        else if (o.name == "posts" && o.A(0) == t) { set_op(o.id); for (int v = 1; v <= o.A(2); v++) { post(p, ev_[o.A(1)], v); } }
        else if (o.name == "wait" && (o.A(3) >> t & 1)) {
            set_op(o.id); long fin = 0; for (auto& q : p.ops) { if (q.id == o.id) break; if (q.name == "posts" && q.A(1) == o.A(1)) fin = q.A(2); }
            if (fin) wait(p, ev_[o.A(1)], (int)fin, true);
        } else if (o.name == "pair" && (t == o.A(0) || t == o.A(1)) && o.A(0) != o.A(1)) {
            set_op(o.id); event *a1 = pair_[2 * o.A(3)], *b1 = pair_[2 * o.A(3) + 1]; int base = (int)o.id * 100;
            for (int i = 1; i <= o.A(2); i++) { if (t == o.A(0)) { post(p, a1, base + i); wait(p, b1, base + i, false); } else { wait(p, a1, base + i, false); post(p, b1, base + i); } }
        }
    }
    ta->done = 1;
    return nullptr;
}
// ------------------------------------------------------------------ G03
struct CData { int uid, pid, sock; char cmd[40]; long stay; int serial; int how; };
static std::vector<CData>& cds = *new std::vector<CData>; static std::map<void*, int>& liveslot = *new std::map<void*, int>; static std::map<int, int>& liveid = *new std::map<int, int>;
static int served_, ended_, gate_; static int finished_acc;
static void user_server() {}
static void client_fn(extendedClientSlot* s) {
    // what the slot holds is only known through the data pointer the acceptor passed
    CData* d = (CData*)s->data;
    bool known = false; for (auto& c : cds) if (&c == d) known = true;
    if (!known) { bad("the client's slot holds no valid data pointer"); decrement_client_count(); exit_from_client_thread(s); }
    set_op(d->serial >> 8);
    auto chk = [&](const char* when) {
        if (s->uid != d->uid || s->pid != d->pid || s->socket != d->sock || s->data != d || !s->command || strcmp(s->command, d->cmd) || (void*)s->user_function != (void*)user_server || s->client_id == 0)
            bad("a live client's slot does not hold what it was started with", d->serial, s->uid);
    };
    if (liveslot.count(s)) bad("two live clients share a slot", d->serial, liveslot[s]);
    liveslot[s] = d->serial; chk("start");
    if (liveid.count(s->client_id)) bad("two live clients have the same client id", d->serial, s->client_id);
    int id = s->client_id; liveid[id] = d->serial; served_++;
    for (long i = 0; i < d->stay; i++) { step_point(); chk("middle"); int n = get_client_count(); if (n < 1) bad("fewer clients counted than are running", n); }
    if (d->how & 2) while (!gate_) { struct timespec ts = { 0, 1000000 }; nanosleep(&ts, nullptr); }
    chk("end");
    liveslot.erase(s); liveid.erase(id);
    decrement_client_count(); ended_++;
    if (d->how & 1) { exit_from_client(d->sock); bad("exit_from_client did not find the client", d->serial); }
    exit_from_client_thread(s);
}

struct H : Harness {
    std::vector<std::string> props() override { return { "T01", "G03" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; p.sched_seed = r.next();
        static const std::vector<double> ps = { 0.5, 0.3, 0.15, 0.05, 0.02 };
        p.sched_p = r.pick(ps);
        if (prop == "T01") {
            p.cfg["ftn"] = r.chance(0.5); long nt = p.cfg["nt"] = r.range(2, th ? 8 : 5); p.cfg["two"] = r.chance(0.25);
            long n = r.range(3, th ? 30 : 16); std::set<long> used; long np = 0;
            for (long i = 0; i < n; i++) switch (r.weighted({ 8, 4, 3, 3, 4 })) {
                case 0: p.add("crit", { r.below(nt), r.below(3), r.range(1, 4) }); break;
                case 1: p.add("nest", { r.below(nt), r.below(4), r.below(4), r.below(2) }); break;
                case 2: { long e = r.below(8); if (used.insert(e).second) p.add("posts", { r.below(nt), e, r.range(1, 4) }); break; }
                case 3: { if (used.empty()) break; std::vector<long> u(used.begin(), used.end()); p.add("wait", { 0, r.pick(u), 0, r.range(1, (1 << nt) - 1) }); break; }
                default: if (np < 4) p.add("pair", { r.below(nt), r.below(nt), r.range(1, 4), np++ });
            }
            p.add("go");
            if (r.chance(0.1)) p.faults.push_back({ (int)p.ops.size() - 1, (int)r.range(1, nt), F_ETHREAD, 1 });
        } else {
            long na = p.cfg["na"] = r.weighted({ 3, 3, 1 }) + 1; bool full = r.chance(th ? 0.05 : 0.02); p.cfg["full"] = full; p.cfg["waves"] = r.range(1, 3);
            long n = full ? r.range(129, 140) : r.range(2, th ? 30 : 14); if (full) p.sched_p = 0.01;
            p.cfg["exitby"] = r.chance(0.4);
            for (long i = 0; i < n; i++) p.add("client", { r.below(na), r.range(1, 60000), r.range(1, 60000), full ? 0 : r.range(0, 12), full ? 2 : p.C("exitby") ? r.below(2) : 0, r.below(p.C("waves")), r.range(1, 30) });
            p.add("go");
            if (!full && r.chance(0.15)) p.faults.push_back({ (int)r.below(n), 1, F_ETHREAD, 1 });
        }
        return p;
    }
    void child_begin(const Plan& p) override { PL = &p; }
    void exec(const Plan& p, const Op& o) override {
        if (o.name != "go") return;
        if (p.prop == "T01") {
            for (int i = 0; i < 4; i++) { if (p.C("ftn")) { if (create_lock_(&locks_[i])) bad("create_lock failed"); } else locks_[i] = c_create_lock(); counter_[i] = inside_[i] = 0; }
            for (auto E : { ev_, pair_ }) for (int i = 0; i < 8; i++) { if (p.C("ftn")) { if (create_event_(&E[i])) bad("create_event failed"); } else E[i] = c_create_event(); }
            int nt = (int)p.C("nt"); targ_ = new TArg[nt]; std::vector<int> id(nt); bool refused = false;
            int k = 0;
            for (; k < nt; k++) { targ_[k] = { k, 0, 0 }; }
            for (k = 0; k < nt; k++) { id[k] = p.C("ftn") ? create_thread_(worker, &targ_[k]) : c_create_thread(worker, &targ_[k]); if (id[k] == -1) { refused = true; break; } }
            if (refused) {
                // a thread could not be created: its work is done here, in its place
                obs(K_STARTED, { k }); if (!faults_fired()) bad("create_thread failed");
                for (int j = k; j < nt; j++) { id[j] = p.C("ftn") ? create_thread_(worker, &targ_[j]) : c_create_thread(worker, &targ_[j]); if (id[j] == -1) bad("create_thread failed again"); }
            }
            for (int j = nt - 1; j >= 0; j--) { int i = p.C("two") ? nt - 1 - j : j; int e = p.C("ftn") ? join_thread_(&id[i]) : c_join_thread(id[i]); obs(K_JOIN, { i, e, targ_[i].done, targ_[i].got_id == id[i] }); }
            for (int i = 0; i < 4; i++) { obs(K_SUM, { i, counter_[i] }); int e = p.C("ftn") ? destroy_lock_(&locks_[i]) : c_destroy_lock(locks_[i]); if (e) bad("destroy_lock failed"); }
            for (auto E : { ev_, pair_ }) for (int i = 0; i < 8; i++) { int e = p.C("ftn") ? destroy_event_(&E[i]) : c_destroy_event(E[i]); if (e) bad("destroy_event failed"); }
        } else {
            int n = 0; for (auto& q : p.ops) if (q.name == "client") n++; cds.resize(n); served_ = ended_ = gate_ = finished_acc = 0;
            int started = 0;
            for (long w = 0; w < std::max(1l, p.C("waves")); w++) {
                finished_acc = 0;
                for (int a = 0; a < p.C("na"); a++) spawn([&, a, w] {
                    int i = -1;
                    for (auto& q : p.ops) { if (q.name != "client") continue; i++; if (q.A(0) != a || q.A(5) != w) continue; set_op(q.id);
                        CData& c = cds[i]; c.uid = (int)q.A(1); c.pid = (int)q.A(2); c.sock = 1000 + i; c.stay = q.A(3); c.how = (int)q.A(4); c.serial = q.id << 8; 
                        std::string cmd(q.A(6), 'a' + i % 26); cmd = "EXEC " + cmd; char* h = strdup(cmd.substr(0, 39).c_str()); strcpy(c.cmd, h);
                        start_client_thread_2(client_fn, c.uid, c.pid, c.sock, h, &c, user_server);
                        memset(h, 'X', strlen(h)); free(h); started++; }
                    finished_acc++;
                });
                // the table is full at the end of the only wave: let the clients go
                if (p.C("full")) { struct timespec ts = { 0, 5000000 }; while (finished_acc < p.C("na")) nanosleep(&ts, nullptr); nanosleep(&ts, nullptr); gate_ = 1; }
                join_all();
                obs(K_COUNT, { w, get_client_count(), started, served_, ended_ });
            }
        }
    }
    void oracle(const Plan& p, Result& r) override {
        bool go = false; for (auto& o : p.ops) if (o.name == "go") go = true; if (!go) return;
        long want[4] = {}; int joins = 0;
        for (auto& o : p.ops) { if (o.name == "crit") want[o.A(1)] += o.A(2); else if (o.name == "nest") { long l = std::min(o.A(1), o.A(2)), m = std::max(o.A(1), o.A(2)); if (l == m) continue; want[l]++; want[m]++; if (o.A(3)) want[m]++; else want[l]++; } }
        bool done = false;
        for (auto& o : r.hist) switch (o.kind) {
            case O_SIGNAL: r.violate("signal", std::string("killed by a signal: ") + o.s); return;
            case O_HANG: r.violate("hang", "no progress"); return;
            case O_DEADLOCK: r.violate("deadlock", "threads wait for ever"); return;
            case O_UNINIT_MUTEX: r.violate("uninit-mutex", "a lock was used before it was initialised"); return;
            case O_BADJOIN: r.violate("join", "a thread that was created cannot be joined"); return;
            case O_HEAP: r.violate("heap", o.s); return;
            case O_EXIT: r.violate("exit", "the library ended the process"); return;
            case K_BAD: r.violate("invariant", std::string(o.s) + " (" + std::to_string(o.v[0]) + ", " + std::to_string(o.v[1]) + ")"); return;
            case K_JOIN: joins++; if (o.v[1]) { r.violate("join", "join_thread failed for thread " + std::to_string(o.v[0])); return; } if (!o.v[2]) { r.violate("join", "join_thread returned before the thread had ended"); return; } if (!o.v[3]) { r.violate("thread-id", "a thread's own id differs from the one its creator was given"); return; } break;
            case K_SUM: if (o.v[1] != want[o.v[0]]) { r.violate("lost-update", "lock " + std::to_string(o.v[0]) + ": " + std::to_string(o.v[1]) + " updates of " + std::to_string(want[o.v[0]]) + " survived"); return; } break;
            case K_COUNT: {
                int fired = 0; for (auto& f : p.faults) if (f.kind == F_ETHREAD) fired++;
                if (o.v[1] != 0) { r.violate("count", "no client is running but " + std::to_string(o.v[1]) + " are counted"); return; }
                if (o.v[3] != o.v[4]) { r.violate("ended", "clients that ran and ended differ"); return; }
                long want = o.v[2]; if (p.C("full")) want = std::min(want, 128l);
                if (o.v[3] > o.v[2] || o.v[3] < want - fired) { r.violate("served", std::to_string(o.v[2]) + " clients started, " + std::to_string(o.v[3]) + " served"); return; }
                break;
            }
            case O_DONE: done = true; break;
        }
        if (!done) r.violate("no-end", "the run did not end normally");
    }
    bool nontrivial(const Plan& p, const Result& r) override { int n = 0; for (auto& o : r.hist) if (o.kind == K_JOIN || (o.kind == K_COUNT && o.v[3] > 0)) n++; return n > 0; }
};
int main(int argc, char** argv) { H h; return sim::main(argc, argv, h); }
