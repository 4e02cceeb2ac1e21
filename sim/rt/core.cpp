// Shared arena, fault table, cooperative thread scheduler, heap checks.
#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <algorithm>
#include <atomic>

namespace sim {
Shared* sh;
uint8_t* fdata;
uint8_t* blobs;
bool g_on = false, g_threads = false;
__thread int t_op = -1, t_noyield = 0, t_nofault = 0, t_id = 0;
const char* fault_names[F_NKINDS] = { "none", "crash", "torn", "eio_w", "enospc", "shortw", "eintr_w", "eio_r", "shortr", "eintr_r", "eopen",
    "sshortr", "sshortw", "seintr_r", "seintr_w", "sreset", "sdelay", "seintr_sel", "seof", "connrefused", "clockjump", "ethread", "enomem", "emeta" };
static int fault_class(int k) {
    switch (k) {
        case F_CRASH: return C_ANY;
        case F_TORN: case F_EIO_W: case F_ENOSPC: case F_SHORTW: case F_EINTR_W: return C_W;
        case F_EIO_R: case F_SHORTR: case F_EINTR_R: return C_R;
        case F_EOPEN: return C_O;
        case F_SSHORTR: case F_SEINTR_R: case F_SEOF: return C_SR;
        case F_SRESET: return C_SR | C_SW;
        case F_SDELAY: return C_SR | C_SEL;
        case F_SSHORTW: case F_SEINTR_W: return C_SW;
        case F_SEINTR_SEL: return C_SEL;
        case F_CONNREFUSED: return C_CONN;
        case F_CLOCKJUMP: return C_CLK;
        case F_ETHREAD: return C_THR;
        case F_ENOMEM: return C_MEM;
        case F_EMETA: return C_M;
    }
    return 0;
}
void mix(uint64_t x) { uint64_t h = sh->hash; for (int i = 0; i < 8; i++) { h ^= (x >> (8 * i)) & 0xff; h *= 0x100000001b3ull; } sh->hash = h; }
void count_sys(int code, long a, long b) { sh->nsys++; mix((uint64_t)code * 1000003u + t_id * 77); mix((uint64_t)a); mix((uint64_t)b); sh->clock += 1000; if (sh->nsys > 400000) { obs(O_HANG, { sh->nsys }, "syscall budget"); _exit(81); } }
// per (thread op, class) counters live in the thread; they restart when the op changes
static __thread int t_last_op = -2;
static __thread int t_cnt[16];
Fault* fault_at(int cls) {
    if (t_nofault || !g_on) return nullptr;
    if (t_op != t_last_op) { t_last_op = t_op; memset(t_cnt, 0, sizeof t_cnt); }
    for (int b = 0; b < 16; b++) if (cls & (1 << b)) t_cnt[b]++;
    for (int i = 0; i < sh->nfaults; i++) {
        auto& e = sh->faults[i];
        if (e.fired || e.f.op != t_op) continue;
        int fc = fault_class(e.f.kind) & cls; if (!fc) continue;
        int cnt = 0; for (int b = 0; b < 16; b++) if (fc & (1 << b)) cnt = std::max(cnt, t_cnt[b]);
        if (cnt != e.f.nth) continue;
        e.fired = 1; e.inc_fired = sh->inc; sh->fired_kind[e.f.kind]++;
        mix(0xfa00 + e.f.kind);
        return &e.f;
    }
    return nullptr;
}
void no_faults(bool on) { t_nofault += on ? 1 : -1; }
void do_crash() { _exit(77); }
void finish_child(int) { _exit(79); }
int incarnation() { return sh->inc; }
void set_op(int id) { t_op = id; }
int faults_fired() { int n = 0; for (int i = 0; i < sh->nfaults; i++) n += sh->faults[i].fired; return n; }
bool in_child() { return g_on; }
void* shared_user(size_t n) { if (n > sizeof sh->user) abort(); return sh->user; }
void obsv(int kind, const std::vector<int64_t>& v, const char* s) {
    if (sh->nobs >= MAXOBS) { sh->obs_over = 1; return; }
    Obs& o = sh->obs[sh->nobs++];
    memset(&o, 0, sizeof o);
    o.op = t_op; o.kind = kind; o.thr = t_id; o.inc = sh->inc;
    mix(0x0b5 + kind); mix(t_op); mix(t_id);
    for (size_t i = 0; i < v.size() && i < 12; i++) { o.v[i] = v[i]; mix((uint64_t)v[i]); }
    if (s) { strncpy(o.s, s, sizeof o.s - 1); for (const char* c = o.s; *c; c++) mix((uint8_t)*c); }
}
void obs(int kind, std::initializer_list<int64_t> v, const char* s) { obsv(kind, std::vector<int64_t>(v), s); }
long blob(const void* p, size_t n) {
    if (sh->nblob + (long)n > BLOBCAP) { sh->obs_over = 1; return 0; }
    long o = sh->nblob; memcpy(blobs + o, p, n); sh->nblob += (n + 7) & ~7l;
    uint64_t h = 1469598103934665603ull; const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; } mix(h);
    return o;
}
const uint8_t* blob_at(long off) { return blobs + off; }
void probe(const char* name) {
    for (int i = 0; i < sh->nprobe; i++) if (!strcmp(sh->probes[i].name, name)) { sh->probes[i].n++; return; }
    if (sh->nprobe < MAXPROBE) { strncpy(sh->probes[sh->nprobe].name, name, 47); sh->probes[sh->nprobe++].n = 1; }
}

// ================================================================== heap with canaries
} // namespace sim
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); }
namespace sim {
struct HB { HB *next, *prev; size_t n; uint64_t magic; };
static HB g_live = { &g_live, &g_live, 0, 0 };
static const uint64_t HM = 0x51a1e5c0ffee1234ull, HF = 0xdeadbeefcafef00dull, HC = 0xc5c5c5c5a7a7a7a7ull;
static std::atomic_flag hl = ATOMIC_FLAG_INIT;
static void hlock() { while (hl.test_and_set(std::memory_order_acquire)) {} }
static void hunlock() { hl.clear(std::memory_order_release); }
static HB* quar[4096]; static int qh = 0, qn = 0; static size_t qbytes = 0;
int g_heapbad = 0; // 1 overflow 2 double free 3 write after free
static void heap_bad(int k) { if (!g_heapbad) g_heapbad = k; if (g_on) { obs(O_HEAP, { k }, k == 1 ? "heap overflow" : k == 2 ? "double free" : "write after free"); } }
static __thread size_t t_mlo = 0, t_mhi = 0;
void arm_alloc(size_t lo, size_t hi) { t_mlo = lo; t_mhi = hi; }
static void* hmalloc(size_t n) {
    if (t_mhi && n >= t_mlo && n <= t_mhi && fault_at(C_MEM)) { errno = ENOMEM; return nullptr; }
    if (n > (1ul << 40)) { errno = ENOMEM; return nullptr; }
    HB* b = (HB*)__libc_malloc(sizeof(HB) + n + 8);
    if (!b) return nullptr;
    b->n = n; b->magic = HM; uint64_t c = HC; memcpy((char*)(b + 1) + n, &c, 8);
    if (g_on) memset(b + 1, 0xa5, n);
    hlock(); b->next = g_live.next; b->prev = &g_live; g_live.next->prev = b; g_live.next = b; hunlock();
    return b + 1;
}
static void hcheck_q(HB* b) { uint8_t* p = (uint8_t*)(b + 1); for (size_t i = 0; i < b->n; i++) if (p[i] != 0xdd) { heap_bad(3); return; } }
static void hfree(void* p) {
    if (!p) return;
    HB* b = (HB*)p - 1;
    if (b->magic == HF) { heap_bad(2); return; }
    if (b->magic != HM) { __libc_free(p); return; }
    uint64_t c; memcpy(&c, (char*)p + b->n, 8); if (c != HC) heap_bad(1);
    hlock(); b->next->prev = b->prev; b->prev->next = b->next; hunlock();
    b->magic = HF;
    if (g_on && b->n <= 65536) {
        memset(p, 0xdd, b->n);
        hlock();
        HB* ev[8]; int ne = 0;
        if (qn == 4096) { ev[ne++] = quar[qh]; qbytes -= quar[qh]->n; qh = (qh + 1) % 4096; qn--; }
        while (qn && qbytes > (2u << 20) && ne < 8) { ev[ne++] = quar[qh]; qbytes -= quar[qh]->n; qh = (qh + 1) % 4096; qn--; }
        quar[(qh + qn) % 4096] = b; qn++; qbytes += b->n;
        hunlock();
        for (int i = 0; i < ne; i++) { hcheck_q(ev[i]); ev[i]->magic = 0; __libc_free(ev[i]); }
    } else { b->magic = 0; __libc_free(b); }
}
void heap_final_check() {
    for (HB* b = g_live.next; b != &g_live; b = b->next) { uint64_t c; memcpy(&c, (char*)(b + 1) + b->n, 8); if (c != HC) { heap_bad(1); break; } }
    for (int i = 0; i < qn; i++) hcheck_q(quar[(qh + i) % 4096]);
}

// ================================================================== threads
struct Waiter;
struct Thr {
    int used = 0, done = 0, joined = 0, detached = 0;
    pthread_t real; uint32_t fut = 0;
    std::function<bool()> cond; bool blocked = false; int64_t deadline = -1;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; std::function<void()> fx; void* ret = nullptr;
    int op = -1; char *stk_lo = nullptr, *stk_hi = nullptr;
};
static const int MAXTHR = 400;
static Thr* thr = new Thr[MAXTHR]; static int nthr = 1; static int cur = 0;
static Rng srng; static double sp = 0; static bool sexpl = false; static long sstep = 0; static size_t spos = 0;
static std::vector<std::pair<long, long>>& spre = *new std::vector<std::pair<long, long>>;
static bool g_mem_yield = true;
int thr_count() { return nthr; }
void sched_init(const Plan& p) {
    srng = Rng(p.sched_seed ^ 0x5c4edull ^ ((uint64_t)sh->inc << 32)); sp = p.sched_p; sexpl = p.explicit_sched; spre = p.pre; spos = 0; sstep = sh->steps;
    nthr = 1; cur = 0; thr[0].used = 1; thr[0].real = pthread_self();
}
static void fwait(uint32_t* w) { while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(w, 0, __ATOMIC_RELEASE); }
static void fwake(uint32_t* w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static bool runnable(int i) {
    Thr& t = thr[i]; if (!t.used || t.done) return false;
    if (!t.blocked) return true;
    if (t.deadline >= 0 && sh->clock >= t.deadline) return true;
    return t.cond && t.cond();
}
static void switch_to(int n) {
    if (n == cur) return;
    int me = cur; cur = n; sh->switches++; mix(0x5000 + n);
    fwake(&thr[n].fut); fwait(&thr[me].fut);
}
static std::vector<int> run_set() { std::vector<int> r; for (int i = 0; i < nthr; i++) if (runnable(i)) r.push_back(i); return r; }
// choose the next thread when the current one cannot go on
static int pick_next() {
    for (;;) {
        std::vector<int> r = run_set();
        if (!r.empty()) {
            // forced switches are decisions too: random in random mode, replayed from the list in explicit mode
            long c = 0; sstep++;
            if (r.size() > 1) {
                if (sexpl) { while (spos < spre.size() && spre[spos].first < sstep) spos++; if (spos < spre.size() && spre[spos].first == sstep) c = spre[spos++].second; }
                else { c = srng.below((long)r.size()); if (c && sh->npre < MAXPRE) sh->pre[sh->npre++] = { sstep, c }; }
            }
            return r[c % r.size()];
        }
        int64_t dl = -1;
        for (int i = 0; i < nthr; i++) if (thr[i].used && !thr[i].done && thr[i].blocked && thr[i].deadline >= 0 && (dl < 0 || thr[i].deadline < dl)) dl = thr[i].deadline;
        if (dl < 0) { obs(O_DEADLOCK, { nthr }, "no runnable thread"); _exit(80); }
        sh->clock = std::max(sh->clock, dl);
    }
}
void yield_point() {
    if (!g_on || !g_threads || t_noyield) return;
    sstep++; sh->nyield++;
    if (sh->nyield > 3000000) { obs(O_HANG, { sh->nyield }, "step budget"); _exit(81); }
    if (sexpl) {
        while (spos < spre.size() && spre[spos].first < sstep) spos++;
        if (!(spos < spre.size() && spre[spos].first == sstep)) return;
        long c = spre[spos++].second;
        std::vector<int> r = run_set(); r.erase(std::remove(r.begin(), r.end(), cur), r.end());
        if (r.empty()) return;
        switch_to(r[(c - 1) % r.size()]);
    } else if (sp > 0 && srng.chance(sp)) {
        t_noyield++;
        std::vector<int> r = run_set(); r.erase(std::remove(r.begin(), r.end(), cur), r.end());
        t_noyield--;
        if (r.empty()) return;
        long c = 1 + srng.below((long)r.size());
        if (sh->npre < MAXPRE) sh->pre[sh->npre++] = { sstep, c };
        switch_to(r[(c - 1) % r.size()]);
    }
}
void step_point() { yield_point(); }
void block_until(const std::function<bool()>& cond, int64_t deadline) {
    if (!g_on) return;
    Thr& t = thr[cur]; int me = cur;
    if (t_noyield && nthr > 1) { /* inside a stdio callback: do not hand over */ }
    if (deadline < 0 && cond() ) return;
    t.cond = cond; t.deadline = deadline; t.blocked = true;
    int n = pick_next();
    if (n != me) switch_to(n);
    t.blocked = false; t.cond = nullptr; t.deadline = -1;
}
static void thr_end() {
    Thr& t = thr[cur]; t.done = 1;
    bool alive = false; for (int i = 0; i < nthr; i++) if (thr[i].used && !thr[i].done) alive = true;
    if (!alive) _exit(0);
    int n = pick_next(); cur = n; sh->switches++; mix(0x6000 + n); fwake(&thr[n].fut);
}
static void* tramp(void* a) {
    int id = (int)(long)a; t_id = id; fwait(&thr[id].fut); t_op = thr[id].op;
    pthread_attr_t at; if (!pthread_getattr_np(pthread_self(), &at)) { void* p; size_t n; pthread_attr_getstack(&at, &p, &n); thr[id].stk_lo = (char*)p; thr[id].stk_hi = (char*)p + n; pthread_attr_destroy(&at); }
    if (thr[id].fx) thr[id].fx(); else thr[id].ret = thr[id].fn(thr[id].arg);
    thr_end();
    return thr[id].ret;
}
static int make_thread(pthread_t* out, void* (*fn)(void*), void* arg, std::function<void()> fx) {
    typedef int (*pc)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); static pc real = (pc)dlsym(RTLD_NEXT, "pthread_create");
    if (nthr >= MAXTHR) return EAGAIN;
    if (fn && fault_at(C_THR)) return EAGAIN;
    int id = nthr; Thr& t = thr[id]; t = Thr(); t.used = 1; t.fn = fn; t.arg = arg; t.fx = fx; t.op = t_op;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 << 10);
    int r = real(&t.real, &a, tramp, (void*)(long)id); pthread_attr_destroy(&a);
    if (r) return r;
    nthr++; g_threads = true;
    if (out) *out = t.real;
    mix(0x7000 + id);
    yield_point();
    return 0;
}
int spawn(std::function<void()> f) { pthread_t t; return make_thread(&t, nullptr, nullptr, f); }
void join_all() { int me = cur; block_until([me] { for (int i = 0; i < nthr; i++) if (i != me && thr[i].used && !thr[i].done) return false; return true; }, -1); }
static int find_thr(pthread_t p) { for (int i = 0; i < nthr; i++) if (thr[i].used && thr[i].real == p) return i; return -1; }

struct Mx { int owner = -1; int count = 0; int rd = 0; };
// never destroyed: exit handlers still take locks
static std::map<void*, Mx>& mxs = *new std::map<void*, Mx>; static std::set<void*>& mx_init = *new std::set<void*>;
struct CvW { void* c; bool signalled; }; static std::map<int, CvW>& cvw = *new std::map<int, CvW>;
static bool mem_zero(const void* p, size_t n) { const char* c = (const char*)p; for (size_t i = 0; i < n; i++) if (c[i]) return false; return true; }
static void mx_use(pthread_mutex_t* m) {
    if (mx_init.count(m)) return;
    // statically initialised mutexes are all zero but for the kind word
    pthread_mutex_t z = *m; z.__data.__kind = 0; bool ok = mem_zero(&z, sizeof z) && m->__data.__kind >= 0 && m->__data.__kind < 4;
    if (!ok) obs(O_UNINIT_MUTEX, {}, "mutex used before initialisation");
    mx_init.insert(m);
}
static int mx_lock(void* m) {
    yield_point();
    Mx& x = mxs[m];
    if (x.owner == cur) { block_until([] { return false; }, -1); }
    if (x.owner != -1 || x.rd) { while (mxs[m].owner != -1 || mxs[m].rd) block_until([m] { return mxs[m].owner == -1 && !mxs[m].rd; }, -1); }
    mxs[m].owner = cur; return 0;
}
static int mx_unlock(void* m) { Mx& x = mxs[m]; if (x.owner != cur) { probe("unlock-by-non-owner"); } x.owner = -1; yield_point(); return 0; }
} // namespace sim
using namespace sim;

extern "C" {
void* malloc(size_t n) { return hmalloc(n); }
void free(void* p) { hfree(p); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = hmalloc(n); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) {
    if (!p) return hmalloc(n);
    HB* b = (HB*)p - 1; if (b->magic != HM && b->magic != HF) { typedef void* (*f)(void*, size_t); extern void* __libc_realloc(void*, size_t); return __libc_realloc(p, n); }
    void* q = hmalloc(n); if (!q) return nullptr; memcpy(q, p, std::min(n, b->n)); hfree(p); return q;
}
typedef int (*mxf)(void*);
#define RL(name) static mxf real = (mxf)dlsym(RTLD_NEXT, name)
// With a single simulated thread the bookkeeping is enough; no real lock is ever taken in a simulated process.
int pthread_mutex_lock(pthread_mutex_t* m) { if (!g_on) { RL("pthread_mutex_lock"); return real(m); } mx_use(m); return mx_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!g_on) { RL("pthread_mutex_trylock"); return real(m); } mx_use(m); yield_point(); Mx& x = mxs[m]; if (x.owner != -1) return EBUSY; x.owner = cur; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!g_on) { RL("pthread_mutex_unlock"); return real(m); } mx_use(m); return mx_unlock(m); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { if (!g_on) { typedef int (*f)(pthread_mutex_t*, const pthread_mutexattr_t*); static f real = (f)dlsym(RTLD_NEXT, "pthread_mutex_init"); return real(m, a); } memset(m, 0, sizeof *m); mx_init.insert(m); mxs.erase(m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (!g_on) { RL("pthread_mutex_destroy"); return real(m); } auto i = mxs.find(m); if (i != mxs.end() && i->second.owner != -1) return EBUSY; mxs.erase(m); mx_init.erase(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!g_on) { RL("pthread_rwlock_rdlock"); return real(m); } yield_point(); while (mxs[m].owner != -1) block_until([m] { return mxs[m].owner == -1; }, -1); mxs[m].rd++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!g_on) { RL("pthread_rwlock_wrlock"); return real(m); } return mx_lock(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!g_on) { RL("pthread_rwlock_unlock"); return real(m); } Mx& x = mxs[m]; if (x.rd) { x.rd--; return 0; } return mx_unlock(m); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { return 0; }
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t dl) {
    int me = cur; cvw[me] = { c, false }; mxs[m].owner = -1;
    block_until([me] { return cvw[me].signalled; }, dl);
    bool sig = cvw[me].signalled; cvw.erase(me);
    while (mxs[m].owner != -1) block_until([m] { return mxs[m].owner == -1; }, -1);
    mxs[m].owner = me;
    return sig ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!g_on) abort(); yield_point(); return cv_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!g_on) abort(); yield_point(); return cv_wait(c, m, (ts->tv_sec - 1700000000l) * 1000000000l + ts->tv_nsec); }
int pthread_cond_signal(pthread_cond_t* c) { if (!g_on) return 0; yield_point(); for (auto& k : cvw) if (k.second.c == c && !k.second.signalled) { k.second.signalled = true; break; } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!g_on) return 0; yield_point(); for (auto& k : cvw) if (k.second.c == c) k.second.signalled = true; return 0; }
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!g_on) { typedef int (*f)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); static f real = (f)dlsym(RTLD_NEXT, "pthread_create"); return real(t, a, fn, arg); }
    return make_thread(t, fn, arg, nullptr);
}
int pthread_join(pthread_t t, void** ret) {
    if (!g_on) { typedef int (*f)(pthread_t, void**); static f real = (f)dlsym(RTLD_NEXT, "pthread_join"); return real(t, ret); }
    yield_point();
    int i = find_thr(t); if (i < 0 || thr[i].joined || thr[i].detached) { obs(O_BADJOIN, {}, "join of an invalid thread id"); return ESRCH; }
    block_until([i] { return thr[i].done; }, -1); thr[i].joined = 1; if (ret) *ret = thr[i].ret; return 0;
}
int pthread_detach(pthread_t t) { if (!g_on) { typedef int (*f)(pthread_t); static f real = (f)dlsym(RTLD_NEXT, "pthread_detach"); return real(t); } int i = find_thr(t); if (i < 0) return ESRCH; thr[i].detached = 1; return 0; }
void pthread_exit(void* r) {
    if (!g_on) { typedef void (*f)(void*); static f real = (f)dlsym(RTLD_NEXT, "pthread_exit"); real(r); abort(); }
    thr[cur].ret = r; thr_end();
    for (;;) pause(); // never scheduled again; ends with the process
}
// ---- memory accesses of sources built with -fsanitize=thread: pre-emption points
static void mem_pt(void* p) {
    if (!g_on || !g_threads || t_noyield) return;
    Thr& t = thr[cur];
    if (t.stk_lo && (char*)p >= t.stk_lo && (char*)p < t.stk_hi) return;
    if (!t.stk_lo) { char here; if ((char*)p > &here - (8 << 20) && (char*)p < &here + (8 << 20)) return; }
    yield_point();
}
#define TS(n) void __tsan_read##n(void* p) { mem_pt(p); } void __tsan_write##n(void* p) { mem_pt(p); } void __tsan_unaligned_read##n(void* p) { mem_pt(p); } void __tsan_unaligned_write##n(void* p) { mem_pt(p); } void __tsan_volatile_read##n(void* p) { mem_pt(p); } void __tsan_volatile_write##n(void* p) { mem_pt(p); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void* p, size_t) { mem_pt(p); }
void __tsan_write_range(void* p, size_t) { mem_pt(p); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void*, void*) {}
int __tsan_atomic32_load(const volatile int* p, int) { mem_pt((void*)p); return *p; }
void __tsan_atomic32_store(volatile int* p, int v, int) { mem_pt((void*)p); *p = v; }
int __tsan_atomic32_fetch_add(volatile int* p, int v, int) { mem_pt((void*)p); int o = *p; *p = o + v; return o; }
int __tsan_atomic32_fetch_sub(volatile int* p, int v, int) { mem_pt((void*)p); int o = *p; *p = o - v; return o; }
int __tsan_atomic32_exchange(volatile int* p, int v, int) { mem_pt((void*)p); int o = *p; *p = v; return o; }
int __tsan_atomic32_compare_exchange_val(volatile int* p, int c, int v, int, int) { mem_pt((void*)p); int o = *p; if (o == c) *p = v; return o; }
void __tsan_atomic_thread_fence(int) {}
} // extern C
