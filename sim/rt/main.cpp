// Plan text, run loop, batch search, minimisation.
#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <unordered_set>

namespace sim {
void heap_final_check(); extern int g_heapbad;
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c <= ' ' || c == '%' || c > 126) { char b[4]; snprintf(b, 4, "%%%02x", c); r += b; } else r += c; } return r.empty() ? "%" : r; }
static std::string unesc(const std::string& s) { if (s == "%") return ""; std::string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size() + 0 + 1) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += s[i]; return r; }
std::string Plan::text() const {
    std::ostringstream o;
    o << "prop " << prop << "\nseed " << seed << "\n";
    for (auto& c : cfg) o << "cfg " << c.first << " " << c.second << "\n";
    for (auto& p : ops) { o << "op " << p.id << " " << p.name; for (long a : p.a) o << " " << a; if (!p.s.empty()) o << " | " << esc(p.s); o << "\n"; }
    for (auto& f : faults) o << "fault " << f.op << " " << f.nth << " " << fault_names[f.kind] << " " << f.arg << "\n";
    if (explicit_sched) { o << "sched explicit\n"; for (auto& p : pre) o << "pre " << p.first << " " << p.second << "\n"; }
    else if (sched_p > 0) { char b[80]; snprintf(b, 80, "sched random %llu %.8g\n", (unsigned long long)sched_seed, sched_p); o << b; }
    return o.str();
}
bool Plan::parse(const std::string& txt, Plan& p, std::string& err) {
    std::istringstream in(txt); std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line); std::string k; if (!(l >> k) || k[0] == '#') continue;
        if (k == "prop") l >> p.prop; else if (k == "seed") l >> p.seed;
        else if (k == "cfg") { std::string n; long v; l >> n >> v; p.cfg[n] = v; }
        else if (k == "op") { Op o; l >> o.id >> o.name; std::string t; while (l >> t) { if (t == "|") { std::string s; l >> s; o.s = unesc(s); break; } o.a.push_back(atol(t.c_str())); } p.ops.push_back(o); }
        else if (k == "fault") { Fault f; std::string n; l >> f.op >> f.nth >> n >> f.arg; f.kind = 0; for (int i = 1; i < F_NKINDS; i++) if (n == fault_names[i]) f.kind = i; if (!f.kind) { err = "fault kind " + n; return false; } p.faults.push_back(f); }
        else if (k == "sched") { std::string m; l >> m; if (m == "explicit") p.explicit_sched = true; else { unsigned long long s; l >> s >> p.sched_p; p.sched_seed = s; } }
        else if (k == "pre") { long a, b; l >> a >> b; p.pre.push_back({ a, b }); }
        else if (k == "expect") {}
        else { err = "unknown line: " + line; return false; }
    }
    return true;
}
static void init_shared() {
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    fdata = (uint8_t*)mmap(nullptr, (size_t)MAXF * FCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blobs = (uint8_t*)mmap(nullptr, BLOBCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED || blobs == MAP_FAILED || fdata == MAP_FAILED) { perror("mmap"); _exit(3); }
}
static long runs_children = 0;
// what is left on the stack decides what reads of uninitialised locals see: make it the same in every run
static __attribute__((noinline)) void scrub() { volatile char b[196608]; memset((void*)b, 0x5a, sizeof b); asm volatile("" ::"r"(b) : "memory"); }
static void child_main(Harness& h, const Plan& p, size_t from) {
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    struct itimerval it = { { 0, 0 }, { 8, 0 } }; setitimer(ITIMER_VIRTUAL, &it, nullptr); alarm(120);
    signal(SIGVTALRM, SIG_DFL); signal(SIGALRM, SIG_DFL);
    int dn = open("/dev/null", O_RDWR); if (!getenv("SIM_STDOUT")) { dup2(dn, 1); dup2(dn, 2); } dup2(dn, 0); if (dn > 2) close(dn);
    scrub();
    net_reset(); g_sockbuf = p.C("sockbuf", 65536);
    sched_init(p); t_op = -1; t_id = 0; g_on = true;
    h.child_begin(p);
    for (size_t i = from; i < p.ops.size(); i++) {
        sh->cur_idx = (long)i; t_op = p.ops[i].id;
        if (p.ops[i].name == "restart") { obs(O_BEGIN); _exit(79); }
        if (p.ops[i].name == "exit0") { obs(O_BEGIN); typedef void (*fx)(int); ((fx)dlsym(RTLD_NEXT, "exit"))(76); }
        scrub();
        h.exec(p, p.ops[i]);
    }
    t_op = -1; sh->cur_idx = (long)p.ops.size();
    h.child_end(p);
    heap_final_check();
    obs(O_DONE);
    _exit(0);
}
static Result run_plan(Harness& h, const Plan& p) {
    sh->hash = 0xcbf29ce484222325ull; sh->inc = 0; sh->cur_idx = -1; sh->nobs = 0; sh->obs_over = 0; sh->steps = 0; sh->nsys = 0; sh->nyield = 0; sh->switches = 0; sh->clock = 0; sh->npre = 0; sh->exit_code = 0; sh->nblob = 0;
    for (int i = 0; i < MAXF; i++) { SFile& f = sh->files[i]; if (f.hi) memset(fdata + (long)i * FCAP, 0, f.hi); memset(&f, 0, sizeof f); }
    memset(sh->user, 0, 4096);
    sh->nfaults = 0; for (auto& f : p.faults) if (sh->nfaults < MAXFAULT) { auto& e = sh->faults[sh->nfaults++]; e.f = f; e.fired = 0; e.inc_fired = -1; }
    h.setup(p);
    size_t next = 0; int maxinc = 60;
    Result r;
    for (;;) {
        runs_children++;
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(3); }
        if (pid == 0) { child_main(h, p, next); _exit(0); }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        int save = t_op; t_op = sh->cur_idx >= 0 && sh->cur_idx < (long)p.ops.size() ? p.ops[sh->cur_idx].id : -1;
        bool done = false;
        if (WIFSIGNALED(st)) {
            int sg = WTERMSIG(st);
            if (sg == SIGVTALRM || sg == SIGALRM) obs(O_HANG, { sg }, "cpu budget"); else obs(O_SIGNAL, { sg }, strsignal(sg));
            done = true;
        } else switch (WEXITSTATUS(st)) {
            case 0: done = true; break;
            case 77: obs(O_CRASH); break;
            case 79: case 76: break;
            case 78: obs(O_EXIT, { sh->exit_code }); break;
            case 80: case 81: done = true; break;
            default: obs(O_SIGNAL, { 1000 + WEXITSTATUS(st) }, "unexpected exit status"); done = true;
        }
        t_op = save;
        next = sh->cur_idx + 1; sh->inc++;
        if (done || sh->inc >= maxinc) break;
        // a crash in the last op still gets a final incarnation, so that child_end can look at what survived
    }
    r.hist.assign(sh->obs, sh->obs + sh->nobs);
    r.hash = sh->hash;
    sh->clock_total += (double)sh->clock;
    if (sh->obs_over) { r.violate("harness-overflow", "history too long"); return r; }
    h.oracle(p, r);
    return r;
}
static bool same(const Result& r, const std::string& cls) { return r.violated && r.cls == cls; }
static Plan minimise(Harness& h, Plan p, const std::string& cls, double budget) {
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    auto spent = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > budget; };
    auto test = [&](const Plan& q) { return same(run_plan(h, q), cls); };
    if (p.sched_p > 0 && !p.explicit_sched) {
        Plan q = p; run_plan(h, p); q.explicit_sched = true; q.pre.clear();
        for (long i = 0; i < sh->npre; i++) q.pre.push_back({ sh->pre[i].step, sh->pre[i].choice });
        if (test(q)) p = q;
    }
    bool ch = true;
    while (ch && !spent()) {
        ch = false;
        for (size_t n = std::max<size_t>(1, p.ops.size() / 2); n >= 1 && !spent(); n /= 2) {
            for (size_t i = 0; i + n <= p.ops.size() && !spent();) {
                Plan q = p; q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + n);
                if (test(q)) { p = q; ch = true; } else i += n;
            }
            if (n == 1) break;
        }
        for (size_t n = std::max<size_t>(1, p.pre.size() / 2); n >= 1 && !p.pre.empty() && !spent(); n /= 2) {
            for (size_t i = 0; i + n <= p.pre.size() && !spent();) {
                Plan q = p; q.pre.erase(q.pre.begin() + i, q.pre.begin() + i + n);
                if (test(q)) { p = q; ch = true; } else i += n;
            }
            if (n == 1) break;
        }
        for (size_t i = 0; i < p.faults.size() && !spent();) { Plan q = p; q.faults.erase(q.faults.begin() + i); if (test(q)) { p = q; ch = true; } else i++; }
    }
    return p;
}
static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else if (c < 127) r += c; else r += '?'; } return r + "\""; }
static void trace(const Plan& p, const Result& r) {
    std::map<int, const Op*> byid; for (auto& o : p.ops) byid[o.id] = &o;
    for (auto& o : r.hist) {
        static const char* kn[] = { "?", "BEGIN", "END", "CRASH", "EXIT", "SIGNAL", "HANG", "DEADLOCK", "UNINIT_MUTEX", "BADJOIN", "HEAP", "DONE" };
        printf("inc%d t%d op%d %s ", o.inc, o.thr, o.op, byid.count(o.op) ? byid[o.op]->name.c_str() : "-");
        if (o.kind < 12) printf("%s", kn[o.kind]); else printf("k%d", o.kind);
        int last = 11; while (last >= 0 && !o.v[last]) last--;
        for (int i = 0; i <= last; i++) printf(" %ld", (long)o.v[i]);
        if (o.s[0]) printf(" \"%s\"", o.s);
        printf("\n");
    }
    for (int i = 0; i < sh->nfaults; i++) printf("fault op%d nth%d %s arg%ld: %s\n", sh->faults[i].f.op, sh->faults[i].f.nth, fault_names[sh->faults[i].f.kind], sh->faults[i].f.arg, sh->faults[i].fired ? "fired" : "did not fire");
}
int main(int argc, char** argv, Harness& h) {
    std::string cmd = argc > 1 ? argv[1] : "";
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) { personality(pers | ADDR_NO_RANDOMIZE); setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
    // a fixed environment, so that nothing outside the plan reaches the library
    clearenv(); setenv("PATH", "/usr/bin:/bin", 1); setenv("HOME", "/sim", 1); setenv("TZ", "UTC", 1);
    if (argc > 2 && std::string(argv[argc - 1]) == "-v") setenv("SIM_STDOUT", "1", 1);
    init_shared();
    auto rd = [](const char* f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); };
    if (cmd == "props") { for (auto& p : h.props()) printf("%s\n", p.c_str()); return 0; }
    if (cmd == "gen" && argc >= 4) { printf("%s", h.gen(argv[2], strtoull(argv[3], 0, 10), false).text().c_str()); return 0; }
    if ((cmd == "run" || cmd == "trace") && argc >= 3) {
        Plan p; std::string err; if (!Plan::parse(rd(argv[2]), p, err)) { fprintf(stderr, "plan: %s\n", err.c_str()); return 3; }
        Result r = run_plan(h, p);
        if (cmd == "trace") trace(p, r);
        printf("%s class=%s hash=%016llx %s\n", r.violated ? "VIOLATED" : "OK", r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
        return r.violated ? 1 : 0;
    }
    if (cmd == "one" && argc >= 4) { // prop seed
        Plan p = h.gen(argv[2], strtoull(argv[3], 0, 10), false); Result r = run_plan(h, p); printf("%s", p.text().c_str()); trace(p, r);
        printf("%s class=%s hash=%016llx %s\n", r.violated ? "VIOLATED" : "OK", r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str()); return r.violated;
    }
    if (cmd == "batch" && argc >= 9) { // prop base stride first count seconds outdir [thorough]
        std::string prop = argv[2]; uint64_t base = strtoull(argv[3], 0, 10); long worker = atol(argv[4]), nw = atol(argv[5]), count = atol(argv[6]); double secs = atof(argv[7]); std::string out = argv[8]; bool th = argc > 9 && !strcmp(argv[9], "thorough");
        struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
        std::unordered_set<uint64_t> hs, nts; long n = 0, nontriv = 0, viol = 0, nondet = 0, rechecks = 0; long ops = 0, withfault = 0; long sys = 0, yields = 0, switches = 0, crashes = 0, incs = 0;
        std::set<std::string> classes; std::vector<std::string> samples; std::map<std::string, long> opk;
        long mark = 0;
        for (long i = worker; i < count; i += nw) {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
            uint64_t seed = Rng(base * 1000003ull + (uint64_t)i).next() >> 1;
            Plan p = h.gen(prop, seed, th); p.seed = seed;
            Result r = run_plan(h, p); n++;
            ops += p.ops.size(); sys += sh->nsys; yields += sh->nyield; switches += sh->switches; incs += sh->inc; int ff = faults_fired(); if (ff) withfault++;
            for (auto& o : r.hist) if (o.kind == O_CRASH) crashes++;
            for (auto& o : p.ops) opk[o.name]++;
            hs.insert(r.hash);
            if (h.nontrivial(p, r)) { nontriv++; nts.insert(r.hash); }
            if (samples.size() < 3 && n % 7 == 1) samples.push_back(p.text().substr(0, 1500));
            if (!r.violated && n % 40 == 0) { Result r2 = run_plan(h, p); rechecks++; if (r2.hash != r.hash) { nondet++; std::ofstream f(out + "/nondet-" + std::to_string(seed) + ".plan"); f << p.text(); } }
            if (r.violated) {
                viol++;
                if (classes.size() < 4 && !classes.count(r.cls)) {
                    Result r2 = run_plan(h, p);
                    if (r2.hash != r.hash || !same(r2, r.cls)) { std::ofstream f(out + "/unrepro-" + std::to_string(seed) + ".plan"); f << p.text() << "# " << r.cls << " " << r.msg << "\n"; nondet++; continue; }
                    classes.insert(r.cls);
                    Plan m = minimise(h, p, r.cls, th ? 60 : 20);
                    Result r3 = run_plan(h, m);
                    if (!same(r3, r.cls)) { m = p; r3 = r; }
                    char nm[64]; snprintf(nm, 64, "/viol-%llu-%d.plan", (unsigned long long)seed, (int)classes.size());
                    std::ofstream f(out + nm); f << "# class " << r3.cls << "\n# msg " << r3.msg << "\n# hash " << std::hex << r3.hash << std::dec << "\n" << m.text();
                    f.close();
                    // leave the search once a violation is in hand: the driver only needs one
                    if (!mark) { mark = 1; secs = std::min(secs, (t1.tv_sec - t0.tv_sec) + 5.0); }
                }
            }
        }
        clock_gettime(CLOCK_MONOTONIC, &t1);
        std::ofstream f(out + "/stats-" + std::to_string(worker) + ".json");
        f << "{\"runs\":" << n << ",\"nontrivial\":" << nontriv << ",\"violations\":" << viol << ",\"nondet\":" << nondet << ",\"rechecks\":" << rechecks << ",\"ops\":" << ops << ",\"runs_with_fault\":" << withfault << ",\"syscalls\":" << sys << ",\"yields\":" << yields << ",\"switches\":" << switches << ",\"crashes\":" << crashes << ",\"processes\":" << runs_children << ",\"sim_ns\":" << sh->clock_total << ",\"wall\":" << (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
        f << ",\"faults\":{"; bool c = false; for (int k = 1; k < F_NKINDS; k++) if (sh->fired_kind[k]) { f << (c ? "," : "") << jstr(fault_names[k]) << ":" << sh->fired_kind[k]; c = true; }
        f << "},\"probes\":{"; for (int k = 0; k < sh->nprobe; k++) f << (k ? "," : "") << jstr(sh->probes[k].name) << ":" << sh->probes[k].n;
        f << "},\"opkinds\":{"; c = false; for (auto& k : opk) { f << (c ? "," : "") << jstr(k.first) << ":" << k.second; c = true; }
        f << "},\"samples\":["; for (size_t k = 0; k < samples.size(); k++) f << (k ? "," : "") << jstr(samples[k]); f << "]}";
        f.close();
        std::ofstream g(out + "/hashes-" + std::to_string(worker) + ".bin", std::ios::binary); for (uint64_t x : nts) g.write((char*)&x, 8);
        return 0;
    }
    fprintf(stderr, "usage: %s gen PROP SEED | one PROP SEED | run FILE | trace FILE | batch PROP BASE WORKER NWORKERS COUNT SECONDS OUTDIR [thorough]\n", argv[0]);
    return 3;
}
} // namespace sim

// the library ending its process
extern "C" void exit(int c) {
    typedef void (*fx)(int); static fx real = (fx)dlsym(RTLD_NEXT, "exit");
    if (sim::g_on) { sim::sh->exit_code = c; static int once = 0; if (once++) _exit(78); real(78); }
    real(c); _exit(c);
}
