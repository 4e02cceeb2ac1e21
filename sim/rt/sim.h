// Deterministic simulator for librmn: shared arena, simulated disk, sockets, clock,
// cooperative thread scheduler, fault injection and the plan runner.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- PRNG (splitmix64)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    long below(long n) { return n <= 0 ? 0 : (long)(next() % (uint64_t)n); }
    long range(long a, long b) { return a + below(b - a + 1); }
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below((long)v.size())]; }
    // weighted index
    int weighted(const std::vector<int>& w) {
        long t = 0; for (int x : w) t += x;
        long r = below(t);
        for (size_t i = 0; i < w.size(); i++) { if (r < w[i]) return (int)i; r -= w[i]; }
        return 0;
    }
};

// ---------------------------------------------------------------- plan
struct Op { int id; std::string name; std::vector<long> a; std::string s; long A(size_t i, long d = 0) const { return i < a.size() ? a[i] : d; } };
enum FaultKind { F_NONE, F_CRASH, F_TORN, F_EIO_W, F_ENOSPC, F_SHORTW, F_EINTR_W, F_EIO_R, F_SHORTR, F_EINTR_R, F_EOPEN,
    F_SSHORTR, F_SSHORTW, F_SEINTR_R, F_SEINTR_W, F_SRESET, F_SDELAY, F_SEINTR_SEL, F_SEOF, F_CONNREFUSED, F_CLOCKJUMP, F_ETHREAD, F_ENOMEM, F_EMETA, F_NKINDS };
extern const char* fault_names[F_NKINDS];
struct Fault { int op; int nth; int kind; long arg; };
struct Plan {
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, long> cfg;
    std::vector<Op> ops;
    std::vector<Fault> faults;
    std::vector<std::pair<long, long>> pre;   // explicit preemptions (global step, choice)
    uint64_t sched_seed = 0; double sched_p = 0; // random preemption when pre is empty
    bool explicit_sched = false;
    std::string text() const;
    static bool parse(const std::string& txt, Plan& p, std::string& err);
    long C(const std::string& k, long d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
    Op& add(const std::string& n, std::vector<long> a = {}, std::string s = "") { ops.push_back({(int)ops.size(), n, a, s}); return ops.back(); }
};

// ---------------------------------------------------------------- history
enum ObsKind { O_BEGIN = 1, O_END, O_CRASH, O_EXIT, O_SIGNAL, O_HANG, O_DEADLOCK, O_UNINIT_MUTEX, O_BADJOIN, O_HEAP, O_DONE, O_USER = 100 };
struct Obs { int op; int kind; int thr; int inc; int64_t v[12]; char s[64]; };

struct Result {
    bool violated = false;
    std::string cls, msg;
    uint64_t hash = 0;
    std::vector<Obs> hist;
    // The class is one word: what is quoted and the numbers in it vary from run to run.
    static std::string word(const std::string& c) {
        std::string w; bool q = false;
        for (char ch : c) {
            if (ch == '\'') { q = !q; if (!q) continue; }
            if (q) continue;
            if (isalpha((unsigned char)ch)) w += ch; else if (!w.empty() && w.back() != '-') w += '-';
        }
        while (!w.empty() && w.back() == '-') w.pop_back();
        return w.empty() ? "violation" : w;
    }
    void violate(const std::string& c, const std::string& m) { if (!violated) { violated = true; cls = word(c); msg = m; } }
};

// called in the child
void obs(int kind, std::initializer_list<int64_t> v = {}, const char* s = nullptr);
void obsv(int kind, const std::vector<int64_t>& v, const char* s = nullptr);
long blob(const void* p, size_t n);           // append bytes to the shared log; returns their offset
const uint8_t* blob_at(long off);
void probe(const char* name);                 // count a reached condition
void finish_child(int code);                  // end this incarnation without library cleanup
int  incarnation();                           // 0,1,2.. index of the current simulated process
void set_op(int id);                          // attribute following calls of this thread to op id
int  faults_fired();                          // in this run so far
void no_faults(bool on);                      // suspend fault injection (harness's own calls)
void arm_alloc(size_t lo, size_t hi);         // allocations of lo..hi bytes may fail (F_ENOMEM); 0, 0: none
void step_point();                            // pre-emption point
void mix(uint64_t x);                         // add to event hash

// simulated disk, for harness use (parent or child)
void   fs_put(const std::string& path, const void* data, size_t n);
bool   fs_get(const std::string& path, std::vector<uint8_t>& out);
bool   fs_exists(const std::string& path);
void   fs_remove(const std::string& path);
long   fs_size(const std::string& path);
void   fs_mkdir(const std::string& path);
std::vector<std::string> fs_list();
struct FsEntry { std::string name; int kind; /* 0 file, 1 directory, 2 symbolic link, 3 fifo */ int mode; long mtime, bias; std::string data; bool operator==(const FsEntry& o) const { return name == o.name && kind == o.kind && mode == o.mode && mtime == o.mtime && bias == o.bias && data == o.data; } };
std::vector<FsEntry> fs_snapshot();           // the whole simulated tree
void   fs_restore(const std::vector<FsEntry>&);
int    open_files();                          // descriptors of simulated files this process has open

int64_t now_ns();                             // simulated clock
void    advance_ns(int64_t ns);
extern int (*system_hook)(const char*);       // what system() does in the simulated process (nothing by default)
int     spawn(std::function<void()> f);       // harness thread under the simulated scheduler
void    join_all();
bool    in_child();

// shared storage the harness may use (survives crashes within one run)
void* shared_user(size_t n);

// ---------------------------------------------------------------- harness
struct Harness {
    virtual ~Harness() {}
    virtual std::vector<std::string> props() = 0;
    virtual Plan gen(const std::string& prop, uint64_t seed, bool thorough) = 0;
    virtual void setup(const Plan&) {}                      // parent, before the first incarnation
    virtual void child_begin(const Plan&) {}                // child, at the start of each incarnation
    virtual void exec(const Plan&, const Op&) = 0;          // child
    virtual void child_end(const Plan&) {}                  // child, after the last op
    virtual void oracle(const Plan&, Result&) = 0;          // parent
    virtual bool nontrivial(const Plan&, const Result&) { return true; }
    virtual std::string shape(const Plan& p, const Result& r) { return ""; }
    virtual void canon(Plan&) {}                            // after minimisation steps (may renumber)
};
int main(int argc, char** argv, Harness& h);

} // namespace sim
