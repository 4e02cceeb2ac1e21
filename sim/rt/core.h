// internal to the runtime
#pragma once
#include "sim.h"
#include <sys/types.h>
namespace sim {
enum { MAXF = 96, MAXOBS = 60000, MAXFAULT = 256, MAXPRE = 20000, MAXPROBE = 256 };
static const long FCAP = 8l << 20;
struct SFile { char name[232]; int used; int isdir; int linked; long size; long hi; int symlink; int mode; long mtime, bias; };
struct Shared {
    uint64_t hash;
    int inc;
    long cur_idx;          // index of the op of the main flow being executed
    long nobs;
    int obs_over;
    long steps, nsys, nyield, switches;
    int64_t clock;
    double clock_total;
    int nfaults;
    struct { Fault f; int fired; int inc_fired; } faults[MAXFAULT];
    long fired_kind[F_NKINDS];
    long npre;
    struct { long step, choice; } pre[MAXPRE];
    int nprobe;
    struct { char name[48]; long n; } probes[MAXPROBE];
    int exit_code;
    long nblob;
    SFile files[MAXF];
    Obs obs[MAXOBS];
    uint8_t user[1 << 20];
};
extern Shared* sh;
static const long BLOBCAP = 256l << 20;
extern uint8_t* blobs;
extern uint8_t* fdata;        // MAXF * FCAP
extern bool g_on;             // true inside a simulated process
extern bool g_threads;        // more than one simulated thread exists
extern __thread int t_op;
extern __thread int t_noyield;
extern __thread int t_nofault;
extern __thread int t_id;
// fault classes
enum { C_W = 1, C_R = 2, C_O = 4, C_ANY = 8, C_SR = 16, C_SW = 32, C_SEL = 64, C_CONN = 128, C_CLK = 256, C_THR = 512, C_MEM = 1024, C_M = 2048 };
Fault* fault_at(int cls);     // called once per intercepted call; returns the fault firing here
void count_sys(int code, long a, long b);
void do_crash();
// threads
void yield_point();
void block_until(const std::function<bool()>& cond, int64_t deadline); // returns when cond() or now>=deadline (deadline<0: none)
void sched_init(const Plan& p);
int  thr_count();
extern long g_sockbuf;
void net_reset();
}
