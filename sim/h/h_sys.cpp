// File and environment calls made from Fortran (clib_interface.c, clib_interface2.c, rename_c.c, remove_c.c, mkdir_c.c,
// getenvc.c, resetenv.c, array_file.c): each is compared with the system call it stands for, made on the same tree.
#include "sim.h"
#include <algorithm>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <glob.h>
#include <unistd.h>
#include <sys/stat.h>
extern "C" {
#include <rmn/rpnmacros.h>
typedef int32_t I4; typedef int64_t I8;
#define Q(n) clib_##n##_schhide_
I4 Q(getenv)(char*, char*, F2Cl, F2Cl); I4 Q(putenv)(char*, F2Cl); I4 Q(realpath)(char*, char*, F2Cl, F2Cl); I4 Q(readlink)(char*, char*, F2Cl, F2Cl);
I4 Q(remove)(char*, F2Cl); I4 Q(rename)(char*, char*, F2Cl, F2Cl); I4 Q(fileexist)(char*, F2Cl); I4 Q(isreadok)(char*, F2Cl); I4 Q(iswriteok)(char*, F2Cl); I4 Q(isexecok)(char*, F2Cl);
I4 Q(chdir)(char*, F2Cl); I4 Q(getcwd)(char*, F2Cl); I4 Q(getuid)(I4*); I4 Q(rmdir)(char*, F2Cl); I4 Q(symlink)(char*, char*, F2Cl, F2Cl); I4 Q(unlink)(char*, F2Cl); I4 Q(mkdir)(char*, F2Cl); I4 Q(mkdir_r)(char*, F2Cl);
I4 Q(isdir)(char*, F2Cl); I4 Q(islink)(char*, F2Cl); I4 Q(isfifo)(char*, F2Cl); I4 Q(isfile)(char*, F2Cl); I8 Q(size)(char*, F2Cl); I4 Q(mtime)(char*, F2Cl); I4 Q(stat)(char*, int64_t*, F2Cl);
I4 Q(basename)(char*, char*, F2Cl, F2Cl); I4 Q(dirname)(char*, char*, F2Cl, F2Cl); I4 Q(glob)(char*, I4*, char*, I4*, F2Cl, F2Cl);
I4 Q(tolower)(char*, F2Cl); I4 Q(toupper)(char*, F2Cl); I4 Q(isalnum)(char*, F2Cl); I4 Q(isalpha)(char*, F2Cl); I4 Q(isblank)(char*, F2Cl); I4 Q(isdigit)(char*, F2Cl); I4 Q(islower)(char*, F2Cl); I4 Q(ispunct)(char*, F2Cl); I4 Q(isspace)(char*, F2Cl); I4 Q(isupper)(char*, F2Cl); I4 Q(isxdigit)(char*, F2Cl);
I4 mkdir_c_(const char*, F2Cl); I4 rename_c_(const char*, const char*, F2Cl, F2Cl); I4 remove_c_(const char*, F2Cl); void getenvc_(const char*, char*, F2Cl, F2Cl); void resetenv_();
void array_from_file_(I4*, const I4*, const char*, F2Cl); void array_to_file_(const I4*, const I4*, const char*, F2Cl);
}
using namespace sim;
enum { K_CALL = O_USER, K_BAD };
enum Fn { GETENV, PUTENV, REALPATH, READLINK, REMOVE, RENAME, EXIST, RDOK, WROK, XOK, CHDIR, GETCWD, RMDIR, SYMLINK, UNLINK, MKDIR, MKDIR_R, ISDIR, ISLINK, ISFIFO, ISFILE, SIZE, MTIME, STAT, BASENAME, DIRNAME, GLOB, CTYPE, CASE, MKDIR_C, RENAME_C, REMOVE_C, GETENVC, NFN };
static const char* fname[NFN] = { "getenv", "putenv", "realpath", "readlink", "remove", "rename", "fileexist", "isreadok", "iswriteok", "isexecok", "chdir", "getcwd", "rmdir", "symlink", "unlink", "mkdir", "mkdir-r", "isdir", "islink", "isfifo", "isfile", "size", "mtime", "stat", "basename", "dirname", "glob", "ctype", "case", "mkdir-c", "rename-c", "remove-c", "getenvc" };
static bool changes(int f) { return f == REMOVE || f == RENAME || f == CHDIR || f == RMDIR || f == SYMLINK || f == UNLINK || f == MKDIR || f == MKDIR_R || f == MKDIR_C || f == RENAME_C || f == REMOVE_C; }
static bool two(int f) { return f == RENAME || f == SYMLINK || f == RENAME_C; }
static bool gives(int f) { return f == GETENV || f == REALPATH || f == READLINK || f == GETCWD || f == BASENAME || f == DIRNAME; }
static const char* names[] = { "a", "b", "a/c", "a/d", "b/e", "a/c/f", "a/b", "link", "a/link", "file one", "b/e/g/h", "x", "./a", "a/../b", "/sim/a", "/sim/a/c", "a//d", "fifo", "/sim/b/e", "n0123456789012345678901234567890123456789012345678901234567890123456789", "up.F90", "..", ".", "/", "a/c/f/k/l", "/sim/z", "link/d", "a/link/e" };
static const int NN = sizeof names / sizeof *names;
static const char* envn[] = { "SIMV_A", "SIMV_B", "SIMV_LONGER_NAME", "SIMV_AB", "SIMV_" };

struct Fs { std::vector<char> m; char* p; int n; // a Fortran string among other bytes
    Fs(const std::string& s, long pad, long before) { n = (int)(s.size() + pad); char c = "x /~\0"[before % 5]; m.assign(64 + n + 64, c); for (int i = 0; i < 64; i++) m[64 + n + i] = "/zz "[(before + i) % 4]; p = m.data() + 64; memcpy(p, s.data(), s.size()); memset(p + s.size(), ' ', pad); }
};
struct Out { std::vector<char> m; char* p; int n; Out(int len) : n(len) { m.assign(n + 128, 0x7e); p = m.data() + 64; memset(p, 'u', n); }
    bool guards() const { for (int i = 0; i < 64; i++) if (m[i] != 0x7e || m[64 + n + i] != 0x7e) return false; return true; }
    bool untouched() const { for (int i = 0; i < n; i++) if (p[i] != 'u') return false; return true; } bool blank() const { for (int i = 0; i < n; i++) if (p[i] != ' ') return false; return true; }
    bool is(const std::string& s) const { if ((int)s.size() > n || s.compare(0, s.size(), p, s.size())) return false; for (int i = (int)s.size(); i < n; i++) if (p[i] != ' ') return false; return true; } };
static std::string trim(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static bool lexdir(const std::string& p) { struct stat st; return !stat(p.c_str(), &st) && S_ISDIR(st.st_mode); }

struct H : Harness {
    std::map<std::string, std::string> env;
    std::vector<std::string> props() override { return { "C01" }; }
    Plan gen(const std::string& prop, uint64_t seed, bool th) override {
        Rng r(seed); Plan p; p.prop = prop; p.seed = seed; int mode = r.weighted({ 5, 5 }); int n = (int)r.range(10, th ? 90 : 50);
        p.cfg["base"] = r.below(3);
        auto nm = [&]() { return std::string(names[r.chance(.6) ? r.below(8) : r.below(NN)]); };
        for (int i = 0; i < n; i++) {
            switch (r.weighted({ 10, 66, 3, 4, 3, 2 })) {
                case 0: p.add("put", { r.below(6), r.chance(.6) ? r.below(200) : r.below(20000), r.below(1 << 20), r.weighted({ 6, 1, 1, 1, 1 }) }, nm()); break;
                case 1: {
                    static const std::vector<int> w = { 2, 3, 2, 2, 2, 5, 3, 1, 1, 1, 4, 2, 4, 4, 3, 7, 5, 2, 2, 1, 2, 2, 1, 2, 3, 2, 3, 1, 1, 1, 2, 1, 1 };
                    int f = r.weighted(w); std::string s = nm(); long outlen = r.chance(.7) ? r.range(60, 300) : r.range(1, 20);
                    if (f == GETENV || f == GETENVC) s = envn[r.below(5)];
                    else if (f == PUTENV) { s = envn[r.below(5)]; if (r.chance(.9)) { s += "="; for (int j = (int)r.below(r.chance(.5) ? 6 : 60); j > 0; j--) s += r.chance(.1) ? ' ' : r.chance(.1) ? '=' : 'a' + (char)r.below(26); } }
                    else if (f == GLOB) { static const char* g[] = { "*", "a*", "*.F90", "a/*", "?", "n*", "[ab]", "a/?", "nothing*", "*/e", "l*", "/sim/*", "b/*/g" }; s = g[r.below(13)]; }
                    else if (f == CTYPE || f == CASE) { s = ""; for (int j = (int)r.range(1, 12); j > 0; j--) s += (char)(r.chance(.2) ? r.range(1, 255) : r.range(32, 126)); for (auto& c : s) if (c == '\n' || c == '\t' || c == '\r' || c == 0) c = ' '; }
                    else if (two(f)) s += "\t" + nm();
                    else if (f == BASENAME || f == DIRNAME) { if (r.chance(.4)) s = "/" + std::string(1, 'p' + (char)r.below(3)); else if (r.chance(.3)) s = std::string(1, 'q') + "/" + s; }
                    if (r.chance(.03)) s = ""; if (r.chance(.02)) s = std::string(r.range(200, 400), 'y');
                    p.add("call", { f, outlen, r.below(6) ? r.below(12) : r.range(0, 5000), r.below(5), r.below(40) }, s); break;
                }
                case 2: p.add("array", { r.below(1 << 20), r.chance(.5) ? r.below(60) : r.below(3000), r.range(3, 800), r.below(9), r.below(5) }, nm()); break;
                case 3: p.add("meta", { r.below(4), r.below(512), r.range(1, 2000000000), r.chance(.3) ? r.below(1l << 40) : 0 }, nm()); break;
                case 4: { std::string s; std::vector<int> k = { 0, 1, 2, 3, 4 }; for (int j = (int)r.range(1, 4); j > 0; j--) { s += std::string(envn[r.below(5)]) + "=" + std::string(r.below(30), 'a' + (char)r.below(26)) + (j > 1 || r.chance(.6) ? "|" : ""); } p.add("reset", {}, s); break; }
                default: p.add("restart");
            }
        }
        if (mode) for (int i = (int)r.range(1, 4); i > 0; i--) {
            static const std::vector<long> en = { EIO, EACCES, ENOSPC, EROFS, ENOMEM, EINTR, EPERM, EBUSY }; std::vector<int> t; for (auto& o : p.ops) if (o.name == "call") t.push_back(o.id); if (t.empty()) break;
            p.faults.push_back({ r.pick(t), r.chance(.8) ? 1 : (int)r.range(2, 4), F_EMETA, r.pick(en) });
        }
        return p;
    }
    void setup(const Plan& p) override { long b = p.C("base"); if (b > 0) { fs_mkdir("/sim/a"); fs_mkdir("/sim/b"); fs_put("/sim/x", "hello", 5); } if (b > 1) { fs_mkdir("/sim/a/c"); fs_put("/sim/a/d", "data", 4); fs_put("/sim/up.F90", "end\n", 4); } }
    void child_begin(const Plan&) override { env.clear(); for (auto n : envn) unsetenv(n); }
    void bad(const char* cls, const std::string& m) { std::string s = std::string(cls) + ": " + m; obs(K_BAD, { blob(s.c_str(), s.size() + 1) }); }
    struct Ref { bool ok = false; long v = 0; std::string s; std::vector<std::string> l; int64_t t[13]; };
    Ref reference(int f, const std::string& a, const std::string& b, long outlen, long maxn) {
        Ref q; struct stat st; char buf[4200];
        auto acc = [&](int m) { q.ok = !access(a.c_str(), m); };
        switch (f) {
            case GETENV: { auto i = env.find(a); q.ok = i != env.end(); if (q.ok) q.s = i->second; break; }
            case REALPATH: { char* c = realpath(a.c_str(), nullptr); q.ok = c; if (c) q.s = c; free(c); break; }
            case READLINK: { ssize_t n = readlink(a.c_str(), buf, 4096); q.ok = n > 0; if (q.ok) q.s.assign(buf, n); break; }
            case REMOVE: q.ok = !remove(a.c_str()); break; case RENAME: case RENAME_C: q.ok = !rename(a.c_str(), b.c_str()); break;
            case EXIST: acc(F_OK); break; case RDOK: acc(R_OK); break; case WROK: acc(W_OK); break; case XOK: acc(X_OK); break;
            case CHDIR: q.ok = !chdir(a.c_str()); break; case GETCWD: q.ok = getcwd(buf, 4096); q.s = buf; break; case RMDIR: q.ok = !rmdir(a.c_str()); break; case SYMLINK: q.ok = !symlink(a.c_str(), b.c_str()); break;
            case UNLINK: case REMOVE_C: q.ok = !unlink(a.c_str()); break; case MKDIR: q.ok = !mkdir(a.c_str(), 0755); break; case MKDIR_C: q.ok = !mkdir(a.c_str(), 0777); break;
            case MKDIR_R: { size_t i = 0; while (i < a.size()) { i = a.find('/', i + 1); if (i == std::string::npos) i = a.size(); std::string d = a.substr(0, i); q.ok = false; if (mkdir(d.c_str(), 0755) && (errno != EEXIST || !lexdir(d))) break; q.ok = true; } break; }
            case ISDIR: q.ok = !stat(a.c_str(), &st) && S_ISDIR(st.st_mode); break; case ISLINK: q.ok = !lstat(a.c_str(), &st) && S_ISLNK(st.st_mode); break; case ISFIFO: q.ok = !stat(a.c_str(), &st) && S_ISFIFO(st.st_mode); break; case ISFILE: q.ok = !stat(a.c_str(), &st) && S_ISREG(st.st_mode); break;
            case SIZE: q.ok = !stat(a.c_str(), &st); q.v = st.st_size; break; case MTIME: q.ok = !stat(a.c_str(), &st); q.v = st.st_mtime; break;
            case STAT: q.ok = !stat(a.c_str(), &st); if (q.ok) { int64_t t[13] = { (int64_t)st.st_dev, (int64_t)st.st_ino, st.st_mode, (int64_t)st.st_nlink, st.st_uid, st.st_gid, (int64_t)st.st_rdev, st.st_size, st.st_blksize, st.st_blocks, st.st_atime, st.st_mtime, st.st_ctime }; memcpy(q.t, t, sizeof t); } break;
            case BASENAME: q.ok = true; q.s = a == "/" ? a : a.substr(a.rfind('/') == std::string::npos ? 0 : a.rfind('/') + 1); break;
            case DIRNAME: { size_t k = a.rfind('/'); q.ok = k != 0; q.s = k == std::string::npos ? "." : trim(a.substr(0, k)); break; }
            case GLOB: { glob_t g; if (!glob(a.c_str(), GLOB_NOSORT, nullptr, &g)) { q.ok = (long)g.gl_pathc <= maxn; for (size_t i = 0; i < g.gl_pathc; i++) { q.l.push_back(g.gl_pathv[i]); if ((long)q.l.back().size() > outlen) q.ok = false; } globfree(&g); } break; }
        }
        if (gives(f) && (long)q.s.size() > outlen) q.ok = false;
        return q;
    }
    void check_env(const char* cls) { for (auto n : envn) { const char* v = getenv(n); auto i = env.find(n); if ((v != nullptr) != (i != env.end())) { bad(cls, std::string("variable ") + n + (v ? " is set, it was never" : " is no longer set")); return; } if (v && i->second != v) { bad(cls, std::string("variable ") + n + " is '" + v + "', expected '" + i->second + "'"); return; } } }
    void call(const Op& o) {
        int f = (int)(o.A(0) % NFN); long outlen = o.A(1), pad = o.A(2); size_t t = two(f) ? o.s.find('\t') : std::string::npos; std::string a = o.s.substr(0, t), b = t == std::string::npos ? "" : o.s.substr(t + 1);
        Fs A(a, a.empty() ? pad + 1 : pad, o.A(3)), B(b, b.empty() ? 3 : pad % 7, o.A(3) + 1); std::string ta = trim(a), tb = trim(b); Out out((int)outlen); long maxn = o.A(4);
        no_faults(true); auto t0 = fs_snapshot(); char cwd0[4200]; getcwd(cwd0, 4096);
        fs_restore(t0); Ref q = reference(f, ta, tb, outlen, maxn); auto t1 = fs_snapshot(); char cwd1[4200]; getcwd(cwd1, 4096); fs_restore(t0); chdir(cwd0); no_faults(false);
        auto Am = A.m, Bm = B.m; obs(O_BEGIN, { f }); int ff = faults_fired(); I4 rc = 0; I8 sz = 0; int64_t st[13 + 2]; for (auto& x : st) x = -77; I4 nf = -5; long vk = -1, ok = -1;
        Out list((int)(std::max(1l, maxn) * outlen));
        switch (f) {
            case GETENV: rc = Q(getenv)(A.p, out.p, A.n, out.n); break; case REALPATH: rc = Q(realpath)(A.p, out.p, A.n, out.n); break; case READLINK: rc = Q(readlink)(A.p, out.p, A.n, out.n); break; case GETCWD: rc = Q(getcwd)(out.p, out.n); break;
            case REMOVE: rc = Q(remove)(A.p, A.n); break; case RENAME: rc = Q(rename)(A.p, B.p, A.n, B.n); break; case EXIST: rc = Q(fileexist)(A.p, A.n); break; case RDOK: rc = Q(isreadok)(A.p, A.n); break; case WROK: rc = Q(iswriteok)(A.p, A.n); break; case XOK: rc = Q(isexecok)(A.p, A.n); break;
            case CHDIR: rc = Q(chdir)(A.p, A.n); break; case RMDIR: rc = Q(rmdir)(A.p, A.n); break; case SYMLINK: rc = Q(symlink)(A.p, B.p, A.n, B.n); break; case UNLINK: rc = Q(unlink)(A.p, A.n); break; case MKDIR: rc = Q(mkdir)(A.p, A.n); break; case MKDIR_R: rc = Q(mkdir_r)(A.p, A.n); break;
            case ISDIR: rc = Q(isdir)(A.p, A.n); break; case ISLINK: rc = Q(islink)(A.p, A.n); break; case ISFIFO: rc = Q(isfifo)(A.p, A.n); break; case ISFILE: rc = Q(isfile)(A.p, A.n); break;
            case SIZE: sz = Q(size)(A.p, A.n); break; case MTIME: sz = Q(mtime)(A.p, A.n); break; case STAT: rc = Q(stat)(A.p, st + 1, A.n); break;
            case BASENAME: rc = Q(basename)(A.p, out.p, A.n, out.n); break; case DIRNAME: rc = Q(dirname)(A.p, out.p, A.n, out.n); break;
            case GLOB: { I4 mx = (I4)maxn; rc = Q(glob)(list.p, &nf, A.p, &mx, (int)outlen, A.n); break; }
            case MKDIR_C: rc = mkdir_c_(A.p, A.n); break; case RENAME_C: rc = rename_c_(A.p, B.p, A.n, B.n); break; case REMOVE_C: rc = remove_c_(A.p, A.n); break; case GETENVC: getenvc_(A.p, out.p, A.n, out.n); break;
            case PUTENV: rc = Q(putenv)(A.p, A.n); break;
            case CASE: { std::string e(A.p, A.n); bool up = maxn & 1; for (auto& c : e) if ((unsigned char)c < 128) c = (char)(up ? toupper(c) : tolower(c)); rc = up ? Q(toupper)(A.p, A.n) : Q(tolower)(A.p, A.n); if (e != std::string(A.p, A.n)) bad("case", "the string was not converted as expected"); break; }
            case CTYPE: { static I4 (*cf[])(char*, F2Cl) = { Q(isalnum), Q(isalpha), Q(isblank), Q(isdigit), Q(islower), Q(ispunct), Q(isspace), Q(isupper), Q(isxdigit) }; static int (*rf[])(int) = { isalnum, isalpha, isblank, isdigit, islower, ispunct, isspace, isupper, isxdigit }; vk = maxn % 9; rc = cf[vk](A.p, A.n); bool e = rf[vk]((unsigned char)A.p[0]); if ((rc == 1) != e && (unsigned char)A.p[0] < 128) bad("ctype", "character " + std::to_string(A.p[0]) + ", question " + std::to_string(vk) + ": answer " + std::to_string(rc)); break; }
        }
        no_faults(true); bool fault = faults_fired() > ff; if (f == CASE) memcpy(Am.data() + 64, A.p, A.n); if (A.m != Am || B.m != Bm) bad("overrun", std::string(fname[f]) + " of '" + ta + "': bytes that are not its result were changed"); auto t2 = fs_snapshot(); char cwd2[4200]; getcwd(cwd2, 4096);
        ok = f == SIZE || f == MTIME ? sz != -1 : f == MKDIR_C || f == RENAME_C || f == REMOVE_C ? rc == 0 : f == GETENVC ? 1 : rc == 1; if (f == CTYPE || f == CASE) { no_faults(false); obs(K_CALL, { f, rc }); return; }
        if (f == PUTENV) { size_t k = ta.find('='); if (k == std::string::npos) { if (ta.empty() ? false : ok) env.erase(ta); } else if (ok) env[ta.substr(0, k)] = ta.substr(k + 1); q.ok = !ta.empty(); if (ta.empty()) q.ok = ok; }
        std::string who = std::string(fname[f]) + " of '" + ta + "'" + (two(f) ? " and '" + tb + "'" : "") + (pad ? "" : " (no blank)") + ": ";
        bool toolong = (f == RENAME_C && (A.n > 256 || B.n > 256)) || (f == REMOVE_C && A.n > 256) || (f == MKDIR_C && A.n > 4096);
        if (f == GETENVC) { size_t k = ta.find(' '); auto i = env.find(ta.substr(0, k)); std::string e = i == env.end() ? "" : i->second; if ((long)e.size() > outlen) e.resize(outlen); if (!out.is(e)) bad("value", who + "'" + std::string(out.p, out.n) + "', expected '" + e + "'"); }
        else if (fault || toolong) {
            if (ok && f != MKDIR_R && !gives(f)) bad("fault-hidden", who + "reported as done although the system refused it");
            if (f == MKDIR_R) { if (ok && !(t2 == t1)) bad("fault-hidden", who + "reported as done although the directories are not there"); for (auto& e : t2) { bool in = false; for (auto& x : t1) if (x == e) in = true; if (!in) bad("tree", who + "'" + e.name + "' appeared"); } for (auto& e : t0) { bool in = false; for (auto& x : t2) if (x == e) in = true; if (!in) bad("tree", who + "'" + e.name + "' was lost"); } }
            else if (!(t2 == t0) || strcmp(cwd0, cwd2)) bad("tree", who + "refused by the system, but something changed");
        } else {
            if (ok != q.ok) bad("status", who + (ok ? "reported as done" : "reported as failed") + ", the system call " + (q.ok ? "succeeds" : "fails"));
            else {
                if (!(t2 == t1)) { std::string d; for (auto& e : t2) { bool in = false; for (auto& x : t1) if (x == e) in = true; if (!in) d = "'" + e.name + "' is there or differs"; } for (auto& e : t1) { bool in = false; for (auto& x : t2) if (x == e) in = true; if (!in && d.empty()) d = "'" + e.name + "' is missing"; } bad("tree", who + "the tree is not what the system call makes of it: " + d); }
                if (strcmp(cwd1, cwd2)) bad("directory", who + "the current directory is " + cwd2 + ", expected " + cwd1);
                if ((f == SIZE || f == MTIME) && ok && sz != q.v) bad("value", who + std::to_string(sz) + ", expected " + std::to_string(q.v));
                if (f == STAT) { if (ok && memcmp(st + 1, q.t, sizeof q.t)) bad("value", who + "the table differs from what stat gives"); if (st[0] != -77 || st[14] != -77) bad("overrun", who + "words outside of the table were written"); }
            }
        }
        if (gives(f)) {
            if (!out.guards()) bad("overrun", who + "bytes outside of the result were written");
            else if (ok && !out.is(q.s)) bad("value", who + "'" + trim(std::string(out.p, out.n)) + "', expected '" + q.s + "'");
            else if (!ok && f != BASENAME && !out.blank() && !out.untouched()) bad("value", who + "refused, but the result is '" + trim(std::string(out.p, out.n)) + "'");
        }
        if (f == GLOB) {
            if (!list.guards()) bad("overrun", who + "bytes outside of the list were written");
            if (ok && !fault) { if (nf != (int)q.l.size()) bad("value", who + std::to_string(nf) + " names, expected " + std::to_string(q.l.size())); else { std::vector<std::string> g; for (int i = 0; i < nf; i++) g.push_back(trim(std::string(list.p + i * outlen, outlen))); auto e = q.l; std::sort(g.begin(), g.end()); std::sort(e.begin(), e.end()); if (g != e) bad("value", who + "the names are not those that match"); } }
        }
        check_env(f == PUTENV ? "environment" : "environment-changed");
        no_faults(false);
        obs(K_CALL, { f, ok, (int64_t)t2.size(), sz, fault });
    }
    void exec(const Plan& p, const Op& o) override {
        if (o.name == "call") { call(o); return; }
        no_faults(true);
        if (o.name == "put") { int fd = open(o.s.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd >= 0) { Rng r(o.A(2)); std::string d(o.A(1), 0); for (auto& c : d) c = (char)r.next(); write(fd, d.data(), d.size()); close(fd); } }
        else if (o.name == "meta") { auto v = fs_snapshot(); char* c = realpath(o.s.c_str(), nullptr); for (auto& e : v) if (c && e.name == c) { if (o.A(0) == 0) e.mode = (int)o.A(1); if (o.A(0) == 1) e.mtime = o.A(2); if (o.A(0) == 2) e.bias = o.A(3); if (o.A(0) == 3 && e.kind == 0) { e.kind = 3; e.data.clear(); } } free(c); fs_restore(v); }
        else if (o.name == "array") {
            Rng r(o.A(0)); long nb = o.A(1), nw = o.A(2); std::vector<I4> w((nb + 3) / 4 + 2, 0); for (size_t i = 2; i < w.size(); i++) w[i] = (I4)r.next(); w[0] = (I4)w.size(); w[1] = (I4)nb; Fs A(o.s, o.A(3), o.A(4)); auto t0 = fs_snapshot();
            int fd = open(o.s.c_str(), O_CREAT | O_WRONLY, 0777); bool can = fd >= 0; if (can) close(fd); fs_restore(t0); I4 n4 = (I4)w.size(); auto w0 = w; array_to_file_(w.data(), &n4, A.p, A.n); if (w != w0) bad("array", "the array given was changed");
            struct stat st; bool there = !stat(o.s.c_str(), &st) && S_ISREG(st.st_mode) && can; std::string at = "array of " + std::to_string(nb) + " bytes in '" + o.s + "': "; if (!can && !(fs_snapshot() == t0)) bad("array", at + "something changed although the file cannot be opened");
            if (can && !there) { struct stat s2; if (stat(o.s.c_str(), &s2)) bad("array", at + "the file is not there"); }
            if (there) { auto t1 = fs_snapshot(); char* c = realpath(o.s.c_str(), nullptr); for (auto& e : t1) if (c && e.name == c && e.data != std::string((char*)(w.data() + 2), nb)) bad("array", at + "the file has " + std::to_string(e.data.size()) + " bytes, not those of the array"); free(c);
                std::vector<I4> g(nw + 8, 0x5a5a5a5a); n4 = (I4)nw; array_from_file_(g.data() + 4, &n4, A.p, A.n); long m = std::min(nb, (nw - 2) * 4); if (g[5] != m || g[4] != 2 + (m + 3) / 4) bad("array", at + std::to_string(g[5]) + " bytes read in " + std::to_string(g[4]) + " words, room for " + std::to_string(nw)); else if (memcmp(g.data() + 6, w.data() + 2, m)) bad("array", at + "the bytes read differ"); for (int i = 0; i < 4; i++) if (g[i] != 0x5a5a5a5a || g[nw + 4 + i] != 0x5a5a5a5a) { bad("overrun", at + "words outside of the array were written"); break; } }
            obs(K_CALL, { 100, there });
        } else if (o.name == "reset") {
            std::string s = o.s; std::vector<std::string> l; size_t i = 0; for (auto& c : s) if (c == '|') c = '\n'; struct stat st; if (!lstat(".resetenv", &st) && !S_ISREG(st.st_mode)) { no_faults(false); return; }
            int fd = open(".resetenv", O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd < 0) { no_faults(false); return; } write(fd, s.data(), s.size()); close(fd);
            while (i < s.size()) { size_t j = s.find('\n', i); std::string e = s.substr(i, j == std::string::npos ? j : j - i); size_t k = e.find('='); env[e.substr(0, k)] = e.substr(k + 1); if (j == std::string::npos) break; i = j + 1; }
            resetenv_(); unlink(".resetenv"); check_env("reset"); obs(K_CALL, { 101, (int64_t)env.size() });
        }
        no_faults(false);
    }
    void oracle(const Plan& p, Result& r) override {
        for (auto& o : r.hist) {
            std::string at = " (op " + std::to_string(o.op) + ")";
            switch (o.kind) {
                case O_SIGNAL: r.violate("signal", std::string("process killed by a signal: ") + o.s + at); return; case O_HANG: case O_DEADLOCK: r.violate("hang", "no progress" + at); return; case O_HEAP: r.violate("heap", o.s + at); return;
                case O_EXIT: r.violate("unexpected-exit", "the library ended the process" + at); return;
                case K_BAD: { std::string m = (const char*)blob_at(o.v[0]); size_t k = m.find(": "); r.violate(m.substr(0, k), m.substr(k + 2) + at); return; }
            }
        }
    }
    bool nontrivial(const Plan& p, const Result& r) override { int d = 0, n = 0; std::set<long> k; for (auto& o : r.hist) if (o.kind == K_CALL && o.v[0] < NFN) { k.insert(o.v[0]); if (changes((int)o.v[0])) { if (o.v[1]) d++; else n++; } } return d >= 2 && n >= 1 && k.size() >= 4; }
    std::string shape(const Plan& p, const Result& r) override { std::string s; for (auto& o : r.hist) if (o.kind == K_CALL) { s += (char)('0' + o.v[0]); s += o.v[1] ? '+' : '-'; s += (char)('0' + o.v[2] % 64); } return s; }
};
int main(int argc, char** argv) { static H h; return sim::main(argc, argv, h); }
