// Simulated file system calls, sockets, clock.
#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <glob.h>
#include <signal.h>
#include <time.h>
#include <deque>
#include <memory>
#include <algorithm>

namespace sim {
long g_sockbuf = 65536;
static std::string& g_cwd = *new std::string("/sim");
static std::string norm(const char* p) {
    std::string s = p ? p : "";
    if (s.empty() || s[0] != '/') s = g_cwd + "/" + s;
    std::vector<std::string> parts; std::string cur;
    for (size_t i = 0; i <= s.size(); i++) {
        if (i == s.size() || s[i] == '/') {
            if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
            else if (!cur.empty() && cur != ".") parts.push_back(cur);
            cur.clear();
        } else cur += s[i];
    }
    std::string r; for (auto& x : parts) r += "/" + x;
    return r.empty() ? "/" : r;
}
static bool realpath_ok(const std::string& p) {
    static const char* pre[] = { "/proc/", "/dev/", "/etc/", "/usr/", "/lib/", "/lib64/" };
    for (auto x : pre) if (p.compare(0, strlen(x), x) == 0) return true;
    return false;
}
static int ffind(const std::string& p) {
    for (int i = 0; i < MAXF; i++) if (sh->files[i].used && sh->files[i].linked && p == sh->files[i].name) return i;
    return -1;
}
static bool has_links() { for (int i = 0; i < MAXF; i++) if (sh->files[i].used && sh->files[i].linked && sh->files[i].symlink == 1) return true; return false; }
static uint8_t* fptr(int i);
// the path a name leads to; symbolic links are followed (the last component only when asked); "" when they loop
static std::string rs(const char* p, bool follow = true) {
    if (!has_links() && !(p && strstr(p, ".."))) return norm(p);
    std::string s = p ? p : ""; if (s.empty() || s[0] != '/') s = g_cwd + "/" + s;
    std::string cur; int depth = 0;
    while (!s.empty()) {
        size_t a = s.find_first_not_of('/'); if (a == std::string::npos) break;
        size_t b = s.find('/', a); std::string c = s.substr(a, b == std::string::npos ? b : b - a); s = b == std::string::npos ? "" : s.substr(b);
        if (c == ".") continue;
        if (c == "..") { int d = ffind(cur); if (d >= 0 ? !sh->files[d].isdir : !cur.empty() && cur != "/sim" && cur != "/tmp") return ""; size_t k = cur.rfind('/'); cur = k == std::string::npos ? "" : cur.substr(0, k); continue; }
        std::string q = cur + "/" + c; int i = ffind(q);
        bool last = s.find_first_not_of('/') == std::string::npos;
        if (i >= 0 && sh->files[i].symlink == 1 && (!last || follow)) {
            if (++depth > 20) return "";
            std::string t((char*)fptr(i), sh->files[i].size);
            if (!t.empty() && t[0] == '/') cur = ""; s = t + (last ? "" : s); if (t.empty() || t[0] != '/') s = "/" + s;
            continue;
        }
        cur = q;
    }
    return cur.empty() ? "/" : cur;
}
static uint8_t* fptr(int i) { return fdata + (long)i * FCAP; }
static bool parent_ok(const std::string& p) {
    size_t k = p.rfind('/');
    if (k == 0 || k == std::string::npos) return true;
    std::string d = p.substr(0, k);
    if (d == "/sim" || d == "/tmp") return true;
    int i = ffind(d);
    return i >= 0 && sh->files[i].isdir;
}
static bool has_fd(int ino);
static int fcreate(const std::string& p) {
    if (p.size() >= sizeof sh->files[0].name) { errno = ENAMETOOLONG; return -1; }
    for (int i = 0; i < MAXF; i++) if (!sh->files[i].used || (!sh->files[i].linked && !has_fd(i))) {
        SFile& f = sh->files[i];
        strcpy(f.name, p.c_str()); f.used = 1; f.linked = 1; f.isdir = 0; f.size = 0; f.symlink = 0; f.mode = 0; f.mtime = 0; f.bias = 0;
        if (f.hi) memset(fptr(i), 0, f.hi);
        f.hi = 0;
        return i;
    }
    errno = ENOSPC; return -1;
}
static void fresize(int i, long n) {
    SFile& f = sh->files[i];
    if (n < f.size) memset(fptr(i) + n, 0, f.size - n);
    f.size = n; if (n > f.hi) f.hi = n;
}
void fs_put(const std::string& path, const void* data, size_t n) {
    std::string p = norm(path.c_str()); int i = ffind(p); if (i < 0) i = fcreate(p); if (i < 0) abort();
    fresize(i, 0); fresize(i, n); memcpy(fptr(i), data, n);
}
bool fs_get(const std::string& path, std::vector<uint8_t>& out) {
    int i = ffind(norm(path.c_str())); if (i < 0) return false;
    out.assign(fptr(i), fptr(i) + sh->files[i].size); return true;
}
bool fs_exists(const std::string& path) { return ffind(norm(path.c_str())) >= 0; }
long fs_size(const std::string& path) { int i = ffind(norm(path.c_str())); return i < 0 ? -1 : sh->files[i].size; }
void fs_remove(const std::string& path) { int i = ffind(norm(path.c_str())); if (i >= 0) { sh->files[i].linked = 0; sh->files[i].used = 0; } }
void fs_mkdir(const std::string& path) { std::string p = norm(path.c_str()); if (ffind(p) >= 0) return; int i = fcreate(p); if (i >= 0) sh->files[i].isdir = 1; }
std::vector<FsEntry> fs_snapshot() {
    std::vector<FsEntry> v;
    for (int i = 0; i < MAXF; i++) { SFile& f = sh->files[i]; if (!f.used || !f.linked) continue; v.push_back({ f.name, f.isdir ? 1 : f.symlink == 1 ? 2 : f.symlink == 2 ? 3 : 0, f.mode, f.mtime, f.bias, std::string((char*)fptr(i), f.size) }); }
    std::sort(v.begin(), v.end(), [](const FsEntry& a, const FsEntry& b) { return a.name < b.name; }); return v;
}
void fs_restore(const std::vector<FsEntry>& v) {
    for (int i = 0; i < MAXF; i++) if (sh->files[i].used && sh->files[i].linked) sh->files[i].linked = 0;
    for (auto& e : v) { int i = fcreate(e.name); if (i < 0) abort(); SFile& f = sh->files[i]; f.isdir = e.kind == 1; f.symlink = e.kind == 2 ? 1 : e.kind == 3 ? 2 : 0; f.mode = e.mode; f.mtime = e.mtime; f.bias = e.bias; fresize(i, e.data.size()); memcpy(fptr(i), e.data.data(), e.data.size()); }
}
std::vector<std::string> fs_list() { std::vector<std::string> v; for (int i = 0; i < MAXF; i++) if (sh->files[i].used && sh->files[i].linked) v.push_back(sh->files[i].name); std::sort(v.begin(), v.end()); return v; }

// ------------------------------------------------------------------ descriptors
struct Pipe { std::deque<uint8_t> d; bool eof = false, rst = false, rclosed = false; int64_t after = 0; };
struct Sock { int st = 0; int port = 0; std::deque<int> backlog; std::shared_ptr<Pipe> rx, tx; int peerport = 0; bool nonblock = false; int err = 0; };
struct FD { int kind = 0; /*1 file 2 sock*/ int ino = -1; long off = 0; int flags = 0; std::shared_ptr<Sock> s; };
static const int FD0 = 100, NFD = 800;
static FD (&fds)[NFD] = *(FD(*)[NFD])new FD[NFD];
static int next_port = 40000;
void net_reset() { for (auto& f : fds) f = FD(); next_port = 40000; g_cwd = "/sim"; }
static int newfd() { for (int i = 0; i < NFD; i++) if (!fds[i].kind) return i; errno = EMFILE; return -1; }
int (*system_hook)(const char*) = nullptr;
int open_files() { int n = 0; for (auto& f : fds) if (f.kind == 1) n++; return n; }
static bool has_fd(int ino) { for (auto& f : fds) if (f.kind == 1 && f.ino == ino) return true; return false; }
static FD* getfd(int fd) { int i = fd - FD0; if (i < 0 || i >= NFD || !fds[i].kind) return nullptr; return &fds[i]; }
static bool mine(int fd) { return g_on && fd >= 3 && fd < FD0 + NFD; }

static int v_open(const char* path, int flags, int mode) {
    std::string p = rs(path);
    yield_point();
    Fault* f = fault_at(C_O | C_ANY);
    if (f) { if (f->kind == F_CRASH) do_crash(); if (f->kind == F_EOPEN) { errno = f->arg ? (int)f->arg : EACCES; count_sys(1, -1, errno); return -1; } }
    if (realpath_ok(p)) {
        if ((flags & O_ACCMODE) != O_RDONLY && p != "/dev/null") { errno = EACCES; return -1; }
        return (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), flags, mode);
    }
    if (p.empty()) { errno = ELOOP; return -1; }
    int i = ffind(p);
    if (i < 0) {
        if (!(flags & O_CREAT)) { errno = ENOENT; count_sys(1, -1, errno); return -1; }
        if (!parent_ok(p)) { errno = ENOENT; count_sys(1, -1, errno); return -1; }
        i = fcreate(p); if (i < 0) return -1;
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; count_sys(1, -1, errno); return -1; }
        if (sh->files[i].isdir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
        if (flags & O_TRUNC) { if ((flags & O_ACCMODE) != O_RDONLY) fresize(i, 0); }
    }
    int k = newfd(); if (k < 0) return -1;
    fds[k].kind = 1; fds[k].ino = i; fds[k].off = 0; fds[k].flags = flags; fds[k].s.reset();
    count_sys(1, k + FD0, sh->files[i].size);
    return k + FD0;
}
static ssize_t v_fwrite(FD* d, const void* buf, size_t n, long* poff) {
    if ((d->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    SFile& f = sh->files[d->ino];
    long off = poff ? *poff : ((d->flags & O_APPEND) ? f.size : d->off);
    size_t m = n; int die = 0;
    static int full_op = -1;   // a full disk stays full until the end of the operation (odd argument)
    Fault* ft = fault_at(C_W | C_ANY);
    if (!ft && full_op >= 0) { if (full_op == t_op) { errno = ENOSPC; count_sys(3, -1, ENOSPC); return -1; } full_op = -1; }
    if (ft && ft->kind == F_ENOSPC && (ft->arg & 1)) full_op = t_op;
    if (ft) switch (ft->kind) {
        case F_CRASH: do_crash(); break;
        case F_TORN: m = n * (size_t)(ft->arg % 1000) / 1000; die = 1; break;
        case F_EIO_W: errno = EIO; count_sys(3, -1, EIO); return -1;
        case F_ENOSPC: m = ft->arg > 0 ? n * (size_t)(ft->arg % 1000) / 1000 : 0; if (m == 0) { errno = ENOSPC; count_sys(3, -1, ENOSPC); return -1; } break;
        case F_SHORTW: m = n * (size_t)(ft->arg % 1000) / 1000; if (m == 0 && n) m = 1; if (m >= n && n > 1) m = n - 1; break;
        case F_EINTR_W: errno = EINTR; count_sys(3, -1, EINTR); return -1;
    }
    if (off + (long)m > FCAP) { errno = EFBIG; probe("sim-file-cap"); return -1; }
    if (off < 0) { errno = EINVAL; return -1; }
    if (m) {
        if (off + (long)m > f.size) fresize(d->ino, off + m);
        memcpy(fptr(d->ino) + off, buf, m);
        if (!poff) d->off = off + m;
    }
    count_sys(3, (long)m, off);
    if (die) do_crash();
    return (ssize_t)m;
}
static ssize_t v_fread(FD* d, void* buf, size_t n, long* poff) {
    if ((d->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    SFile& f = sh->files[d->ino];
    if (f.isdir) { errno = EISDIR; return -1; }
    long off = poff ? *poff : d->off;
    size_t m = off >= f.size ? 0 : std::min((size_t)(f.size - off), n);
    Fault* ft = fault_at(C_R | C_ANY);
    if (ft) switch (ft->kind) {
        case F_CRASH: do_crash(); break;
        case F_EIO_R: errno = EIO; count_sys(2, -1, EIO); return -1;
        case F_SHORTR: if (m > 1) { size_t k = m * (size_t)(ft->arg % 1000) / 1000; if (!k) k = 1; if (k >= m) k = m - 1; m = k; } break;
        case F_EINTR_R: errno = EINTR; count_sys(2, -1, EINTR); return -1;
    }
    memcpy(buf, fptr(d->ino) + off, m);
    if (!poff) d->off = off + m;
    count_sys(2, (long)m, off);
    return (ssize_t)m;
}
static void maybe_sigpipe() {
    struct sigaction sa; sigaction(SIGPIPE, nullptr, &sa);
    if (sa.sa_handler == SIG_DFL) { raise(SIGPIPE); }
}
static ssize_t v_swrite(FD* d, const void* buf, size_t n) {
    std::shared_ptr<Sock> s = d->s; if (s->st != 2) { errno = ENOTCONN; return -1; }
    yield_point();
    size_t m = n;
    Fault* ft = fault_at(C_SW | C_ANY);
    if (ft) switch (ft->kind) {
        case F_CRASH: do_crash(); break;
        case F_SSHORTW: m = n * (size_t)(ft->arg % 1000) / 1000; if (m == 0 && n) m = 1; break;
        case F_SEINTR_W: errno = EINTR; count_sys(13, -1, EINTR); return -1;
        case F_SRESET: s->tx->rst = s->rx->rst = true; break;
    }
    auto full = [&] { return (long)s->tx->d.size() >= g_sockbuf && !s->tx->rclosed && !s->tx->rst; };
    if (full()) { if (s->nonblock) { errno = EAGAIN; return -1; } block_until([&] { return !full(); }, -1); }
    if (s->tx->rst) { errno = ECONNRESET; count_sys(13, -1, errno); return -1; }
    if (s->tx->rclosed || s->tx->eof) { maybe_sigpipe(); errno = EPIPE; count_sys(13, -1, errno); return -1; }
    // a blocking write takes everything unless interrupted or faulted
    size_t done = 0; const uint8_t* p = (const uint8_t*)buf;
    while (done < m) {
        long room = g_sockbuf - (long)s->tx->d.size();
        if (room <= 0) { if (s->nonblock) break; block_until([&] { return !full(); }, -1); if (s->tx->rst || s->tx->rclosed) break; continue; }
        size_t k = std::min((size_t)room, m - done);
        s->tx->d.insert(s->tx->d.end(), p + done, p + done + k); done += k;
    }
    count_sys(13, (long)done, d - fds);
    if (!done && m) { if (s->tx->rst) errno = ECONNRESET; else { maybe_sigpipe(); errno = EPIPE; } return -1; }
    return (ssize_t)done;
}
static ssize_t v_sread(FD* d, void* buf, size_t n) {
    std::shared_ptr<Sock> s = d->s; if (s->st != 2) { errno = ENOTCONN; return -1; }
    yield_point();
    Fault* ft = fault_at(C_SR | C_ANY);
    size_t lim = n;
    if (ft) switch (ft->kind) {
        case F_CRASH: do_crash(); break;
        case F_SSHORTR: lim = std::max<size_t>(1, n * (size_t)(ft->arg % 1000) / 1000); break;
        case F_SEINTR_R: errno = EINTR; count_sys(12, -1, EINTR); return -1;
        case F_SRESET: s->rx->rst = s->tx->rst = true; break;
        case F_SDELAY: s->rx->after = sh->clock + ft->arg * 1000000l; break;
        case F_SEOF: s->rx->eof = true; s->rx->d.clear(); s->tx->rclosed = true; break;
    }
    auto ready = [&] { return s->rx->rst || s->rx->eof || (!s->rx->d.empty() && sh->clock >= s->rx->after); };
    if (!ready()) {
        if (s->nonblock) { errno = EAGAIN; return -1; }
        while (!ready()) block_until(ready, sh->clock < s->rx->after ? s->rx->after : -1);
    }
    if (s->rx->rst) { errno = ECONNRESET; count_sys(12, -1, errno); return -1; }
    size_t m = std::min(lim, s->rx->d.size());
    uint8_t* p = (uint8_t*)buf;
    std::copy(s->rx->d.begin(), s->rx->d.begin() + m, p);
    s->rx->d.erase(s->rx->d.begin(), s->rx->d.begin() + m);
    count_sys(12, (long)m, d - fds);
    return (ssize_t)m;
}
static int v_close(int fd) {
    FD* d = getfd(fd);
    if (!d) { errno = EBADF; count_sys(4, fd, -1); return -1; }
    yield_point();
    Fault* ft = fault_at(C_ANY); if (ft && ft->kind == F_CRASH) do_crash();
    count_sys(4, fd, 0);
    if (d->kind == 2 && d->s) {
        if (d->s.use_count() == 1 || true) {
            bool other = false;
            for (auto& x : fds) if (&x != d && x.kind == 2 && x.s == d->s) other = true;
            if (!other) {
                if (d->s->tx) d->s->tx->eof = true;
                if (d->s->rx) d->s->rx->rclosed = true;
                d->s->st = 3;
            }
        }
    }
    *d = FD();
    return 0;
}
static int fill_stat(int i, struct stat* st) {
    memset(st, 0, sizeof *st);
    SFile& f = sh->files[i];
    st->st_mode = f.isdir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    if (f.symlink == 1) st->st_mode = S_IFLNK | 0777; if (f.symlink == 2) st->st_mode = S_IFIFO | 0644;
    if (f.mode) st->st_mode = (st->st_mode & S_IFMT) | f.mode;
    st->st_size = f.size + f.bias; st->st_ino = i + 1; st->st_dev = 7; st->st_nlink = 1; st->st_blksize = 4096; st->st_blocks = (f.size + 511) / 512;
    st->st_uid = 1000; st->st_gid = 1000; st->st_mtime = st->st_ctime = st->st_atime = 1000000000; if (f.mtime) { st->st_mtime = f.mtime; st->st_atime += f.mtime % 1000; st->st_ctime += f.mtime % 777; }
    return 0;
}
static bool meta_fault() {
    Fault* ft = fault_at(C_M | C_ANY); if (!ft) return false;
    if (ft->kind == F_CRASH) do_crash();
    if (ft->kind == F_EMETA) { errno = ft->arg ? (int)ft->arg : EIO; return true; }
    return false;
}
static int v_stat(const char* path, struct stat* st, bool follow = true) {
    std::string p = rs(path, follow);
    if (realpath_ok(p)) return (int)syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), st, 0);
    if (meta_fault()) return -1;
    if (!*path) { errno = ENOENT; return -1; }
    if (p.empty()) { errno = ELOOP; return -1; }
    if (p == "/sim" || p == "/" || p == "/tmp") { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; }
    int i = ffind(p); if (i < 0) { errno = ENOENT; return -1; }
    return fill_stat(i, st);
}
// ---- stdio through fopencookie
struct Ck { int fd; };
static ssize_t ck_read(void* c, char* b, size_t n) { t_noyield++; FD* d = getfd(((Ck*)c)->fd); ssize_t r = -1; if (d) r = v_fread(d, b, n, nullptr); t_noyield--; return r; }
static ssize_t ck_write(void* c, const char* b, size_t n) { t_noyield++; FD* d = getfd(((Ck*)c)->fd); ssize_t r = 0; if (d) r = v_fwrite(d, b, n, nullptr); t_noyield--; return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* o, int w) {
    FD* d = getfd(((Ck*)c)->fd); if (!d) return -1;
    long n = w == SEEK_SET ? *o : w == SEEK_CUR ? d->off + *o : sh->files[d->ino].size + *o;
    if (n < 0) { errno = EINVAL; return -1; }
    d->off = n; *o = n; return 0;
}
static int ck_close(void* c) { t_noyield++; int r = v_close(((Ck*)c)->fd); t_noyield--; delete (Ck*)c; return r; }
static int mode_flags(const char* m) {
    int plus = strchr(m, '+') != nullptr;
    switch (m[0]) {
        case 'r': return plus ? O_RDWR : O_RDONLY;
        case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
        case 'a': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    }
    return -1;
}
static FILE* v_fdopen(int fd, const char* mode) {
    Ck* c = new Ck{ fd };
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE* f = fopencookie(c, mode, io); if (!f) delete c; return f;
}
static FILE* v_fopen(const char* path, const char* mode) {
    int fl = mode_flags(mode); if (fl < 0) { errno = EINVAL; return nullptr; }
    t_noyield++;
    int fd = v_open(path, fl, 0666);
    t_noyield--;
    if (fd < 0) return nullptr;
    if (fd < FD0) { // a real file
        typedef FILE* (*fn)(int, const char*); static fn r = (fn)dlsym(RTLD_NEXT, "fdopen"); return r(fd, mode);
    }
    FILE* f = v_fdopen(fd, mode); if (!f) { t_noyield++; v_close(fd); t_noyield--; errno = ENOMEM; } return f;
}
int64_t now_ns() { return sh->clock; }
void advance_ns(int64_t n) { sh->clock += n; }
} // namespace sim
using namespace sim;

// ===================================================================== interposed symbols
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
extern "C" {
int open(const char* p, int fl, ...) {
    int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
    if (!g_on) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
    return v_open(p, fl, mode);
}
int open64(const char* p, int fl, ...) {
    int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
    if (!g_on) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
    return v_open(p, fl, mode);
}
int mkostemp(char* t, int fl) {
    size_t n = strlen(t); if (!g_on) { REAL(int, "mkostemp", char*, int); return real(t, fl); }
    if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { errno = EINVAL; return -1; }
    for (int i = 0; i < 100000; i++) { snprintf(t + n - 6, 7, "%06d", i); int fd = v_open(t, (fl & ~O_ACCMODE) | O_RDWR | O_CREAT | O_EXCL, 0600); if (fd >= 0 || errno != EEXIST) return fd; }
    errno = EEXIST; return -1;
}
int mkostemp64(char* t, int fl) { return mkostemp(t, fl); }
int mkstemp(char* t) { return mkostemp(t, 0); }
int mkstemp64(char* t) { return mkostemp(t, 0); }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (!mine(fd)) return (int)syscall(SYS_close, fd); if (!getfd(fd) && fd < FD0) return (int)syscall(SYS_close, fd); return v_close(fd); }
ssize_t read(int fd, void* b, size_t n) {
    if (!mine(fd) || fd < FD0) return syscall(SYS_read, fd, b, n);
    FD* d = getfd(fd); if (!d) { errno = EBADF; return -1; }
    if (d->kind == 2) return v_sread(d, b, n);
    yield_point(); return v_fread(d, b, n, nullptr);
}
ssize_t write(int fd, const void* b, size_t n) {
    if (!mine(fd) || fd < FD0) return syscall(SYS_write, fd, b, n);
    FD* d = getfd(fd); if (!d) { errno = EBADF; return -1; }
    if (d->kind == 2) return v_swrite(d, b, n);
    yield_point(); return v_fwrite(d, b, n, nullptr);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!mine(fd) || fd < FD0) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (!mine(fd) || fd < FD0) return syscall(SYS_pread64, fd, b, n, o); FD* d = getfd(fd); if (!d || d->kind != 1) { errno = EBADF; return -1; } long off = o; return v_fread(d, b, n, &off); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (!mine(fd) || fd < FD0) return syscall(SYS_pwrite64, fd, b, n, o); FD* d = getfd(fd); if (!d || d->kind != 1) { errno = EBADF; return -1; } long off = o; return v_fwrite(d, b, n, &off); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t recv(int fd, void* b, size_t n, int fl) { if (!mine(fd)) return syscall(SYS_recvfrom, fd, b, n, fl, 0, 0); return read(fd, b, n); }
ssize_t send(int fd, const void* b, size_t n, int fl) { if (!mine(fd)) return syscall(SYS_sendto, fd, b, n, fl, 0, 0); return write(fd, b, n); }
off_t lseek(int fd, off_t o, int w) {
    if (!mine(fd) || fd < FD0) return syscall(SYS_lseek, fd, o, w);
    FD* d = getfd(fd); if (!d) { errno = EBADF; return -1; }
    if (d->kind != 1) { errno = ESPIPE; return -1; }
    Fault* ft = fault_at(C_ANY); if (ft && ft->kind == F_CRASH) do_crash();
    long n = w == SEEK_SET ? o : w == SEEK_CUR ? d->off + o : sh->files[d->ino].size + o;
    if (n < 0) { errno = EINVAL; count_sys(5, n, -1); return -1; }
    d->off = n; count_sys(5, n, fd); return n;
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int fstat(int fd, struct stat* st) {
    if (!mine(fd) || fd < FD0) return (int)syscall(SYS_fstat, fd, st);
    FD* d = getfd(fd); if (!d) { errno = EBADF; return -1; }
    if (d->kind == 2) { memset(st, 0, sizeof *st); st->st_mode = S_IFSOCK | 0777; return 0; }
    return fill_stat(d->ino, st);
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st) { if (!g_on) return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); return v_stat(p, st); }
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat(const char* p, struct stat* st) { if (!g_on) return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); return v_stat(p, st, false); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int access(const char* p, int m) { if (!g_on) return (int)syscall(SYS_faccessat, AT_FDCWD, p, m); struct stat st; if (v_stat(p, &st)) return -1;
    if ((m & R_OK && !(st.st_mode & 0400)) || (m & W_OK && !(st.st_mode & 0200)) || (m & X_OK && !(st.st_mode & 0100))) { errno = EACCES; return -1; } return 0; }
int unlink(const char* p) {
    if (!g_on) return (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0);
    if (meta_fault()) return -1;
    int i = ffind(rs(p, false)); if (i < 0) { errno = ENOENT; return -1; }
    if (sh->files[i].isdir) { errno = EISDIR; return -1; }
    sh->files[i].linked = 0; count_sys(6, i, 0); return 0;
}
int rmdir(const char* p) {
    if (!g_on) return (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
    if (meta_fault()) return -1;
    std::string q = rs(p, false); int i = ffind(q); if (i < 0) { errno = ENOENT; return -1; } if (!sh->files[i].isdir) { errno = ENOTDIR; return -1; }
    for (auto& x : fs_list()) if (x.compare(0, q.size() + 1, q + "/") == 0) { errno = ENOTEMPTY; return -1; }
    if (g_cwd == q) { errno = EBUSY; return -1; } // the current directory stays
    sh->files[i].linked = 0; sh->files[i].used = 0; return 0;
}
int remove(const char* p) { if (!g_on) { REAL(int, "remove", const char*); return real(p); } int i = ffind(rs(p, false)); if (i >= 0 && sh->files[i].isdir) return rmdir(p); return unlink(p); }
int rename(const char* a, const char* b) {
    if (!g_on) return (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
    if (meta_fault()) return -1;
    std::string f = rs(a, false); int i = ffind(f); if (i < 0) { errno = ENOENT; return -1; }
    std::string t = rs(b, false); if (t.empty()) { errno = *b ? ELOOP : ENOENT; return -1; } if (t == "/" || t == "/sim" || t == "/tmp") { errno = EBUSY; return -1; } int j = ffind(t); if (j == i) return 0;
    if (!parent_ok(t)) { errno = ENOENT; return -1; }
    if (t.size() >= sizeof sh->files[0].name) { errno = ENAMETOOLONG; return -1; }
    if (sh->files[i].isdir) {
        if (t.compare(0, f.size() + 1, f + "/") == 0) { errno = EINVAL; return -1; }
        if (j >= 0 && !sh->files[j].isdir) { errno = ENOTDIR; return -1; }
    } else if (j >= 0 && sh->files[j].isdir) { errno = EISDIR; return -1; }
    if (j >= 0 && sh->files[j].isdir) for (auto& x : fs_list()) if (x.compare(0, t.size() + 1, t + "/") == 0) { errno = ENOTEMPTY; return -1; }
    if (sh->files[i].isdir) for (auto& x : fs_list()) if (x.compare(0, f.size() + 1, f + "/") == 0) {
        std::string y = t + x.substr(f.size()); if (y.size() >= sizeof sh->files[0].name) { errno = ENAMETOOLONG; return -1; }
    }
    if (j >= 0 && g_cwd == t) { errno = EBUSY; return -1; }
    if (j >= 0) { sh->files[j].linked = 0; }
    if (sh->files[i].isdir && (g_cwd + "/").compare(0, f.size() + 1, f + "/") == 0) g_cwd = t + g_cwd.substr(f.size());
    if (sh->files[i].isdir) for (int k = 0; k < MAXF; k++) { SFile& x = sh->files[k]; if (!x.used || !x.linked || strncmp(x.name, (f + "/").c_str(), f.size() + 1)) continue; strcpy(x.name, (t + std::string(x.name).substr(f.size())).c_str()); }
    strcpy(sh->files[i].name, t.c_str()); count_sys(7, i, j); return 0;
}
int mkdir(const char* p, mode_t m) {
    if (!g_on) return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m);
    if (meta_fault()) return -1;
    std::string q = rs(p, false); if (q.empty() || !*p) { errno = *p ? ELOOP : ENOENT; return -1; } if (ffind(q) >= 0 || q == "/sim" || q == "/" || q == "/tmp") { errno = EEXIST; return -1; } if (!parent_ok(q)) { errno = ENOENT; return -1; }
    int i = fcreate(q); if (i < 0) return -1; sh->files[i].isdir = 1; sh->files[i].mode = m & 0755; return 0;
}
int ftruncate(int fd, off_t n) {
    if (!mine(fd) || fd < FD0) return (int)syscall(SYS_ftruncate, fd, n);
    FD* d = getfd(fd); if (!d || d->kind != 1) { errno = EBADF; return -1; }
    Fault* ft = fault_at(C_ANY); if (ft && ft->kind == F_CRASH) do_crash();
    if (n > FCAP) { errno = EFBIG; return -1; }
    fresize(d->ino, n); count_sys(8, n, fd); return 0;
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) { if (!g_on) return (int)syscall(SYS_truncate, p, n); int i = ffind(rs(p)); if (i < 0) { errno = ENOENT; return -1; } fresize(i, n); return 0; }
int fsync(int fd) { if (!mine(fd) || fd < FD0) return (int)syscall(SYS_fsync, fd); return 0; }
int fdatasync(int fd) { return fsync(fd); }
int isatty(int fd) { if (g_on) { errno = ENOTTY; return 0; } REAL(int, "isatty", int); return real(fd); }
int dup(int fd) { if (!mine(fd) || fd < FD0) return (int)syscall(SYS_dup, fd); FD* d = getfd(fd); if (!d) { errno = EBADF; return -1; } int k = newfd(); if (k < 0) return -1; fds[k] = *d; return k + FD0; }
int fcntl(int fd, int cmd, ...) {
    va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
    if (!mine(fd) || fd < FD0) return (int)syscall(SYS_fcntl, fd, cmd, arg);
    FD* d = getfd(fd); if (!d) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return d->kind == 2 ? (O_RDWR | (d->s->nonblock ? O_NONBLOCK : 0)) : d->flags;
    if (cmd == F_SETFL) { if (d->kind == 2) d->s->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
    if (cmd == F_DUPFD) return dup(fd);
    return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); return fcntl(fd, cmd, arg); }
char* getcwd(char* b, size_t n) {
    if (!g_on) { REAL(char*, "getcwd", char*, size_t); return real(b, n); }
    if (!b) { b = (char*)malloc(n ? n : g_cwd.size() + 1); }
    if (meta_fault()) return nullptr; if (n && n <= g_cwd.size()) { errno = ERANGE; return nullptr; } strcpy(b, g_cwd.c_str()); return b;
}
int chdir(const char* p) { if (!g_on) return (int)syscall(SYS_chdir, p); struct stat st; if (v_stat(p, &st)) return -1; if (!S_ISDIR(st.st_mode)) { errno = ENOTDIR; return -1; } g_cwd = rs(p); return 0; }
char* realpath(const char* p, char* out) {
    if (!g_on) { REAL(char*, "realpath", const char*, char*); return real(p, out); }
    std::string q = rs(p); struct stat st; if (v_stat(p, &st)) return nullptr;
    if (!out) out = (char*)malloc(4096); strcpy(out, q.c_str()); return out;
}
ssize_t readlink(const char* p, char* b, size_t n) { if (!g_on) return syscall(SYS_readlinkat, AT_FDCWD, p, b, n);
    if (meta_fault()) return -1;
    int i = ffind(rs(p, false)); if (i < 0) { errno = ENOENT; return -1; } if (sh->files[i].symlink != 1) { errno = EINVAL; return -1; }
    size_t m = std::min<size_t>(n, sh->files[i].size); memcpy(b, fptr(i), m); return m; }
int symlink(const char* a, const char* b) { if (!g_on) return (int)syscall(SYS_symlinkat, a, AT_FDCWD, b);
    if (meta_fault()) return -1;
    if (!*a) { errno = ENOENT; return -1; }
    std::string q = rs(b, false); if (q.empty() || !*b) { errno = *b ? ELOOP : ENOENT; return -1; } if (ffind(q) >= 0 || q == "/sim" || q == "/" || q == "/tmp") { errno = EEXIST; return -1; } if (!parent_ok(q)) { errno = ENOENT; return -1; }
    int i = fcreate(q); if (i < 0) return -1; sh->files[i].symlink = 1; size_t n = strlen(a); fresize(i, n); memcpy(fptr(i), a, n); return 0; }
int chmod(const char* p, mode_t m) { if (!g_on) return (int)syscall(SYS_fchmodat, AT_FDCWD, p, m); int i = ffind(rs(p)); if (i < 0) { errno = ENOENT; return -1; } sh->files[i].mode = m; return 0; }
int system(const char* c) { if (!g_on) { REAL(int, "system", const char*); return real(c); } probe("system()"); return sim::system_hook ? sim::system_hook(c) : -1; }
FILE* fopen(const char* p, const char* m) { if (!g_on) { REAL(FILE*, "fopen", const char*, const char*); return real(p, m); } return v_fopen(p, m); }
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
FILE* fdopen(int fd, const char* m) { if (!mine(fd) || fd < FD0) { REAL(FILE*, "fdopen", int, const char*); return real(fd, m); } return v_fdopen(fd, m); }
FILE* freopen(const char* p, const char* m, FILE* f) { if (!g_on) { REAL(FILE*, "freopen", const char*, const char*, FILE*); return real(p, m, f); } return f; }
FILE* freopen64(const char* p, const char* m, FILE* f) { return freopen(p, m, f); }

// ---- time
time_t time(time_t* t) { if (!g_on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; } Fault* ft = fault_at(C_CLK); if (ft) sh->clock += ft->arg * 1000000l; time_t v = 1700000000 + sh->clock / 1000000000; if (t) *t = v; return v; }
int gettimeofday(struct timeval* tv, void* tz) { if (!g_on) return (int)syscall(SYS_gettimeofday, tv, tz); Fault* ft = fault_at(C_CLK); if (ft) sh->clock += ft->arg * 1000000l; tv->tv_sec = 1700000000 + sh->clock / 1000000000; tv->tv_usec = (sh->clock % 1000000000) / 1000; return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) { if (!g_on) return (int)syscall(SYS_clock_gettime, c, ts); ts->tv_sec = (c == CLOCK_REALTIME ? 1700000000 : 1000) + sh->clock / 1000000000; ts->tv_nsec = sh->clock % 1000000000; return 0; }
static void v_sleep(int64_t ns) { int64_t dl = sh->clock + ns; block_until([] { return false; }, dl); }
unsigned sleep(unsigned s) { if (!g_on) { struct timespec ts = { (time_t)s, 0 }; syscall(SYS_nanosleep, &ts, 0); return 0; } v_sleep(s * 1000000000l); return 0; }
int usleep(useconds_t u) { if (!g_on) { struct timespec ts = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; syscall(SYS_nanosleep, &ts, 0); return 0; } v_sleep(u * 1000l); return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { if (!g_on) return (int)syscall(SYS_nanosleep, a, b); v_sleep(a->tv_sec * 1000000000l + a->tv_nsec); return 0; }
int sched_yield(void) { if (!g_on) return (int)syscall(SYS_sched_yield); yield_point(); block_until([] { return true; }, -1); return 0; }
pid_t getpid(void) { if (!g_on) return (pid_t)syscall(SYS_getpid); return 4242 + sh->inc; }
int gethostname(char* b, size_t n) { if (!g_on) { REAL(int, "gethostname", char*, size_t); return real(b, n); } snprintf(b, n, "simhost"); return 0; }
uid_t getuid(void) { if (!g_on) return (uid_t)syscall(SYS_getuid); return 1000; }
uid_t geteuid(void) { if (!g_on) return (uid_t)syscall(SYS_geteuid); return 1000; }

// ---- sockets
int socket(int dom, int type, int pr) { if (!g_on) return (int)syscall(SYS_socket, dom, type, pr); int k = newfd(); if (k < 0) return -1; fds[k].kind = 2; fds[k].s = std::make_shared<Sock>(); fds[k].flags = O_RDWR; count_sys(10, k, 0); return k + FD0; }
static int port_used(int p) { for (auto& x : fds) if (x.kind == 2 && x.s && x.s->port == p && x.s->st <= 1) return 1; return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t l) {
    if (!mine(fd)) return (int)syscall(SYS_bind, fd, a, l);
    FD* d = getfd(fd); if (!d || d->kind != 2) { errno = EBADF; return -1; }
    int p = ntohs(((const struct sockaddr_in*)a)->sin_port);
    if (p == 0) { do p = next_port++; while (port_used(p)); }
    else if (port_used(p)) { errno = EADDRINUSE; return -1; }
    d->s->port = p; return 0;
}
int listen(int fd, int n) { if (!mine(fd)) return (int)syscall(SYS_listen, fd, n); FD* d = getfd(fd); if (!d || d->kind != 2) { errno = EBADF; return -1; } d->s->st = 1; return 0; }
int accept(int fd, struct sockaddr* a, socklen_t* l) {
    if (!mine(fd)) return (int)syscall(SYS_accept, fd, a, l);
    FD* d = getfd(fd); if (!d || d->kind != 2) { errno = EBADF; return -1; }
    std::shared_ptr<Sock> s = d->s;
    yield_point();
    Fault* ft = fault_at(C_SR | C_ANY); if (ft) { if (ft->kind == F_CRASH) do_crash(); if (ft->kind == F_SEINTR_R) { errno = EINTR; return -1; } }
    if (s->backlog.empty()) { if (s->nonblock) { errno = EAGAIN; return -1; } block_until([&] { return !s->backlog.empty() || s->st == 3; }, -1); }
    if (s->backlog.empty()) { errno = EBADF; return -1; }
    int k = s->backlog.front(); s->backlog.pop_front();
    if (a) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(fds[k].s->peerport); in.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; }
    fds[k].flags = O_RDWR; count_sys(11, k, 0);
    return k + FD0;
}
int connect(int fd, const struct sockaddr* a, socklen_t l) {
    if (!mine(fd)) return (int)syscall(SYS_connect, fd, a, l);
    FD* d = getfd(fd); if (!d || d->kind != 2) { errno = EBADF; return -1; }
    yield_point();
    Fault* ft = fault_at(C_CONN | C_ANY); if (ft) { if (ft->kind == F_CRASH) do_crash(); if (ft->kind == F_CONNREFUSED) { errno = ft->arg ? (int)ft->arg : ECONNREFUSED; count_sys(14, -1, errno); return -1; } }
    int p = ntohs(((const struct sockaddr_in*)a)->sin_port);
    Sock* ls = nullptr; for (auto& x : fds) if (x.kind == 2 && x.s && x.s->st == 1 && x.s->port == p) ls = x.s.get();
    if (!ls) { errno = ECONNREFUSED; count_sys(14, -1, errno); return -1; }
    int k = newfd(); if (k < 0) return -1;
    auto s2 = std::make_shared<Sock>(); fds[k].kind = 2; fds[k].s = s2; fds[k].flags = O_RDWR;
    auto p1 = std::make_shared<Pipe>(), p2 = std::make_shared<Pipe>();
    d->s->rx = p1; d->s->tx = p2; s2->rx = p2; s2->tx = p1; d->s->st = s2->st = 2; if (!d->s->port) d->s->port = next_port++; s2->port = p; s2->peerport = d->s->port; d->s->peerport = p;
    ls->backlog.push_back(k); count_sys(14, k, p);
    return 0;
}
int socketpair(int dom, int type, int pr, int sv[2]) {
    if (!g_on) return (int)syscall(SYS_socketpair, dom, type, pr, sv);
    int k = newfd(); fds[k].kind = 2; int m = newfd(); fds[m].kind = 2;
    auto a = std::make_shared<Sock>(), b = std::make_shared<Sock>(); auto p1 = std::make_shared<Pipe>(), p2 = std::make_shared<Pipe>();
    a->rx = p1; a->tx = p2; b->rx = p2; b->tx = p1; a->st = b->st = 2; fds[k].s = a; fds[m].s = b; fds[k].flags = fds[m].flags = O_RDWR;
    sv[0] = k + FD0; sv[1] = m + FD0; return 0;
}
int shutdown(int fd, int how) { if (!mine(fd)) return (int)syscall(SYS_shutdown, fd, how); FD* d = getfd(fd); if (!d || d->kind != 2 || d->s->st != 2) { errno = ENOTCONN; return -1; } if (how != SHUT_RD) d->s->tx->eof = true; if (how != SHUT_WR) d->s->rx->rclosed = true; return 0; }
int setsockopt(int fd, int a, int b, const void* c, socklen_t l) { if (!mine(fd)) return (int)syscall(SYS_setsockopt, fd, a, b, c, l); return 0; }
int getsockopt(int fd, int a, int b, void* c, socklen_t* l) { if (!mine(fd)) return (int)syscall(SYS_getsockopt, fd, a, b, c, l); if (c && l && *l >= 4) { *(int*)c = (b == SO_ERROR) ? 0 : 131072; *l = 4; } return 0; }
int getsockname(int fd, struct sockaddr* a, socklen_t* l) { if (!mine(fd)) return (int)syscall(SYS_getsockname, fd, a, l); FD* d = getfd(fd); if (!d || d->kind != 2) { errno = EBADF; return -1; } struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(d->s->port); in.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0; }
int getpeername(int fd, struct sockaddr* a, socklen_t* l) { if (!mine(fd)) return (int)syscall(SYS_getpeername, fd, a, l); FD* d = getfd(fd); if (!d || d->kind != 2) { errno = EBADF; return -1; } struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(d->s->peerport); in.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0; }
static struct hostent g_he; static char* g_addrs[2]; static uint32_t g_ad; static char* g_al[1];
struct hostent* gethostbyname(const char* n) { if (!g_on) { REAL(struct hostent*, "gethostbyname", const char*); return real(n); } g_ad = htonl(0x7f000001); g_addrs[0] = (char*)&g_ad; g_addrs[1] = nullptr; g_al[0] = nullptr; g_he.h_name = (char*)"simhost"; g_he.h_aliases = g_al; g_he.h_addrtype = AF_INET; g_he.h_length = 4; g_he.h_addr_list = g_addrs; return &g_he; }
struct hostent* gethostbyaddr(const void* a, socklen_t l, int t) { if (!g_on) { REAL(struct hostent*, "gethostbyaddr", const void*, socklen_t, int); return real(a, l, t); } return gethostbyname("x"); }
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
    if (!g_on) { struct timespec ts, *pt = nullptr; if (tv) { ts.tv_sec = tv->tv_sec; ts.tv_nsec = tv->tv_usec * 1000; pt = &ts; } return (int)syscall(SYS_pselect6, n, r, w, e, pt, nullptr); }
    yield_point();
    if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec >= 1000000)) { errno = EINVAL; count_sys(15, -1, errno); return -1; }
    fd_set ir, iw; FD_ZERO(&ir); FD_ZERO(&iw); if (r) ir = *r; if (w) iw = *w;
    for (int i = 0; i < n; i++) if ((FD_ISSET(i, &ir) || FD_ISSET(i, &iw)) && i >= FD0 && !getfd(i)) { errno = EBADF; return -1; }
    Fault* ft = fault_at(C_SEL | C_ANY); if (ft) { if (ft->kind == F_CRASH) do_crash(); if (ft->kind == F_SEINTR_SEL) { errno = EINTR; count_sys(15, -1, EINTR); return -1; } if (ft->kind == F_SDELAY) { for (int i = 0; i < n; i++) if (FD_ISSET(i, &ir)) { FD* d = getfd(i); if (d && d->kind == 2 && d->s->rx) d->s->rx->after = sh->clock + ft->arg * 1000000l; } } }
    auto rdy = [&](int fd) -> bool { FD* d = getfd(fd); if (!d) return true; if (d->kind == 1) return true; Sock& s = *d->s; if (s.st == 1) return !s.backlog.empty(); if (s.st == 2) return s.rx->rst || s.rx->eof || (!s.rx->d.empty() && sh->clock >= s.rx->after); return true; };
    auto wdy = [&](int fd) -> bool { FD* d = getfd(fd); if (!d) return true; if (d->kind == 1) return true; Sock& s = *d->s; if (s.st == 2) return s.tx->rst || s.tx->rclosed || (long)s.tx->d.size() < g_sockbuf; return true; };
    auto any = [&] { for (int i = 0; i < n; i++) { if (FD_ISSET(i, &ir) && rdy(i)) return true; if (FD_ISSET(i, &iw) && wdy(i)) return true; } return false; };
    int64_t dl = tv ? sh->clock + tv->tv_sec * 1000000000l + tv->tv_usec * 1000l : -1;
    while (!any() && (dl < 0 || sh->clock < dl)) {
        int64_t w1 = dl;
        for (int i = 0; i < n; i++) if (FD_ISSET(i, &ir)) { FD* d = getfd(i); if (d && d->kind == 2 && d->s->rx && sh->clock < d->s->rx->after && (w1 < 0 || d->s->rx->after < w1)) w1 = d->s->rx->after; }
        block_until(any, w1);
    }
    int c = 0;
    for (int i = 0; i < n; i++) { if (r && FD_ISSET(i, r)) { if (rdy(i)) c++; else FD_CLR(i, r); } if (w && FD_ISSET(i, w)) { if (wdy(i)) c++; else FD_CLR(i, w); } }
    if (e) FD_ZERO(e);
    if (tv) { int64_t left = std::max<int64_t>(0, dl - sh->clock); tv->tv_sec = left / 1000000000; tv->tv_usec = (left % 1000000000) / 1000; }
    count_sys(15, c, 0);
    return c;
}
int glob(const char* pat, int fl, int (*ef)(const char*, int), glob_t* g) {
    if (!g_on) { REAL(int, "glob", const char*, int, int (*)(const char*, int), glob_t*); return real(pat, fl, ef, g); }
    std::string p = norm(pat); std::vector<std::string> m;
    extern int fnmatch(const char*, const char*, int);
    for (auto& x : fs_list()) if (*pat && fnmatch(p.c_str(), x.c_str(), 1) == 0 && (pat[0] == '/' || x.compare(0, g_cwd.size() + 1, g_cwd + "/") == 0)) m.push_back(pat[0] == '/' ? x : x.substr(g_cwd.size() + 1));
    memset(g, 0, sizeof *g); if (m.empty()) return GLOB_NOMATCH;
    g->gl_pathc = m.size(); g->gl_pathv = (char**)calloc(m.size() + 1, sizeof(char*)); for (size_t i = 0; i < m.size(); i++) g->gl_pathv[i] = strdup(m[i].c_str());
    return 0;
}
void globfree(glob_t* g) { if (!g_on) { REAL(void, "globfree", glob_t*); real(g); return; } for (size_t i = 0; i < g->gl_pathc; i++) free(g->gl_pathv[i]); free(g->gl_pathv); }
} // extern C
