#include "internal.h"
#include "fs.h"
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/uio.h>
#include <sys/stat.h>
using namespace sim;
namespace simfs {
std::map<std::string, P> files; std::set<std::string> dirs, readonly;
std::function<void(const char *, const std::string &)> hook;
Faults faults; uint64_t crash_in = 0; bool crashed = false; uint64_t failed = 0, ops = 0; std::map<std::string, uint64_t> failed_on; uint64_t versions = 0;
struct H { P node; std::string path; size_t pos = 0; bool wr = false, app = false, used = false, bad = false; FILE *f = nullptr; };
static H tab[64]; static const int BASE = 10000;
static bool mine(const char *p) { return p && !strncmp(p, "/simfs", 6) && (p[6] == '/' || !p[6]); }
static std::string norm(const char *p) { std::string o; for (; *p; p++) if (!(*p == '/' && !o.empty() && o.back() == '/')) o += *p; while (o.size() > 1 && o.back() == '/') o.pop_back(); return o; }
static std::string dirname(const std::string &p) { size_t i = p.rfind('/'); return i == std::string::npos ? "" : p.substr(0, i); }
uint64_t bytes() { uint64_t n = 0; for (auto &f : files) n += f.second->data.size(); return n; }
bool opened(const std::string &path) { for (H &h : tab) if (h.used && h.wr && h.path == path) return true; return false; }
static void changed(const char *op, const std::string &p) { if (hook) { Harness h; hook(op, p); } }
// one disk operation: may be slow, and another thread may run before and after it
static void enter(const char *what) { ops++; sync_point(what); if (crash_in && !--crash_in) { crashed = faults.dead = true; fault("crash"); log("CRASH in %s", what); } if (faults.slow_us && chance(F, 1, 8)) { fault("slow_disk"); sleep_us(range(F, 1, faults.slow_us)); } }
static int fail(const char *kind, int e, const std::string &p) { failed++; failed_on[p]++; fault(kind); log("disk: %s %s", kind, p.c_str()); errno = e; return -1; }
static bool roll(bool on) { return on && faults.den && chance(F, 1, faults.den); }
static int do_open(const char *path, int flags)
{
    Harness hm;
    std::string p = norm(path); enter("open");
    if (faults.dead) return fail("disk_dead_open", EIO, p);
    bool w = (flags & O_ACCMODE) != O_RDONLY; auto it = files.find(p);
    if (w && roll(faults.open)) { static const int er[] = {ENOSPC, EMFILE, EACCES, EIO}; return fail("open_fails", er[choose(F, 4)], p); }
    if (!dirs.count(dirname(p))) { errno = ENOENT; return -1; }
    if (dirs.count(p)) { errno = EISDIR; return -1; }
    if (it == files.end() && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (it != files.end() && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (w && readonly.count(dirname(p))) { errno = EACCES; return -1; }
    if (it == files.end() && faults.full && chance(F, 1, 2)) return fail("disk_full_create", ENOSPC, p);
    int i = 0; while (i < 64 && tab[i].used) i++; if (i == 64) { errno = EMFILE; return -1; }
    H &h = tab[i]; h = H(); h.used = true; h.path = p; h.wr = w; h.app = flags & O_APPEND;
    bool ch = false;
    if (it == files.end()) { files[p] = std::make_shared<Node>(); it = files.find(p); ch = true; }
    h.node = it->second;
    if (w && (flags & O_TRUNC)) { if (!h.node->data.empty()) ch = true; h.node->data.clear(); h.node->ver = ++versions; }
    log("disk: open %s%s", p.c_str(), w ? flags & O_TRUNC ? " (truncate)" : " (write)" : "");
    if (ch) changed("open", p);
    return BASE + i;
}
static H *hd(int fd) { return fd >= BASE && fd < BASE + 64 && tab[fd - BASE].used ? &tab[fd - BASE] : nullptr; }
static ssize_t do_write(H *h, const char *b, size_t n)
{
    check_access(b, n, false, __builtin_return_address(0)); Harness hm;
    bool was = crashed; enter("write"); if (!was && crashed && n > 1 && !faults.full) { n = choose(F, n); size_t pos = h->app ? h->node->data.size() : h->pos; std::string &d = h->node->data; if (n && d.size() < pos + n) d.resize(pos + n); memcpy(&d[pos], b, n); h->node->ver = ++versions; changed("write", h->path); }   // killed in the middle
    if (!h->wr) { errno = EBADF; return -1; }
    if (faults.dead) { h->bad = true; return fail("disk_dead_write", EIO, h->path); }
    size_t pos = h->app ? h->node->data.size() : h->pos; size_t m = n;
    if (roll(faults.write)) {
        uint32_t k = choose(F, 3); h->bad = true;
        if (k == 0) return fail("write_enospc", ENOSPC, h->path);
        if (k == 1) return fail("write_eio", EIO, h->path);
        m = n > 1 ? choose(F, n) : 0; if (!m) return fail("write_enospc", ENOSPC, h->path); failed++; failed_on[h->path]++; fault("write_torn");   // part of it, then an error
    } else if (faults.full && pos + n > h->node->data.size()) { h->bad = true; return fail("disk_full_write", ENOSPC, h->path); }
    else if (faults.shortw && n > 1 && chance(F, 1, 3)) { m = 1 + choose(F, n - 1); fault("write_short"); }
    std::string &d = h->node->data; if (d.size() < pos + m) d.resize(pos + m); memcpy(&d[pos], b, m); h->node->ver = ++versions; h->pos = pos + m;
    log("disk: write %zu of %zu to %s", m, n, h->path.c_str()); changed("write", h->path);
    return m;
}
static int do_close(H *h)
{
    Harness hm;
    enter("close"); std::string p = h->path; bool bad = false;
    if (h->wr && !faults.dead && roll(faults.close)) { // delayed allocation: the data did not reach the disk
        bad = true; h->node->data.resize(choose(F, h->node->data.size() + 1)); h->node->ver = ++versions; }
    bool dead = faults.dead && h->wr; *h = H();
    if (bad) { fail("close_loses_data", EIO, p); changed("close", p); return -1; }
    if (dead) return fail("disk_dead_close", EIO, p);
    return 0;
}
static ssize_t do_read(H *h, char *b, size_t n) { enter("read"); const std::string &d = h->node->data; if (h->pos >= d.size()) return 0; size_t m = std::min(n, d.size() - h->pos); memcpy(b, &d[h->pos], m); h->pos += m; return m; }
static int64_t do_seek(H *h, int64_t off, int wh) { int64_t p = wh == SEEK_SET ? off : wh == SEEK_CUR ? (int64_t)h->pos + off : (int64_t)h->node->data.size() + off; if (p < 0) { errno = EINVAL; return -1; } h->pos = p; return p; }
static int do_remove(const char *path)
{
    Harness hm;
    std::string p = norm(path); enter("remove");
    if (faults.dead) return fail("disk_dead_remove", EIO, p);
    if (!files.count(p)) { log("disk: remove %s: no such file", p.c_str()); errno = ENOENT; return -1; }
    if (roll(faults.remove)) return fail("remove_fails", EACCES, p);
    if (readonly.count(dirname(p))) { errno = EACCES; return -1; }
    files.erase(p); log("disk: remove %s", p.c_str()); changed("remove", p); return 0;
}
static int do_rename(const char *from, const char *to)
{
    Harness hm;
    std::string a = norm(from), b = norm(to); enter("rename");
    if (faults.dead) return fail("disk_dead_rename", EIO, b);
    if (!files.count(a) || !dirs.count(dirname(b))) { errno = ENOENT; return -1; }
    if (roll(faults.rename)) return fail("rename_fails", EIO, b);
    if (readonly.count(dirname(b))) { errno = EACCES; return -1; }
    P n = files[a]; files.erase(a); files[b] = n; log("disk: rename %s to %s", a.c_str(), b.c_str()); changed("rename", b); return 0;
}
// stdio on top of the descriptors
static ssize_t ck_read(void *c, char *b, size_t n) { return do_read((H *)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { size_t o = 0; while (o < n) { ssize_t m = do_write((H *)c, b + o, n - o); if (m < 0) return o ? o : 0; o += m; } return o; }
static int ck_seek(void *c, off64_t *o, int w) { int64_t p = do_seek((H *)c, *o, w); if (p < 0) return -1; *o = p; return 0; }
static int ck_close(void *c) { return do_close((H *)c); }
static FILE *do_fopen(const char *path, const char *mode)
{
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR; if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = do_open(path, fl); if (fd < 0) return nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close}; H *h = &tab[fd - BASE];
    FILE *f = fopencookie(h, mode, io); h->f = f; return f;
}
static int fd_of(FILE *f) { for (int i = 0; i < 64; i++) if (tab[i].used && tab[i].f == f) return BASE + i; return -1; }
static int do_stat(const char *path, struct stat *s)
{
    Harness hm;
    std::string p = norm(path); memset(s, 0, sizeof *s); if (dirs.count(p)) { s->st_mode = S_IFDIR | 0755; return 0; }
    auto it = files.find(p); if (it == files.end()) { errno = ENOENT; return -1; }
    s->st_mode = S_IFREG | 0644; s->st_size = it->second->data.size(); s->st_nlink = 1; return 0;
}
}
using namespace simfs;
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
#define ON (sim::active && sim::fiber_ctx())
extern "C" {
FILE *fopen(const char *p, const char *m) { if (ON && mine(p)) return do_fopen(p, m); REAL(FILE *, fopen, const char *, const char *); return real(p, m); }
FILE *fopen64(const char *p, const char *m) { if (ON && mine(p)) return do_fopen(p, m); REAL(FILE *, fopen64, const char *, const char *); return real(p, m); }
int fileno(FILE *f) { int i = fd_of(f); if (i >= 0) return i; REAL(int, fileno, FILE *); return real(f); }
int open(const char *p, int fl, ...) { int mode = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); } if (ON && mine(p)) return do_open(p, fl); REAL(int, open, const char *, int, ...); return real(p, fl, mode); }
int open64(const char *p, int fl, ...) { int mode = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); } if (ON && mine(p)) return do_open(p, fl); REAL(int, open64, const char *, int, ...); return real(p, fl, mode); }
int creat(const char *p, mode_t m) { if (ON && mine(p)) return do_open(p, O_WRONLY | O_CREAT | O_TRUNC); REAL(int, creat, const char *, mode_t); return real(p, m); }
ssize_t write(int fd, const void *b, size_t n) { if (H *h = hd(fd)) return do_write(h, (const char *)b, n); REAL(ssize_t, write, int, const void *, size_t); return real(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    H *h = hd(fd); if (!h) { REAL(ssize_t, writev, int, const struct iovec *, int); return real(fd, v, c); }
    std::string s; for (int i = 0; i < c; i++) { check_access(v[i].iov_base, v[i].iov_len, false, __builtin_return_address(0)); s.append((const char *)v[i].iov_base, v[i].iov_len); }
    return do_write(h, s.data(), s.size());
}
ssize_t read(int fd, void *b, size_t n) { if (H *h = hd(fd)) return do_read(h, (char *)b, n); REAL(ssize_t, read, int, void *, size_t); return real(fd, b, n); }
off64_t lseek64(int fd, off64_t o, int w) { if (H *h = hd(fd)) return do_seek(h, o, w); REAL(off64_t, lseek64, int, off64_t, int); return real(fd, o, w); }
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int close(int fd) { if (H *h = hd(fd)) return do_close(h); REAL(int, close, int); return real(fd); }
int fsync(int fd) { if (H *h = hd(fd)) { enter("fsync"); if (faults.dead || roll(faults.close)) return fail("fsync_fails", EIO, h->path); return 0; } REAL(int, fsync, int); return real(fd); }
int fdatasync(int fd) { if (hd(fd)) return fsync(fd); REAL(int, fdatasync, int); return real(fd); }
int ftruncate(int fd, off_t n) { if (H *h = hd(fd)) { enter("truncate"); h->node->data.resize(n); h->node->ver = ++versions; changed("truncate", h->path); return 0; } REAL(int, ftruncate, int, off_t); return real(fd, n); }
int remove(const char *p) { if (ON && mine(p)) return do_remove(p); REAL(int, remove, const char *); return real(p); }
int unlink(const char *p) { if (ON && mine(p)) return do_remove(p); REAL(int, unlink, const char *); return real(p); }
int rename(const char *a, const char *b) { if (ON && mine(a)) return do_rename(a, b); REAL(int, rename, const char *, const char *); return real(a, b); }
int access(const char *p, int m)
{
    if (!(ON && mine(p))) { REAL(int, access, const char *, int); return real(p, m); }
    std::string q = norm(p); if (!dirs.count(q) && !files.count(q)) { errno = ENOENT; return -1; }
    if ((m & W_OK) && readonly.count(dirs.count(q) ? q : dirname(q))) { errno = EACCES; return -1; } return 0;
}
int stat(const char *p, struct stat *s) { if (ON && mine(p)) return do_stat(p, s); REAL(int, stat, const char *, struct stat *); return real(p, s); }
int fstat(int fd, struct stat *s) { if (H *h = hd(fd)) return do_stat(h->path.c_str(), s); REAL(int, fstat, int, struct stat *); return real(fd, s); }
int isatty(int fd) { if (hd(fd)) { errno = ENOTTY; return 0; } REAL(int, isatty, int); return real(fd); }
}
