// The socket calls of the code under test, answered by the simulated network.
#include "internal.h"
#include "net.h"
#include <errno.h>
#include <string.h>
#include <signal.h>
#include <stdarg.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <poll.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
using namespace sim;
namespace simnet {
std::map<int, Sock> fds; std::vector<std::shared_ptr<Conn>> waiting; uint32_t fault_den, eintr_den, short_den; uint64_t failed; int accepted_total; std::function<void(const char *)> on_kill;
static int ids; static const int BASE = 900, TOP = 1024;
void clear() { fds.clear(); std::vector<std::shared_ptr<Conn>>().swap(waiting); fault_den = eintr_den = short_den = 0; failed = 0; accepted_total = 0; ids = 0; on_kill = nullptr; }
static Sock *listener(int port) { for (auto &f : fds) if (f.second.listening && f.second.port == port) return &f.second; return nullptr; }
std::shared_ptr<Conn> connect(int port)
{
    Sock *l = listener(port); if (!l || waiting.size() > l->backlog) { if (l) probe("backlog_full"); return nullptr; }
    auto c = std::make_shared<Conn>(); c->id = ++ids; waiting.push_back(c); return c;
}
void client_send(Conn &c, const std::string &s) { if (c.srvClosed) { c.rstOut = true; c.lost += s.size(); return; } c.in += s; }
std::string client_read(Conn &c, size_t max) { size_t n = std::min(max, c.out.size()); std::string s = c.out.substr(0, n); c.out.erase(0, n); return s; }
void client_shutdown(Conn &c) { c.finIn = true; }
void client_close(Conn &c) { if (!c.out.empty()) c.rstIn = true; c.finIn = true; c.gone = true; }
void client_reset(Conn &c) { c.rstIn = true; c.gone = true; c.in.clear(); c.out.clear(); }
int conn_fds() { int n = 0; for (auto &f : fds) n += !!f.second.c; return n; }
static void enter(const char *w) { sync_point(w); }
static int fail(const char *what, int e) { failed++; fault(what); errno = e; return -1; }
static int refuse(int e) { errno = e; return -1; }
static Sock &sock(int fd, const char *call) { auto it = fds.find(fd); if (it == fds.end()) violation("invalid-descriptor", "%s on descriptor %d, which is not open", call, fd); return it->second; }
static bool interrupted(const char *w) { if (eintr_den && chance(F, 1, eintr_den)) { fault(w); errno = EINTR; return true; } return false; }
static int newfd() { int fd = BASE; while (fds.count(fd)) fd++; return fd < TOP ? fd : -1; }
static bool readable(Sock &s) { if (s.listening) return !waiting.empty(); if (s.c) return !s.c->in.empty() || s.c->finIn || s.c->rstIn; return false; }
static bool writable(Sock &s) { return s.c && (s.c->out.size() < s.c->window || s.c->gone || s.c->rstIn); }
static bool await(int fd, const char *call, bool (*ready)(Sock &), int64_t timeout_ns)
{
    int64_t end = timeout_ns ? now_ns() + timeout_ns : INT64_MAX; for (;;) { if (ready(sock(fd, call))) return true; if (now_ns() >= end) return false; int64_t d = std::min<int64_t>(end - now_ns(), 2000000); sleep_us(d / 1000 + 1); }
}
static void pipe_signal(int flags)
{
    if (flags & MSG_NOSIGNAL) return; struct sigaction a; memset(&a, 0, sizeof a); sigaction(SIGPIPE, nullptr, &a); if (a.sa_handler != SIG_DFL) return; sigset_t m; sigemptyset(&m); sigprocmask(SIG_BLOCK, nullptr, &m); if (sigismember(&m, SIGPIPE)) return;
    violation("server-killed", "writing to a client that has gone kills the server with SIGPIPE");
}
static ssize_t do_recv(int fd, char *b, size_t n, int flags, void *pc)
{
    Harness h; enter("recv"); Sock *s = &sock(fd, "read"); if (!s->c) return refuse(ENOTCONN); if (n) check_access(b, n, true, pc); if (interrupted("interrupted_read")) return -1;
    if (!readable(*s)) { if (s->nonblock || (flags & MSG_DONTWAIT)) return refuse(EAGAIN); if (!await(fd, "read", readable, s->rcvto)) { probe("read_timeout"); return refuse(EAGAIN); } s = &sock(fd, "read"); }
    Conn &c = *s->c; if (c.rstIn) { if (!c.rstSeen) { c.rstSeen = true; c.in.clear(); fault("connection_reset"); return refuse(ECONNRESET); } return 0; }
    if (c.in.empty()) return 0; size_t m = std::min(n, c.in.size()); if (m > 1 && short_den && chance(F, 1, short_den)) { fault("short_read"); m = 1 + choose(F, m - 1); }
    if ((flags & MSG_WAITALL) && m < n && !c.finIn) probe("waitall"); memcpy(b, c.in.data(), m); if (!(flags & MSG_PEEK)) { c.in.erase(0, m); c.read += m; } return m;
}
static ssize_t do_send(int fd, const char *b, size_t n, int flags, void *pc)
{
    Harness h; enter("send"); Sock *s = &sock(fd, "write"); if (!s->c) return refuse(ENOTCONN); if (n) check_access(b, n, false, pc); if (interrupted("interrupted_write")) return -1; size_t done = 0;
    int64_t end = s->sndto ? now_ns() + s->sndto : INT64_MAX;
    while (true) {
        s = &sock(fd, "write"); Conn &c = *s->c; if (s->c->srvShut) { pipe_signal(flags); return refuse(EPIPE); }
        if (c.rstIn) { if (done) return done; if (!c.rstSeen) { c.rstSeen = true; fault("connection_reset"); return refuse(c.finIn ? EPIPE : ECONNRESET); } fault("write_to_gone_client"); pipe_signal(flags); return refuse(EPIPE); }
        if (c.gone) { c.rstIn = true; c.rstSeen = true; c.lost += n - done; c.written += n - done; fault("write_to_gone_client"); return n; }   // it answers with a reset
        size_t room = c.window > c.out.size() ? c.window - c.out.size() : 0, m = std::min(room, n - done);
        if (m) { c.out.append(b + done, m); c.written += m; done += m; } if (done == n) return n;
        if (s->nonblock || (flags & MSG_DONTWAIT)) return done ? (ssize_t)done : refuse(EAGAIN);
        if (done && short_den && chance(F, 1, short_den * 2)) { fault("short_write"); return done; }              // a signal arrives
        fault("full_window"); if (!await(fd, "write", writable, end == INT64_MAX ? 0 : std::max<int64_t>(1, end - now_ns()))) { probe("write_timeout"); return done ? (ssize_t)done : refuse(EAGAIN); }
    }
}
static int do_accept(int fd, bool nb)
{
    Harness h; enter("accept"); Sock *s = &sock(fd, "accept"); if (!s->listening) return refuse(EINVAL); if (interrupted("interrupted_accept")) return -1;
    if (waiting.empty()) { if (s->nonblock) return refuse(EAGAIN); probe("accept_blocks"); await(fd, "accept", readable, 0); }
    if (fault_den && chance(F, 1, fault_den)) { static const int er[] = {EMFILE, ENFILE, ENOBUFS, ECONNABORTED, EPERM}; int e = er[choose(F, 5)]; if (e == ECONNABORTED || e == EPERM) { waiting.front()->srvClosed = true; waiting.front()->rstOut = true; waiting.front()->closedAt = now_ns(); waiting.erase(waiting.begin()); } return fail("accept_fails", e); }
    auto c = waiting.front(); waiting.erase(waiting.begin()); int f = newfd(); if (f < 0) { c->srvClosed = c->rstOut = true; violation("descriptors-used-up", "connections are never closed: there is no descriptor left"); } c->accepted = true; accepted_total++; Sock n; n.c = c; n.nonblock = nb; fds[f] = n; log("net: connection %d accepted as %d", c->id, f); return f;
}
static int do_close(int fd)
{
    Harness h; enter("close"); if (fd < 0) return refuse(EBADF); auto it = fds.find(fd); if (it == fds.end()) violation("invalid-descriptor", "close of descriptor %d, which is not open", fd); Sock s = it->second; fds.erase(it);
    if (s.c) { Conn &c = *s.c; c.srvClosed = true; c.closedAt = now_ns(); if (!c.in.empty()) { c.rstOut = true; c.in.clear(); probe("closed_with_unread_data"); } log("net: connection %d closed", c.id); }
    if (s.listening) { for (auto &c : waiting) { c->srvClosed = c->rstOut = true; c->closedAt = now_ns(); } waiting.clear(); } return 0;
}
static int ready_set(int nf, fd_set *r, fd_set *w, fd_set *e, bool store)
{
    int n = 0; for (int i = 0; i < nf; i++) { bool a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w), x = e && FD_ISSET(i, e); if (!a && !b && !x) continue; Sock &s = sock(i, "select"); bool ra = a && readable(s), wb = b && writable(s); n += ra + wb; if (store) { if (a && !ra) FD_CLR(i, r); if (b && !wb) FD_CLR(i, w); if (x) FD_CLR(i, e); } } return n;
}
static int do_select(int nf, fd_set *r, fd_set *w, fd_set *e, int64_t to)
{
    Harness h; enter("select"); if (interrupted("interrupted_select")) { return -1; } int64_t end = to < 0 ? INT64_MAX : now_ns() + to;
    for (;;) { int n = ready_set(nf, r, w, e, false); if (n || now_ns() >= end) { ready_set(nf, r, w, e, true); return n; } int64_t d = std::min<int64_t>(end - now_ns(), 2000000); sleep_us(d / 1000 + 1); }
}
static int do_poll(struct pollfd *p, nfds_t n, int to)
{
    Harness h; enter("poll"); if (interrupted("interrupted_select")) return -1; int64_t end = to < 0 ? INT64_MAX : now_ns() + to * 1000000LL;
    for (;;) { int k = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; Sock &s = sock(p[i].fd, "poll"); if ((p[i].events & POLLIN) && readable(s)) p[i].revents |= POLLIN; if ((p[i].events & POLLOUT) && writable(s)) p[i].revents |= POLLOUT; if (s.c && s.c->rstIn) p[i].revents |= POLLERR | POLLHUP; k += !!p[i].revents; } if (k || now_ns() >= end) return k; int64_t d = std::min<int64_t>(end - now_ns(), 2000000); sleep_us(d / 1000 + 1); }
}
}
using namespace simnet;
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
#define ON (sim::active && sim::fiber_ctx())
#define MINE(fd) (ON && ((fd) >= BASE || (fd) < 0))
#define PC __builtin_return_address(0)
extern "C" {
int socket(int d, int t, int p) __THROW
{
    if (!ON) { REAL(int, socket, int, int, int); return real(d, t, p); }
    Harness h; enter("socket"); if (fault_den && chance(F, 1, fault_den)) { static const int er[] = {EMFILE, ENFILE, ENOBUFS}; return fail("socket_fails", er[choose(F, 3)]); }
    int f = newfd(); if (f < 0) return refuse(EMFILE); fds[f] = Sock(); fds[f].nonblock = t & SOCK_NONBLOCK; return f;
}
int setsockopt(int fd, int lv, int o, const void *v, socklen_t n) __THROW
{
    if (!MINE(fd)) { REAL(int, setsockopt, int, int, int, const void *, socklen_t); return real(fd, lv, o, v, n); }
    Harness h; enter("setsockopt"); Sock &s = sock(fd, "setsockopt"); if (!s.c && fault_den && chance(F, 1, fault_den)) return fail("setsockopt_fails", ENOMEM);
    if (lv == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) && n >= sizeof(timeval)) { timeval t; memcpy(&t, v, sizeof t); if (t.tv_usec < 0 || t.tv_usec >= 1000000) return refuse(EDOM); int64_t x = t.tv_sec < 0 ? 0 : t.tv_sec * 1000000000LL + t.tv_usec * 1000LL; (o == SO_RCVTIMEO ? s.rcvto : s.sndto) = x; } return 0;
}
int getsockopt(int fd, int lv, int o, void *v, socklen_t *n) __THROW
{
    if (!MINE(fd)) { REAL(int, getsockopt, int, int, int, void *, socklen_t *); return real(fd, lv, o, v, n); }
    Harness h; Sock &s = sock(fd, "getsockopt"); memset(v, 0, *n); if (lv == SOL_SOCKET && o == SO_ERROR && s.c && s.c->rstIn && *n >= 4) *(int *)v = ECONNRESET; return 0;
}
int bind(int fd, const struct sockaddr *a, socklen_t n) __THROW
{
    if (!MINE(fd)) { REAL(int, bind, int, const struct sockaddr *, socklen_t); return real(fd, a, n); }
    Harness h; enter("bind"); Sock &s = sock(fd, "bind"); if (fault_den && chance(F, 1, fault_den)) return fail("bind_fails", EADDRINUSE); int p = n >= sizeof(sockaddr_in) ? ntohs(((const sockaddr_in *)a)->sin_port) : 0; for (auto &f : fds) if (f.first != fd && f.second.bound && f.second.port == p) return refuse(EADDRINUSE); s.bound = true; s.port = p; return 0;
}
int listen(int fd, int b) __THROW { if (!MINE(fd)) { REAL(int, listen, int, int); return real(fd, b); } Harness h; enter("listen"); Sock &s = sock(fd, "listen"); if (!s.bound) return refuse(EINVAL); s.listening = true; s.backlog = b < 0 ? 0 : b; return 0; }
int accept(int fd, struct sockaddr *a, socklen_t *n) { if (!MINE(fd)) { REAL(int, accept, int, struct sockaddr *, socklen_t *); return real(fd, a, n); } if (a && n && *n) { Harness h; memset(a, 0, *n); a->sa_family = AF_INET; } return do_accept(fd, false); }
int accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) { if (!MINE(fd)) { REAL(int, accept4, int, struct sockaddr *, socklen_t *, int); return real(fd, a, n, fl); } if (a && n && *n) { Harness h; memset(a, 0, *n); a->sa_family = AF_INET; } return do_accept(fd, fl & SOCK_NONBLOCK); }
ssize_t recv(int fd, void *b, size_t n, int fl) { if (!MINE(fd)) { REAL(ssize_t, recv, int, void *, size_t, int); return real(fd, b, n, fl); } return do_recv(fd, (char *)b, n, fl, PC); }
ssize_t read(int fd, void *b, size_t n) { if (!MINE(fd)) { REAL(ssize_t, read, int, void *, size_t); return real(fd, b, n); } return do_recv(fd, (char *)b, n, 0, PC); }
ssize_t send(int fd, const void *b, size_t n, int fl) { if (!MINE(fd)) { REAL(ssize_t, send, int, const void *, size_t, int); return real(fd, b, n, fl); } return do_send(fd, (const char *)b, n, fl, PC); }
ssize_t write(int fd, const void *b, size_t n) { if (!MINE(fd)) { REAL(ssize_t, write, int, const void *, size_t); return real(fd, b, n); } return do_send(fd, (const char *)b, n, 0, PC); }
int close(int fd) { if (!MINE(fd)) { REAL(int, close, int); return real(fd); } return do_close(fd); }
int shutdown(int fd, int how) __THROW { if (!MINE(fd)) { REAL(int, shutdown, int, int); return real(fd, how); } Harness h; enter("shutdown"); Sock &s = sock(fd, "shutdown"); if (!s.c) return refuse(ENOTCONN); if (how != SHUT_RD) s.c->srvShut = true; return 0; }
static int do_fcntl(int fd, int c, long v) { Harness h; Sock &s = sock(fd, "fcntl"); if (c == F_GETFL) return O_RDWR | (s.nonblock ? O_NONBLOCK : 0); if (c == F_SETFL) s.nonblock = v & O_NONBLOCK; return 0; }
int fcntl(int fd, int c, ...) { va_list ap; va_start(ap, c); long v = va_arg(ap, long); va_end(ap); if (MINE(fd)) return do_fcntl(fd, c, v); REAL(int, fcntl, int, int, ...); return real(fd, c, v); }
int fcntl64(int fd, int c, ...) { va_list ap; va_start(ap, c); long v = va_arg(ap, long); va_end(ap); if (MINE(fd)) return do_fcntl(fd, c, v); REAL(int, fcntl64, int, int, ...); return real(fd, c, v); }
int ioctl(int fd, unsigned long r, ...) { va_list ap; va_start(ap, r); void *a = va_arg(ap, void *); va_end(ap); if (MINE(fd)) { Harness h; Sock &s = sock(fd, "ioctl"); if (r == FIONBIO) s.nonblock = *(int *)a; else if (r == FIONREAD) *(int *)a = s.c ? s.c->in.size() : 0; return 0; } REAL(int, ioctl, int, unsigned long, ...); return real(fd, r, a); }
int select(int nf, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) { if (!ON) { REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *); return real(nf, r, w, e, tv); } if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0)) return refuse(EINVAL); return do_select(nf, r, w, e, tv ? tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL : -1); }
int poll(struct pollfd *p, nfds_t n, int to) { if (!ON) { REAL(int, poll, struct pollfd *, nfds_t, int); return real(p, n, to); } return do_poll(p, n, to); }
}
