#include "internal.h"
#include "v4l.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <linux/videodev2.h>
using namespace sim;
namespace simv4l {
std::vector<Dev> devs; std::map<int, Fd> fds; std::set<std::string> notdev;
uint32_t fault_den = 0, eintr_den = 0, gap_den = 0, stall_den = 0; uint64_t failed = 0, qbuf_failed = 0, app_held = 0; bool slow_calls = false;
std::function<void(const VFrame &)> on_dequeued;
static const int BASE = 600;
static bool mine(const char *p) { return p && !strncmp(p, "/simdev", 7); }
static int dev_of(const char *p) { for (size_t i = 0; i < devs.size(); i++) if (devs[i].path == p) return i; return -1; }
std::string content(const Dev &d, uint64_t serial, uint32_t size)
{
    std::string s(size, 0); uint64_t x = serial * 0x9E3779B97F4A7C15ull + d.path.back() * 77777 + 12345; size_t i = 0;
    for (; i + 8 <= size; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(&s[i], &x, 8); } for (; i < size; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s[i] = (char)(x >> 24); } return s;
}
int held(const Dev &d) { int n = 0; if (d.streaming) for (auto &b : d.bufs) if (b.st == Buf::APP) n++; return n; }
uint64_t mappings() { uint64_t n = 0; for (auto &d : devs) for (auto &b : d.bufs) if (b.mapped) n++; return n; }
static void drop_buffers(Dev &d) { for (auto &b : d.bufs) if (b.p && !b.mapped) free(b.p); d.bufs.clear(); d.queue.clear(); d.done.clear(); d.streaming = false; d.owner = -1; }
static void enter(const char *what) { sync_point(what); if (slow_calls && chance(F, 1, 32)) { fault("slow_call"); sleep_us(range(F, 1, 30000)); } }
// frames appear as time passes
void produce(Dev &d)
{
    if (!d.streaming || !d.present) return; int64_t per = d.den ? 1000000000LL * d.num / d.den : 40000000; if (per < 1000000) per = 1000000; if (d.size > 500000) per *= 8; per += per / 100 * d.slow;
    while (d.next <= now_ns()) {
        int64_t t = d.next; d.next += per; (void)t; d.serial++;
        if (stall_den && chance(F, 1, stall_den)) { fault("device_stalls"); d.next += range(F, 1, 3000) * 1000000LL; continue; }
        if (gap_den && chance(F, 1, gap_den)) { fault("frame_missing"); continue; }
        if (d.queue.empty()) { d.dropped++; continue; }
        int i = d.queue.front(); d.queue.erase(d.queue.begin()); Buf &b = d.bufs[i]; b.st = Buf::DONE; b.serial = d.serial;
        bool comp = d.pix == V4L2_PIX_FMT_H264 || d.pix == V4L2_PIX_FMT_MJPEG; b.used = comp ? 1 + (uint32_t)((d.serial * 0x9E3779B97F4A7C15ull) >> 33) % d.size : d.size; if (d.pix == V4L2_PIX_FMT_H264 && d.serial % 16 == 0) b.used = d.size;
        std::string c = content(d, d.serial, b.used); memcpy(b.p, c.data(), b.used); d.done.push_back(i);
    }
}
void unplug(int i) { Dev &d = devs[i]; d.present = false; d.gen++; d.streaming = false; d.queue.clear(); d.done.clear(); d.owner = -1; d.serial += 1000; std::vector<Buf> b; for (auto &x : d.bufs) { x.st = Buf::APP; } fault("unplugged"); log("device %d is unplugged", i); }
void plug(int i) { Dev &d = devs[i]; if (d.present) return; d.present = true; log("device %d is plugged in", i); }
static int fail(const char *what, int e) { failed++; fault(what); log("v4l: %s (%d)", what, e); errno = e; return -1; }
static int refuse(int e) { errno = e; return -1; }
static uint32_t bytes(Dev &d)
{
    switch (d.pix) { case V4L2_PIX_FMT_YUYV: d.bpl = d.w * 2 + d.pad; return d.size = d.bpl * d.h; case V4L2_PIX_FMT_RGB24: d.bpl = d.w * 3 + d.pad; return d.size = d.bpl * d.h; case V4L2_PIX_FMT_YUV420: d.bpl = d.w; return d.size = d.w * d.h * 3 / 2; case V4L2_PIX_FMT_YUV422P: d.bpl = d.w; return d.size = d.w * d.h * 2; default: d.bpl = 0; return d.size = d.w * d.h * 2; }
}
static const char *rname(unsigned long r)
{
    switch (r) { case VIDIOC_QUERYCAP: return "QUERYCAP"; case VIDIOC_CROPCAP: return "CROPCAP"; case VIDIOC_S_CROP: return "S_CROP"; case VIDIOC_S_FMT: return "S_FMT"; case VIDIOC_G_FMT: return "G_FMT"; case VIDIOC_S_PARM: return "S_PARM"; case VIDIOC_REQBUFS: return "REQBUFS"; case VIDIOC_QUERYBUF: return "QUERYBUF"; case VIDIOC_QBUF: return "QBUF"; case VIDIOC_DQBUF: return "DQBUF"; case VIDIOC_STREAMON: return "STREAMON"; case VIDIOC_STREAMOFF: return "STREAMOFF"; }
    return "another request";
}
static int do_ioctl(int fd, unsigned long r, void *a)
{
    auto it = fds.find(fd); if (it == fds.end()) violation("invalid-request", "%s on descriptor %d, which is not open", rname(r), fd);
    enter("ioctl"); it = fds.find(fd); if (it == fds.end()) violation("invalid-request", "%s on a descriptor that was closed meanwhile", rname(r));
    int di = it->second.dev; Dev &d = devs[di]; char fk[40]; snprintf(fk, sizeof fk, "%s_fails", rname(r));
    if (eintr_den && chance(F, 1, eintr_den)) { fault("interrupted_call"); errno = EINTR; return -1; }
    if (it->second.gen != d.gen || !d.present) return refuse(ENODEV);
    produce(d);
    if (fault_den && r != VIDIOC_CROPCAP && chance(F, 1, fault_den)) { static const int er[] = {EIO, EBUSY, ENOMEM, EINVAL}; if (r == VIDIOC_QBUF) qbuf_failed++; return fail(fk, er[choose(F, 4)]); }
    switch (r) {
    case VIDIOC_QUERYCAP: { v4l2_capability *c = (v4l2_capability *)a; memset(c, 0, sizeof *c); strcpy((char *)c->driver, "sim"); c->capabilities = (d.capture ? V4L2_CAP_VIDEO_CAPTURE : V4L2_CAP_VIDEO_OUTPUT) | (d.streamingCap ? V4L2_CAP_STREAMING : V4L2_CAP_READWRITE); return 0; }
    case VIDIOC_CROPCAP: { if (!d.cropSup) return refuse(ENOTTY); v4l2_cropcap *c = (v4l2_cropcap *)a; c->defrect.left = c->defrect.top = 0; c->defrect.width = d.maxW; c->defrect.height = d.maxH; return 0; }
    case VIDIOC_S_CROP: if (d.owner >= 0) return refuse(EBUSY); return choose(F, 2) ? refuse(EINVAL) : 0;
    case VIDIOC_G_FMT: case VIDIOC_S_FMT: {
        v4l2_format *f = (v4l2_format *)a; if (f->type != V4L2_BUF_TYPE_VIDEO_CAPTURE) violation("invalid-request", "%s for another buffer type", rname(r));
        if (r == VIDIOC_S_FMT) {
            if (d.owner >= 0) { if (d.owner == fd) violation("invalid-request", "S_FMT while buffers are allocated"); return refuse(EBUSY); }
            uint32_t w = f->fmt.pix.width, h = f->fmt.pix.height; if (w > d.maxW) w = d.maxW; if (h > d.maxH) h = d.maxH; w -= w % d.step; h -= h % d.step; if (w < d.step) w = d.step; if (h < d.step) h = d.step; d.w = w; d.h = h; bool ok = false; for (uint32_t x : d.formats) if (x == f->fmt.pix.pixelformat) ok = true; d.pix = ok ? f->fmt.pix.pixelformat : d.formats[0]; }
        bytes(d); f->fmt.pix.width = d.w; f->fmt.pix.height = d.h; f->fmt.pix.pixelformat = d.pix; f->fmt.pix.bytesperline = d.bpl; f->fmt.pix.sizeimage = d.size; f->fmt.pix.field = V4L2_FIELD_NONE; return 0; }
    case VIDIOC_S_PARM: {
        v4l2_streamparm *p = (v4l2_streamparm *)a; if (p->type != V4L2_BUF_TYPE_VIDEO_CAPTURE) violation("invalid-request", "S_PARM for another buffer type"); if (!d.parmSup) return refuse(ENOTTY); v4l2_fract &f = p->parm.capture.timeperframe;
        if (d.streaming) return refuse(EBUSY);
        if (!f.numerator || !f.denominator) { f.numerator = 1; f.denominator = 25; }
        uint32_t n = f.numerator, m = f.denominator;
        switch (d.parmMode) { case 1: n = 1001; m = m / f.numerator * 1000 + 0; if (m < 1000) m = 1000; break; case 2: n = 1; m = 15; break; case 3: n = 1; m = 25; break; case 4: n = 2; m *= 2; break; case 5: n = 333333; m = 10000000; break; default: if (m > 120) m = 120; }
        d.num = n; d.den = m; f.numerator = n; f.denominator = m; if (d.parmMode == 3) f.numerator = f.denominator = 0;   // does not say
        p->parm.capture.readbuffers = 2; return 0; }
    case VIDIOC_REQBUFS: {
        v4l2_requestbuffers *b = (v4l2_requestbuffers *)a; if (b->type != V4L2_BUF_TYPE_VIDEO_CAPTURE || b->memory != V4L2_MEMORY_MMAP) violation("invalid-request", "REQBUFS for another kind of buffers");
        if (d.owner >= 0 && d.owner != fd) return refuse(EBUSY);
        if (d.streaming) violation("invalid-request", "REQBUFS while the device streams"); for (auto &x : d.bufs) if (x.mapped) violation("invalid-request", "REQBUFS while buffers are mapped");
        for (auto &x : d.bufs) free(x.p); d.bufs.clear(); d.queue.clear(); d.done.clear(); d.owner = -1; if (!b->count) return 0;
        uint32_t n = b->count > d.maxBufs ? d.maxBufs : b->count; if (fault_den && chance(F, 1, 8)) { fault("few_buffers"); n = 1 + choose(F, 3); } b->count = n; d.owner = fd; bytes(d); d.bufs.resize(n); for (auto &x : d.bufs) { x.p = (char *)malloc(d.size); memset(x.p, 0, d.size); } return 0; }
    case VIDIOC_QUERYBUF: case VIDIOC_QBUF: {
        v4l2_buffer *b = (v4l2_buffer *)a; if (b->type != V4L2_BUF_TYPE_VIDEO_CAPTURE || b->memory != V4L2_MEMORY_MMAP) violation("invalid-request", "%s for another kind of buffer", rname(r));
        if (d.owner != fd || b->index >= d.bufs.size()) violation("invalid-request", "%s of buffer %u, the device has %zu", rname(r), b->index, d.owner == fd ? d.bufs.size() : 0);
        Buf &x = d.bufs[b->index]; if (r == VIDIOC_QUERYBUF) { b->length = d.size; b->m.offset = b->index * 0x10000000u; b->bytesused = 0; return 0; }
        if (x.st != Buf::APP) violation("invalid-request", "QBUF of buffer %u, which the driver has already", b->index); if (!x.mapped) violation("invalid-request", "QBUF of buffer %u, which is not mapped", b->index);
        x.st = Buf::QUEUED; memset(x.p, 0xDB, d.size); d.queue.push_back(b->index); return 0; }
    case VIDIOC_DQBUF: {
        v4l2_buffer *b = (v4l2_buffer *)a; if (b->type != V4L2_BUF_TYPE_VIDEO_CAPTURE || b->memory != V4L2_MEMORY_MMAP) violation("invalid-request", "DQBUF of another kind of buffer");
        if (!d.streaming || d.owner != fd) violation("invalid-request", "DQBUF while the device does not stream");
        if (d.done.empty()) return refuse(EAGAIN);
        int i = d.done.front(); d.done.erase(d.done.begin()); Buf &x = d.bufs[i]; x.st = Buf::APP; b->index = i; b->bytesused = x.used; b->flags = 0; b->sequence = x.serial; b->length = d.size;
        log("v4l: frame %llu of %s, %u bytes, buffer %d", (unsigned long long)x.serial, d.path.c_str(), x.used, i);
        if (on_dequeued) on_dequeued(VFrame{x.serial, content(d, x.serial, x.used), d.w, d.h, d.pix, false, 0, 0}); return 0; }
    case VIDIOC_STREAMON: if (d.streaming) violation("invalid-request", "STREAMON while the device streams"); if (d.owner != fd || d.queue.empty()) violation("invalid-request", "STREAMON without buffers in the queue");
        d.streaming = true; d.next = now_ns() + (d.den ? 1000000000LL * d.num / d.den : 40000000); log("v4l: %s streams %ux%u %.4s", d.path.c_str(), d.w, d.h, (char *)&d.pix); return 0;
    case VIDIOC_STREAMOFF: if (d.owner != fd) violation("invalid-request", "STREAMOFF without buffers"); d.streaming = false; d.queue.clear(); d.done.clear(); for (auto &x : d.bufs) x.st = Buf::APP; log("v4l: %s stops", d.path.c_str()); return 0;
    }
    return refuse(ENOTTY);
}
}
using namespace simv4l;
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__) = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
#define ON (sim::active && sim::fiber_ctx())
extern "C" {
static int do_stat(const char *p, struct stat *s)
{
    Harness h; enter("stat"); memset(s, 0, sizeof *s); if (eintr_den && fault_den && chance(F, 1, fault_den)) return fail("stat_fails", EIO);
    if (notdev.count(p)) { s->st_mode = S_IFREG | 0644; return 0; } int d = dev_of(p); if (d < 0 || !devs[d].present) return refuse(ENOENT); s->st_mode = S_IFCHR | 0660; s->st_rdev = 0x5100 + d; return 0;
}
int stat(const char *p, struct stat *s) { if (ON && mine(p)) return do_stat(p, s); REAL(int, stat, const char *, struct stat *); return real(p, s); }
static int do_open(const char *p)
{
    Harness h; enter("open"); int d = dev_of(p); if (d < 0 || !devs[d].present) { errno = ENOENT; return -1; }
    if (fault_den && chance(F, 1, fault_den)) { static const int er[] = {EBUSY, EMFILE, EACCES, EIO}; return fail("open_fails", er[choose(F, 4)]); }
    int fd = BASE; while (fds.count(fd)) fd++; fds[fd] = Fd{d, devs[d].gen}; log("v4l: open %s = %d", p, fd); return fd;
}
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); if (ON && mine(p)) return do_open(p); REAL(int, open, const char *, int, ...); return real(p, fl, mode); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); if (ON && mine(p)) return do_open(p); REAL(int, open64, const char *, int, ...); return real(p, fl, mode); }
int close(int fd)
{
    if (!ON || (fd >= 0 && fd < 400)) { REAL(int, close, int); return real(fd); }
    Harness h; enter("close"); auto it = fds.find(fd); if (it == fds.end()) violation("invalid-request", "close of descriptor %d, which is not open", fd);
    Dev &d = devs[it->second.dev]; if (it->second.gen == d.gen && d.owner == fd) { for (auto &b : d.bufs) if (b.mapped) { log("v4l: closed with mapped buffers"); } if (mappings()) { d.streaming = false; d.queue.clear(); d.done.clear(); d.owner = -1; for (auto &b : d.bufs) b.st = Buf::APP; } else drop_buffers(d); }
    else if (it->second.gen != d.gen && d.owner < 0 && !mappings()) drop_buffers(d);
    fds.erase(fd); log("v4l: close %d", fd); if (fault_den && chance(F, 1, fault_den)) { static const int er[] = {EIO, EINTR}; return fail("close_fails", er[choose(F, 2)]); } return 0;
}
int ioctl(int fd, unsigned long r, ...) { va_list ap; va_start(ap, r); void *a = va_arg(ap, void *); va_end(ap); if (!ON || (fd >= 0 && fd < 400)) { REAL(int, ioctl, int, unsigned long, ...); return real(fd, r, a); } Harness h; return do_ioctl(fd, r, a); }
static void *do_mmap(int fd, size_t n, off_t off)
{
    Harness h; enter("mmap"); auto it = fds.find(fd); if (it == fds.end()) violation("invalid-request", "mmap on descriptor %d, which is not open", fd);
    Dev &d = devs[it->second.dev]; if (it->second.gen != d.gen) { errno = ENODEV; return MAP_FAILED; } size_t i = (uint64_t)off / 0x10000000u;
    if (d.owner != fd || i >= d.bufs.size() || (uint64_t)off % 0x10000000u || n != d.size) violation("invalid-request", "mmap of %zu bytes at %lld is no buffer of the device", n, (long long)off);
    if (d.bufs[i].mapped) violation("invalid-request", "buffer %zu is mapped twice", i);
    if (fault_den && chance(F, 1, fault_den)) { fail("mmap_fails", ENOMEM); return MAP_FAILED; }
    d.bufs[i].mapped = true; return d.bufs[i].p;
}
void *mmap(void *p, size_t n, int pr, int fl, int fd, off_t off) __THROW { if (ON && fd >= 400) return do_mmap(fd, n, off); REAL(void *, mmap, void *, size_t, int, int, int, off_t); return real(p, n, pr, fl, fd, off); }
void *mmap64(void *p, size_t n, int pr, int fl, int fd, off64_t off) __THROW { if (ON && fd >= 400) return do_mmap(fd, n, off); REAL(void *, mmap64, void *, size_t, int, int, int, off64_t); return real(p, n, pr, fl, fd, off); }
int munmap(void *p, size_t n) __THROW
{
    if (!ON) { REAL(int, munmap, void *, size_t); return real(p, n); }
    Harness h;
    for (auto &d : devs) for (auto &b : d.bufs) if (b.p == p && b.p) { if (!b.mapped || n != d.size) violation("invalid-request", "munmap of a buffer that is not mapped like this"); b.mapped = false; enter("munmap"); if (d.owner < 0) { bool any = false; for (auto &x : d.bufs) any |= x.mapped; if (!any) drop_buffers(d); } return 0; }
    if (!p || p == MAP_FAILED || in_arena(p)) violation("invalid-request", "munmap of an address that is no mapping");
    REAL(int, munmap, void *, size_t); return real(p, n);
}
int select(int nf, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    if (!ON) { REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *); return real(nf, r, w, e, tv); }
    Harness h; int fd = -1; for (int i = 0; i < nf; i++) if (r && FD_ISSET(i, r)) { fd = i; break; }
    auto it = fds.find(fd); if (it == fds.end()) violation("invalid-request", "select on descriptor %d, which is not open", fd);
    enter("select"); if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0 || tv->tv_usec > 999999)) { probe("select_invalid_timeout"); return refuse(EINVAL); }
    if (eintr_den && chance(F, 1, eintr_den)) { fault("interrupted_select"); errno = EINTR; FD_ZERO(r); return -1; }
    int64_t end = tv ? now_ns() + tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL : INT64_MAX;
    for (;;) {
        it = fds.find(fd); if (it == fds.end()) violation("invalid-request", "the descriptor is closed during select"); Dev &d = devs[it->second.dev];
        if (it->second.gen != d.gen) { probe("select_of_gone_device"); return 1; }
        produce(d); if (!d.done.empty() || !d.streaming) return 1;      // a device that does not stream reports an error condition
        if (now_ns() >= end) { FD_ZERO(r); return 0; }
        int64_t t = d.next < end ? d.next : end; if (t > now_ns() + 20000000) t = now_ns() + 20000000; sleep_us((t - now_ns()) / 1000 + 1);
    }
}
}
