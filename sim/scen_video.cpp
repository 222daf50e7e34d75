// V02: the picture elements (mixer, splitter, resampler) while sources, consumers and configuration change.
#include "filters.h"
#include "modules/videoMixer/VideoMixer.hh"
#include "modules/videoSplitter/VideoSplitter.hh"
#include "modules/videoResampler/VideoResampler.hh"
using namespace sim;
namespace {
const int MW = DEFAULT_WIDTH, MH = DEFAULT_HEIGHT;
struct Px { double c[3]; };
// A picture has a colour in each of its quarters.
struct Pic { int stream; uint64_t serial; int w, h, fmt; int64_t pts, dts; };
Px colour(const Pic &p, int q) { uint64_t x = (p.serial * 16 + p.stream * 4 + q + 1) * 0x9E3779B97F4A7C15ull; Px r; for (int i = 0; i < 3; i++) { x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; r.c[i] = 60 + (x >> 40) % 130; } return r; }
int clip(double v) { return v < 0 ? 0 : v > 255 ? 255 : (int)(v + .5); }
Px yuv(const Px &p, bool full) { double r = p.c[0], g = p.c[1], b = p.c[2], y = .299 * r + .587 * g + .114 * b, u = (b - y) * .564, v = (r - y) * .713; if (!full) { y = 16 + y * 219 / 255; u *= 224. / 255; v *= 224. / 255; } return Px{{y, u + 128, v + 128}}; }
int plane(int fmt, int c, int &sw, int &sh) { sw = sh = 1; if (c) { if (fmt == YUV420P || fmt == YUVJ420P) sw = sh = 2; if (fmt == YUV422P) sw = 2; } return 0; }
bool planar(int f) { return f == YUV420P || f == YUV422P || f == YUV444P || f == YUVJ420P; }
size_t bytes(int f, int w, int h) { if (f == RGB24) return 3 * w * h; if (f == RGB32) return 4 * w * h; if (f == YUYV422) return 2 * ((w + 1) / 2 * 2) * h; int a, b; size_t n = 0; for (int c = 0; c < 3; c++) { plane(f, c, a, b); n += ((w + a - 1) / a) * ((h + b - 1) / b); } return n; }
// the value of component c at x,y
unsigned char &at(unsigned char *d, int f, int w, int h, int x, int y, int c)
{
    if (f == RGB24) return d[(y * w + x) * 3 + c]; if (f == RGB32) return d[(y * w + x) * 4 + 2 - c]; if (f == YUYV422) { int l = (w + 1) / 2 * 4; return c == 0 ? d[y * l + x * 2] : d[y * l + x / 2 * 4 + (c == 1 ? 1 : 3)]; }
    int a, b; size_t o = 0; for (int k = 0; k < c; k++) { plane(f, k, a, b); o += ((w + a - 1) / a) * ((h + b - 1) / b); } plane(f, c, a, b); return d[o + (y / b) * ((w + a - 1) / a) + x / a];
}
Px value(const Pic &p, int q, int fmt) { Px c = colour(p, q); return fmt == RGB24 || fmt == RGB32 ? c : yuv(c, fmt == YUVJ420P); }
void paint(unsigned char *d, const Pic &p) { for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) { Px c = value(p, (y >= p.h / 2) * 2 + (x >= p.w / 2), p.fmt); for (int k = 0; k < 3; k++) at(d, p.fmt, p.w, p.h, x, y, k) = clip(c.c[k]); if (p.fmt == RGB32) d[(y * p.w + x) * 4 + 3] = 255; } }
// quarter of the source picture that pixel x,y of a picture scaled to w,h shows; -1: near a border
int quarter(const Pic &p, int w, int h, int x, int y, bool chroma)
{
    bool same = w == p.w && h == p.h && !chroma; double u = (x + .5) * p.w / w, v = (y + .5) * p.h / h, mu = same ? 0 : 2 + (double)p.w / w + (chroma ? 2 : 0), mv = same ? 0 : 2 + (double)p.h / h + (chroma ? 2 : 0); if (!same) { mu += 2. * p.w / w; mv += 2. * p.h / h; }
    double cu = p.w / 2, cv = p.h / 2; if (u > cu - mu && u < cu + mu && mu) return -1; if (v > cv - mv && v < cv + mv && mv) return -1; return (v > cv) * 2 + (u > cu);
}
struct Chan { double w = 1, h = 1, x = 0, y = 0, o = 1; int layer = 0; bool on = false; };
struct Crop { int w = 0, h = 0, x = -1, y = -1; };
struct Cfg { int w = 0, h = 0, fmt = RGB24; std::map<int, Chan> ch; std::map<int, Crop> cr; };
struct Shown { int w, h, fmt; size_t len; int64_t pts, dts; uint64_t hash; std::string data; };
uint64_t hashOf(const unsigned char *d, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ d[i]) * 1099511628211ull; return h; }
struct Src; struct Out;
struct Run {
    char kind; std::vector<Cfg> cfg; size_t begun = 0, ended = 0, lo = 0, stepLo = 0; std::set<int> moving, movedInStep; bool inStep = false; uint64_t steps = 0, pictures = 0, checked = 0; std::vector<std::unique_ptr<Src>> src; std::map<int, Out *> out; std::map<int, Src *> in; int64_t frameTime = 0; bool timing = false, sameLayer = false; std::map<int, uint64_t> lastIn; int max; BaseFilter *f = nullptr; bool stop = false; uint64_t overrun = 0; int64_t lastPts = 0;
} *R;
struct VQ : public VideoFrameQueue { VQ(ConnectionData c, const StreamInfo *si, unsigned n) : VideoFrameQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(RAW, MW, MH, RGB32); } };
struct Src : public hf::Head {
    int stream; uint64_t serial = 0; std::map<uint64_t, Pic> sent; int w = 16, h = 16, fmt = RGB24; unsigned qlen; int64_t pts; int rid = 0; bool on = false, pause = false;
    Src(int id, int st) : Head(id), stream(st) { qlen = 4 + choose(W, 6); si.video.codec = RAW; si.video.pixelFormat = RGB24; pts = wall_ns() / 1000 + choose(W, 100000);
        body = [this](std::map<int, Frame *> &d, int &) { if (d.empty() || pause) return false; if (chance(W, 1, 8)) size(); InterleavedVideoFrame *v = dynamic_cast<InterleavedVideoFrame *>(d.begin()->second); Pic p{stream, ++serial, w, h, fmt, pts, pts - (int64_t)choose(W, 1000)}; if (R->timing) pts = std::max<int64_t>(pts + 1, wall_ns() / 1000 + choose(W, 2000)); else pts += 1 + choose(W, 40000);
            check_access(v->getDataBuf(), bytes(fmt, w, h), true, __builtin_return_address(0)); paint(v->getDataBuf(), p); v->setLength(bytes(fmt, w, h)); v->setSize(w, h); v->setPixelFormat((PixType)fmt); v->setPresentationTime(std::chrono::microseconds(p.pts)); v->setDecodeTime(std::chrono::microseconds(p.dts)); v->setConsumed(true); if (getenv("VDBG")) log("src %d serial %llu %dx%d time %lld", stream, (unsigned long long)serial, w, h, (long long)p.pts); sent[serial] = p; if (sent.size() > 5000) sent.erase(sent.begin()); return true; }; }
    void size() { w = 4 * (2 + choose(W, MW / 4 - 1)); h = 4 * (2 + choose(W, MH / 4 - 1)); if (R && R->kind == 'r') { w = 8 * (2 + choose(W, MW / 8 - 1)); h = 8 * (2 + choose(W, MH / 8 - 1)); } if (R && R->kind == 'r' && chance(W, 1, 2)) { static const int f[] = {RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P}; fmt = f[choose(W, 7)]; } }
    FrameQueue *allocQueue(ConnectionData c) override { Harness hh; Sut u; return new VQ(c, &si, qlen); }
};
// which of the pictures of a source is in the buffer?
const Pic *decode(Src &s, InterleavedVideoFrame *v)
{
    int w = v->getWidth(), h = v->getHeight(); int f = v->getPixelFormat(); for (auto it = s.sent.rbegin(); it != s.sent.rend(); ++it) { const Pic &p = it->second; if (p.pts != v->getPresentationTime().count() || p.w != w || p.h != h || p.fmt != f) continue; bool ok = true; for (int y = 0; y < h && ok; y++) for (int x = 0; x < w && ok; x++) { Px c = value(p, (y >= h / 2) * 2 + (x >= w / 2), f); for (int k = 0; k < 3; k++) if (at(v->getDataBuf(), f, w, h, x, y, k) != clip(c.c[k])) ok = false; } if (ok) return &p; }
    return nullptr;
}
struct Taken { Pic p; bool isNew; };
Shown look(Frame *f) { VideoFrame *v = dynamic_cast<VideoFrame *>(f); Shown s; s.w = v->getWidth(); s.h = v->getHeight(); s.fmt = v->getPixelFormat(); s.len = f->getLength(); s.pts = f->getPresentationTime().count(); s.dts = f->getDecodeTime().count(); size_t n = s.w > 0 && s.h > 0 && s.w <= MW && s.h <= MH ? std::min<size_t>(bytes(s.fmt, s.w, s.h), f->getMaxLength()) : 0; s.data.assign((char *)f->getDataBuf(), n); s.hash = hashOf((unsigned char *)s.data.data(), n); return s; }
struct Out : public hf::Tail {
    int wid; std::deque<Shown> made; uint64_t got = 0, missed = 0; size_t lastSeq = 0; int slow = 0; bool wanted = true, ever = false;
    Out(int id, int w) : Tail(id), wid(w) {
        body = [this](std::map<int, Frame *> &o, std::vector<int> n, int &) {
            if (n.empty()) return true; Frame *f = o.begin()->second; Shown s = look(f); bool found = false; while (!made.empty()) { Shown m = made.front(); made.pop_front(); if (m.hash == s.hash && m.w == s.w && m.h == s.h && m.len == s.len && m.pts == s.pts && m.dts == s.dts && m.fmt == s.fmt) { found = true; break; } missed++; }
            if (!found) violation("picture-changed", "output %d delivers a picture (%dx%d, time %lld) the element did not make like that", wid, s.w, s.h, (long long)s.pts);
            if (got && f->getSequenceNumber() <= lastSeq) violation("picture-order", "output %d delivers picture %zu after picture %zu", wid, (size_t)f->getSequenceNumber(), lastSeq); lastSeq = f->getSequenceNumber(); got++;
            if (slow) sleep_us(choose(W, slow)); else yield("consumer"); if (look(f).hash != s.hash) violation("picture-changed", "a picture of output %d changes while its consumer uses it", wid); return true; }; }
};
std::string describe(const Cfg &c) { char b[400]; int n = snprintf(b, sizeof b, "%dx%d fmt %d", c.w, c.h, c.fmt); for (auto &x : c.ch) n += snprintf(b + n, sizeof b - n, " [%d: %s %gx%g at %g,%g layer %d opacity %g]", x.first, x.second.on ? "on" : "off", x.second.w, x.second.h, x.second.x, x.second.y, x.second.layer, x.second.o); for (auto &x : c.cr) n += snprintf(b + n, sizeof b - n, " [%d: %dx%d at %d,%d]", x.first, x.second.w, x.second.h, x.second.x, x.second.y); return b; }
// -- mixer
bool mixOk(const Cfg &c, std::map<int, Taken> &in, const Shown &s, std::string &why)
{
    char b[300]; if (s.w != c.w || s.h != c.h || s.fmt != RGB24 || s.len != (size_t)(3 * c.w * c.h)) { snprintf(b, sizeof b, "is %dx%d, format %d, %zu bytes", s.w, s.h, s.fmt, s.len); why = b; return false; }
    std::vector<double> e(c.w * c.h * 3, 0); std::vector<float> tol(c.w * c.h, 0); std::vector<int> lay(c.w * c.h, -1); std::vector<std::pair<std::pair<int, int>, int>> order; for (auto &x : c.ch) if (x.second.on) order.push_back({{x.second.layer, x.first}, x.first}); std::sort(order.begin(), order.end());
    for (auto &o : order) {
        const Chan &ch = c.ch.at(o.second); bool mv = R->movedInStep.count(o.second); auto it = in.find(o.second); if (it == in.end() && !mv) continue; int sw = (int)(ch.w * c.w), sh = (int)(ch.h * c.h), x0 = (int)(ch.x * c.w), y0 = (int)(ch.y * c.h);
        for (int y = 0; y < sh && y0 + y < c.h; y++) for (int x = 0; x < sw && x0 + x < c.w; x++) {
            int i = (y0 + y) * c.w + x0 + x; if (mv || it == in.end() || tol[i] > 100) { tol[i] = 1000; continue; } if (lay[i] == ch.layer) { tol[i] = 1000; continue; } lay[i] = ch.layer; int q = quarter(it->second.p, sw, sh, x, y, false); if (q < 0) { if (ch.o > 0) tol[i] = ch.o == 1 ? 999 : 1000; continue; }
            Px v = colour(it->second.p, q); if (ch.o == 1) tol[i] = 0; else tol[i] += 1; for (int k = 0; k < 3; k++) e[i * 3 + k] = e[i * 3 + k] * (1 - ch.o) + clip(v.c[k]) * ch.o; } }
    for (int y = 0; y < c.h; y++) for (int x = 0; x < c.w; x++) { int i = y * c.w + x; if (tol[i] > 100) continue; for (int k = 0; k < 3; k++) { double d = (unsigned char)s.data[i * 3 + k] - e[i * 3 + k]; if (d > tol[i] + .51 || d < -tol[i] - .51) { snprintf(b, sizeof b, "has %d instead of %.1f at %d,%d component %d", (unsigned char)s.data[i * 3 + k], e[i * 3 + k], x, y, k); why = b; return false; } } }
    return true;
}
int64_t mixTime(const Cfg &c, std::map<int, Taken> &in) { int64_t t = -1; for (auto &x : c.ch) if (x.second.on && in.count(x.first)) t = std::max(t, in[x.first].p.pts); return t; }
std::map<int, Taken> take(std::map<int, Frame *> &o, const std::vector<int> &n, bool order = true)
{
    std::map<int, Taken> t; for (auto &x : o) { if (!x.second) continue; Src *s = R->in.count(x.first) ? R->in[x.first] : nullptr; bool mv = R->movedInStep.count(x.first) || R->moving.count(x.first); if (!s) { if (!mv) violation("input", "the element gets a picture of input %d, which is not connected", x.first); continue; }
        InterleavedVideoFrame *v = dynamic_cast<InterleavedVideoFrame *>(x.second); const Pic *p = decode(*s, v); bool nw = std::find(n.begin(), n.end(), x.first) != n.end(); if (!p) { if (!nw) { probe("old_picture_overwritten"); R->movedInStep.insert(x.first); continue; } if (mv) continue; violation("input", "input %d delivers a picture (%dx%d, time %lld, number %zu) its source did not send", x.first, v->getWidth(), v->getHeight(), (long long)v->getPresentationTime().count(), (size_t)v->getSequenceNumber()); }
        if (!mv && p->serial < R->lastIn[x.first]) violation("input", "input %d delivers picture %llu after %llu", x.first, (unsigned long long)p->serial, (unsigned long long)R->lastIn[x.first]); if (!mv) R->lastIn[x.first] = p->serial; t[x.first] = Taken{*p, nw}; }
    return t;
}
void begin() { R->steps++; R->movedInStep = R->moving; }
template <class F> size_t candidates(F ok, const char *what)
{
    std::string why, first; size_t hi = R->begun; for (size_t k = std::max(R->lo, R->stepLo); k <= hi; k++) { why.clear(); if (ok(R->cfg[k], why)) { R->lo = k; return k; } if (first.empty()) first = why + " [" + describe(R->cfg[k]) + "]"; }
    violation("wrong-picture", "%s %s, with every configuration that can be in force", what, first.c_str());
}
struct TMix : public VideoMixer {
    TMix(int n, int w, int h, int64_t ft) : VideoMixer(n, w, h, std::chrono::microseconds(ft)) {}
    bool doProcessFrame(std::map<int, Frame *> &o, Frame *d, std::vector<int> n) override
    {
        std::map<int, Taken> in; { Harness h; begin(); in = take(o, n); }
        bool r = VideoMixer::doProcessFrame(o, d, n);
        { Harness h; for (auto &x : in) { InterleavedVideoFrame *v = dynamic_cast<InterleavedVideoFrame *>(o[x.first]); const Pic *p = R->in.count(x.first) ? decode(*R->in[x.first], v) : nullptr; if (!p || p->serial != x.second.p.serial) { if (x.second.isNew && !R->movedInStep.count(x.first) && !R->moving.count(x.first)) violation("input", "the picture of input %d changes while it is used", x.first); R->movedInStep.insert(x.first); probe("old_picture_overwritten"); } }
          for (int m : R->moving) R->movedInStep.insert(m);
          if (!r) violation("no-picture", "the mixer makes no picture of %zu inputs", in.size()); Shown s = look(d); candidates([&](const Cfg &c, std::string &w) { if (!mixOk(c, in, s, w)) return false; int64_t t = mixTime(c, in); if (!R->timing && t >= 0 && R->movedInStep.empty() && s.pts != t) { w = "has time " + std::to_string(s.pts) + " instead of " + std::to_string(t); return false; } return true; }, "a mixed picture"); R->pictures++; if (!in.empty()) R->checked++;
          for (auto &x : R->out) { { Shown m = s; std::string().swap(m.data); x.second->made.push_back(m); } if (x.second->made.size() > 5000) x.second->made.pop_front(); } R->lastPts = s.pts; }
        return r;
    }
};
// -- splitter
struct TSplit : public VideoSplitter {
    TSplit(int64_t ft) : VideoSplitter(std::chrono::microseconds(ft)) {}
    bool doProcessFrame(Frame *org, std::map<int, Frame *> &d) override
    {
        Taken in; bool have; { Harness h; begin(); std::map<int, Frame *> o; o[1] = org; std::vector<int> n(1, 1); std::map<int, Taken> t = take(o, n); have = t.count(1); if (have) in = t[1]; }
        bool r = VideoSplitter::doProcessFrame(org, d);
        Harness h; for (int m : R->moving) R->movedInStep.insert(m); if (!have) return r; const Pic &p = in.p;
        std::map<int, Shown> sh; std::map<int, bool> con; for (auto &x : d) { con[x.first] = x.second->getConsumed(); if (con[x.first]) sh[x.first] = look(x.second); }
        candidates([&](const Cfg &c, std::string &why) {
            char b[300]; bool any = false; for (auto &x : d) { if (R->movedInStep.count(x.first)) continue; auto it = c.cr.find(x.first); Crop k; if (it != c.cr.end()) k = it->second; bool fits = k.w > 0 && k.h > 0 && k.x >= 0 && k.y >= 0 && (int64_t)k.x + k.w <= p.w && (int64_t)k.y + k.h <= p.h; any |= fits;
                if (con[x.first] && !fits) { snprintf(b, sizeof b, "is made for output %d although its crop does not fit into %dx%d", x.first, p.w, p.h); why = b; return false; } if (!fits) continue; if (!con[x.first] || !r) { snprintf(b, sizeof b, "is not made for output %d", x.first); why = b; return false; }
                Shown &s = sh[x.first]; size_t third = s.len * 3; if (s.w == k.w && s.h == k.h && third == (size_t)3 * k.w * k.h && s.len != third && known_finding("splitter-length")) third = s.len; else third = 3 * k.w * k.h; if (s.w != k.w || s.h != k.h || s.len != third || s.fmt != RGB24) { snprintf(b, sizeof b, "of output %d is %dx%d, format %d, %zu bytes", x.first, s.w, s.h, s.fmt, s.len); why = b; return false; }
                if (s.pts != p.pts || s.dts != p.dts) { snprintf(b, sizeof b, "of output %d has times %lld/%lld instead of %lld/%lld", x.first, (long long)s.pts, (long long)s.dts, (long long)p.pts, (long long)p.dts); why = b; return false; }
                for (int y = 0; y < k.h; y++) for (int X = 0; X < k.w; X++) { Px v = colour(p, (k.y + y >= p.h / 2) * 2 + (k.x + X >= p.w / 2)); for (int q = 0; q < 3; q++) if ((unsigned char)s.data[(y * k.w + X) * 3 + q] != clip(v.c[q])) { snprintf(b, sizeof b, "of output %d is wrong at %d,%d", x.first, X, y); why = b; return false; } } }
            return true; }, "a crop");
        R->pictures++; R->checked += !sh.empty(); for (auto &x : d) if (con[x.first] && r && R->out.count(x.first)) { Out *o = R->out[x.first]; { Shown m = sh[x.first]; std::string().swap(m.data); o->made.push_back(m); } if (o->made.size() > 5000) o->made.pop_front(); }
        return r;
    }
};
// -- resampler
struct TRes : public VideoResampler {
    bool doProcessFrame(Frame *org, Frame *dst) override
    {
        Taken in; bool have; { Harness h; begin(); std::map<int, Frame *> o; o[1] = org; std::vector<int> n(1, 1); std::map<int, Taken> t = take(o, n); have = t.count(1); if (have) in = t[1]; }
        bool r = VideoResampler::doProcessFrame(org, dst);
        Harness h; for (int m : R->moving) R->movedInStep.insert(m); if (!have) return r; const Pic &p = in.p; Shown s = look(dst);
        candidates([&](const Cfg &c, std::string &why) {
            char b[300]; int w = c.w ? c.w : p.w, hh = c.h ? c.h : p.h; size_t len = bytes(c.fmt, w, hh); bool fits = len <= dst->getMaxLength(); if (!fits) { if (r) { why = "is made although it does not fit"; return false; } return true; } if (!r) { why = "is not made"; return false; }
            if (s.w != w || s.h != hh || s.fmt != c.fmt || s.len != len) { snprintf(b, sizeof b, "is %dx%d, format %d, %zu bytes instead of %dx%d, format %d, %zu bytes", s.w, s.h, s.fmt, s.len, w, hh, c.fmt, len); why = b; return false; } if (s.pts != p.pts || s.dts != p.dts) { snprintf(b, sizeof b, "has times %lld/%lld instead of %lld/%lld", (long long)s.pts, (long long)s.dts, (long long)p.pts, (long long)p.dts); why = b; return false; }
            bool sub = c.fmt != p.fmt || w != p.w || hh != p.h || (p.fmt != RGB24 && p.fmt != RGB32); for (int y = 0; y < hh; y++) for (int x = 0; x < w; x++) { int q = quarter(p, w, hh, x, y, sub); if (q < 0) continue; Px v = value(p, q, c.fmt); for (int k = 0; k < 3; k++) { double t = p.fmt == c.fmt && w == p.w && hh == p.h ? 2 : 9, e = at((unsigned char *)s.data.data(), c.fmt, w, hh, x, y, k) - v.c[k]; if (e > t || e < -t) { snprintf(b, sizeof b, "(%dx%d format %d of %dx%d format %d) has %d instead of %.1f at %d,%d component %d", w, hh, c.fmt, p.w, p.h, p.fmt, at((unsigned char *)s.data.data(), c.fmt, w, hh, x, y, k), v.c[k], x, y, k); why = b; return false; } } }
            return true; }, "a resampled picture");
        R->pictures++; R->checked += r; if (r) for (auto &x : R->out) { { Shown m = s; std::string().swap(m.data); x.second->made.push_back(m); } if (x.second->made.size() > 5000) x.second->made.pop_front(); }
        return r;
    }
};
void warmLibs() { cv::setNumThreads(0); cv::Mat a(8, 8, CV_8UC3), b(6, 6, CV_8UC3), c; a = cv::Scalar(0, 0, 0); cv::resize(a, b, cv::Size(6, 6)); cv::addWeighted(b, .5, b, .5, 0, b); b.copyTo(c); unsigned char buf[2][4096]; memset(buf, 0, sizeof buf); SwsContext *s = sws_getContext(16, 16, AV_PIX_FMT_RGB24, 8, 8, AV_PIX_FMT_YUV420P, SWS_FAST_BILINEAR, 0, 0, 0); const uint8_t *in[4] = {buf[0]}; int il[4] = {48}; uint8_t *out[4] = {buf[1], buf[1] + 64, buf[1] + 80}; int ol[4] = {8, 4, 4}; sws_scale(s, in, il, 0, 16, out, ol); sws_freeContext(s); }
struct Warm { Warm() { warmLibs(); } } warm_;     // before any simulated thread exists
double sixteenth(int lo, int hi) { return range(W, lo, hi) / 16.; }
}
SCENARIO(video, "video mixer, splitter and resampler with changing sources, consumers and configuration")
{
    set_step_limit(100000000); hf::warm(); warmLibs(); Run run; R = &run; int ep = track_begin(); std::string leak;
    {
        run.kind = "msr"[choose(W, 3)]; run.cfg.push_back(Cfg()); Cfg &c0 = run.cfg[0]; BaseFilter *f; run.frameTime = chance(W, 1, 4) ? 1000 + choose(W, 40000) : 0; run.timing = run.frameTime > 0; int nin = 1, nout = 1;
        if (run.kind == 'm') { run.max = 2 + choose(W, 4); c0.w = 16 * (1 + choose(W, MW / 16)); c0.h = 16 * (1 + choose(W, MH / 16)); nin = 1 + choose(W, run.max); Sut u; f = new TMix(run.max, c0.w, c0.h, run.frameTime); }
        else if (run.kind == 's') { nout = 1 + choose(W, 3); Sut u; f = new TSplit(run.frameTime); } else { Sut u; f = new TRes; }
        run.f = f; f->setId(50); std::vector<std::unique_ptr<Out>> outs;
        Sched sc = random_sched(true, true); if (sc.stall_max_us > 3000) sc.stall_max_us = 3000; configure(sc);
        for (int i = 0; i < nin; i++) { Src *s = new Src(1 + i, i); s->rid = run.kind == 'm' ? 1 + i : 1; run.src.emplace_back(s); s->size(); }
        for (int i = 0; i < nout; i++) { Out *o = new Out(60 + i, run.kind == 's' ? 1 + i : 1); o->slow = chance(W, 1, 2) ? choose(W, 3000) : 0; outs.emplace_back(o); }
        // connecting and disconnecting, as operations of the control thread
        auto change = [&](std::function<void(Cfg &)> fn) { Cfg c = run.cfg.back(); fn(c); run.cfg.push_back(c); run.begun = run.cfg.size() - 1; };
        auto settled = [&](int n) { uint64_t s = run.steps; wait_until([&] { return run.steps >= s + n || run.stop; }, 60000, 300); };
        volatile uint64_t loops = 0; bool live = false; auto passes = [&](int n) { if (!live) return; uint64_t s = loops; wait_until([&] { return loops >= s + n; }, 60000000, 100); };
        auto joinIn = [&](Src &s) { run.moving.insert(s.rid); run.movedInStep.insert(s.rid); run.in[s.rid] = &s; s.on = true; bool ok; { Sut u; ok = run.kind == 'm' ? s.connectManyToMany(f, s.rid, 1) : s.connectManyToOne(f, 1); } if (!ok) violation("connect", "source %d cannot be connected", s.stream); change([&](Cfg &c) { c.ch[s.rid] = Chan(); }); run.ended = run.begun; passes(2); run.lastIn.erase(s.rid); run.moving.erase(s.rid); };
        auto leaveIn = [&](Src &s) { passes(2); run.moving.insert(s.rid); run.movedInStep.insert(s.rid); bool wr = chance(W, 1, 2); log("source of input %d leaves, wr %d", s.rid, wr); bool r; { Sut u; r = wr ? s.disconnectWriter(1) : f->disconnectReader(s.rid); } log("left: %d", r); if (!wr) { passes(1); Sut u; s.disconnectWriter(1); } if (live) wait_until([&] { Jzon::Object st; { Sut u; f->getState(st); } Jzon::Array a = st.Get("channels").AsArray(); for (size_t i = 0; i < a.GetCount(); i++) if (a.Get(i).Get("id").ToInt() == s.rid) return false; return true; }, 5000000, 500); passes(3); change([&](Cfg &c) { c.ch.erase(s.rid); }); run.ended = run.begun; passes(2); run.in.erase(s.rid); s.on = false; run.moving.erase(s.rid); };
        auto joinOut = [&](Out &o) { run.moving.insert(o.wid); run.movedInStep.insert(o.wid); run.out[o.wid] = &o; bool ok; { Sut u; ok = run.kind == 's' ? f->connectManyToOne(&o, o.wid) : f->connectOneToOne(&o); } if (!ok) violation("connect", "output %d cannot be connected", o.wid); change([&](Cfg &c) { c.cr[o.wid] = Crop(); }); run.ended = run.begun; o.ever = true; passes(2); run.moving.erase(o.wid); };
        auto leaveOut = [&](Out &o) { passes(2); run.moving.insert(o.wid); run.movedInStep.insert(o.wid); { Sut u; f->disconnectWriter(o.wid); } change([&](Cfg &c) { c.cr.erase(o.wid); }); run.ended = run.begun; passes(3); { int r = 0; o.step(r); } run.out.erase(o.wid); o.made.clear(); o.got = 0; run.moving.erase(o.wid); };
        auto event = [&] {
            Jzon::Object root, p; std::function<void(Cfg &)> eff; bool bad = chance(W, 1, 4); std::string act;
            if (run.kind == 'm' && !chance(W, 1, 6)) {
                act = "configChannel"; Chan c; int id = chance(W, 1, 10) ? 70 + choose(W, 3) : 1 + choose(W, nin); c.w = sixteenth(1, 16); c.h = sixteenth(1, 16); c.x = sixteenth(0, 15); c.y = sixteenth(0, 15); if (chance(W, 1, 2)) { c.x = sixteenth(0, 16 - (int)(c.w * 16)); c.y = sixteenth(0, 16 - (int)(c.h * 16)); } if (chance(W, 1, 6)) { c.w = c.h = 1; c.x = c.y = 0; } c.layer = choose(W, run.max + 1); c.on = !chance(W, 1, 6); static const double op[] = {1, 1, 1, .5, .25, .75, 0}; c.o = op[choose(W, 7)]; if (c.layer == run.max) probe("top_layer");
                bool odd = chance(W, 1, 8); if (odd) { fault("extreme_configuration"); switch (choose(W, 4)) { case 0: c.x = 1; break; case 1: c.y = 1; break; case 2: c.w = 1e-6; break; default: c.h = 1e-6; break; } }
                Jzon::Object junk; p.Add("id", id); p.Add("width", c.w); p.Add("height", c.h); p.Add("x", c.x); p.Add("y", c.y); p.Add("layer", c.layer); p.Add("enabled", c.on); p.Add("opacity", c.o); bool refused = false;
                if (bad) { fault("invalid_configuration"); refused = true; switch (choose(W, 14)) { case 0: p.Remove("width"); p.Add("width", -.5); break; case 1: p.Remove("x"); p.Add("x", -.25); break; case 2: p.Remove("opacity"); p.Add("opacity", 1.5); break; case 3: p.Remove("layer"); p.Add("layer", -1); break; case 4: p.Remove("layer"); p.Add("layer", run.max + 1 + (int)choose(W, 5)); break; case 5: p.Remove("opacity"); break; case 6: p.Remove("width"); p.Add("width", junk); break; case 7: p.Remove("height"); p.Add("height", 0); break; case 8: p.Remove("enabled"); break; case 9: p.Remove("width"); p.Add("width", 1000000); break; case 10: p.Remove("height"); p.Add("height", 1e9); break; case 11: p.Remove("x"); p.Add("x", 1e9); break; case 12: p.Remove("y"); p.Add("y", 100); break; default: p.Remove("opacity"); p.Add("opacity", -1); break; } }
                if (!refused) eff = [id, c](Cfg &g) { if (g.ch.count(id)) g.ch[id] = c; };
            } else if (run.kind == 'm') {
                act = "configure"; int w = 16 * (1 + choose(W, MW / 16)), h = 16 * (1 + choose(W, MH / 16)); if (bad) { fault("invalid_configuration"); static const int bw[] = {0, -16, MW + 1, 1 << 30}; (chance(W, 1, 2) ? w : h) = bw[choose(W, 4)]; } else eff = [w, h](Cfg &g) { g.w = w; g.h = h; }; p.Add("width", w); p.Add("height", h); if (run.timing && chance(W, 1, 2)) p.Add("fps", 10 + (int)choose(W, 90)); if (chance(W, 1, 4)) p.Add("fps", "x");
            } else if (run.kind == 's') {
                act = "configCrop"; int id = chance(W, 1, 10) ? 70 + choose(W, 3) : 1 + choose(W, nout); Crop c; c.w = 1 + choose(W, MW); c.h = 1 + choose(W, MH); c.x = choose(W, MW); c.y = choose(W, MH); if (chance(W, 1, 2)) { c.w = 1 + choose(W, 24); c.h = 1 + choose(W, 24); c.x = choose(W, 24); c.y = choose(W, 24); } if (chance(W, 1, 4) && run.cfg.back().cr.count(id) && run.cfg.back().cr[id].w > 0) { c.w = run.cfg.back().cr[id].w; c.h = run.cfg.back().cr[id].h; probe("same_size"); }
                bool refused = false, odd = false; if (chance(W, 1, 8)) { odd = true; fault("extreme_configuration"); switch (choose(W, 4)) { case 0: c.x = 2147483647; break; case 1: c.w = 2147483647; break; case 2: c.y = 2147483000 + choose(W, 600); break; default: c.h = 1000000000; break; } }
                Jzon::Object junk; p.Add("id", id); p.Add("width", c.w); p.Add("height", c.h); p.Add("x", c.x); p.Add("y", c.y); if (chance(W, 1, 3)) p.Add("degree", (int)choose(W, 361)); if (bad) { fault("invalid_configuration"); refused = true; switch (choose(W, 7)) { case 0: p.Remove("width"); p.Add("width", 0); break; case 1: p.Remove("height"); p.Add("height", -5); break; case 2: p.Remove("x"); p.Add("x", -1); break; case 3: p.Remove("y"); p.Add("y", junk); break; case 4: p.Remove("id"); break; case 5: p.Remove("degree"); p.Add("degree", 400); break; default: p.Remove("degree"); p.Add("degree", junk); break; } }
                if (!refused) eff = [id, c](Cfg &g) { if (g.cr.count(id)) g.cr[id] = c; };
            } else {
                act = "configure"; Cfg n = run.cfg.back(); static const int ff[] = {RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P}; Jzon::Object junk; bool any = false; if (chance(W, 2, 3)) { n.w = chance(W, 1, 4) ? 0 : 8 * (2 + choose(W, MW / 8 - 1)); p.Add("width", n.w); any = true; } if (chance(W, 2, 3)) { n.h = chance(W, 1, 4) ? 0 : 8 * (2 + choose(W, MH / 8 - 1)); p.Add("height", n.h); any = true; } if (chance(W, 1, 2)) { n.fmt = ff[choose(W, 6)]; p.Add("pixelFormat", n.fmt); } if (run.timing && chance(W, 1, 2)) p.Add("fps", 10 + (int)choose(W, 90));
                if (bad) { fault("invalid_configuration"); switch (choose(W, 7)) { case 0: p.Remove("width"); p.Add("width", -8); break; case 1: p.Remove("height"); p.Add("height", MH + 1); break; case 2: p.Remove("pixelFormat"); p.Add("pixelFormat", 99); break; case 3: p.Remove("width"); p.Add("width", junk); break; case 4: p.Remove("width"); p.Add("width", 100000); break; case 5: p.Remove("pixelFormat"); p.Add("pixelFormat", (int)P_NONE); break; default: p.Remove("pixelFormat"); p.Add("pixelFormat", -1); break; } } else eff = [n](Cfg &g) { g.w = n.w; g.h = n.h; g.fmt = n.fmt; };
            }
            root.Add("action", act); root.Add("params", p); change([&](Cfg &c) { if (eff) eff(c); }); log("event %zu %s%s: %s", run.begun, act.c_str(), eff ? "" : " (bad)", describe(run.cfg.back()).c_str()); Event e(root, std::chrono::system_clock::time_point(std::chrono::nanoseconds(wall_ns())), 0); { Sut u; f->pushEvent(e); } run.ended = run.begun; };
        for (auto &o : outs) if (run.kind != 's' || chance(W, 2, 3) || o == outs[0]) joinOut(*o); for (auto &s : run.src) if (chance(W, 3, 4) || s == run.src[0]) joinIn(*s);
        // threads
        live = true; std::vector<int> th; int poll = 50 + choose(W, 400);
        for (auto &s : run.src) { Src *p = s.get(); int per = 200 + choose(W, chance(W, 1, 2) ? 1000 : 20000); th.push_back(spawn("source", [p, per, &run] { while (!run.stop) { int r = 0; p->step(r); sleep_us(range(W, per / 2, per)); } })); }
        th.push_back(spawn("element", [&] { while (!run.stop) { run.stepLo = run.ended; run.movedInStep = run.moving; int r = 0; { Sut u; f->processFrame(r); } loops++; sleep_us(chance(W, 1, 16) ? range(W, 1, 5000) : poll); } }));
        for (auto &o : outs) { Out *p = o.get(); th.push_back(spawn("consumer", [p, poll, &run] { while (!run.stop) { if (run.out.count(p->wid) && run.out[p->wid] == p && !run.moving.count(p->wid)) { int r = 0; p->step(r); } sleep_us(poll); } })); }
        int ops = 6 + choose(W, 30); bool churn = chance(W, 1, 4);
        for (int i = 0; i < ops; i++) {
            if (chance(W, 2, 3)) sleep_us(choose(W, churn ? 400 : 4000)); int k = churn && chance(W, 2, 3) ? 14 : choose(W, 20);
            if (k < 14) event(); else if (k < 16 && run.kind == 'm') { Src &s = *run.src[choose(W, nin)]; if (s.on) leaveIn(s); else joinIn(s); } else if (k < 16 && run.kind == 's') { Out &o = *outs[choose(W, nout)]; if (run.out.count(o.wid)) leaveOut(o); else joinOut(o); } else if (k == 16) { Jzon::Object st; Sut u; f->getState(st); } else sleep_us(choose(W, 30000));
        }
        stop_disturbing(); passes(3);
        // in the end everything connected keeps coming
        for (auto &s : run.src) if (!s->on && chance(W, 1, 2)) joinIn(*s);
        if (run.kind == 'm') { Jzon::Object st; { Sut u; f->getState(st); } const Cfg &c = run.cfg.back(); if (st.Get("width").ToInt() != c.w || st.Get("height").ToInt() != c.h) violation("state", "the mixer reports the size %dx%d instead of %dx%d", st.Get("width").ToInt(), st.Get("height").ToInt(), c.w, c.h); Jzon::Array a = st.Get("channels").AsArray(); size_t n = 0; for (size_t i = 0; i < a.GetCount(); i++) { int id = a.Get(i).Get("id").ToInt(); auto it = c.ch.find(id); if (it == c.ch.end()) violation("state", "the mixer reports channel %d, which is not connected", id); n++; const Chan &h = it->second; if (a.Get(i).Get("enabled").ToBool() != h.on || a.Get(i).Get("layer").ToInt() != h.layer || std::fabs(a.Get(i).Get("x").ToDouble() - h.x) > 1e-3 || std::fabs(a.Get(i).Get("y").ToDouble() - h.y) > 1e-3 || std::fabs(a.Get(i).Get("width").ToDouble() - h.w) > 1e-3 || std::fabs(a.Get(i).Get("height").ToDouble() - h.h) > 1e-3 || std::fabs(a.Get(i).Get("opacity").ToDouble() - h.o) > 1e-3) violation("state", "the mixer reports channel %d with other values than configured [%s]", id, describe(c).c_str()); } if (n != c.ch.size()) violation("state", "the mixer reports %zu of %zu channels", n, c.ch.size()); }
        if (run.kind == 's') { Jzon::Object st; { Sut u; f->getState(st); } const Cfg &c = run.cfg.back(); Jzon::Array a = st.Get("crops").AsArray(); if (a.GetCount() != c.cr.size()) violation("state", "the splitter reports %zu of %zu crops", (size_t)a.GetCount(), c.cr.size()); for (size_t i = 0; i < a.GetCount(); i++) { auto it = c.cr.find(a.Get(i).Get("id").ToInt()); if (it == c.cr.end() || a.Get(i).Get("width").ToInt() != it->second.w || a.Get(i).Get("height").ToInt() != it->second.h || a.Get(i).Get("x").ToInt() != it->second.x || a.Get(i).Get("y").ToInt() != it->second.y) violation("state", "the splitter reports crop %d with other values than configured [%s]", a.Get(i).Get("id").ToInt(), describe(c).c_str()); } }
        uint64_t p0 = run.pictures; bool fed = !run.in.empty() && !run.out.empty(); wait_until([&] { return run.pictures >= p0 + 3; }, 3000000, 1000); if (fed && run.pictures < p0 + 3) violation("no-picture", "no pictures are made any more");
        run.stop = true; for (int t : th) join(t); live = false; state(run.checked); nontrivial(run.checked > 3);
        for (auto &s : run.src) if (s->on) { Sut u; s->disconnectWriter(1); } { Sut u; for (auto &o : run.out) f->disconnectWriter(o.first); } { int r = 0; Sut u; f->processFrame(r); } for (auto &o : outs) { int r = 0; o->step(r); }
        run.src.clear(); { Sut u; delete f; } outs.clear(); run.in.clear(); run.out.clear(); run.cfg.clear(); run.cfg.shrink_to_fit(); run.moving.clear(); run.movedInStep.clear(); run.lastIn.clear();
    }
    R = nullptr; if (uint64_t n = live_in_epoch(ep, &leak)) violation("leak", "%llu blocks are left: %s", (unsigned long long)n, leak.c_str());
}
