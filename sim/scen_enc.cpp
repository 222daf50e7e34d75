// V03: the video encoding elements with stand-ins of libx264 and libx265 that reorder, delay and fail.
#include "filters.h"
#include "SlicedVideoFrameQueue.hh"
#include "modules/videoEncoder/VideoEncoderX264.hh"
#include "modules/videoEncoder/VideoEncoderX265.hh"
#include "x26x.h"
using namespace sim;
namespace {
const int MW = DEFAULT_WIDTH, MH = DEFAULT_HEIGHT; const unsigned SLOT = MAX_H264_OR_5_NAL_SIZE;
struct Conf { int bitrate = DEFAULT_BITRATE, fps = VIDEO_DEFAULT_FRAMERATE, gop = DEFAULT_GOP, look = DEFAULT_LOOKAHEAD, bframes = DEFAULT_B_FRAMES, threads = DEFAULT_THREADS, gopTime = 0; bool annexb = DEFAULT_ANNEXB; std::string preset = DEFAULT_PRESET; };
struct Pic { int64_t pts, org; size_t seq; uint64_t hash; int w, h, fmt; };
struct Unit { uint64_t hash; unsigned len; int64_t pts, dts, org; size_t seq; int w, h; };
int kind(int fmt) { return fmt == YUV420P ? 1 : fmt == YUV422P ? 2 : fmt == YUV444P ? 3 : 0; }
size_t bytes(int f, int w, int h) { int k = kind(f); if (!k) return f == RGB24 ? 3 * w * h : f == YUYV422 ? 2 * ((w + 1) / 2 * 2) * h : w * h * 3 / 2; int cw = k < 3 ? (w + 1) / 2 : w, ch = k < 2 ? (h + 1) / 2 : h; return w * h + 2 * cw * ch; }
struct Run {
    bool h265; Conf c; uint64_t cfgNo = 1, openCfg = 0; bool intra = false; int64_t ref = 0; std::map<int64_t, Pic> coded; const Pic *cur = nullptr; unsigned char *curData = nullptr; bool encoded = false, gave = false, moved = true; Pic last; bool haveLast = false; cod::Coded res; uint64_t calls = 0, good = 0, outs = 0, delivered = 0, lost = 0; int64_t lastDts = -1, lastKeyOut = -1000, lastPts = -1; bool noFault = false; std::deque<Unit> made; BaseFilter *f = nullptr; bool stop = false, forcedNow = false, headless = false; int busy = 0; uint64_t failed = 0; int64_t minPts = 0; bool connected = true; uint64_t steps = 0;
} *R;
std::string show(const Conf &c) { char b[200]; snprintf(b, sizeof b, "bitrate %d fps %d gop %d lookahead %d bframes %d threads %d gopTime %d annexb %d preset %s", c.bitrate, c.fps, c.gop, c.look, c.bframes, c.threads, c.gopTime, c.annexb, c.preset.c_str()); return b; }
// what the encoder library was opened with, against the configuration in force
std::string mismatch(const cod::Par &p, const Pic &pic)
{
    const Conf &c = R->c; char b[200]; b[0] = 0;
#define EQ(what, got, want) if ((got) != (want)) { snprintf(b, sizeof b, "%s %d instead of %d", what, (int)(got), (int)(want)); return b; }
    EQ("width", p.w, pic.w) EQ("height", p.h, pic.h) EQ("colour format", p.csp, kind(pic.fmt)) EQ("bitrate", p.bitrate, c.bitrate) EQ("key frame interval", p.keyint, c.gop) EQ("threads", p.threads, c.threads) EQ("lookahead", p.look, c.look) if (c.bframes >= 0) EQ("B-frames", p.bframes, c.bframes) if (p.fpsDen <= 0 || p.fpsNum != c.fps * p.fpsDen) { snprintf(b, sizeof b, "frame rate %d/%d instead of %d", p.fpsNum, p.fpsDen, c.fps); return b; } if (c.annexb && !p.repeat) return "headers only once"; if (c.annexb && !p.annexb) return "length prefixes instead of start codes"; if (p.preset != c.preset) return "preset " + p.preset + " instead of " + c.preset;
    return "";
}
void hooks()
{
    cod::H.opened = [](cod::Enc &e) { if (!R->cur) violation("encoder", "an encoder is opened without a picture"); for (cod::Enc *x : cod::all) if (x != &e && x->open) violation("encoder-left", "encoder %d is opened while encoder %d is still open", e.serial, x->serial); std::string m = mismatch(e.p, *R->cur); if (!m.empty()) violation("configuration", "the encoder library is opened with %s [%s]", m.c_str(), show(R->c).c_str()); R->openCfg = R->cfgNo; R->moved = false; R->headless = false; int busy = 0; };
    cod::H.closed = [](cod::Enc &e) { if (!R->cur) return; if (R->openCfg == R->cfgNo && !R->moved && !R->headless) violation("encoder-closed", "encoder %d is closed with %zu pictures inside although neither configuration nor pictures have changed", e.serial, e.pending.size() + e.ready.size()); R->lost += e.pending.size() + e.ready.size(); };
    cod::H.given = [](cod::Enc &e, const cod::In &in, int csp) {
        if (!R->cur || R->encoded) violation("encoder", "a picture is given to the encoder library %s", R->cur ? "twice" : "outside of processing"); const Pic &p = *R->cur; std::string m = mismatch(e.p, p); if (!m.empty()) violation("configuration", "a picture is encoded with %s [%s]", m.c_str(), show(R->c).c_str());
        int k = kind(p.fmt); if (csp != k) violation("wrong-format", "a picture of format %d is given to the encoder library as %d", k, csp); if (in.hash != cod::hashBytes(R->curData, bytes(p.fmt, p.w, p.h))) violation("wrong-content", "the planes given to the encoder library are not those of the %dx%d picture", p.w, p.h);
        bool want = R->intra; R->forcedNow = false; if (R->c.gopTime > 0) { if (!R->ref) R->ref = p.pts; if (p.pts >= R->ref) { want = true; R->forcedNow = true; R->ref += ((p.pts - R->ref) / R->c.gopTime + 1) * R->c.gopTime; } }
        if (want && !in.idr) violation("intra", "a requested intra picture is not asked for (%s)", R->forcedNow ? "group time" : "event"); if (!want && in.idr) violation("intra", "an intra picture is asked for without need"); R->intra = want; R->encoded = true; if (R->coded.count(in.pts) && R->coded[in.pts].hash) violation("encoder-time", "picture number %lld is given twice", (long long)in.pts); R->coded[in.pts] = p; R->coded[in.pts].hash = 0; };
    cod::H.made = [](cod::Enc &, const cod::Coded &c) { R->res = c; R->gave = true; };
}
struct VQ : public VideoFrameQueue { VQ(ConnectionData c, const StreamInfo *si, unsigned n) : VideoFrameQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(RAW, MW, MH, RGB24); } };
struct Src : public hf::Head {
    uint64_t serial = 0; int w = 16, h = 16, fmt = YUV420P; unsigned qlen; int64_t pts, off = 0; bool wild = true; bool pause = false;
    Src(int id) : Head(id) { qlen = 4 + choose(W, 6); si.video.codec = RAW; si.video.pixelFormat = YUV420P; pts = wall_ns() / 1000;
        body = [this](std::map<int, Frame *> &d, int &) { if (d.empty() || pause) return false; if (wild && chance(W, 1, 24)) shape(); InterleavedVideoFrame *v = dynamic_cast<InterleavedVideoFrame *>(d.begin()->second); if (wild && chance(W, 1, 60)) { fault("timestamp_jump"); off += 1000000 + choose(W, 20000000); } pts = std::max<int64_t>(pts + 1000, wall_ns() / 1000 + off + choose(W, 500));
            serial++; size_t n = bytes(fmt, w, h); unsigned char *b = v->getDataBuf(); check_access(b, n, true, __builtin_return_address(0)); for (size_t i = 0; i < n; i++) b[i] = (unsigned char)(serial * 37 + i * (1 + serial % 7)); v->setLength(n); v->setSize(w, h); v->setPixelFormat((PixType)fmt); v->setPresentationTime(std::chrono::microseconds(pts)); v->setConsumed(true); return true; }; }
    void shape() { int k = choose(W, 8); if (k < 3) { w = 2 * (4 + choose(W, MW / 2 - 3)); h = 2 * (4 + choose(W, MH / 2 - 3)); } else if (k < 6) { static const int f[] = {YUV420P, YUV420P, YUV422P, YUV444P}; fmt = f[choose(W, 4)]; } else if (k == 6) { fault("odd_picture"); w = 8 + choose(W, MW - 8); h = 8 + choose(W, MH - 8); } else { fault("unsupported_format"); static const int f[] = {RGB24, YUYV422, YUV422P, YUVJ420P}; fmt = f[choose(W, 4)]; } }
    void tame(bool h265) { wild = false; if (w % 2) w--; if (h % 2) h--; if (!kind(fmt) || (h265 && fmt == YUV422P)) fmt = YUV420P; }
    FrameQueue *allocQueue(ConnectionData c) override { Harness hh; Sut u; return new VQ(c, &si, qlen); }
};
struct Out : public hf::Tail {
    int slow = 0; Out(int id) : Tail(id) {
        body = [this](std::map<int, Frame *> &o, std::vector<int> n, int &) {
            if (n.empty()) return true; VideoFrame *f = dynamic_cast<VideoFrame *>(o.begin()->second); unsigned len = f->getLength(); if (len > SLOT) violation("unit", "a NAL unit of %u bytes is delivered in a slot of %u", len, SLOT); check_access(f->getDataBuf(), len, false, __builtin_return_address(0)); uint64_t h = cod::hashBytes(f->getDataBuf(), len); int64_t p = f->getPresentationTime().count(), d = f->getDecodeTime().count(), og = hf::org_us(f);
            bool found = false; while (!R->made.empty()) { Unit u = R->made.front(); R->made.pop_front(); if (u.hash == h && u.len == len) { if (u.pts != p || u.dts != d || u.seq != f->getSequenceNumber() || u.org != og) violation("unit-times", "a NAL unit of the picture with time %lld, decode time %lld, number %zu is delivered with time %lld, decode time %lld, number %zu%s", (long long)u.pts, (long long)u.dts, u.seq, (long long)p, (long long)d, (size_t)f->getSequenceNumber(), u.org != og ? ", other origin time" : ""); if (f->getWidth() != u.w || f->getHeight() != u.h) violation("unit-size", "a NAL unit of a %dx%d picture is delivered as %dx%d", u.w, u.h, f->getWidth(), f->getHeight()); found = true; break; } }
            if (!found) violation("unit", "a NAL unit of %u bytes, time %lld, is delivered that the encoder library did not make like that or in that order", len, (long long)p); R->delivered++; if (slow) sleep_us(choose(W, slow)); else yield("consumer"); if (cod::hashBytes(f->getDataBuf(), len) != h) violation("unit", "a NAL unit changes while its consumer uses it"); return true; }; }
};
template <class E> struct TEnc : public E {
    bool doProcessFrame(Frame *org, Frame *dst) override
    {
        Pic p; { Harness h; VideoFrame *v = dynamic_cast<VideoFrame *>(org); p.pts = org->getPresentationTime().count(); p.org = hf::org_us(org); p.seq = org->getSequenceNumber(); p.w = v->getWidth(); p.h = v->getHeight(); p.fmt = v->getPixelFormat(); p.hash = 1; R->cur = &p; R->curData = org->getDataBuf(); R->encoded = R->gave = false; cod::H.failOpen = cod::H.failEncode = cod::H.failHeaders = false; R->calls++; if (R->haveLast && (R->last.w != p.w || R->last.h != p.h || R->last.fmt != p.fmt)) R->moved = true; R->last = p; R->haveLast = true; }
        bool r = E::doProcessFrame(org, dst);
        Harness h; R->cur = nullptr; R->steps++; R->headless |= cod::H.failHeaders; bool good = kind(p.fmt) && !(R->h265 && p.fmt == YUV422P), clean = !cod::H.failOpen && !cod::H.failEncode && !cod::H.failHeaders;
        if (R->h265 && p.fmt == YUV422P && R->encoded) good = true;
        if (good && clean && !R->encoded) violation("not-encoded", "a picture (%dx%d, format %d) is not given to the encoder library", p.w, p.h, kind(p.fmt)); if (!good && R->encoded) violation("wrong-format", "a picture of format %d is encoded", p.fmt);
        if (R->encoded && !cod::H.failEncode) { R->intra = false; R->good++; } if (R->encoded && cod::H.failEncode) { for (auto &x : R->coded) if (x.second.pts == p.pts) { R->coded.erase(x.first); break; } R->failed++; }
        if (r && !R->gave) violation("empty", "the encoder reports a coded picture that the library did not make"); if (!R->gave) { if (R->coded.size() > 400) R->coded.erase(R->coded.begin()); return r; }
        const cod::Coded &c = R->res; bool many = c.nals.size() > MAX_SLICES; if (!r) { if (!many) violation("lost", "a coded picture of %zu NAL units is not delivered", c.nals.size()); probe("too_many_nals"); return r; }
        if (many) { log("%zu NAL units in one picture", c.nals.size()); }
        if (!R->coded.count(c.pts)) violation("harness", "unknown picture"); const Pic &q = R->coded[c.pts]; R->outs++;
        cod::Enc *e = cod::current(); const StreamInfo *si = this->outputStreamInfo; if (!si->extradata || si->extradata_size != (int)e->headLen || memcmp(si->extradata, e->head, e->headLen)) violation("headers", "the stream description does not carry the headers of the encoder in use");
        if (si->type != VIDEO || si->video.codec != (R->h265 ? H265 : H264) || si->video.h264or5.annexb != R->c.annexb) violation("headers", "the stream is described as codec %d, annex B %d", si->video.codec, si->video.h264or5.annexb);
        int64_t pt = dst->getPresentationTime().count(), dt = dst->getDecodeTime().count(); if (pt != q.pts) violation("unit-times", "a coded picture has time %lld instead of %lld", (long long)pt, (long long)q.pts); if (hf::org_us(dst) != q.org) violation("unit-times", "a coded picture has another origin time than its source"); if (dst->getSequenceNumber() != q.seq) violation("unit-times", "a coded picture has number %zu instead of %zu", (size_t)dst->getSequenceNumber(), q.seq);
        if (dt > pt) violation("decode-time", "a coded picture has decode time %lld after its time %lld", (long long)dt, (long long)pt); if (R->lastDts >= 0 && dt <= R->lastDts) violation("decode-time", "decode time %lld comes after %lld", (long long)dt, (long long)R->lastDts); if (dt < R->minPts - 20000000) violation("decode-time", "a coded picture with time %lld has decode time %lld", (long long)pt, (long long)dt);
        if (c.dts > R->lastKeyOut && c.dts >= e->first) { if (dt != R->coded[c.dts].pts) violation("decode-time", "the decode time is %lld instead of %lld", (long long)dt, (long long)R->coded[c.dts].pts); probe("decode_time_exact"); } else probe("decode_time_before_start"); R->lastKeyOut = std::max(R->lastKeyOut, c.dts); R->lastDts = dt; if (dt != pt) probe("reordered");
        for (auto &n : c.nals) R->made.push_back(Unit{n.hash, n.len, q.pts, dt, q.org, q.seq, q.w, q.h}); while (R->made.size() > 6000) R->made.pop_front();
        while (R->coded.size() > 400) R->coded.erase(R->coded.begin()); return r;
    }
};
void checkState(const char *when)
{
    Jzon::Object st; { Sut u; R->f->doGetState(st); } const Conf &c = R->c; if (st.Get("bitrate").ToInt() != c.bitrate || st.Get("fps").ToInt() != c.fps || st.Get("gop").ToInt() != c.gop || st.Get("lookahead").ToInt() != c.look || st.Get("bframes").ToInt() != c.bframes || st.Get("threads").ToInt() != c.threads || st.Get("gopTime").ToInt() != c.gopTime || st.Get("annexb").ToBool() != c.annexb || st.Get("preset").ToString() != c.preset)
        violation("state", "%s the encoder reports bitrate %d fps %d gop %d lookahead %d bframes %d threads %d gopTime %d annexb %d preset %s instead of [%s]", when, st.Get("bitrate").ToInt(), st.Get("fps").ToInt(), st.Get("gop").ToInt(), st.Get("lookahead").ToInt(), st.Get("bframes").ToInt(), st.Get("threads").ToInt(), st.Get("gopTime").ToInt(), st.Get("annexb").ToBool(), st.Get("preset").ToString().c_str(), show(c).c_str());
}
struct Ask { int type; Conf c; bool ok; int64_t ref; };    // an event on its way, applied in the order of posting
}
SCENARIO(enc, "video encoders with reordering, failing encoder libraries and changing configuration")
{
    set_step_limit(100000000); hf::warm(); Run run; R = &run; cod::reset(); hooks(); int ep = track_begin(); std::string leak;
    {
        run.h265 = chance(W, 1, 2); BaseFilter *f; { Sut u; if (run.h265) f = new TEnc<VideoEncoderX265>; else f = new TEnc<VideoEncoderX264>; } run.f = f; f->setId(50); checkState("at first");
        Sched sc = random_sched(true, true); if (sc.stall_max_us > 3000) sc.stall_max_us = 3000; configure(sc);
        bool calm = chance(W, 1, 5); if (!calm) { if (chance(W, 1, 2)) cod::H.failP = 8 + choose(W, 60); if (chance(W, 1, 3)) cod::H.many = 10 + choose(W, 60); if (chance(W, 1, 3)) cod::H.big = 5 + choose(W, 60); if (chance(W, 1, 2)) cod::H.slow = choose(W, 3000); }
        std::unique_ptr<Src> src(new Src(1)); src->wild = !calm && chance(W, 3, 4); std::unique_ptr<Out> out(new Out(60)); if (chance(W, 1, 3)) out->slow = choose(W, 3000); run.minPts = src->pts;
        std::deque<Ask> asks; Conf want;    // want: the configuration after all events posted
        auto apply = [&](const Ask &a) { };
        // the handlers are wrapped: the model changes at the moment the element changes
        for (const char *name : {"configure", "forceIntra", "gopReferenceTime"}) { auto &slot = f->eventMap[name]; auto orig = slot; slot = [&run, &asks, orig](Jzon::Node *p) { Ask a; { Harness h; if (asks.empty()) violation("harness", "an event is applied that was not posted"); a = asks.front(); asks.pop_front(); run.busy++; } bool r = false; try { r = orig(p); } catch (const std::exception &) { if (a.ok) violation("event", "a valid event is not applied"); } Harness h; if (a.type == 0) { if (a.ok) { run.c = a.c; run.cfgNo++; } checkState(a.ok ? "after a configuration" : "after a refused configuration"); } else if (a.type == 1) run.intra = true; else if (a.ok) run.ref = a.ref; run.busy--; return r; }; }
        auto post = [&](const char *act, Jzon::Object *p, Ask a) { Jzon::Object root; root.Add("action", act); if (p) root.Add("params", *p); asks.push_back(a); log("event %s%s", act, a.ok ? "" : " (bad)"); static int64_t last; Event e(root, std::chrono::system_clock::time_point(std::chrono::nanoseconds(wall_ns())), 0); Sut u; f->pushEvent(e); };
        auto settle = [&] { wait_progress([&] { return (asks.empty() && !run.busy) || run.stop; }, 2000000, 500); if (!asks.empty() && !run.stop) violation("event", "an event is not applied"); };
        auto configure1 = [&](bool bad, int fps) {
            Jzon::Object p; Conf c = want; bool ok = !bad; Jzon::Object junk; bool all = chance(W, 1, 5);
            if (all || chance(W, 1, 3)) p.Add("bitrate", c.bitrate = 100 + choose(W, 8000)); if (fps >= 0) { p.Add("fps", fps); c.fps = fps ? fps : VIDEO_DEFAULT_FRAMERATE; } if (all || chance(W, 1, 3)) p.Add("gop", c.gop = 1 + choose(W, 60)); if (all || chance(W, 1, 3)) p.Add("lookahead", c.look = choose(W, 41)); if (all || chance(W, 1, 2)) { c.bframes = chance(W, 1, 8) ? -1 : choose(W, 6); p.Add("bframes", c.bframes); } if (all || chance(W, 1, 4)) p.Add("threads", c.threads = 1 + choose(W, 8)); if (all || chance(W, 1, 4)) p.Add("annexb", c.annexb = chance(W, 1, 2)); if (all || chance(W, 1, 4)) { static const char *pr[] = {"ultrafast", "superfast", "veryfast", "medium", "slow", "placebo"}; c.preset = pr[choose(W, 6)]; p.Add("preset", c.preset); } if (chance(W, 1, 4)) { int g = chance(W, 1, 4) ? 0 : chance(W, 1, 4) ? 1 + choose(W, 1000000) : 1000000 + choose(W, 3000000); p.Add("gopTime", g); c.gopTime = g == 0 ? 0 : std::max(g, (int)MIN_GOP_TIME); }
            if (bad) { fault("invalid_configuration"); switch (choose(W, 9)) { case 0: p.Remove("bitrate"); p.Add("bitrate", 0); break; case 1: p.Remove("bitrate"); p.Add("bitrate", -2000); break; case 2: p.Remove("gop"); p.Add("gop", 0); break; case 3: p.Remove("gop"); p.Add("gop", -1); break; case 4: p.Remove("lookahead"); p.Add("lookahead", -3); break; case 5: p.Remove("threads"); p.Add("threads", 0); break; case 6: p.Remove("threads"); p.Add("threads", -4); break; case 7: p.Remove("preset"); p.Add("preset", ""); break; default: p.Remove("bitrate"); p.Add("bitrate", junk); ok = true; c.bitrate = want.bitrate; break; } }
            if (ok) want = c; post("configure", &p, Ask{0, c, ok, 0}); };
        { Sut u; if (!src->connectManyToOne(f, 1) || !f->connectOneToOne(out.get())) violation("connect", "the encoder cannot be connected"); }
        std::vector<int> th; int poll = 50 + choose(W, 300); bool paced = chance(W, 1, 4); volatile uint64_t loops = 0; int per = paced ? 10000 + choose(W, 40000) : 300 + choose(W, 3000);
        th.push_back(spawn("source", [&] { while (!run.stop) { int r = 0; src->step(r); sleep_us(range(W, per / 2, per)); } }));
        th.push_back(spawn("element", [&] { while (!run.stop) { int r = 0; { Sut u; f->processFrame(r); } loops++; sleep_us(poll); } }));
        th.push_back(spawn("consumer", [&] { while (!run.stop) { int r = 0; out->step(r); sleep_us(poll); } }));
        configure1(false, paced ? 10 + choose(W, 90) : 0); settle();
        int ops = 4 + choose(W, 20);
        for (int i = 0; i < ops; i++) {
            sleep_us(choose(W, per * 10)); switch (choose(W, 10)) {
            case 0: case 1: case 2: case 3: configure1(chance(W, 1, 4), chance(W, 1, 6) ? (paced ? 10 + choose(W, 90) : 0) : -1); break;
            case 4: case 5: { Jzon::Object p; post("forceIntra", chance(W, 1, 2) ? &p : nullptr, Ask{1, Conf(), true, 0}); break; }
            case 6: { Jzon::Object p; Ask a{2, Conf(), true, 0}; int k = choose(W, 6); a.ref = src->pts - (int64_t)choose(W, 2000000000) * (k == 0 ? 1000 : 1); if (k == 1) a.ref = src->pts + choose(W, 3000000); if (k < 3) p.Add("referenceTime", std::to_string(a.ref)); else { fault("invalid_configuration"); a.ok = false; if (k == 3) p.Add("referenceTime", 12); if (k == 4) p.Add("referenceTime", "soon"); if (k == 5 && chance(W, 1, 2)) { post("gopReferenceTime", nullptr, a); break; } } post("gopReferenceTime", &p, a); break; }
            case 7: settle(); checkState("later"); break;
            case 8: src->pause = true; sleep_us(choose(W, 100000)); src->pause = false; break;
            default: sleep_us(choose(W, per * 20)); }
        }
        settle(); stop_disturbing(); cod::H.failP = cod::H.many = cod::H.big = 0; cod::H.slow = 0; run.noFault = true; src->tame(run.h265); uint64_t g0 = run.good, o0 = run.outs, d0 = run.delivered; int64_t lim = 0; sleep_us(per * 20);
        auto ok = [&] { return run.outs >= o0 + 3 && run.delivered > d0; }; wait_until(ok, 20000000, 1000); if (!ok()) violation("no-progress", "%llu pictures were taken and %llu came out coded, %llu NAL units were delivered", (unsigned long long)(run.good - g0), (unsigned long long)(run.outs - o0), (unsigned long long)(run.delivered - d0)); checkState("in the end");
        run.stop = true; for (int t : th) join(t); state(run.outs * 7 + run.failed); nontrivial(run.outs > 5 && run.delivered > 5);
        { Sut u; src->disconnectWriter(1); f->disconnectWriter(1); } { int r = 0; Sut u; f->processFrame(r); } { int r = 0; out->step(r); } { Sut u; delete f; } src.reset(); out.reset(); for (cod::Enc *e : cod::all) if (e->open) violation("leak", "encoder %d is never closed", e->serial);
        run.coded.clear(); run.made.clear(); run.made.shrink_to_fit(); std::vector<cod::Nal>().swap(run.res.nals); asks.clear(); asks.shrink_to_fit(); std::string().swap(run.c.preset);
    }
    cod::reset(); R = nullptr; if (uint64_t n = live_in_epoch(ep, &leak)) violation("leak", "%llu blocks are left: %s", (unsigned long long)n, leak.c_str());
}
