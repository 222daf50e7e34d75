// Capture from a video device (V01): the device, its driver and every system call are simulated.
#include "filters.h"
#include "v4l.h"
#include "modules/V4LCapture/V4LCapture.hh"
#include <linux/videodev2.h>
using namespace sim;
using namespace simv4l;
namespace {
struct VQ : public VideoFrameQueue { VQ(ConnectionData c, const StreamInfo *si, unsigned n, unsigned len) : VideoFrameQueue(c, si, n) { for (unsigned i = 0; i < max; i++) { InterleavedVideoFrame *f = InterleavedVideoFrame::createNew(si->video.codec, len); f->setPixelFormat(si->video.pixelFormat); frames[i] = f; } } };
struct VRun {
    bool real = false; unsigned qmax = 6, flen = 4096; int outAllocs = 0; uint32_t allocPix = 0; std::deque<VFrame> expect; uint64_t got = 0, optional = 0; uint64_t out = 0; bool connected = false; StreamInfo *si = nullptr;
};
VRun *R;
PixType pixOf(uint32_t p) { return p == V4L2_PIX_FMT_YUYV ? YUYV422 : p == V4L2_PIX_FMT_YUV420 ? YUV420P : p == V4L2_PIX_FMT_RGB24 ? RGB24 : p == V4L2_PIX_FMT_YUV422P ? YUV422P : P_NONE; }
struct Cap : public V4LCapture {
    FrameQueue *allocQueue(ConnectionData c) override
    {
        Harness h; if (R->real) { FrameQueue *q; { Sut u; q = V4LCapture::allocQueue(c); } return q; }
        // what is announced to whoever is connected
        if (!fds.empty() && chance(W, 1, 5)) {
            Dev &d = devs[fds.begin()->second.dev]; bool gone = fds.begin()->second.gen != d.gen; FrameQueue *q; { Sut u; q = V4LCapture::allocQueue(c); } bool comp = pixOf(d.pix) == P_NONE; probe("announced");
            if (!gone && !q && d.pix != V4L2_PIX_FMT_MJPEG) violation("announcement", "no queue is created for the device's format %.4s", (char *)&d.pix);
            if (q) { VideoFrame *v; { Sut u; v = dynamic_cast<VideoFrame *>(q->getRear()); } if (!gone && (!v || v->getCodec() != (comp ? H264 : RAW) || v->getPixelFormat() != pixOf(d.pix))) violation("announcement", "a device that delivers %.4s is announced as codec %d, pixel format %d", (char *)&d.pix, v ? v->getCodec() : -1, v ? v->getPixelFormat() : -1); if (!gone && d.pix == V4L2_PIX_FMT_MJPEG) violation("announcement", "a queue is created for a device that delivers %.4s", (char *)&d.pix); Sut u; delete q; } }
        Sut u; return new VQ(c, R->si, R->qmax, R->flen);
    }
};
}
SCENARIO(v4l, "capture from devices that fail, stall and disappear")
{
    set_step_limit(100000000); hf::warm(); VRun run; R = &run; devs.clear(); fds.clear(); notdev.clear();
    run.real = chance(W, 1, 40); run.qmax = 6 + choose(W, 8);
    static const uint32_t FM[] = {V4L2_PIX_FMT_YUYV, V4L2_PIX_FMT_RGB24, V4L2_PIX_FMT_YUV420, V4L2_PIX_FMT_H264, V4L2_PIX_FMT_YUV422P, V4L2_PIX_FMT_MJPEG};
    int nd = 1 + choose(W, 2); for (int i = 0; i < nd; i++) {
        Dev d; d.path = "/simdev/video" + std::to_string(i); int nf = 1 + choose(W, 3); for (int k = 0; k < nf; k++) d.formats.push_back(FM[choose(W, run.real ? 3 : 6)]);
        d.maxW = 8 + choose(W, 40); d.maxH = 4 + choose(W, 24); if (run.real) { d.maxW = chance(W, 1, 3) ? 3840 : 320; d.maxH = d.maxW / 16 * 9; } d.step = chance(W, 1, 2) ? 2 : 4; d.pad = chance(W, 1, 4) ? 2 * choose(W, 17) : 0; d.w = d.maxW / 4 * 4; d.h = d.maxH / 4 * 4; d.pix = d.formats[0];
        if (chance(W, 1, 4)) d.slow = 5 + choose(W, 60); d.cropSup = chance(W, 1, 2); d.parmMode = choose(W, 6); if (i && chance(W, 1, 3)) switch (choose(W, 4)) { case 0: d.capture = false; break; case 1: d.streamingCap = false; break; case 2: d.parmSup = false; break; case 3: d.maxBufs = 1 + choose(W, 3); break; } devs.push_back(d);
    }
    notdev.insert("/simdev/file");
    if (chance(W, 1, 6)) run.flen = 64 + choose(W, 1500);       // some frames do not fit
    StreamInfo vsi(VIDEO); vsi.video.codec = H264; vsi.video.pixelFormat = P_NONE; run.si = &vsi;
    int ep = track_begin();
    Cap *f; { Sut u; f = new Cap(); f->setId(1); }
    hf::Tail *sink = new hf::Tail(3); uint64_t held0 = 0;
    on_dequeued = [&](const VFrame &fr) {
        VFrame x = fr; x.wall = wall_ns(); x.mono = now_ns(); size_t cap = run.real ? (size_t)(fr.pix == V4L2_PIX_FMT_RGB24 ? 6220800 : fr.pix == V4L2_PIX_FMT_YUV420 ? 3110400 : 4147200) : run.flen; if (run.real && run.allocPix != fr.pix) cap = 0;
        x.optional = run.expect.size() + 4 >= (run.real ? 10 : run.qmax) || x.data.size() > cap; if (x.data.size() > run.flen && !run.real) probe("frame_too_large"); if (x.optional) run.optional++; run.expect.push_back(x);
    };
    sink->body = [&](std::map<int, ::Frame *> &o, std::vector<int> n, int &) {
        for (int id : n) {
            ::Frame *fr = o[id]; VideoFrame *v = dynamic_cast<VideoFrame *>(fr); run.got++; if (run.got > 3) nontrivial(true);
            size_t len = fr->getLength(); if (len > fr->getMaxLength()) violation("content", "a frame of %zu bytes in a slot of %zu", len, (size_t)fr->getMaxLength()); check_access(fr->getDataBuf(), len, false, __builtin_return_address(0)); std::string d((char *)fr->getDataBuf(), len);
            for (;;) {
                if (run.expect.empty()) violation("content", "a frame of %zu bytes is delivered that the device did not produce, or for the second time, or out of order", len);
                VFrame e = run.expect.front(); run.expect.pop_front();
                if (e.data == d) {
                    if (v->getWidth() != (int)e.w || v->getHeight() != (int)e.h) violation("description", "frame %llu is %ux%u, it is delivered as %dx%d", (unsigned long long)e.serial, e.w, e.h, v->getWidth(), v->getHeight());
                    if (v->getPixelFormat() != pixOf(e.pix)) violation("description", "frame %llu is delivered with pixel format %d", (unsigned long long)e.serial, v->getPixelFormat());
                    { int64_t pts = v->getPresentationTime().count() * 1000; if (v->getDecodeTime() != v->getPresentationTime()) violation("time", "frame %llu has presentation time %lld us and decode time %lld us", (unsigned long long)e.serial, (long long)v->getPresentationTime().count(), (long long)v->getDecodeTime().count()); if (wall_ns() - now_ns() == e.wall - e.mono) { probe("times_judged"); if (pts < e.wall / 1000 * 1000 || pts > wall_ns()) violation("time", "frame %llu is read from the device at %lld us and delivered by %lld us, its presentation time is %lld us", (unsigned long long)e.serial, (long long)e.wall / 1000, (long long)wall_ns() / 1000, (long long)pts / 1000); } }
                    log("frame %llu is delivered", (unsigned long long)e.serial); break;
                }
                if (e.optional) { probe("frame_dropped"); continue; }
                bool later = false; for (auto &x : run.expect) later |= x.data == d;
                if (later) violation("frame-lost", "frame %llu was taken from the device and never delivered", (unsigned long long)e.serial);
                size_t k = 0; while (k < len && k < e.data.size() && d[k] == e.data[k]) k++;
                violation("content", "a frame of %zu bytes is delivered, the device produced frame %llu with %zu bytes (%zu bytes are the same)", len, (unsigned long long)e.serial, e.data.size(), k);
            }
        }
        return true; };
    auto open_fds = [&] { return fds.size(); };
    auto state = [&](std::string &dev, int &w, int &h, int &fps, std::string &fmt) { Jzon::Object o; { Sut u; f->getState(o); } std::string s = o.Get("status").ToString(); if (s == "capture") { dev = o.Get("device").ToString(); w = o.Get("width").ToInt(); h = o.Get("height").ToInt(); fps = o.Get("fps").ToInt(); fmt = o.Get("format").ToString(); } return s; };
    int lastFps = 0;
    // what the element says it does is what the device does, and nothing is kept open that is not used
    auto consistent = [&](const char *when) {
        std::string dev, fmt; int w = 0, h = 0, fps = 0; std::string s = state(dev, w, h, fps, fmt); log("state %s: %s %s %dx%d %s @%d", when, s.c_str(), dev.c_str(), w, h, fmt.c_str(), fps);
        if (s != "capture") {
            if (s != "close") violation("state", "the element is left in state %s %s", s.c_str(), when);
            if (open_fds()) violation("descriptor-left", "a device is left open %s although the element does not capture", when); if (mappings()) violation("mapping-left", "%llu buffers are left mapped %s although the element does not capture", (unsigned long long)mappings(), when);
            for (auto &d : devs) if (d.streaming) violation("state", "%s streams %s although the element does not capture", d.path.c_str(), when);
            return std::string();
        }
        if (open_fds() != 1) violation("descriptor-left", "%zu devices are open %s", open_fds(), when);
        Dev &d = devs[fds.begin()->second.dev]; if (fds.begin()->second.gen == d.gen && !d.streaming) violation("state", "the element captures %s, the device does not stream", when);
        for (auto &x : devs) if (&x != &d && x.streaming) violation("state", "%s still streams %s", x.path.c_str(), when);
        if (dev != d.path) violation("state", "the element says it captures from '%s' %s, it uses %s", dev.c_str(), when, d.path.c_str());
        if (fds.begin()->second.gen == d.gen) { if (w != (int)d.w || h != (int)d.h) violation("state", "the element says %dx%d, the device has %ux%u", w, h, d.w, d.h); uint64_t m = 0; for (auto &b : d.bufs) m += b.mapped; if (m != d.bufs.size() || m != mappings()) violation("mapping-left", "%llu buffers are mapped, the device has %zu", (unsigned long long)mappings(), d.bufs.size());
            const char *nm = d.pix == V4L2_PIX_FMT_YUYV ? "YUYV422" : d.pix == V4L2_PIX_FMT_YUV420 ? "YUV420P" : d.pix == V4L2_PIX_FMT_RGB24 ? "RGB24" : d.pix == V4L2_PIX_FMT_YUV422P ? "YUV422P" : d.pix == V4L2_PIX_FMT_H264 ? "H264" : "MJPEG"; if (fmt != nm) violation("state", "the element says format %s, the device has %.4s", fmt.c_str(), (char *)&d.pix); }
        lastFps = fps; return dev;
    };
    Sched sc = random_sched(true, true); if (run.real) sc.access_gap = sc.access_gap ? 2000 : 0; sim::configure(sc);
    bool stop = false; int wextra = choose(W, 4) ? 0 : range(W, 1, 2000), srate = 300 + choose(W, chance(W, 1, 3) ? 100000 : 2000); bool conf = false;
    std::vector<int> th;
    auto check_held = [&](const char *w) { for (auto &d : devs) if (held(d) > (int)(qbuf_failed - held0)) violation("buffer-kept", "%d buffers of %s are kept by the element %s", held(d), d.path.c_str(), w); };
    th.push_back(spawn("worker", [&] { while (!stop) { int r = 0; int64_t t = now_ns(); f->processFrame(r); if (!conf) check_held("after a step"); sleep_us((r > 0 ? r : 1) + wextra); } }));
    th.push_back(spawn("sink", [&] { while (!stop) { int r = 0; sink->step(r); sleep_us(srate); } }));
    auto capable = [&](const Dev &d) { return d.present && d.capture && d.streamingCap && d.parmSup && d.maxBufs >= 2; };
    auto configure = [&](bool good) {
        static const char *fmts[] = {"YUYV", "RGB24", "YUV420", "H264", "YUV422", "MJPEG", "nonsense"}; std::string path; if (good) path = devs[0].path; else switch (choose(W, 8)) { case 0: path = "/simdev/file"; break; case 1: path = "/simdev/none"; break; default: path = devs[choose(W, nd)].path; }
        int fps = 5 + choose(W, 56); if (!good && chance(W, 1, 16)) fps = 0; int w = run.real ? 320 + 320 * choose(W, 12) : 4 + choose(W, 50), h = run.real ? w * 9 / 16 : 4 + choose(W, 30); std::string fmt = fmts[choose(W, good ? 5 : 7)]; if (run.real) fmt = fmts[choose(W, 3)]; bool force = !chance(W, 1, 4);
        Jzon::Object root, par; root.Add("action", "configure"); par.Add("device", path); int bad = good ? 0 : chance(W, 1, 12) ? 1 + choose(W, 4) : 0; par.Add("width", w); if (bad != 1) par.Add("height", h); if (bad == 2) par.Add("fps", "many"); else par.Add("fps", fps); bool given = chance(W, 3, 4); if (given) par.Add("format", fmt); if (!force) { if (bad == 3) par.Add("forceformat", 3); else par.Add("forceformat", false); } if (bad != 4) root.Add("params", par);
        bool invalid = bad == 1 || bad == 2 || (bad == 3 && !force) || bad == 4;
        Event e(root, std::chrono::system_clock::now(), 0); uint64_t f0 = failed; log("configure %s %dx%d @%d %s%s%s", path.c_str(), w, h, fps, fmt.c_str(), force ? "" : " (as it is)", invalid ? " INVALID" : "");
        std::set<uint64_t> gens; uint64_t g0 = 0; for (auto &d : devs) g0 += d.gen; Dev *d = nullptr; for (auto &x : devs) if (x.path == path) d = &x; bool was = d && capable(*d); uint32_t preW = d ? d->w : 0, preH = d ? d->h : 0, prePix = d ? d->pix : 0; held0 = qbuf_failed;
        conf = true; { Sut u; f->pushEvent(e); } conf = false; bool clean = failed == f0; for (auto &x : devs) g0 -= x.gen; if (g0) clean = false; if (fault_den) clean = false;
        std::string dev = consistent(clean ? "after a configuration" : "after a disturbed configuration");
        if (clean && !invalid && fps > 0) {
            if (was && dev != path) violation("configuration", "configuring %s without an error does not start it", path.c_str()); if (!was && dev == path && d && d->streaming && d->present) violation("configuration", "a device that cannot capture captures");
            if (was) {
                // the device is asked for what was configured
                uint32_t pix = prePix, ew = preW, eh = preH; if (force) { bool ok = false; uint32_t rq = !given || fmt == "nonsense" || fmt == "YUYV" ? V4L2_PIX_FMT_YUYV : fmt == "RGB24" ? V4L2_PIX_FMT_RGB24 : fmt == "YUV420" ? 0 : fmt == "H264" ? V4L2_PIX_FMT_H264 : fmt == "MJPEG" ? V4L2_PIX_FMT_MJPEG : 0; if (rq) { for (uint32_t x : d->formats) ok |= x == rq; pix = ok ? rq : d->formats[0]; } else pix = d->pix; ew = std::min((uint32_t)w, d->maxW); eh = std::min((uint32_t)h, d->maxH); ew -= ew % d->step; eh -= eh % d->step; if (ew < d->step) ew = d->step; if (eh < d->step) eh = d->step; }
                if (d->w != ew || d->h != eh || d->pix != pix) violation("configuration", "%dx%d %s is configured%s, the device is set to %ux%u %.4s", w, h, given ? fmt.c_str() : "without format", force ? "" : " without forcing it", d->w, d->h, (char *)&d->pix);
                int want = d->parmMode == 3 ? fps : (int)((d->den + d->num / 2) / d->num); if (lastFps < want - 2 - want / 10 || lastFps > want + 2 + want / 10) violation("state", "the element says %d fps, the device delivers %d", lastFps, want); probe("configured"); }
        }
        
        return dev;
    };
    auto connect = [&] { if (run.connected || run.real && chance(W, 1, 8)) return; std::string dev, fmt; int a, b, c; if (state(dev, a, b, c, fmt) != "capture") { bool ok; { Sut u; ok = f->connectOneToOne(sink); } if (ok) violation("connect", "an element that does not capture can be connected"); return; } bool ok; { Sut u; ok = f->connectOneToOne(sink); } log("connect %d", ok); run.connected = ok; run.allocPix = devs[fds.begin()->second.dev].pix; if (!ok && !run.real) violation("connect", "a capturing element cannot be connected"); };
    // faults
    int ops = 4 + choose(W, 14); uint32_t fden = chance(W, 1, 2) ? 3 + choose(W, 20) : 20 + choose(W, 200);
    for (int k = 0; k < ops; k++) {
        switch (choose(F, 8)) { case 0: fault_den = fden; break; case 1: eintr_den = 3 + choose(F, 40); break; case 2: gap_den = 2 + choose(F, 20); break; case 3: stall_den = 10 + choose(F, 100); break; case 4: slow_calls = true; break; case 5: fault_den = 0; break; default: fault_den = eintr_den = gap_den = stall_den = 0; slow_calls = false; }
        switch (choose(W, 7)) {
        case 0: case 1: configure(false); break;
        case 2: connect(); break;
        case 3: { int d = choose(W, nd); if (devs[d].present && chance(F, 1, 2)) unplug(d); else plug(d); break; }
        case 4: if (chance(F, 1, 2)) { static const int64_t st[] = {-5000000000LL, -3600000000000LL, 200000000LL, 7200000000000LL, -30000000LL}; fault("clock_step"); step_wall_clock(st[choose(F, 5)]); } break;
        case 5: sleep_us(range(W, 1, 12000000)); break;
        default: sleep_us(range(W, 1, 300000)); break;
        }
    }
    // faults stop: the next good configuration has to bring frames
    bool reconf = chance(W, 1, 2); std::string dv, fm; int a, b, c; bool cur = state(dv, a, b, c, fm) == "capture" && open_fds() == 1 && fds.begin()->second.gen == devs[fds.begin()->second.dev].gen; if (!cur) reconf = true;
    fault_den = eintr_den = gap_den = stall_den = 0; slow_calls = false; stop_disturbing(); for (int i = 0; i < nd; i++) plug(i);
    if (reconf) { probe("recovery"); configure(true); } else probe("continues");
    if (run.real && !run.connected) connect(); else connect();
    bool fits = true; if (run.connected) { Dev &d = devs[fds.begin()->second.dev]; if (pixOf(d.pix) != P_NONE && d.size > run.flen && !run.real) fits = false; if (run.real && (d.pix != run.allocPix || d.size > 3000000)) fits = false; }
    uint64_t g0 = run.got; int64_t t0 = now_ns(); wait_until([&] { return run.got >= g0 + 4 || (!fits && now_ns() > t0 + 3000000000LL); }, 120000000LL, 5000);
    if (run.connected && fits && run.got < g0 + 4) violation("capture-stops", "%llu frames arrive within two minutes after the faults stopped%s", (unsigned long long)(run.got - g0), reconf ? " and the device was configured again" : "");
    if (run.connected) { held0 = qbuf_failed; int64_t t1 = now_ns(); bool ok = false; sleep_us(2000000); for (int k = 0; k < 50 && !ok; k++) { ok = true; for (auto &d : devs) if (held(d)) ok = false; if (!ok) sleep_us(777); } if (!ok) { check_held("although no request fails any more"); } }
    // the rate it says follows a device that is slower than it promised
    if (run.connected && fits && !run.real && chance(W, 1, 6) && devs[fds.begin()->second.dev].size <= run.flen) {
        Dev &d = devs[fds.begin()->second.dev]; int64_t per = 1000000000LL * d.num / d.den; if (per < 1000000) per = 1000000; per += per / 100 * d.slow; uint64_t s0 = d.serial; wait_until([&] { return d.serial >= s0 + 900; }, 200000000LL, 20000);
        std::string dv2, fm2; int a2 = 0, b2 = 0, c2 = 0; state(dv2, a2, b2, c2, fm2); double real = 1e9 / per; probe("rate_judged"); log("rate: says %d, delivers %.1f", c2, real); if (d.serial >= s0 + 900 && (c2 > real * 1.1 + 1.5)) violation("state", "the element says %d fps, the device delivered %.1f fps for the last 900 frames", c2, real);
    }
    sim::state(run.got * 4 + run.connected); stop = true; for (int t : th) join(t);
    size_t left = 0; for (auto &e : run.expect) if (!e.optional) left++;
    if (run.connected) { for (int k = 0; k < 12; k++) { int r = 0; sink->step(r); } for (auto &e : run.expect) if (!e.optional) violation("frame-lost", "frame %llu was taken from the device and never delivered", (unsigned long long)e.serial); }
    if (chance(F, 1, 3)) { fault_den = 2; eintr_den = 3; }
    uint64_t blocks = 0; { if (run.connected) { Sut u; f->disconnectWriter(1); } int r = 0; if (run.connected) { Sut u; sink->processFrame(r); } }
    bool early = chance(W, 1, 2); if (early) { { Sut u; f->releaseDevice(); } consistent("after releasing the device"); } { Sut u; delete f; } fault_den = eintr_den = 0; delete sink;
    if (open_fds()) violation("descriptor-left", "a device is left open by the deleted element"); if (mappings()) violation("mapping-left", "%llu buffers are left mapped by the deleted element", (unsigned long long)mappings()); for (auto &d : devs) if (d.streaming) violation("state", "%s still streams after the element is deleted", d.path.c_str());
    R = nullptr; on_dequeued = nullptr; run.expect.clear(); run.expect.shrink_to_fit(); fds.clear(); th.clear(); th.shrink_to_fit();
    std::string what; uint64_t l = live_in_epoch(ep, &what); if (l) violation("memory-left", "%llu blocks stay allocated after the element is gone: %s", (unsigned long long)l, what.c_str());
}
