// Shared memory output (M01): one writer, reader processes that are slow, stall or die.
#include "filters.h"
#include "shm.h"
#include "modules/sharedMemory/SharedMemory.hh"
using namespace sim;
namespace {
struct Fr { uint64_t seq0 = 0, seq1 = 0; int w = 0, h = 0, pix = 0, codec = 0; int64_t pts = 0; std::string data; bool mixed = false; };   // what may be handed to the reader
struct Pkt { std::string b; int64_t pts, dts; int w, h; };
struct VQ : public VideoFrameQueue { VQ(ConnectionData c, const StreamInfo *si, unsigned n, unsigned len) : VideoFrameQueue(c, si, n) { for (unsigned i = 0; i < max; i++) { InterleavedVideoFrame *f = InterleavedVideoFrame::createNew(si->video.codec, len); f->setPixelFormat(si->video.pixelFormat); frames[i] = f; } } };
const size_t CAP = SHMSIZE - 24;
const int PIX[] = {RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P};   // 1..7 in the header
struct Run; Run *R;
struct Run {
    bool h264; int pix = 0; unsigned qlen, flen; char *seg = nullptr; std::vector<Fr> fr; Fr cur; bool open = false, pend = false; size_t pendAt = 0; int64_t lastHanded = -1; uint64_t turns = 0;   // turns: times the reader gave the turn back
    uint64_t complete = 0; bool reading = false; uint64_t given = 0;
    char turn() { return seg[0]; }
    static uint16_t u16(const char *p) { uint16_t v; memcpy(&v, p, 2); return v; } static uint32_t u32(const char *p) { uint32_t v; memcpy(&v, p, 4); return v; }
    std::string differs(const Fr &f, const char *h, const std::string &d)
    {
        char b[200]; uint16_t s = u16(h + 2); bool in = false; for (uint64_t q = f.seq0; q <= f.seq1; q++) if ((uint16_t)q == s) in = true;
        if (!in) { snprintf(b, sizeof b, "has sequence number %u, the frame has %llu", s, (unsigned long long)f.seq0); return b; }
        if (u16(h + 4) != f.pix || u16(h + 6) != f.codec || u16(h + 8) != f.h || u16(h + 10) != f.w) { snprintf(b, sizeof b, "describes %ux%u format %u codec %u, the frame is %dx%d format %d codec %d", u16(h + 10), u16(h + 8), u16(h + 4), u16(h + 6), f.w, f.h, f.pix, f.codec); return b; }
        int64_t t = u32(h + 12) * 1000000LL + u32(h + 16); if (t != f.pts) { snprintf(b, sizeof b, "has time %lld, the frame has %lld", (long long)t, (long long)f.pts); return b; }
        return "";
    }
    // the reader looks at what it was handed: one of the complete frames, newer than the one before
    int64_t identify(const char *h, const std::string &d, uint64_t since)
    {
        int64_t found = -1; for (size_t k = fr.size(); k-- > 0;) if (fr[k].data == d && differs(fr[k], h, d).empty()) { found = k; break; }
        if (found >= 0) return found;
        for (size_t k = fr.size(); k-- > 0;) if (fr[k].data == d) violation("header", "the header handed over with frame %zu %s", k, differs(fr[k], h, d).c_str());
        violation("payload", "%zu bytes are handed over that are no complete frame (%zu frames complete)", d.size(), fr.size());
    }
};
struct Tap : public SharedMemory {
    Tap(size_t k, VCodecType c) : SharedMemory(k, c) {}
    bool doProcessFrame(Frame *o, Frame *d) override
    {
        bool free0; uint64_t t0; size_t must = (size_t)-1;
        { Harness hm; Run &r = *R; InterleavedVideoFrame *v = dynamic_cast<InterleavedVideoFrame *>(o); std::string b((char *)v->getDataBuf(), v->getLength()); uint64_t q = v->getSequenceNumber(); int pix = 0; for (int i = 0; i < 7; i++) if (PIX[i] == v->getPixelFormat()) pix = i + 1;
          free0 = r.turn() == '0'; t0 = r.turns; r.given++;
          if (!r.h264) { Fr f; f.seq0 = f.seq1 = q; f.w = v->getWidth(); f.h = v->getHeight(); f.pix = pix; f.codec = 4; f.pts = v->getPresentationTime().count(); f.data = b; r.fr.push_back(f); if (free0 && b.size() <= CAP) must = r.fr.size() - 1; }
          else {
              int sc = b.size() >= 3 && !memcmp(b.data(), "\0\0\1", 3) ? 3 : b.size() >= 4 && !memcmp(b.data(), "\0\0\0\1", 4) ? 4 : 0; bool bad = !sc || b.size() <= (size_t)sc; int t = bad ? 0 : b[sc] & 31;
              bool aud = t == 9, ok = t == 1 || t >= 5 && t <= 9;
              if (r.pend && !free0) r.pendAt = (size_t)-1;   // (the next frame of the stream, whatever it is, finds the segment in use)
              if (ok && !aud && r.pend) { r.pend = false; if (r.pendAt != (size_t)-1 && free0 && r.fr[r.pendAt].data.size() <= CAP) must = r.pendAt; }
              if (aud) { r.pendAt = (size_t)-1; if (r.open) { r.fr.push_back(r.cur); r.open = false; r.pendAt = r.fr.size() - 1; } r.pend = true; }
              if (ok && !aud) { if (!r.open) { r.open = true; r.cur = Fr(); r.cur.seq0 = q; r.cur.w = v->getWidth(); r.cur.h = v->getHeight(); r.cur.pix = pix; r.cur.codec = 1; r.cur.pts = v->getPresentationTime().count(); } r.cur.seq1 = q; r.cur.data += std::string("\0\0\0\1", 4) + b.substr(sc); }
          } }
        bool ret = SharedMemory::doProcessFrame(o, d);
        { Harness hm; Run &r = *R; if (must != (size_t)-1 && r.turns == t0 && r.lastHanded < (int64_t)must) { if (r.turn() != '1') violation("not-handed-over", "frame %zu is not handed over although it is the writer's turn", must); } }
        return ret;
    }
};
uint64_t g_ser;
std::string blob(unsigned n, uint64_t seed) { std::string s(n, 0); uint64_t x = seed * 0x9E3779B97F4A7C15ull + 12345; for (auto &c : s) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (char)(x >> 24); } return s; }
}
SCENARIO(shm, "frames handed to reader processes through shared memory")
{
    set_step_limit(200000000); hf::warm(); Run run; R = &run; simshm::segs.clear(); g_ser = choose(W, 1000);
    int ep = track_begin(); std::string leak;
    run.h264 = chance(W, 1, 2); VCodecType codec = run.h264 ? H264 : RAW; int key = 1 + choose(W, 10000);
    // creating the filter: either it works, or nothing stays behind
    if (chance(F, 1, 4)) {
        simshm::get_den = chance(F, 1, 2) ? 2 : 0; simshm::at_den = chance(F, 1, 2) ? 2 : 0; if (chance(W, 1, 8)) codec = VP8;
        for (int k = 0, n = 1 + choose(W, 4); k < n; k++) {
            uint64_t blocks = 0; int kk = key + (chance(W, 1, 3) ? k : 0); bool dup = false; for (auto &s : simshm::segs) if (s.second.key == kk) dup = true; (void)blocks; uint64_t f0 = simshm::get_failed + simshm::at_failed; size_t segs0 = simshm::segs.size();
            SharedMemory *s; { Sut u; s = chance(W, 1, 4) ? SharedMemory::createNew(codec) : SharedMemory::createNew(kk, codec); }
            bool failed = simshm::get_failed + simshm::at_failed != f0; if (s && failed) violation("creation", "a shared memory filter is created although a system call failed");
            if (!s && !failed && !dup && codec != VP8 && segs0 == 0) violation("creation", "no shared memory filter is created although nothing fails");
            if (s) { size_t id; { Sut u; id = s->getSharedMemoryID(); } if (!simshm::segs.count(id) || simshm::segs[id].attached != 1) violation("creation", "the filter reports segment %zu, which is not the one it uses", id); { Sut u; delete s; } }
            if (simshm::segs.size() != segs0) violation("segment-left", "a segment is left behind by a filter that %s", s ? "was deleted" : "could not be created");
            uint64_t n1 = live_in_epoch(ep, &leak); if (n1) violation("memory-left", "%llu blocks stay behind: %s", (unsigned long long)n1, leak.c_str());
        }
        simshm::get_den = simshm::at_den = 0; codec = run.h264 ? H264 : RAW; nontrivial(true);
    }
    bool big = chance(W, 1, 12); run.qlen = run.h264 ? 5 + choose(W, 6) : 4 + choose(W, 2); run.flen = 64 + choose(W, 200); if (big) { run.qlen = 4; run.flen = 2000000; probe("big_frames"); }
    static const PixType px[] = {YUV420P, RGB24, RGB32, YUYV422, YUV422P, YUV444P, YUVJ420P}; PixType pix = run.h264 ? P_NONE : px[big ? choose(W, 3) : choose(W, 7)];
    if (big && !run.h264) run.flen = pix == RGB32 ? 8294400 : 6220800;   // what the queues have room for
    Tap *f; { Sut u; f = new Tap(key, codec); f->setId(2); if (!f->isEnabled()) violation("creation", "the filter is disabled"); }
    if (simshm::segs.size() != 1) violation("creation", "%zu segments exist for one filter", simshm::segs.size()); simshm::Seg *seg = &simshm::segs.begin()->second; run.seg = seg->p;
    { Jzon::Object o; { Sut u; f->getState(o); } if (o.Get("codec").ToString() != (run.h264 ? "H264" : "RAW") || o.Get("key").ToInt() != key || !simshm::segs.count(o.Get("memoryId").ToInt())) violation("state", "the filter says it hands over %s with key %d in segment %d", o.Get("codec").ToString().c_str(), o.Get("key").ToInt(), o.Get("memoryId").ToInt()); }
    // source
    std::deque<Pkt> out; std::deque<Pkt> sent; uint64_t nsent = 0, nrecv = 0, nlost = 0; int w = 16 + choose(W, 100), h = 16 + choose(W, 60); int64_t pts = wall_ns() / 1000; bool noAudStart = chance(W, 1, 4); int au = 0; int weird = chance(W, 1, 3) ? 6 + choose(W, 20) : 0;
    auto produce = [&] {
        pts += 1 + choose(W, 50000); if (chance(W, 1, 10)) { w = 16 + choose(W, 4000); h = 16 + choose(W, 2000); }
        int64_t dts = chance(W, 1, 2) ? pts - choose(W, 1000) : -1; auto put = [&](std::string b) { out.push_back(Pkt{b, pts, dts, w, h}); };
        if (!run.h264) { size_t n = big ? (chance(W, 1, 2) ? CAP + range(W, 0, 3) - 1 : chance(W, 1, 2) ? 8290000 : 1000) : 1 + choose(W, run.flen); if (n > run.flen) n = run.flen; put(blob(n, ++g_ser)); return; }
        size_t sum = 0; auto nal = [&](int t, unsigned n) { if (t != 9) sum += 5 + n; std::string b = blob(n, ++g_ser); b.insert(0, 1, (char)(0x60 | t)); put(std::string(chance(W, 1, 2) ? "\0\0\0\1" : "\0\0\0\1", 4).substr(chance(W, 1, 3)) + b); };
        if (au++ || !noAudStart) nal(9, 1); bool key = chance(W, 1, 4); if (key) { nal(7, 8); nal(8, 4); } if (chance(W, 1, 4)) nal(6, 5);
        if (weird && chance(W, 1, weird)) switch (choose(W, 5)) { case 0: nal(12, 3); break; case 1: put(blob(5 + choose(W, 20), ++g_ser | 1)); break; case 2: put(std::string("\0\0\0\1", 1 + choose(W, 4))); break; case 3: nal(10, 0); break; case 4: nal(9, 1); break; }
        int n = 1 + choose(W, 3); if (big) n = choose(W, 5); if (big && chance(W, 1, 3)) { size_t want = CAP + choose(W, 3) - 1; while (sum < want) { size_t left = want - sum - 5; nal(key ? 5 : 1, left > 1990000 ? left > 1990100 ? 1990000 : 1000000 : left); } probe("just_fits"); return; } for (int k = 0; k < n; k++) nal(key ? 5 : 1, big ? 1990000 : 1 + choose(W, run.flen - 8));
    };
    struct Src : public hf::Head { Run *r; Src() : Head(1) {} FrameQueue *allocQueue(ConnectionData c) override { Harness hh; Sut u; return new VQ(c, &si, r->qlen, r->flen); } } *src; { src = new Src; } src->r = &run; src->si.video.codec = codec; src->si.video.pixelFormat = pix;
    int frate0 = 1 + choose(W, chance(W, 1, 2) ? 20 : 3000); bool stop = false; uint64_t total = big ? 8 + choose(W, 20) : 20 + choose(W, frate0 > 300 ? 40 : 200);
    src->body = [&](std::map<int, Frame *> &d, int &) { while (out.empty()) produce(); Pkt p = out.front(); out.pop_front(); Frame *fr = d.begin()->second; if (p.b.size() > fr->getMaxLength()) return false; memcpy(fr->getDataBuf(), p.b.data(), p.b.size()); fr->setLength(p.b.size()); fr->setPresentationTime(std::chrono::microseconds(p.pts)); fr->setDecodeTime(std::chrono::microseconds(p.dts)); VideoFrame *v = dynamic_cast<VideoFrame *>(fr); v->setSize(p.w, p.h); if (!run.h264) v->setPixelFormat(pix); fr->setConsumed(true); sent.push_back(p); nsent++; return true; };
    hf::Tail *sink = new hf::Tail(3); uint64_t lastSeq = 0; std::vector<std::pair<uint64_t, int64_t>> org;
    sink->body = [&](std::map<int, Frame *> &o, std::vector<int> n, int &) {
        for (int id : n) { Frame *fr = o[id]; if (sent.empty()) violation("output", "the filter's output has a frame that was not sent"); Pkt p = sent.front(); sent.pop_front(); nrecv++; VideoFrame *v = dynamic_cast<VideoFrame *>(fr); check_access(fr->getDataBuf(), fr->getLength(), false, __builtin_return_address(0));
            if (fr->getLength() != p.b.size() || memcmp(fr->getDataBuf(), p.b.data(), p.b.size())) violation("output", "frame %llu has another content on the filter's output", (unsigned long long)nrecv);
            if (fr->getPresentationTime().count() != p.pts || fr->getDecodeTime().count() != p.dts) violation("output", "frame %llu has another time on the filter's output", (unsigned long long)nrecv);
            if (v->getWidth() != p.w || v->getHeight() != p.h || (!run.h264 && v->getPixelFormat() != pix)) violation("output", "frame %llu has another size or format on the filter's output", (unsigned long long)nrecv);
            if (nrecv > 1 && fr->getSequenceNumber() <= lastSeq) violation("output", "sequence number %zu after %llu on the filter's output", (size_t)fr->getSequenceNumber(), (unsigned long long)lastSeq); lastSeq = fr->getSequenceNumber(); }
        return true; };
    bool ok; { Sut u; ok = src->connectOneToOne(f) && f->connectOneToOne(sink); } if (!ok) violation("connect", "the filter cannot be connected");
    Sched sc = random_sched(true, true); if (big) sc.access_gap = sc.access_gap ? 200 + choose(W, 2000) : 0; else if (sc.access_gap > 300) sc.access_gap = 20 + choose(W, 280); sim::configure(sc);
    bool fdone = false, wdone = false; int frate = frate0, srate = 1 + choose(W, 300), fpoll = 1 + choose(W, 100);
    std::vector<int> th;
    th.push_back(spawn("source", [&] { while (nsent < total) { if (nsent - nrecv + 3 >= run.qlen) { sleep_us(50); continue; } int r = 0; src->step(r); sleep_us(range(W, 1, frate)); } fdone = true; }));
    th.push_back(spawn("filter", [&] { while (!stop) { int r = 0; { Sut u; f->processFrame(r); } sleep_us(chance(W, 1, 16) ? range(W, 1, 300) : fpoll); } }));
    th.push_back(spawn("sink", [&] { while (!stop) { int r = 0; sink->step(r); sleep_us(srate); } }));
    // reader processes, one after the other
    uint64_t handed = 0; int64_t last = -1; int readers = 1 + choose(F, 3); bool dead = false;
    th.push_back(spawn("reader", [&] {
        for (int p = 0; p < readers && !stop; p++) {
            if (p) sleep_us(range(F, 1, 20000)); int poll = 1 + choose(W, chance(W, 1, 2) ? 10 : 2000), slow = choose(W, chance(W, 1, 2) ? 5 : 3000); int64_t dieAt = p + 1 < readers || chance(F, 1, 4) ? range(F, 1, 40) : 1 << 30; uint64_t ops = 0; bool cont = last >= 0; (void)cont;
            seg->attached++;
            auto tick = [&] { if (ops++ >= (uint64_t)dieAt) return true; if (slow) sleep_us(range(W, 0, slow)); else yield("reader"); return false; };
            bool died = false;
            while (!stop && !died) {
                sleep_us(poll); if (run.seg[0] != '1') { if (run.seg[0] != '0') violation("turn", "the turn flag is %d", run.seg[0]); continue; }
                if (tick()) { died = true; break; }
                char h[24]; memcpy(h, run.seg, 24); if (tick()) { died = true; break; }
                uint32_t len = Run::u32(h + 20); if (len > CAP) violation("length", "the header announces %u bytes, the segment has room for %zu", len, CAP); if (!len) violation("length", "an empty frame is handed over");
                std::string d; for (int part = 0; part < 3 && !died; part++) { size_t a = len * part / 3, b = len * (part + 1) / 3; d.append(run.seg + 24 + a, b - a); if (tick()) died = true; } if (died) break;
                if (memcmp(h, run.seg, 24) || memcmp(d.data(), run.seg + 24, len)) violation("overwritten", "a frame changes while it is the reader's turn");
                int64_t k = run.identify(h, d, 0); if (last >= 0 && k <= last && !(k == last && cont)) violation("order", "frame %lld is handed over after frame %lld", (long long)k, (long long)last); cont = false;
                log("frame %lld is read", (long long)k); last = run.lastHanded = k; handed++; if (handed > 3) nontrivial(true);
                if (tick()) { died = true; break; }
                run.turns++; run.seg[0] = '0';
            }
            if (died) { fault("reader_dies"); log("the reader dies"); }
            seg->attached--;
        }
    }));
    wait_progress([&] { return fdone && nrecv == nsent; }, 600000000LL, 1000); if (nrecv != nsent) violation("output-stops", "%llu of %llu frames reach the filter's output", (unsigned long long)nrecv, (unsigned long long)nsent);
    sleep_us(10000); stop = true; for (int t : th) join(t); if (nsent > 10) nontrivial(true);
    state(handed * 8 + readers * 2 + run.h264);
    { Sut u; src->disconnectWriter(1); f->disconnectWriter(1); } { int r = 0; Sut u; f->processFrame(r); r = 0; sink->processFrame(r); } delete src; { Sut u; delete f; } delete sink;
    if (!simshm::segs.empty()) violation("segment-left", "the segment is still there after the filter was deleted");
    R = nullptr;
}
