// Frame queues between one producer and one consumer (F01).
#include "sim.h"
#include "AVFramedQueue.hh"
#include "SlicedVideoFrameQueue.hh"
#include "AudioFrame.hh"
#include <memory>
#include <string.h>
#include <deque>
using namespace sim;

namespace {
struct SmallQueue : public AVFramedQueue {    // the real queue with small frames
    SmallQueue(ConnectionData c, const StreamInfo *si, unsigned n, unsigned len) : AVFramedQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(H264, len); }
};
struct Rec { uint64_t serial; unsigned len; long pts, dts, org; size_t seq; int w, h; bool video; };
unsigned char patt(uint64_t serial, unsigned i) { return (unsigned char)(serial * 167 + i * 13 + (serial >> 8)); }
void fill(unsigned char *p, const Rec &r) { for (unsigned i = 0; i < r.len; i++) { p[i] = patt(r.serial, i); if (i == r.len / 2) yield("fill"); } }
std::string mismatch(Frame *f, unsigned char *data, const Rec &r)
{
    char b[200]; b[0] = 0;
    if (f->getLength() != r.len) snprintf(b, sizeof b, "length %u instead of %u", f->getLength(), r.len);
    else if (f->getPresentationTime().count() != r.pts) snprintf(b, sizeof b, "presentation time %lld instead of %ld", (long long)f->getPresentationTime().count(), r.pts);
    else if (f->getDecodeTime().count() != r.dts) snprintf(b, sizeof b, "decode time %lld instead of %ld", (long long)f->getDecodeTime().count(), r.dts);
    else if (f->getSequenceNumber() != r.seq) snprintf(b, sizeof b, "sequence number %zu instead of %zu", f->getSequenceNumber(), r.seq);
    else if (f->getOriginTime() != std::chrono::system_clock::time_point(std::chrono::microseconds(r.org))) snprintf(b, sizeof b, "another origin time");
    else { if (r.video) { VideoFrame *v = dynamic_cast<VideoFrame *>(f); if (v->getWidth() != r.w || v->getHeight() != r.h) snprintf(b, sizeof b, "size %dx%d instead of %dx%d", v->getWidth(), v->getHeight(), r.w, r.h); }
        for (unsigned i = 0; !b[0] && i < r.len; i++) if (data[i] != patt(r.serial, i)) snprintf(b, sizeof b, "byte %u differs", i); }
    return b;
}
uint64_t dataserial(Frame *f) { return f->getSequenceNumber(); }

void queue_run(int kind)     // 0 small, 1 real H264, 2 audio, 3 sliced
{
    StreamInfo *si = new StreamInfo();
    ConnectionData cd; cd.wFilterId = 7; cd.writerId = 1; ReaderData rd; rd.rFilterId = 11; rd.readerId = 3; cd.readers.push_back(rd);
    if (chance(W, 1, 4)) { rd.rFilterId = 12; cd.readers.push_back(rd); }
    unsigned max = 3 + choose(W, 5), maxlen = 40 + choose(W, 200);
    if (chance(W, 1, 12)) max = 3 + choose(W, 60);
    FrameQueue *q = nullptr; bool video = kind != 2;
    utils::infoMsg("warm up"); int ep = track_begin();
    { Sut u;
        if (kind == 0) q = new SmallQueue(cd, si, max, maxlen);
        else if (kind == 1) { si->type = VIDEO; si->video.codec = chance(W, 1, 2) ? H264 : H265; max = 3; q = VideoFrameQueue::createNew(cd, si, max); }
        else if (kind == 2) { si->type = AUDIO; si->audio.codec = OPUS; si->audio.sampleRate = 8000; si->audio.channels = 1; si->audio.sampleFormat = S16; if (max > 12) max = 12; q = AudioFrameQueue::createNew(cd, si, max); }
        else { si->type = VIDEO; si->video.codec = chance(W, 1, 2) ? H264 : H265; q = SlicedVideoFrameQueue::createNew(cd, si, max, maxlen); }
    }
    Sched s = random_sched(true, true);
    if (!q) violation("queue-refused", "queue of %u frames not created", max);
    std::deque<Rec> want;          // committed, not delivered, not (known to be) dropped
    std::vector<Rec> all;          // committed, by order
    uint64_t committed = 0, delivered = 0, lost0 = 0, serial = 0; bool prodDone = false, ambiguous = kind == 3; long lastIdx = -1; bool overflowed = false;
    int nframes = 3 + choose(W, 40); int prodPause = choose(W, 3), consPause = choose(W, 4), force = choose(W, 4);
    long pts = 1000 + choose(W, 100000);
    auto checkIds = [&](const std::vector<int> &ids) {
        if (ids.size() != cd.readers.size()) violation("wrong-wakeups", "commit names %zu consumers, there are %zu", ids.size(), cd.readers.size());
        size_t i = 0; for (auto &r : cd.readers) if (ids[i++] != r.rFilterId) violation("wrong-wakeups", "commit names consumer %d", ids[i - 1]);
    };
    static const int pz[] = {0, 30, 400, 3000};
    int prod = spawn("producer", [&] {
        unsigned char *buf = kind == 3 ? (unsigned char *)malloc(maxlen * MAX_SLICES) : nullptr;
        for (int i = 0; i < nframes; i++) {
            if (prodPause && chance(W, 1, 2)) sleep_us(range(W, 0, pz[prodPause]));
            Frame *f; bool forced = false;
            { Sut u; f = q->getRear(); }
            if (!f) {
                probe("queue_full");
                if (force == 0 || (force == 1 && chance(W, 1, 2))) { sleep_us(range(W, 1, 1500)); i -= chance(W, 2, 3) ? 1 : 0; continue; }
                size_t before = q->getLostBlocs();
                { Sut u; f = q->forceGetRear(); }
                forced = true;
                if (!f) violation("no-rear", "forced access to the rear slot gives nothing");
                size_t d = q->getLostBlocs() - before;
                if (kind != 3) {
                    if (d) { fault("overflow_drop"); overflowed = true; }
                    for (size_t k = 0; k < d; k++) {
                        if (want.empty()) violation("loss-miscounted", "a loss was counted but every frame had been consumed already");
                        log("drop %llu", (unsigned long long)want.back().serial); want.pop_back(); lost0++;
                    }
                }
            }
            if (kind == 3) {
                SlicedVideoFrame *sf = dynamic_cast<SlicedVideoFrame *>(f); if (!sf) violation("wrong-frame", "input frame is not sliced");
                int ns = 1 + choose(W, 6); if (chance(W, 1, 10)) ns = 1 + choose(W, 16);
                Rec b; b.video = true; pts += 20000 + choose(W, 20000); b.pts = pts; b.dts = chance(W, 1, 2) ? pts - 5 : -1; b.org = 5000 + pts; b.seq = i; b.w = 16 * (1 + choose(W, 40)); b.h = b.w / 2;
                sf->setPresentationTime(std::chrono::microseconds(b.pts)); sf->setDecodeTime(std::chrono::microseconds(b.dts)); sf->setOriginTime(std::chrono::system_clock::time_point(std::chrono::microseconds(b.org))); sf->setSequenceNumber(b.seq); sf->setSize(b.w, b.h);
                std::vector<Rec> rs;
                for (int k = 0; k < ns; k++) { Rec r = b; r.serial = serial++; r.len = 8 + choose(W, maxlen - 7); fill(buf + k * maxlen, r); bool ok; { Sut u; ok = sf->setSlice(buf + k * maxlen, r.len); } if (!ok) violation("slice-refused", "slice %d of %d refused", k, ns); rs.push_back(r); all.push_back(r); }
                if (chance(W, 1, 8) && ns == MAX_SLICES) { bool ok; Sut u; ok = sf->setSlice(buf, 1); if (ok) violation("slice-accepted", "more slices than fit accepted"); }
                committed += ns;
                size_t before = q->getLostBlocs();
                std::vector<int> ids; { Sut u; ids = q->addFrame(); }
                if (q->getLostBlocs() != before) { overflowed = true; fault("overflow_drop"); }
                checkIds(ids);
            } else {
                Rec r; r.serial = serial++; r.video = video; r.len = 8 + choose(W, maxlen - 7); pts += 20000 + choose(W, 20000); r.pts = pts; r.dts = chance(W, 1, 2) ? pts - 5 : -1; r.org = 5000 + pts; r.seq = r.serial; r.w = 320; r.h = 200;
                if ((unsigned)f->getMaxLength() < r.len) r.len = f->getMaxLength();
                unsigned char *d = f->getDataBuf();
                check_access(d, r.len, true, __builtin_return_address(0));
                fill(d, r); f->setLength(r.len); f->setPresentationTime(std::chrono::microseconds(r.pts)); f->setDecodeTime(std::chrono::microseconds(r.dts)); f->setOriginTime(std::chrono::system_clock::time_point(std::chrono::microseconds(r.org))); f->setSequenceNumber(r.seq);
                if (video) dynamic_cast<VideoFrame *>(f)->setSize(r.w, r.h);
                yield("before commit");
                want.push_back(r); committed++;
                log("commit %llu", (unsigned long long)r.serial);
                std::vector<int> ids; { Sut u; ids = q->addFrame(); }
                checkIds(ids);
            }
            unsigned n; { Sut u; n = q->getElements(); }
            if (n > max - 1) violation("element-count", "%u elements in a queue of %u", n, max);
            state(n * 64 + max);
        }
        prodDone = true;
        if (buf && !ambiguous) free(buf);
    });
    bool haveLast = false; Rec last;
    auto consume = [&]() -> bool {
        Frame *f; { Sut u; f = q->getFront(); }
        if (!f) return false;
        Rec r; uint64_t idx = 0;
        if (kind == 3) {
            // find the slice this is: content decides
            long k = -1; for (size_t i = lastIdx + 1; i < all.size(); i++) if (mismatch(f, f->getDataBuf(), all[i]).empty()) { k = i; break; }
            if (k < 0) { for (long i = 0; i <= lastIdx; i++) if (mismatch(f, f->getDataBuf(), all[i]).empty()) violation("redelivered", "slice %ld is delivered again or out of order after slice %ld", i, lastIdx); violation("corrupt-frame", "delivered slice after %ld matches no committed slice", lastIdx); }
            idx = k; r = all[k];
        } else {
            if (want.empty()) violation("redelivered", "a frame (%llu) is delivered although none is outstanding", (unsigned long long)dataserial(f));
            r = want.front();
            std::string m = mismatch(f, f->getDataBuf(), r);
            if (!m.empty()) {
                if (dataserial(f) < r.serial) violation("redelivered", "frame %llu is delivered again, frame %llu is next", (unsigned long long)dataserial(f), (unsigned long long)r.serial);
                if (dataserial(f) > r.serial && dataserial(f) < serial) violation("silent-loss", "frame %llu is skipped without being counted as lost, %llu delivered", (unsigned long long)r.serial, (unsigned long long)dataserial(f));
                violation("corrupt-frame", "frame %llu delivered with %s", (unsigned long long)r.serial, m.c_str());
            }
            idx = r.serial;
            // it is in use from now on: it may no longer be dropped
            want.pop_front();
        }
        log("deliver %llu", (unsigned long long)idx);
        if (consPause && chance(W, 1, 2)) sleep_us(range(W, 0, pz[consPause])); else yield("using");
        { Frame *g; Sut u; g = q->getFront(); if (g != f) violation("frame-in-use-changed", "the frame in use by the consumer is no longer the first one"); }
        std::string m = mismatch(f, f->getDataBuf(), r);
        if (!m.empty()) violation("frame-in-use-changed", "frame %llu changed while the consumer was using it: %s", (unsigned long long)idx, m.c_str());
        int wid; { Sut u; wid = q->removeFrame(); }
        if (wid != 7) violation("wrong-wakeups", "release names producer %d", wid);
        delivered++; lastIdx = idx; last = r; haveLast = true;
        return true;
    };
    auto checkLast = [&] {
        if (!haveLast) return;
        Frame *f; { Sut u; f = q->forceGetFront(); }
        yield("last");
        if (!f) violation("last-frame", "no last consumed frame");
        std::string m = mismatch(f, f->getDataBuf(), last);
        if (!m.empty()) violation("last-frame", "the last consumed frame (%llu) changed: %s", (unsigned long long)last.serial, m.c_str());
    };
    int cons = spawn("consumer", [&] {
        int idle = 0;
        while (!prodDone || idle < 3) {
            bool got = consume();
            if (!got) { idle = prodDone ? idle + 1 : 0; if (chance(W, 1, 4)) checkLast(); sleep_us(range(W, 20, 800)); if (prodDone && chance(W, 1, 3)) { Frame *f; { Sut u; f = q->getFront(); } if (!f) { int r; { Sut u; r = q->removeFrame(); } if (r != -1) violation("wrong-wakeups", "release of nothing reports %d", r); } } }
            else idle = 0;
        }
    });
    (void)s;
    join(prod); stop_disturbing(); join(cons);
    size_t lost = q->getLostBlocs();
    if (delivered + lost != committed) violation(delivered + lost < committed ? "silent-loss" : "loss-miscounted", "%llu frames committed, %llu delivered, %zu counted as lost", (unsigned long long)committed, (unsigned long long)delivered, lost);
    if (kind == 3 && committed && lastIdx != (long)all.size() - 1) violation("wrong-drop", "the last committed slice was dropped instead of an older one");
    if (q->getElements()) violation("element-count", "%u elements left after the consumer took all", q->getElements());
    { Sut u; delete q; }
    std::string what; if (live_in_epoch(ep, &what)) violation("leak", "%s", what.c_str());
    nontrivial(delivered >= 3 && committed > 3); if (overflowed) probe("overflowed_run");
}
}
namespace {
// a queue of any format is either refused or every one of its slots can be used
void queue_formats()
{
    utils::infoMsg("warm up"); int ep = track_begin();
    StreamInfo *si; { Sut u; si = new StreamInfo(chance(W, 1, 2) ? VIDEO : AUDIO); }
    ConnectionData cd; cd.wFilterId = choose(W, 9); cd.writerId = 1; ReaderData rd; rd.rFilterId = 11; rd.readerId = 3; cd.readers.push_back(rd);
    bool video = si->type == VIDEO; unsigned max = 3 + choose(W, 4); bool ok = true; unsigned need = 0, planes = 0; const char *what;
    if (video) {
        si->video.codec = (VCodecType)((int)choose(W, 6) - 1); si->video.pixelFormat = (PixType)((int)choose(W, 8) - 1);
        switch (si->video.codec) { case H264: case H265: need = MAX_H264_OR_5_NAL_SIZE; break; case VP8: need = LENGTH_VP8; break;
        case RAW: ok = si->video.pixelFormat != P_NONE; need = DEFAULT_WIDTH * DEFAULT_HEIGHT * (si->video.pixelFormat == RGB32 ? 4 : si->video.pixelFormat == RGB24 || si->video.pixelFormat == YUV444P ? 3 : si->video.pixelFormat == YUV420P || si->video.pixelFormat == YUVJ420P ? 1 : 2); break;
        default: ok = false; }
        what = "video";
    } else {
        static const unsigned sr[] = {8000, 16000, 44100, 48000};
        si->audio.codec = (ACodecType)((int)choose(W, 7) - 1); si->audio.sampleRate = sr[choose(W, 4)]; si->audio.channels = 1 + choose(W, 2); si->audio.sampleFormat = (SampleFmt)((int)choose(W, 7) - 1);
        SampleFmt sf = si->audio.sampleFormat; bool planar = sf == U8P || sf == S16P || sf == FLTP; unsigned bps = sf == U8 || sf == U8P ? 1 : sf == S16 || sf == S16P ? 2 : 4, smp = si->audio.sampleRate / 10;
        if (si->audio.codec == AC_NONE || sf == S_NONE) ok = false; else if (planar && si->audio.codec != PCM && si->audio.codec != PCMU) ok = false;     // coded audio is one stream of bytes
        if (planar) planes = si->audio.channels, need = smp * bps; else need = smp * bps * si->audio.channels;
        if (chance(W, 1, 16)) max = MAX_FRAMES - 5 + choose(W, 40);
        what = "audio";
    }
    unsigned usable = std::min<unsigned>(max, MAX_FRAMES);
    random_sched(false, true);
    FrameQueue *q; { Sut u; if (video) q = VideoFrameQueue::createNew(cd, si, max); else q = AudioFrameQueue::createNew(cd, si, max); }
    int cod = video ? (int)si->video.codec : (int)si->audio.codec, fm = video ? (int)si->video.pixelFormat : (int)si->audio.sampleFormat;
    log("%s queue of %u frames, codec %d, format %d: %s", what, max, cod, fm, q ? "created" : "refused");
    if (!q && ok) violation("queue-refused", "%s queue of %u frames refused (codec %d, format %d)", what, max, cod, fm);
    if (!q) fault("refused_format");
    if (q) {
        std::vector<Frame *> slots; uint64_t n = 0, back = 0;
        auto mark = [&](Frame *f, uint64_t v, bool check) { unsigned char *b[3]; unsigned nb = 0; if (planes) { Sut u; unsigned char **d = f->getPlanarDataBuf(); for (; nb < planes; nb++) b[nb] = d ? d[nb] : nullptr; } else { Sut u; b[nb++] = f->getDataBuf(); }
            for (unsigned i = 0; i < nb; i++) { if (!b[i]) violation("bad-slot", "a slot of the %s queue has no buffer (codec %d, format %d)", what, cod, fm);
                for (unsigned o : {0u, need / 2, need - 1}) { check_access(b[i] + o, 1, !check, __builtin_return_address(0)); unsigned char x = (unsigned char)(v * 37 + i * 5 + o % 251); if (check && b[i][o] != x) violation("corrupt-frame", "frame %llu is not delivered as it was filled: its slot is not its own or too small (codec %d, format %d)", (unsigned long long)v, cod, fm); if (!check) b[i][o] = x; } } };
        // several rounds, so that every slot is used
        for (int round = 0; round < 3; round++) {
            unsigned k = 0;
            for (;; k++) {
                Frame *f; { Sut u; f = q->getRear(); }
                if (!f) break;
                unsigned ml; { Sut u; ml = f->getMaxLength(); }
                if (ml < need) violation("bad-slot", "a slot of the %s queue takes %u bytes, %u are needed (codec %d, format %d)", what, ml, need, cod, fm);
                if (video) { int w, h; VideoFrame *v = dynamic_cast<VideoFrame *>(f); if (!v) violation("bad-slot", "a slot of a video queue holds another frame"); (void)w; (void)h; }
                else { AudioFrame *a = dynamic_cast<AudioFrame *>(f); if (!a) violation("bad-slot", "a slot of an audio queue holds another frame"); if (a->isPlanar() != (planes > 0) || a->getChannels() != si->audio.channels || a->getSampleRate() != si->audio.sampleRate || a->getSampleFmt() != si->audio.sampleFormat || a->getMaxSamples() != si->audio.sampleRate / 10) violation("bad-slot", "a slot of an audio queue is described as %u channels at %u Hz, format %d, %u samples", a->getChannels(), a->getSampleRate(), (int)a->getSampleFmt(), a->getMaxSamples()); }
                if (!video && !k) { Sut u; dynamic_cast<AudioFrame *>(f)->fillWithValue(round); }
                mark(f, n, false); n++; f->setLength(need);
                { Sut u; q->addFrame(); }
                if (k > max + 2) break;
            }
            if (k != usable - 1) violation(k < usable - 1 ? "bad-slot" : "element-count", "%u frames fit into an empty %s queue of %u slots (codec %d, format %d)", k, what, usable, cod, fm);
            { Frame *f; Sut u; f = q->forceGetRear(); if (!f) violation("no-rear", "forced access to the rear slot gives nothing"); }     // drops the newest
            n--; if (q->getLostBlocs() != (size_t)round + 1) violation("loss-miscounted", "%zu frames counted as lost, it is %d", q->getLostBlocs(), round + 1);
            for (;;) { Frame *f; { Sut u; f = q->getFront(); } if (!f) break; mark(f, back, true); back++; int w; { Sut u; w = q->removeFrame(); } if (w != cd.wFilterId) violation("wrong-wakeups", "release names producer %d", w); }
            if (back != n) violation(back < n ? "silent-loss" : "redelivered", "%llu frames queued, %llu delivered", (unsigned long long)n, (unsigned long long)back);
            yield("round");
        }
        nontrivial(true); state(cod * 16 + fm);
        { Sut u; delete q; }
    }
    { Sut u; delete si; }
    std::string w; if (live_in_epoch(ep, &w)) violation("leak", "%s", w.c_str());
    if (!q) nontrivial(true);
}
}
SCENARIO(queue_formats, "queues of every format") { queue_formats(); }
SCENARIO(queue_av, "frame queue: one producer, one consumer") { queue_run(0); }
SCENARIO(queue_video, "video frame queue (H264/H265)") { queue_run(1); }
SCENARIO(queue_audio, "audio frame queue") { queue_run(2); }
SCENARIO(queue_sliced, "sliced video frame queue") { queue_run(3); }
