// Audio buffers (A01) and the audio mixer (A02).
#include "sim.h"
#include "filters.h"
#include "AudioCircularBuffer.hh"
#include "AudioFrame.hh"
#include "modules/audioMixer/AudioMixer.hh"
#include <math.h>
#include <string.h>
#include <deque>
using namespace sim;

// ---- A01: one audio buffer between a producer and a consumer ---------------------------------
namespace {
const int THR = 64;                                // samples of timestamp deviation that are tolerated
inline unsigned char smp(uint64_t g, unsigned ch, unsigned b) { uint64_t x = (g * 2 + ch) * 4 + b; x *= 0x9E3779B97F4A7C15ull; return 1 + (x >> 40) % 255; }
struct In { uint64_t g0; unsigned n; long padMin, padMax; };
struct Gen { std::vector<In> in; long sync = 0; bool started = false; };
struct Blk { long ts; long org = 0; unsigned minGen; std::vector<unsigned char> d[2]; };
// makes the buffer look as if it had been in use for a long time: the position is moved by a multiple of
// its length.  Returns false if the buffer keeps its position in another way.
template <class Q> auto age(Q *q, unsigned bps, unsigned rate, unsigned cap, size_t rear, int) -> decltype(q->rear, q->front, q->syncTimestamp, true)
{
    if ((size_t)q->rear != rear * bps || (size_t)q->front != 0 || sizeof(q->rear) < 8) return false;
    uint64_t k = ((1ull << 32) - 1 - rear) / cap; k -= k > 2 ? choose(W, 2) : 0; uint64_t s = k * cap;
    q->rear += s * bps; q->front += s * bps; q->syncTimestamp -= std::chrono::microseconds(s * 1000000 / rate);
    return true;
}
bool age(...) { return false; }
}
SCENARIO(audio_buffer, "audio buffer: one producer, one consumer")
{
    static const unsigned rates[] = {8000, 44100, 48000, 8000}; static const SampleFmt fmts[] = {S16P, U8P, FLTP}; static const unsigned mx[] = {200, 100, 1000, 70, 3000};
    unsigned ch = 1 + choose(W, 2), rate = pick(W, rates); SampleFmt fmt = pick(W, fmts); unsigned bps = fmt == U8P ? 1 : fmt == S16P ? 2 : 4;
    unsigned maxS = pick(W, mx); if (rate > 8000 && maxS > 200) maxS = 200;
    unsigned inMax = AudioFrame::getMaxSamples(rate);
    ConnectionData cd; cd.wFilterId = 7; cd.writerId = 1; ReaderData rd; rd.rFilterId = 11; rd.readerId = 3; cd.readers.push_back(rd);
    hf::warm(); int ep = track_begin(); if (chance(W, 1, 10)) { int k = choose(W, 4); AudioCircularBuffer *x; { Sut u; x = AudioCircularBuffer::createNew(cd, k == 0 ? 0 : ch, k == 1 ? 0 : rate, k == 2 ? 0 : maxS, k == 3 ? S16 : fmt); } if (x) violation("input-accepted", "a buffer without %s is created", k == 0 ? "channels" : k == 1 ? "sampling rate" : k == 2 ? "size" : "planar samples"); probe("refused_buffer"); }
    AudioCircularBuffer *q; { Sut u; q = AudioCircularBuffer::createNew(cd, ch, rate, maxS, fmt); }
    if (!q) violation("queue-refused", "buffer not created");
    unsigned bs = AudioFrame::getDefaultSamples(rate); if (chance(W, 1, 3)) { bs = 1 + choose(W, inMax); Sut u; q->setOutputFrameSamples(bs); }
    long cap = q->getFreeSamples(); if (inMax > cap / 2) inMax = cap / 2; if (bs > cap / 2) { bs = cap / 2; Sut u; q->setOutputFrameSamples(bs); }
    Sched s = random_sched(true, true); (void)s;
    std::vector<Gen> gens(1); std::vector<Blk> blks;
    long rearLo = 0, rearHi = 0; uint64_t gser = 0;           // position of the producer on the timeline of the current generation
    uint64_t popEnded = 0, popsAtFlushStart = 0, popsAtFlushEnd = 0; bool popping = false, prodDone = false; unsigned flushing = 0; uint64_t flushSeen = 0;
    int nframes = 4 + choose(W, 40), speed = choose(W, 4), gapDen = chance(W, 1, 3) ? 0 : 3 + choose(W, 10), farDen = chance(W, 1, 2) ? 0 : 8, oldDen = chance(W, 1, 2) ? 0 : 6, jitDen = chance(W, 1, 2) ? 0 : 2; bool doAge = chance(F, 1, 6);
    std::vector<unsigned> offers; size_t lastIn = 0;          // lengths offered so far; the last accepted one
    unsigned inTyp = 1 + choose(W, inMax); uint64_t accepted = 0, refused = 0, pads = 0, flushes = 0;
    int prod = spawn("producer", [&] {
        long base = 1000000000000 + choose(W, 1000000); double pos = 0;      // source clock in samples
        for (int i = 0; i < nframes; i++) {
            unsigned n = chance(W, 1, 4) ? 1 + choose(W, inMax) : inTyp;
            Frame *f; { Sut u; f = q->getRear(); }
            if (!f) violation("no-rear", "no input frame");
            AudioFrame *a = dynamic_cast<AudioFrame *>(f);
            if (a->getMaxSamples() < n) n = a->getMaxSamples();
            double p = pos;
            if (gapDen && chance(W, 1, gapDen)) { pos += THR + 2 + choose(W, maxS + 20); p = pos; fault("gap"); }
            else if (farDen && chance(W, 1, farDen)) { bool once = chance(W, 1, 2); double d = maxS + choose(W, 200000); if (chance(W, 1, 3)) d += 4294967296.0 * (1 + choose(W, 2)) - (chance(W, 1, 2) ? maxS : 0); p = pos + d; if (!once) pos = p; fault("far_jump"); }
            else if (oldDen && chance(W, 1, oldDen)) { p = pos - (double)(THR + 3 + choose(W, 20000)); fault("old_input"); }
            else if (jitDen && chance(W, 1, jitDen)) { p = pos + (double)choose(W, 2 * THR - 9) - (THR - 5); fault("jitter"); }
            long ts = base + (long)floor(p * 1e6 / rate);
            for (unsigned c = 0; c < ch; c++) for (unsigned k = 0; k < n; k++) for (unsigned b = 0; b < bps; b++) f->getPlanarDataBuf()[c][k * bps + b] = smp(gser + k, c, b);
            a->setSamples(n); a->setLength(n * bps); f->setPresentationTime(std::chrono::microseconds(ts)); f->setOriginTime(std::chrono::system_clock::time_point(std::chrono::microseconds(ts)));
            Gen &g = gens.back();
            long devLo = 0, devHi = 0; if (g.started) { devLo = ts - (g.sync + rearHi * 1000000 / (long)rate) - 2; devHi = ts - (g.sync + rearLo * 1000000 / (long)rate) + 2; }
            long thr = THR * 1000000L / rate;
            bool mayOld = devLo < -thr, mustOld = devHi < -thr, mayPad = devHi > thr, mustPad = devLo > thr;
            long padLo = mustPad ? devLo * (long)rate / 1000000 - 1 : 0, padHi = mayPad ? devHi * (long)rate / 1000000 + 1 : 0;
            bool mayFlush = padHi >= (long)maxS, mustFlush = padLo >= (long)maxS;
            long consLo = (long)(popEnded - (gens.size() > 1 ? popsAtFlushEnd + (popsAtFlushEnd > popEnded ? 0 : 0) : 0));
            if (gens.size() > 1 && consLo) consLo--;            // the block being taken when the buffer was emptied
            long freeLo = cap - (rearHi - consLo * (long)bs);
            bool mustFit = freeLo >= padHi + (long)n;
            In rec; rec.g0 = gser; rec.n = n; rec.padMin = padLo; rec.padMax = padHi;
            gser += n; size_t lost = q->getLostBlocs();
            log("offer %u samples from %llu at %ld dev %ld", n, (unsigned long long)rec.g0, ts, devLo + 2);
            if (mayFlush) flushing++; uint64_t popS = popEnded;
            // the record has to exist before the consumer can see the samples
            g.in.push_back(rec); if (!g.started) { g.sync = ts; }
            offers.push_back(n);
            std::vector<int> ids; { Sut u; ids = q->addFrame(); }
            if (mayFlush) flushing--;
            bool fl = q->getLostBlocs() != lost;
            long consHi = (long)(popEnded + (popping ? 1 : 0) - (gens.size() > 1 ? popsAtFlushStart : 0));
            bool mayFit = cap - (rearLo - consHi * (long)bs) >= padLo + (long)n;
            if (ids.empty()) {
                if (g.in.size() != 1 || !g.started) {}
                g.in.pop_back(); refused++;
                if (fl) {
                    if (!mayFlush || mustOld) violation("wrong-flush", "the buffer was emptied for input %ld us ahead (gap limit %u samples)", devLo, maxS);
                    gens.push_back(Gen()); rearLo = rearHi = 0; popsAtFlushStart = popS; popsAtFlushEnd = popEnded + (popping ? 1 : 0); flushSeen++; flushes++; probe("flush"); log("emptied");
                } else if (!mayOld && mustFit && !mayFlush) violation("input-lost", "%u samples in time (deviation %ld us) that fit (%ld free) are refused", n, devLo + 2, freeLo);
                else if (mustFlush && !mayOld) violation("no-flush", "input %ld us ahead was neither taken nor did it restart the timeline", devLo);
                else if (mustOld) probe("refused_old"); else probe("refused_full");
            } else {
                if (fl) violation("wrong-flush", "the buffer was emptied although the input was accepted");
                if (ids.size() != 1 || ids[0] != 11) violation("wrong-wakeups", "commit names %zu consumers", ids.size());
                if (mustOld) violation("old-accepted", "input %ld us too old was accepted", -devHi);
                if (mustFlush) violation("far-accepted", "input %ld us ahead was accepted", devLo);
                if (!mayFit) violation("overfull", "input of %u samples accepted into a full buffer", n);
                lastIn = offers.size() - 1;
                g.started = true; rearLo += padLo + n; rearHi += padHi + n; accepted++; if (mustPad) { pads++; probe("padded"); if (padLo > (long)AudioFrame::getMaxSamples(rate)) probe("padded_long"); }
                log("accepted");
                if (doAge) { doAge = false; if (accepted == 1 && popEnded == 0 && !popping && gens.size() == 1) { if (age(q, bps, rate, cap, n, 0)) fault("aged"); } }
            }
            state(((uint64_t)q->getFreeSamples() * 16 / cap) * 64 + (mayOld * 8 + mayPad * 4 + mayFlush * 2 + ids.empty()));
            pos += n; if (p != pos - n && chance(W, 1, 8)) pos = p + n > pos ? p + n : pos;
            long dur = (long)(n * 1000000.0 / rate);
            if (speed == 1 && chance(W, 1, 2)) sleep_us(dur); else if (speed == 2) sleep_us(dur / 2 + choose(W, dur + 2)); else if (speed == 3) { if (chance(W, 1, 6)) sleep_us(dur * 3); } else yield("next");
        }
        prodDone = true;
    });
    int cpause = choose(W, 4); long bdur = bs * 1000000L / rate;
    int cons = spawn("consumer", [&] {
        int idle = 0;
        while (!prodDone || idle < 2) {
            unsigned minGen = gens.size() - 1; uint64_t fs = flushSeen; bool noFlush = flushing == 0; bool d = prodDone;
            long avail = rearLo - (long)(popEnded - (gens.size() > 1 ? popsAtFlushStart : 0)) * (long)bs;
            size_t in0 = lastIn;
            popping = true; Frame *f; { Sut u; f = q->getFront(); }
            if (!f) {
                popping = false;
                if (noFlush && flushing == 0 && fs == flushSeen && avail >= (long)bs) violation("withheld", "%ld samples are stored but no block of %u is delivered", avail, bs);
                idle = d ? idle + 1 : 0; sleep_us(cpause == 3 ? bdur : 1 + choose(W, bdur)); continue;
            }
            idle = 0; AudioFrame *a = dynamic_cast<AudioFrame *>(f);
            Blk b; b.ts = f->getPresentationTime().count(); b.org = std::chrono::duration_cast<std::chrono::microseconds>(f->getOriginTime().time_since_epoch()).count(); b.minGen = minGen;
            long lo = 0, hi = 0; for (size_t k = in0; k < offers.size(); k++) { long d = (long)bs - (long)offers[k]; lo = std::min(lo, d); hi = std::max(hi, d); }   // stated by the input that came last
            if (b.org - b.ts < (lo - THR - 4) * 1000000 / (long)rate || b.org - b.ts > (hi + THR + 4) * 1000000 / (long)rate) violation("origin-time", "the block at %ld is said to originate from %ld", b.ts, b.org);
            if (a->getSamples() != bs || a->getLength() != bs * bps) violation("block-size", "block of %u samples (%u bytes) instead of %u", a->getSamples(), a->getLength(), bs);
            for (unsigned c = 0; c < ch; c++) { unsigned char *p = f->getPlanarDataBuf()[c]; check_access(p, bs * bps, false, __builtin_return_address(0)); b.d[c].assign(p, p + bs * bps); }
            blks.push_back(b); popEnded++; popping = false; log("block %zu ts %ld", blks.size() - 1, b.ts);
            if (cpause == 1) sleep_us(choose(W, bdur)); else if (cpause == 2) sleep_us(bdur); else if (cpause == 3 && chance(W, 1, 8)) sleep_us(bdur * 20); else yield("using");
            if (chance(W, 1, 4)) { Frame *g; { Sut u; g = q->getFront(); } if (g != f) violation("block-in-use-changed", "asking again gives another frame"); }
            bool same = f->getPresentationTime().count() == b.ts; for (unsigned c = 0; c < ch; c++) same = same && !memcmp(f->getPlanarDataBuf()[c], b.d[c].data(), bs * bps);
            if (!same) violation("block-in-use-changed", "block %zu changed while it was in use", blks.size() - 1);
            int w; { Sut u; w = q->removeFrame(); } if (w != 7) violation("wrong-wakeups", "release names producer %d", w);
        }
    });
    join(prod); stop_disturbing(); join(cons);
    // the recorded blocks have to be the accepted input, generation by generation
    struct Pos { size_t i; long z; unsigned o; long idx; };
    unsigned g = 0; Pos p = {0, 0, 0, 0}; char why[300];
    auto feed = [&](unsigned g, Pos p, const Blk &b, Pos &out) -> bool {
        Gen &G = gens[g]; why[0] = 0;
        long want = G.sync + p.idx * 1000000 / (long)rate;
        if (labs(b.ts - want) > 2) { snprintf(why, sizeof why, "timestamp %ld instead of %ld (sample %ld of the timeline)", b.ts, want, p.idx); return false; }
        for (unsigned k = 0; k < bs; k++) {
            bool zero = true; for (unsigned c = 0; c < ch; c++) for (unsigned x = 0; x < bps; x++) if (b.d[c][k * bps + x]) zero = false;
            if (p.i >= G.in.size()) { snprintf(why, sizeof why, "sample %u lies beyond the accepted input", k); return false; }
            In *in = &G.in[p.i];
            if (zero) { if (p.o) { snprintf(why, sizeof why, "sample %u is silent inside accepted input", k); return false; } if (++p.z > in->padMax) { snprintf(why, sizeof why, "%ld or more silent samples before input %llu where %ld to %ld belong", p.z, (unsigned long long)in->g0, in->padMin, in->padMax); return false; } }
            else {
                if (!p.o && p.z < in->padMin) { snprintf(why, sizeof why, "%ld silent samples before input %llu where %ld to %ld belong", p.z, (unsigned long long)in->g0, in->padMin, in->padMax); return false; }
                for (unsigned c = 0; c < ch; c++) for (unsigned x = 0; x < bps; x++) if (b.d[c][k * bps + x] != smp(in->g0 + p.o, c, x)) { snprintf(why, sizeof why, "sample %u of channel %u is not sample %u of input %llu", k, c, p.o, (unsigned long long)in->g0); return false; }
                if (++p.o == in->n) { p.o = 0; p.z = 0; p.i++; }
            }
            p.idx++;
        }
        out = p; return true;
    };
    for (size_t i = 0; i < blks.size(); i++) {
        Pos n; char first[300];
        if (blks[i].minGen <= g && feed(g, p, blks[i], n)) { p = n; continue; }
        if (blks[i].minGen > g) snprintf(first, sizeof first, "it is not from the timeline begun after the buffer was emptied"); else snprintf(first, sizeof first, "%s", why);
        bool ok = false;
        for (unsigned h = std::max(g + 1, blks[i].minGen); h < gens.size() && !ok; h++) { Pos z = {0, 0, 0, 0}; if (feed(h, z, blks[i], n)) { g = h; p = n; ok = true; } else if (h == blks[i].minGen) snprintf(first, sizeof first, "%s", why); }
        if (!ok) violation("wrong-samples", "block %zu (timestamp %ld): %s", i, blks[i].ts, first);
    }
    Gen &L = gens.back();
    if (g + 1 == gens.size() || !L.in.empty()) {
        if (g + 1 != gens.size()) p = Pos{0, 0, 0, 0};
        long left = 0; for (size_t i = p.i; i < L.in.size(); i++) left += (i == p.i && (p.o || p.z) ? (p.o ? 0 : std::max(0L, L.in[i].padMin - p.z)) : L.in[i].padMin) + L.in[i].n - (i == p.i ? p.o : 0);
        if (left >= (long)bs) violation("samples-lost", "%ld accepted samples were never delivered", left);
    }
    if (flushes != q->getLostBlocs()) violation("loss-miscounted", "%zu losses counted for %llu restarts", q->getLostBlocs(), (unsigned long long)flushes);
    { Sut u; delete q; } std::string leak; if (uint64_t l = live_in_epoch(ep, &leak)) violation("leak", "%llu blocks are left: %s", (unsigned long long)l, leak.c_str());
    nontrivial(accepted >= 3 && blks.size() >= 2); if (pads) probe("with_silence");
}

// ---- A02: the mixer ----------------------------------------------------------------------------
namespace {
const long RATE = 48000, BLK = 960, WIN = 5 * BLK;        // 20 ms blocks, 100 ms mixing window
typedef std::map<int, float> Gains;
struct Contribution { int id; int64_t ts; unsigned n; float gain; const std::vector<float> *s; };
struct MixModel {                                         // the mixing window as it has to be
    bool synced = false; int64_t sync = 0, front = 0, rear = 0; std::deque<double> b[2];
    static double soft(double x) { const double t = 0.6; return x > t ? (1 - t) / (2 - t) * x + t / (2 - t) : x < -t ? (1 - t) / (2 - t) * x - t / (2 - t) : x; }   // what exceeds the threshold is compressed
    void grow(long n) { for (int c = 0; c < 2; c++) while ((long)b[c].size() < n) b[c].push_back(0); }
    const char *push(const Contribution &c, float master) {
        if (!synced) { synced = true; sync = c.ts; }
        int64_t num = (c.ts - sync) * RATE, p = num / 1000000; if (num % 1000000 < 0) p--;
        const char *r = "mixed";
        if (p < front && p >= -WIN) return "late";
        if (p < front || p > front + WIN - (long)c.n) {
            if (p > front + WIN - (long)c.n && WIN - (rear - front) < (long)c.n) return "early";
            front = rear = 0; sync = c.ts; p = 0; b[0].clear(); b[1].clear(); r = "restart";
        }
        grow(p - front + c.n);
        for (int ch = 0; ch < 2; ch++) for (unsigned k = 0; k < c.n; k++) b[ch][p - front + k] += (double)c.s[ch][k] * c.gain * master, b[ch][p - front + k] = soft(b[ch][p - front + k]);
        if (p + c.n > rear) rear = p + c.n;
        return r;
    }
    bool due(unsigned thr) { return rear - front >= (long)thr; }
    void advance() { for (int c = 0; c < 2; c++) { grow(BLK); b[c].erase(b[c].begin(), b[c].begin() + BLK); } front += BLK; }
};
struct Mixr : public AudioMixer {
    std::function<bool(std::map<int, Frame *> &, Frame *, std::vector<int>)> around; bool small = true;
    bool doProcessFrame(std::map<int, Frame *> &o, Frame *d, std::vector<int> n) override { Harness h; return around(o, d, n); }
    FrameQueue *allocQueue(ConnectionData c) override { if (!small) return AudioMixer::allocQueue(c); return AudioCircularBuffer::createNew(c, 2, RATE, 1000, FLTP); }
    bool base(std::map<int, Frame *> &o, Frame *d, std::vector<int> n) { Sut u; return AudioMixer::doProcessFrame(o, d, n); }
    void state(Gains &g, float &master) { Jzon::Object n; { Sut u; AudioMixer::doGetState(n); } g.clear(); master = n.Get("masterGain").ToFloat(); const Jzon::Array &a = n.Get("gains").AsArray(); for (unsigned i = 0; i < a.GetCount(); i++) g[a.Get(i).Get("id").ToInt()] = a.Get(i).Get("gain").ToFloat(); }
};
template <class M> auto ageMixer(M *m, MixModel &x, int) -> decltype(m->front, m->rear, m->syncTs, m->mixBufferMaxSamples, true)
{
    if ((int64_t)m->front != x.front || (int64_t)m->rear != x.rear || (long)m->mixBufferMaxSamples != WIN || m->syncTs.count() != x.sync || !x.synced) return false;
    int64_t k = ((1ll << 32) - x.rear) / WIN - choose(W, 2); if (k < 100) return false;
    m->front += k * WIN; m->rear += k * WIN; m->syncTs -= std::chrono::microseconds(k * 100000); x.front += k * WIN; x.rear += k * WIN; x.sync -= k * 100000; return true;
}
bool ageMixer(...) { return false; }
struct AHead : public hf::Base<HeadFilter> {
    SampleFmt fmt; int loud = 1; int rid; int64_t pos, off; uint64_t made = 0; unsigned n = BLK; std::function<void()> before;
    AHead(int id, SampleFmt f) : hf::Base<HeadFilter>(1, REGULAR, false), fmt(f) { setId(id); }
    FrameQueue *allocQueue(ConnectionData c) override { return AudioCircularBuffer::createNew(c, 2, RATE, 1000, fmt); }
    int64_t ts() { return off + pos * 1000000 / RATE; }
    bool doProcessFrame(std::map<int, Frame *> &d, int &) override {
        Harness h; if (before) before();
        AudioFrame *a = dynamic_cast<AudioFrame *>(d.begin()->second); if (!a) violation("wrong-frame", "output frame of a source is no audio frame");
        for (int c = 0; c < 2; c++) for (unsigned k = 0; k < n; k++) {
            uint64_t x = ((uint64_t)getId() * 2 + c) * 1000003 + pos + k; x *= 0x9E3779B97F4A7C15ull; int v = (int)((x >> 40) & 63) - 32;
            if (fmt == FLTP) ((float *)a->getPlanarDataBuf()[c])[k] = v * loud / 1024.0f; else ((short *)a->getPlanarDataBuf()[c])[k] = v * loud * 32; }
        a->setSamples(n); a->setLength(n * (fmt == FLTP ? 4 : 2)); a->setPresentationTime(std::chrono::microseconds(ts())); a->setDecodeTime(std::chrono::microseconds(-1)); a->setConsumed(true);
        pos += n; made++; return true; }
};
struct PostedEv { int kind; int id; float g; };
void applyEv(const PostedEv &e, Gains &g, float &master) {
    switch (e.kind) {
        case 0: if (g.count(e.id)) g[e.id] = e.g > 1 ? 1 : e.g < 0 ? 0 : e.g; break;
        case 1: if (g.count(e.id)) g[e.id] = 0; break;
        case 2: if (g.count(e.id)) for (auto &x : g) x.second = x.first == e.id ? 1 : 0; break;
        case 3: master = e.g; break;
        case 4: master = 0; break; } }
void mix_run(bool threads)
{
    hf::warm(); int ep = track_begin();
    Sched sc; if (threads) { sc = random_sched(true, true); if (sc.access_gap) { sc.access_gap = sc.access_gap < 20 ? 300 + sc.access_gap * 10 : 500 + sc.access_gap; configure(sc); } }
    Mixr *m; { Sut u; m = new Mixr(); m->setId(50); } m->small = !chance(W, 1, 40);
    hf::Tail *tail = new hf::Tail(60); tail->body = [](std::map<int, Frame *> &, std::vector<int>, int &) { return true; };
    { bool ok; { Sut u; ok = m->connectManyToOne(tail, 1) ; } if (!ok) violation("wrong-refusal", "the mixer's output cannot be connected"); }
    unsigned thr = m->getMixingThreshold();
    std::vector<MixModel> cand(1); Gains expG; float expM = 0.6f; std::deque<PostedEv> posted; bool evModel = !threads;
    std::map<int, AHead *> heads; std::map<int, uint64_t> changes; std::map<int, bool> changing; std::vector<BaseFilter *> gone;
    int64_t T0 = 1000000000000 + 125 * (int64_t)choose(W, 8000); int nextHead = 100; bool haveOut = false; int64_t lastTs = 0; uint64_t blocksIn = 0, blocksOut = 0, late = 0, restarts = 0; bool evSent = false, stop = false; int64_t media = 0;
    m->around = [&](std::map<int, Frame *> &o, Frame *d, std::vector<int> nw) -> bool {
        if (nw.empty()) violation("no-input", "the mixer is run without any new block");
        std::map<int, uint64_t> ch0 = changes; std::map<int, bool> inCh = changing;
        Gains g; float master;
        if (threads || chance(W, 1, 4)) {
            m->state(g, master);
            if (!threads) { for (auto &x : expG) if (!g.count(x.first)) violation("gain-state", "input %d has no gain", x.first); else if (fabs(g[x.first] - x.second) > 1e-6) violation("gain-state", "input %d has gain %g instead of %g", x.first, g[x.first], x.second);
                for (auto &x : g) if (!expG.count(x.first)) violation("gain-state", "input %d, which is gone, still has a gain", x.first);
                if (fabs(master - expM) > 1e-6) violation("gain-state", "the master gain is %g instead of %g", master, expM); }
        }
        if (!threads) { g = expG; master = expM; }
        std::vector<std::vector<float>> data(nw.size() * 2); std::vector<Contribution> cs;
        for (size_t i = 0; i < nw.size(); i++) {
            if (!o.count(nw[i])) violation("unknown-input", "new block announced on input %d, which is not there", nw[i]);
            AudioFrame *a = dynamic_cast<AudioFrame *>(o[nw[i]]); Contribution c; c.id = nw[i]; c.ts = a->getPresentationTime().count(); c.n = a->getSamples(); c.gain = g.count(c.id) ? g[c.id] : 0; c.s = &data[i * 2];
            if (c.n != BLK) violation("block-size", "input block of %u samples", c.n);
            for (int k = 0; k < 2; k++) { unsigned char *p = a->getPlanarDataBuf()[k]; data[i * 2 + k].resize(c.n); for (unsigned j = 0; j < c.n; j++) data[i * 2 + k][j] = a->getSampleFmt() == FLTP ? ((float *)p)[j] : ((short *)p)[j] / 32768.0f; }
            cs.push_back(c); blocksIn++;
        }
        bool r = m->base(o, d, nw);
        AudioFrame *da = dynamic_cast<AudioFrame *>(d);
        if (r) { if (!d->getConsumed()) violation("output-lost", "a mixed block is not passed on"); if (da->getSamples() != BLK || da->getLength() != BLK * 4 || da->getChannels() != 2 || da->getSampleRate() != RATE) violation("block-size", "mixed block of %u samples, %u bytes", da->getSamples(), da->getLength()); }
        // what the pass may have done
        std::vector<MixModel> next; std::string why = "?"; bool restart = false;
        for (MixModel &c0 : cand) {
            std::vector<MixModel> alt(1, c0);
            for (Contribution &c : cs) {
                bool unsure = threads && (!g.count(c.id) || inCh[c.id] || changing[c.id] || changes[c.id] != ch0[c.id]);
                std::vector<MixModel> n2;
                for (MixModel &a : alt) {
                    if (unsure) { n2.push_back(a); for (float gg : {0.f, 1.f}) if (gg != c.gain) { Contribution c2 = c; c2.gain = gg; MixModel b = a; b.push(c2, master); n2.push_back(b); } }
                    const char *w = a.push(c, master); log("input %d at %lld: %s", c.id, (long long)c.ts, w); if (w[0] == 'l') { late++; probe("late_block"); } else if (w[0] == 'r') { restart = true; probe("restart"); } else if (w[0] == 'e') probe("early_block");
                    n2.push_back(a);
                }
                alt = n2; if (alt.size() > 64) give_up("too many departures at once");
            }
            for (MixModel &a : alt) {
                if (a.due(thr) != r) { why = r ? "a block is produced although less than the mixing delay is buffered" : "no block is produced although the mixing delay is buffered"; continue; }
                if (r) {
                    int64_t ts = a.sync + a.front * 1000000 / RATE; char b[200];
                    if (d->getPresentationTime().count() != ts) { snprintf(b, sizeof b, "the mixed block has timestamp %lld instead of %lld", (long long)d->getPresentationTime().count(), (long long)ts); why = b; continue; }
                    bool ok = true; for (int ch = 0; ch < 2 && ok; ch++) for (int k = 0; k < BLK && ok; k++) { float got = ((float *)d->getPlanarDataBuf()[ch])[k]; if (fabs(a.b[ch][k]) > 0.6) probe("loud"); if (!(fabs(got) <= 1)) violation("overdriven", "sample %d of channel %d is %g", k, ch, got); if (!(fabs(got - a.b[ch][k]) < 2e-5)) { ok = false; snprintf(b, sizeof b, "sample %d of channel %d of the block at %lld is %g, the sum of its inputs is %g", k, ch, (long long)ts, got, a.b[ch][k]); why = b; } }
                    if (!ok) continue;
                    a.advance();
                }
                bool dup = false; for (MixModel &x : next) if (x.sync == a.sync && x.front == a.front && x.rear == a.rear && x.b[0] == a.b[0] && x.b[1] == a.b[1]) dup = true;
                if (!dup) next.push_back(a);
            }
        }
        if (next.empty()) violation("wrong-mix", "%s", why.c_str());
        if (next.size() > 64) give_up("too many departures");
        cand = next; if (restart) { haveOut = false; restarts++; }
        if (r) { int64_t ts = d->getPresentationTime().count(); if (haveOut && ts != lastTs + 20000 && cand.size() == 1) violation("not-contiguous", "block at %lld follows block at %lld", (long long)ts, (long long)lastTs); haveOut = true; lastTs = ts; blocksOut++; log("out %lld", (long long)ts); }
        state((uint64_t)(cand[0].rear - cand[0].front) / 240 * 16 + nw.size());
        return r;
    };
    auto flushEv = [&] { if (evModel) while (!posted.empty()) { applyEv(posted.front(), expG, expM); posted.pop_front(); } };
    auto join_ = [&](int rid, int64_t at) {
        SampleFmt f = chance(W, 1, 4) ? S16P : FLTP; AHead *h; { Sut u; h = new AHead(nextHead++, f); }
        h->rid = rid; if (chance(W, 1, 8)) h->loud = 30; h->off = T0 + 125 * (int64_t)choose(W, 160); h->pos = at; static const unsigned ns[] = {960, 960, 960, 480, 1920, 4800, 1200}; h->n = pick(W, ns);
        changing[rid] = true; bool ok; { Sut u; ok = h->connectOneToMany(m, rid); } if (!ok) violation("wrong-refusal", "input %d cannot be connected", rid);
        changes[rid]++; changing[rid] = false; flushEv(); expG[rid] = 1; heads[rid] = h; log("input %d joins at %lld", rid, (long long)h->ts());
    };
    auto leave_ = [&](int rid) {
        AHead *h = heads[rid]; heads.erase(rid); changing[rid] = true; bool ok; bool side = !threads && chance(W, 1, 2); { Sut u; ok = m->disconnectReader(rid); } (void)side;
        if (!ok) violation("wrong-refusal", "input %d cannot be disconnected", rid);
        changes[rid]++; changing[rid] = false; expG.erase(rid); gone.push_back(h); log("input %d leaves", rid); fault("input_left");
    };
    auto post = [&] {
        if (chance(W, 1, 5)) {       // a request that does not say what it wants
            static const char *acts[] = {"changeChannelGain", "muteChannel", "soloChannel", "changeMasterGain"}; Jzon::Object root, par; root.Add("action", acts[choose(W, 4)]); int k = choose(W, 4);
            if (k == 1) par.Add("other", 1); else if (k == 2) { par.Add("id", "first"); par.Add("gain", "loud"); } else if (k == 3) { Jzon::Array a; a.Add(1); par.Add("id", a); par.Add("gain", a); } if (k) root.Add("params", par);
            Event e(root, std::chrono::system_clock::now(), 0); { Sut u; m->pushEvent(e); } fault("bad_request"); return; }
        PostedEv e; e.kind = choose(W, 5); e.id = 1 + choose(W, 5); static const float gs[] = {1, 0.5, 0.25, 0, 1.5, -1}; e.g = pick(W, gs);
        if (e.kind == 3 && (e.g > 1 || e.g < 0)) e.g = 0.75; if (e.kind == 4 && chance(W, 2, 3)) { e.kind = 3; e.g = 0.5; }
        { Sut u; switch (e.kind) { case 0: m->changeChannelGain(e.id, e.g); break; case 1: m->muteChannel(e.id); break; case 2: m->soloChannel(e.id); break; case 3: m->changeMasterGain(e.g); break; default: m->muteMaster(); } }
        posted.push_back(e); evSent = true; log("event %d input %d gain %g", e.kind, e.id, e.g); fault("gain_change");
    };
    int ni = 1 + choose(W, 4); for (int i = 1; i <= ni; i++) join_(i, chance(W, 1, 3) ? (int64_t)choose(W, 8) * 480 : 0);
    int wild = choose(W, 3), evd = chance(W, 1, 2) ? 0 : 6 + choose(W, 20), chd = chance(W, 1, 2) ? 0 : 10 + choose(W, 30);
    auto deliver = [&](AHead *h) { if (wild && chance(W, 1, 24)) { int k = choose(W, 4); if (k == 0) { h->pos += 70 + choose(W, 900); fault("gap"); } else if (k == 1 && wild > 1) { h->pos += 2000 + choose(W, 100000); fault("far_jump"); } else if (k == 2) { h->pos += 960 * (1 + choose(W, 3)) + 480; fault("gap"); } else if (wild > 1) { h->pos -= std::min<int64_t>(h->pos, choose(W, 5000)); fault("old_input"); } }
        int ret; { Sut u; h->processFrame(ret); } media = std::max(media, h->pos); };
    if (!threads) {
        int ops = 30 + choose(W, 160); bool agef = chance(F, 1, 8); int order = choose(W, 3); uint64_t seenRestarts = 0;
        for (int i = 0; i < ops; i++) {
            if (evd && chance(W, 1, evd)) post();
            if (chd && chance(W, 1, chd)) { if (heads.size() > 1 && chance(W, 1, 2)) { auto it = heads.begin(); std::advance(it, choose(W, heads.size())); leave_(it->first); } else { int rid = 1 + choose(W, 5); if (!heads.count(rid)) join_(rid, std::max<int64_t>(0, media + ((int)choose(W, 40) - 24) * 240)); } }
            AHead *lag = nullptr; for (auto &x : heads) if (!lag || x.second->ts() < lag->ts()) lag = x.second;
            AHead *h = lag; if (order && chance(W, 1, order == 1 ? 4 : 2)) { auto it = heads.begin(); std::advance(it, choose(W, heads.size())); h = it->second; if (h->ts() - lag->ts() > 90000 && !chance(W, 1, 30)) h = lag; }
            deliver(h);
            if (agef && blocksOut == 3) { agef = false; if (cand.size() == 1 && ageMixer(m, cand[0], 0)) { fault("aged"); haveOut = true; } }
            if (chance(W, 2, 3)) { flushEv(); int ret; { Sut u; m->processFrame(ret); } }
            if (chance(W, 1, 4)) { int ret; Sut u; tail->processFrame(ret); }
            if (restarts != seenRestarts) { seenRestarts = restarts; if (chance(W, 7, 8)) { int64_t mx = 0; for (auto &x : heads) mx = std::max(mx, x.second->ts()); for (auto &x : heads) while (x.second->ts() < mx - 20000) x.second->pos += BLK; } }
        }
        for (int k = 0; k < 12; k++) { flushEv(); int ret; Sut u; m->processFrame(ret); }
    } else {
        std::vector<int> th; std::map<int, bool> quit; std::map<int, bool> out;
        auto start = [&](int rid) { AHead *h = heads[rid]; int hid = h->getId(); th.push_back(spawn("input", [&, h, hid] { while (!stop && !quit[hid]) { deliver(h); sleep_us(range(W, 0, 2 * h->n * 1000000 / RATE)); } out[hid] = true; })); };
        for (int i = 1; i <= ni; i++) start(i);
        th.push_back(spawn("mixer", [&] { while (!stop) { int ret = 0; { Sut u; m->processFrame(ret); } sleep_us(range(W, 0, 6000)); } }));
        th.push_back(spawn("tail", [&] { while (!stop) { int ret = 0; { Sut u; tail->processFrame(ret); } sleep_us(range(W, 0, 12000)); } }));
        int ops = 3 + choose(W, 20);
        for (int i = 0; i < ops; i++) {
            sleep_us(range(W, 0, 40000)); int k = choose(W, 3);
            if (k == 0) post();
            else if (k == 1 && heads.size() > 1) { auto it = heads.begin(); std::advance(it, choose(W, heads.size())); int rid = it->first, hid = it->second->getId(); quit[hid] = true; if (chance(W, 1, 2)) wait_until([&] { return out[hid]; }, 10000000); leave_(rid); }
            else if (k == 2) { int rid = 1 + choose(W, 5); if (!heads.count(rid)) { join_(rid, media); start(rid); } }
            else { Jzon::Object n; Sut u; m->getState(n); }
        }
        stop_disturbing(); stop = true; for (int t : th) join(t);
    }
    { Sut u; delete m; delete tail; for (auto &x : heads) delete x.second; for (BaseFilter *f : gone) delete f; }
    m = nullptr; std::string what; if (uint64_t l = live_in_epoch(ep, &what)) violation("leak", "%llu blocks are left: %s", (unsigned long long)l, what.c_str());
    nontrivial(blocksOut >= 5 && blocksIn > blocksOut); if (late) probe("with_late"); (void)evSent;
}
}
SCENARIO(audio_mix, "audio mixer: any order of arrival") { mix_run(false); }
SCENARIO(audio_mix_mt, "audio mixer: inputs, outputs, events and connections in threads of their own") { mix_run(true); }
