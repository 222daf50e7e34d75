// Harness filters and queues around the real filter base classes.
#pragma once
#include "sim.h"
#include "Filter.hh"
#include "AVFramedQueue.hh"
#include "VideoFrame.hh"
#include "WorkersPool.hh"
#include <string.h>
#include <memory>
#include <deque>
#include <algorithm>
extern std::vector<std::pair<int, std::string>> g_upstream;
extern std::function<void(Event &, int)> g_upstream_hook;
namespace hf {
inline void warm() { { time_t t = 0; tzset(); (void)gmtime(&t); } utils::infoMsg("warm up"); }   // allocates the logger once
using namespace sim;
struct SmallQueue : public AVFramedQueue {    // the real queue with small frames
    SmallQueue(ConnectionData c, const StreamInfo *si, unsigned n, unsigned len) : AVFramedQueue(c, si, n) { for (unsigned i = 0; i < max; i++) frames[i] = InterleavedVideoFrame::createNew(H264, len); }
};
const unsigned FLEN = 48, MAGIC = 0x5A17C0DE;
struct Tag { unsigned magic, stream; uint64_t serial; uint64_t seq; int64_t pts, dts, org; unsigned extra; };   // written at the start of the payload
inline unsigned char patt(const Tag &t, unsigned i) { return (unsigned char)(t.serial * 167 + t.stream * 59 + i * 13); }
inline void put(Frame *f, const Tag &t, bool slow = true)
{
    unsigned char *d = f->getDataBuf(); unsigned n = sizeof(Tag) + 32;
    check_access(d, n, true, __builtin_return_address(0));
    memcpy(d, &t, sizeof t); for (unsigned i = 0; i < 32; i++) { d[sizeof t + i] = patt(t, i); if (slow && i == 16) yield("fill"); }
    f->setLength(n); f->setPresentationTime(std::chrono::microseconds(t.pts)); f->setDecodeTime(std::chrono::microseconds(t.dts));
}
inline bool get(Frame *f, Tag &t, std::string &why)
{
    unsigned char *d = f->getDataBuf(); unsigned n = sizeof(Tag) + 32;
    check_access(d, n, false, __builtin_return_address(0));
    memcpy(&t, d, sizeof t);
    if (t.magic != MAGIC) { why = "a frame that was never filled"; return false; }
    if (f->getLength() != n) { why = "a frame of another length"; return false; }
    for (unsigned i = 0; i < 32; i++) if (d[sizeof t + i] != patt(t, i)) { why = "a frame with mixed content"; return false; }
    if (f->getPresentationTime().count() != t.pts || f->getDecodeTime().count() != t.dts) { why = "a frame with other timestamps"; return false; }
    return true;
}
inline long org_us(Frame *f) { return std::chrono::duration_cast<std::chrono::microseconds>(f->getOriginTime().time_since_epoch()).count(); }
template <class B> struct Base : public B {
    StreamInfo si; unsigned qmax = 6; bool refuseReader = false, refuseWriter = false, refuseQueue = false;
    uint64_t delReaders = 0, delWriters = 0, cfgReaders = 0;
    template <class... A> Base(A... a) : B(a...) { si.type = VIDEO; si.video.codec = H264; }
    std::vector<int> step(int &ret) { Sut u; std::vector<int> v = this->processFrame(ret); return v; }
    FrameQueue *allocQueue(ConnectionData c) override { Harness h; if (refuseQueue) return NULL; Sut u; return new SmallQueue(c, &si, qmax, sizeof(Tag) + 40); }
    void doGetState(Jzon::Object &) override {}
    // elements keep something per input and output (channels, segmenters): both calls come in pairs
    bool paired = false; std::set<int> ins, outs;
    bool pair_in(std::set<int> &s, int id, bool refuse, const char *what) { if (refuse) return false; if (!s.insert(id).second && paired) violation("element-not-told", "filter %d is told to set up %s %d, which it was not told to give up", this->getId(), what, id); return true; }
    bool pair_out(std::set<int> &s, int id, const char *what) { if (!s.erase(id) && paired) violation("element-not-told", "filter %d is told to give up %s %d, which it has not set up", this->getId(), what, id); return true; }
    bool specificReaderConfig(int id, FrameQueue *) override { Harness h; cfgReaders++; return pair_in(ins, id, refuseReader, "input"); }
    bool specificReaderDelete(int id) override { Harness h; delReaders++; return pair_out(ins, id, "input"); }
    bool specificWriterConfig(int id) override { Harness h; return pair_in(outs, id, refuseWriter, "output"); }
    bool specificWriterDelete(int id) override { Harness h; delWriters++; return pair_out(outs, id, "output"); }
    bool processing = false;
};
struct Head : public Base<HeadFilter> {
    std::function<bool(std::map<int, Frame *> &, int &)> body;
    Head(int id, unsigned writers = MAX_WRITERS, bool periodic = true, FilterRole role = REGULAR) : Base<HeadFilter>(writers, role, periodic) { setId(id); }
    bool doProcessFrame(std::map<int, Frame *> &d, int &ret) override { Harness h; processing = true; bool r = body(d, ret); processing = false; return r; }
    bool pendingJobs() { return false; }
};
struct Tail : public Base<TailFilter> {
    std::function<bool(std::map<int, Frame *> &, std::vector<int>, int &)> body;
    Tail(int id, unsigned readers = MAX_READERS, FilterRole role = REGULAR) : Base<TailFilter>(readers, role, false) { setId(id); }
    bool doProcessFrame(std::map<int, Frame *> &o, std::vector<int> n, int &ret) override { Harness h; processing = true; bool r = body(o, n, ret); processing = false; return r; }
    FrameQueue *allocQueue(ConnectionData) override { return NULL; }
};
struct One : public Base<OneToOneFilter> {
    std::function<bool(Frame *, Frame *)> body;
    One(int id) : Base<OneToOneFilter>(REGULAR, false) { setId(id); }
    bool doProcessFrame(Frame *o, Frame *d) override { Harness h; processing = true; bool r = body(o, d); processing = false; return r; }
};
struct Split : public Base<OneToManyFilter> {
    std::function<bool(Frame *, std::map<int, Frame *> &)> body;
    Split(int id) : Base<OneToManyFilter>(MAX_WRITERS, REGULAR, false) { setId(id); }
    bool doProcessFrame(Frame *o, std::map<int, Frame *> &d) override { Harness h; processing = true; bool r = body(o, d); processing = false; return r; }
};
struct Mix : public Base<ManyToOneFilter> {
    std::function<bool(std::map<int, Frame *> &, Frame *, std::vector<int>)> body;
    Mix(int id) : Base<ManyToOneFilter>(MAX_READERS, REGULAR, false) { setId(id); }
    bool doProcessFrame(std::map<int, Frame *> &o, Frame *d, std::vector<int> n) override { Harness h; processing = true; bool r = body(o, d, n); processing = false; return r; }
};
}
