#include "pmw.h"
using namespace hf;
namespace pm {
World *G;
StreamInfo *stream_info() { static StreamInfo *si; if (!si) { Harness h; si = new StreamInfo(); si->type = VIDEO; si->video.codec = H264; } return si; }
static const int64_t WORK[] = {0, 50, 1000, 12000};
static bool handle_mark(Obj *o, Jzon::Node *p)
{
    uint64_t n = 0; if (p && p->IsObject() && p->Has("serial")) n = p->Get("serial").ToInt();
    std::string text; int64_t sum = -1, have = 0; if (n && p->Has("text") && p->Has("sum")) { text = p->Get("text").ToString(); sum = p->Get("sum").ToInt(); }
    Harness h; if (sum >= 0) { int64_t k = 0; for (char c : text) have += ++k * (unsigned char)c; if (have != sum) violation("wrong-parameter", "event %llu comes with the text '%s', which is not the one sent", (unsigned long long)n, text.c_str()); }
    if (!n) return false; if (!o->alive) violation("destroyed-filter", "an event is applied to filter object %d, which is gone", o->uid);
    if (o->processing && o->role != 'x') violation("event-while-processing", "event %llu is applied while filter object %d is processing", (unsigned long long)n, o->uid);
    auto &m = G->marks[n]; m.first++; m.second = o->uid; log("event %llu applied by object %d", (unsigned long long)n, o->uid); if (G->on_mark) G->on_mark(*o, n); yield("mark"); return true;
}
static Obj *born(BaseFilter *f, char role, FilterType t, unsigned n, std::map<std::string, std::function<bool(Jzon::Node *)>> &em)
{
    Obj *o; { Harness h; o = new Obj; o->uid = G->created(); o->f = f; o->type = t; o->role = role; o->max = n; static const int64_t per[] = {4000, 10000, 20000, 40000}; o->period = per[choose(W, 4)] * G->slow; o->work = WORK[choose(W, 4)]; G->objs.emplace_back(o); log("object %d (%c) is created", o->uid, role); }
    em["mark"] = [o](Jzon::Node *p) { return handle_mark(o, p); };
    em["strict"] = [o](Jzon::Node *p) { int a = p->Get("serial").ToInt(); int b = p->Get("value").ToInt(); (void)a; (void)b; return handle_mark(o, p); };
    em["refuse"] = [o](Jzon::Node *) { return false; };
    return o;
}
static void gone(Obj *o) { Harness h; log("object %d is destroyed", o->uid); if (o->processing) violation("destroyed-filter", "filter object %d is destroyed while it is processing", o->uid); o->alive = false; if (G->on_dead) G->on_dead(*o); }
struct Step { Obj *o; Harness h; Step(Obj *x) : o(x) { if (!o->alive) violation("destroyed-filter", "filter object %d processes after its end", o->uid); if (o->processing) violation("two-at-once", "filter object %d is processed twice at once", o->uid); o->processing = true; o->steps++; if (o->work) sleep_us(range(W, 0, o->work)); else yield("body"); } ~Step() { if (G->on_step) G->on_step(*o); o->processing = false; } };
static bool refused(const char *what) { if (G->refuse_den && chance(F, 1, G->refuse_den)) { G->faulted = true; fault(what); return true; } return false; }
static void out(Obj *o, Frame *f, int writer)
{
    Tag t = {MAGIC, (unsigned)o->uid, ++o->serial[writer], (uint64_t)(int64_t)writer, wall_ns() / 1000, -1, 0, 0}; put(f, t, true); f->setConsumed(true);
}
static void in(Obj *o, Frame *f, int reader)
{
    Tag t; std::string why; if (!get(f, t, why)) violation("broken-frame", "filter object %d gets %s on reader %d", o->uid, why.c_str(), reader);
    auto &l = o->last[{reader, (int)t.stream}][(int)t.seq]; if (t.serial <= l) violation("frame-order", "filter object %d gets frame %llu of object %u on reader %d after frame %llu", o->uid, (unsigned long long)t.serial, t.stream, reader, (unsigned long long)l); l = t.serial;
    o->arrived[{reader, (int)t.stream}]++; if (G->on_frame) G->on_frame(*o, reader, t);
}
}
using namespace pm;
#define PM_BODY(name, base, init, role) \
    name::name(FilterType t, unsigned n) : base init { fType = t; o = born(this, role, t, n, eventMap); } name::~name() { gone(o); } \
    void name::doGetState(Jzon::Object &) {} \
    bool name::specificReaderConfig(int, FrameQueue *) { Harness h; yield("config"); return !refused("reader_refused"); } bool name::specificReaderDelete(int) { return true; } \
    bool name::specificWriterConfig(int) { Harness h; return !refused("writer_refused"); } bool name::specificWriterDelete(int) { return true; } \
    FrameQueue *name::allocQueue(ConnectionData c) { { Harness h; if (role == 'T') return NULL; if (refused("no_queue")) return NULL; } Sut u; return new SmallQueue(c, pm::stream_info(), G->qmax, sizeof(Tag) + 40); }
PM_BODY(PmHead, HeadFilter, (n), 'H')
PM_BODY(PmTail, TailFilter, (n), 'T')
PM_BODY(PmOne, OneToOneFilter, (), '1')
PM_BODY(PmSplit, OneToManyFilter, (n), 'S')
PM_BODY(PmMix, ManyToOneFilter, (n), 'M')
bool PmHead::doProcessFrame(std::map<int, Frame *> &d, int &ret) { Step s(o); ret = o->period; if (!G->running) return true; for (auto &x : d) if (!chance(W, 1, 16)) out(o, x.second, x.first); return true; }
bool PmTail::doProcessFrame(std::map<int, Frame *> &f, std::vector<int> n, int &)
{
    Step s(o); for (int r : n) in(o, f[r], r);
    if (o->upstream && !n.empty() && chance(W, 1, 3) && G->on_upstream) G->on_upstream(*o, n[choose(W, n.size())]);
    return true;
}
bool PmOne::doProcessFrame(Frame *f, Frame *d) { Step s(o); in(o, f, DEFAULT_ID); out(o, d, -1); return true; }
bool PmSplit::doProcessFrame(Frame *f, std::map<int, Frame *> &d) { Step s(o); in(o, f, DEFAULT_ID); for (auto &x : d) out(o, x.second, x.first); return true; }
bool PmMix::doProcessFrame(std::map<int, Frame *> &f, Frame *d, std::vector<int> n) { Step s(o); for (int r : n) in(o, f[r], r); out(o, d, -1); return true; }
