// Events, input synchronisation and whole pipelines.
#include "filters.h"
using namespace sim;
using namespace hf;

// ---- F04 ---------------------------------------------------------------------------------------
namespace {
struct Ev { int n; int64_t ts, delay; bool valid, failing; int poster; uint64_t pushedAt = 0; bool pushing = false; int applied = 0; };   // us on the system clock
struct EvRun {
    std::vector<Ev> ev; uint64_t clk = 1; bool processing = false, inHandler = false, immediate = false, stepped = false, stop = false;
    int64_t maxWall = 0; std::map<int, uint64_t> drainStart; uint64_t lastPushStart = 0;
};
EvRun *X;
int64_t wall_us() { int64_t w = wall_ns() / 1000; if (w > X->maxWall) X->maxWall = w; return w; }
bool handler(Jzon::Node *p, bool slow)
{
    int n = -1; bool failing = false, throwing = false;
    if (p && p->IsObject()) { if (p->Has("n")) n = p->Get("n").ToInt(); failing = p->Has("fail"); throwing = failing && p->Get("fail").IsObject(); }
    Harness h; wall_us();
    if (n < 0) return false;
    if (n >= (int)X->ev.size()) violation("unknown-event", "an event that was never posted is applied (%d)", n);
    Ev &e = X->ev[n]; log("event %d applied", n);
    if (X->processing) violation("event-while-processing", "event %d is applied while the filter processes a frame", n);
    if (X->inHandler) violation("events-at-once", "event %d is applied while another one is", n);
    if (e.applied++) violation("event-twice", "event %d is applied twice", n);
    if (!X->immediate) {
        int64_t due = e.ts + e.delay, slack = e.delay > 0 ? 0 : 1000;
        if (X->maxWall < due - slack) violation("event-early", "event %d (timestamp %lld, delay %lld us) is applied %lld us before it is due", n, (long long)e.ts, (long long)e.delay, (long long)(due - X->maxWall));
        uint64_t st = X->drainStart[self()];
        for (Ev &o : X->ev) if (o.pushedAt && o.pushedAt < st && o.ts < e.ts && o.valid && !o.applied) violation("event-order", "event %d (timestamp %lld) is applied before event %d (timestamp %lld) that was already posted", n, (long long)e.ts, o.n, (long long)o.ts);
    }
    X->inHandler = true; if (slow) { if (chance(W, 1, 4)) sleep_us(range(W, 1, 500)); else yield("handler"); } X->inHandler = false;
    if (throwing) p->Get("fail").ToInt();                      // Jzon throws: not a value
    return !failing;
}
void ev_run()
{
    utils::infoMsg("warm up"); int ep = track_begin();
    EvRun R; X = &R;
    enum { ONE, SPLIT, MIX, HEAD, TAIL }; int kind = choose(W, 5); R.immediate = kind >= HEAD;
    Head *src = nullptr; Tail *snk = nullptr; BaseFilter *f = nullptr; std::map<std::string, std::function<bool(Jzon::Node *)>> *em = nullptr;
    static const int wk[] = {0, 20, 300, 5000}; int work = wk[choose(W, 4)];
    uint64_t frames = 0, serial = 0;
    auto busy = [&] { if (X->inHandler) violation("event-while-processing", "the filter processes a frame while an event is being applied"); X->processing = true; if (work) sleep_us(range(W, 0, work)); else yield("body"); X->processing = false; frames++; };
    auto fill = [&](Frame *d) { Tag t = {MAGIC, 1, ++serial, 0, (int64_t)(serial * 1000), -1, 0, 0}; put(d, t); d->setConsumed(true); };
    if (kind == ONE) { One *o = new One(5); o->body = [&](Frame *, Frame *d) { busy(); d->setConsumed(true); return true; }; f = o; em = &o->eventMap; }
    else if (kind == SPLIT) { Split *o = new Split(5); o->body = [&](Frame *, std::map<int, Frame *> &d) { busy(); for (auto &x : d) x.second->setConsumed(true); return true; }; f = o; em = &o->eventMap; }
    else if (kind == MIX) { Mix *o = new Mix(5); o->body = [&](std::map<int, Frame *> &, Frame *d, std::vector<int>) { busy(); d->setConsumed(true); return true; }; f = o; em = &o->eventMap; }
    else if (kind == HEAD) { Head *o = new Head(5); o->body = [&](std::map<int, Frame *> &d, int &) { busy(); for (auto &x : d) fill(x.second); return true; }; f = o; em = &o->eventMap; }
    else { Tail *o = new Tail(5); o->body = [&](std::map<int, Frame *> &, std::vector<int>, int &) { busy(); return true; }; f = o; em = &o->eventMap; }
    (*em)["set"] = [](Jzon::Node *p) { return handler(p, true); };
    (*em)["quick"] = [](Jzon::Node *p) { return handler(p, false); };
    if (kind != HEAD) { src = new Head(1); src->body = [&](std::map<int, Frame *> &d, int &) { for (auto &x : d) fill(x.second); return true; }; }
    if (kind != TAIL) { snk = new Tail(9); snk->body = [&](std::map<int, Frame *> &, std::vector<int>, int &) { yield("sink"); return true; }; }
    bool c1 = false, c2 = false; int latePhase = choose(W, 3);   // 0: connected before, 1: while running, 2: never
    auto plug = [&](int what) { R.drainStart[self()] = R.clk++; Sut u; if (what == 0 && src && !c1) { c1 = true; src->connectManyToMany(f, 1, 1); } if (what == 1 && snk && !c2) { c2 = true; f->connectManyToMany(snk, 1, 1); } };
    Head *src2 = nullptr; Tail *snk2 = nullptr;     // connected while the filter runs
    if (kind == MIX) { src2 = new Head(2); src2->body = [&](std::map<int, Frame *> &, int &) { return false; }; } if (kind == SPLIT) { snk2 = new Tail(8); snk2->body = [&](std::map<int, Frame *> &, std::vector<int>, int &) { return true; }; }
    auto plug2 = [&] { R.drainStart[self()] = R.clk++; bool ok; { Sut u; ok = src2 ? src2->connectManyToMany(f, 2, 1) : f->connectManyToMany(snk2, 1, 2); } if (!ok) violation("wrong-refusal", "another connection is refused"); fault("connected_while_running"); };
    if (latePhase == 0) { plug(0); plug(1); }
    random_sched(true, true);
    std::vector<int> th;
    int np = 1 + choose(W, 3), per = 1 + choose(W, 8); bool clockSteps = chance(W, 1, 4) && !R.immediate;
    R.ev.reserve(np * per + 4);
    auto poster = [&](int p) {
        for (int i = 0; i < per; i++) {
            if (chance(W, 1, 2)) sleep_us(range(W, 0, 4000));
            static const int64_t off[] = {0, 0, 0, -5000, -200, 700, 3000, 20000}; static const int64_t dl[] = {0, 0, 1, 3, 15};
            int n = R.ev.size(); Ev e; e.n = n; e.poster = p; e.ts = wall_us() + off[choose(W, 8)] + (int64_t)n % 7; e.delay = dl[choose(W, 5)] * 1000; e.valid = !chance(W, 1, 5); e.failing = e.valid && chance(W, 1, 6);
            R.ev.push_back(e); R.ev[n].pushing = true; R.lastPushStart = R.clk++;
            {
                Jzon::Object root, par; int bad = e.valid ? 0 : choose(W, 4);
                if (bad != 1) root.Add("action", e.valid ? chance(W, 1, 2) ? "set" : "quick" : bad == 0 ? "nosuchaction" : "set");
                if (bad == 0 || bad == 1) par.Add("n", n);
                if (e.failing) { if (chance(W, 1, 2)) par.Add("fail", true); else { Jzon::Object o; par.Add("fail", o); fault("throwing_event"); } }
                if (bad == 2) par.Add("m", n);
                if (bad != 3) root.Add("params", par);
                Event x(root, std::chrono::system_clock::time_point(std::chrono::microseconds(e.ts)), (int)(e.delay / 1000));
                log("post %d ts %+lld delay %lld %s", n, (long long)(e.ts - wall_us()), (long long)e.delay, e.valid ? e.failing ? "failing" : "" : "invalid");
                if (!e.valid) fault("invalid_event"); if (e.failing) fault("failing_event");
                Sut u; f->pushEvent(x);
            }
            R.ev[n].pushing = false; R.ev[n].pushedAt = R.clk++;
            if (R.immediate && e.valid && R.ev[n].applied != 1) violation("event-lost", "event %d is not applied when posting it returns", n);
        }
    };
    // a step has to apply everything that was due when it began
    auto step = [&](bool pause) {
        std::vector<int> due; uint64_t st = R.clk++; int64_t w = wall_us(); R.drainStart[self()] = st; bool hadSteps = R.stepped;
        if (!R.immediate) {
            std::vector<Ev *> q; for (Ev &e : R.ev) if (e.valid && !e.applied && e.pushedAt) q.push_back(&e);
            for (Ev *e : q) { bool blocked = e->ts + e->delay > w; for (Ev &o : R.ev) if (o.ts <= e->ts && o.ts + o.delay > w) blocked = true; if (!blocked) due.push_back(e->n); }
        }
        int ret = 0; { Sut u; f->processFrame(ret); }
        if (!due.empty() && R.lastPushStart < st && !hadSteps && !R.stepped) for (int n : due) if (!R.ev[n].applied) violation("event-late", "event %d was due before the filter ran, but it is not applied", n);
        if (!due.empty()) probe("step_with_due_event");
        if (pause) sleep_us(ret ? range(W, 50, 1000) : range(W, 0, 30));
    };
    int rt = spawn("filter", [&] { while (!R.stop) step(true); });
    if (src) th.push_back(spawn("source", [&] { while (!R.stop) { int r = 0; src->step(r); sleep_us(range(W, 20, 800)); } }));
    if (snk) th.push_back(spawn("sink", [&] { while (!R.stop) { int r = 0; snk->step(r); sleep_us(range(W, 20, 800)); } }));
    std::vector<int> ps; for (int p = 0; p < np; p++) ps.push_back(spawn("poster", [&, p] { poster(p); }));
    if (clockSteps) ps.push_back(spawn("clock", [&] { for (int i = 1 + choose(F, 3); i > 0; i--) { sleep_us(range(W, 100, 8000)); static const int64_t d[] = {3000, 40000, -2000, -30000}; int64_t x = d[choose(F, 4)]; wall_us(); R.stepped = true; step_wall_clock(x * 1000); fault(x < 0 ? "clock_step_back" : "clock_step_forward"); wall_us(); } }));
    if (latePhase == 1) { sleep_us(range(W, 0, 9000)); plug(choose(W, 2)); if (chance(W, 1, 2)) sleep_us(range(W, 0, 9000)); plug(0); plug(1); fault("connected_while_running"); }
    if ((src2 || snk2) && chance(W, 1, 2)) { sleep_us(range(W, 0, 9000)); plug2(); }
    for (int p : ps) join(p);
    stop_disturbing();
    int64_t last = 0; for (Ev &e : R.ev) if (e.valid) last = std::max(last, e.ts + e.delay); else last = std::max(last, e.ts + e.delay);
    wait_until([&] { return wall_us() > last + 1000; }, 200000, 500); sleep_us(2000);
    R.stop = true; join(rt); for (int t : th) join(t);
    R.stepped = false; if (wall_us() <= last + 1000) give_up("clock"); 
    step(false); step(false);
    int nv = 0; for (Ev &e : R.ev) if (e.valid) { nv++; if (e.applied != 1) violation("event-lost", "event %d is never applied", e.n); }
    { Sut u; delete f; delete src; delete snk; delete src2; delete snk2; }
    R.ev.clear(); R.ev.shrink_to_fit(); R.drainStart.clear(); (void)ep;
    nontrivial(nv >= 2 && (frames > 0 || latePhase == 2)); state(kind * 16 + nv);
}
}
SCENARIO(filter_events, "events posted while the filter runs") { ev_run(); }

// ---- F05 ---------------------------------------------------------------------------------------
namespace {
struct Feed { Head *h = nullptr; FrameQueue *q = nullptr; int rid; int64_t off, period, jit; int64_t base = 0; unsigned qmax; uint64_t committed = 0, delivered = 0, last = 0; int64_t lastTime = 0; bool stalled = false, left = false; int64_t frontTs0 = -1; bool has0 = false; unsigned el = 0, lost0 = 0; };
struct TapHead : public Head { FrameQueue *q = nullptr; TapHead(int id) : Head(id) {} FrameQueue *allocQueue(ConnectionData c) override { Harness h; Sut u; q = new SmallQueue(c, &si, qmax, sizeof(Tag) + 40); return q; } };
int64_t ftime(const Tag &t) { return t.dts != -1 && t.dts <= t.pts ? t.dts : t.pts; }
bool front_of(Feed &f, int64_t &ts)   // consumer side only
{
    Frame *x; { Sut u; x = f.q->getFront(); } if (!x) return false;
    Tag t; std::string why; if (!get(x, t, why)) violation("corrupt-frame", "input %d has %s at its front", f.rid, why.c_str());
    ts = ftime(t); return true;
}
void sync_run()
{
    utils::infoMsg("warm up");
    const int64_t M = 40000; int n = 2 + choose(W, 3); std::deque<Feed> in; uint64_t serial = 0; bool stop = false; uint64_t passes = 0, held = 0, catchup = 0, fullpass = 0; bool peeking = false; int leaving = 0, leaves = 0, leaves0 = 0; bool unsure = false;
    int64_t spread = 0, maxp = 0; static const unsigned qm[] = {3, 4, 6, 12, 20}; static const int64_t pd[] = {5000, 10000, 21000, 33000, 40000}; static const int64_t of[] = {0, 10000, 35000, 45000, 90000, 200000, 300000};
    static const int wk[] = {0, 100, 3000}; int work = wk[choose(W, 3)];
    Tail *tail = new Tail(50); int64_t start = wall_ns() / 1000;
    bool twoWay = chance(W, 1, 3);
    for (int i = 0; i < n; i++) {
        in.emplace_back(); Feed &f = in.back(); f.rid = 10 + i * 3; f.qmax = qm[choose(W, 5)]; f.period = pd[choose(W, 5)]; f.off = of[choose(W, 7)]; f.jit = choose(W, 3) * f.period / 4; f.base = choose(W, 2) * f.period / 2;
        spread = std::max(spread, f.off); maxp = std::max(maxp, f.period);
        TapHead *h = new TapHead(i + 1); f.h = h; h->qmax = f.qmax;
        h->body = [&, i](std::map<int, Frame *> &d, int &) { Feed &f = in[i]; if (f.stalled) return false;
            for (auto &x : d) { int64_t now = wall_ns() / 1000 - start + f.off + (f.jit ? (int64_t)choose(W, f.jit) : 0); if (now <= f.lastTime) now = f.lastTime + 1; f.lastTime = now; Tag t = {MAGIC, (unsigned)i, ++serial, 0, now, -1, 0, 0}; if (i % 2) { t.pts = now + 2 * f.period; t.dts = now; } put(x.second, t); x.second->setConsumed(true); f.committed++; } return true; };
        { Sut u; h->connectManyToMany(tail, f.rid, 1); } f.q = h->q;
    }
    // what the filter may see of each input: the front before the pass or, if there was none, the one at the time its body runs
    tail->body = [&](std::map<int, Frame *> &o, std::vector<int> nw, int &) {
        std::vector<std::vector<int64_t>> poss(n); const int64_t NONE = INT64_MIN;
        std::vector<bool> full(n);
        peeking = true;
        for (int i = 0; i < n; i++) { Feed &f = in[i]; if (f.left) { continue; } if (f.has0) poss[i].push_back(f.frontTs0); else { poss[i].push_back(NONE); int64_t t; if (front_of(f, t)) poss[i].push_back(t); } unsigned e, l; { Sut u; e = f.q->getElements(); l = f.q->getLostBlocs(); } if (l != f.lost0) e++; e = std::max(e, f.el); full[i] = e + 1e-6 >= 0.9f * f.qmax; }  // overflow handling takes the newest frame out for a moment
        peeking = false;
        for (int id : nw) {
            int k = -1; for (int i = 0; i < n; i++) if (in[i].rid == id) k = i; if (k < 0 || !o.count(id)) violation("unknown-input", "a new frame is announced on input %d that does not exist", id);
            Feed &f = in[k]; Tag t; std::string why; if (!get(o[id], t, why)) violation("corrupt-frame", "the filter is given %s on input %d", why.c_str(), id);
            if (t.stream != (unsigned)k) violation("wrong-input", "the filter is given a frame of input %d on input %d", in[t.stream].rid, id);
            if (t.serial <= f.last) violation(t.serial == f.last ? "frame-twice" : "order", "input %d gives frame %llu after frame %llu", id, (unsigned long long)t.serial, (unsigned long long)f.last);
            f.last = t.serial; f.delivered++; int64_t ts = ftime(t); log("input %d new %llu time %lld", id, (unsigned long long)t.serial, (long long)ts);
            if (f.left || unsure || leaving || leaves != leaves0) continue;   // an input was leaving during this pass
            bool behind = false, aligned = true; int64_t worst = 0; int wi = -1; bool wempty = false;
            std::vector<int> others; for (int j = 0; j < n; j++) if (j != k && !in[j].left) others.push_back(j);
            for (int j : others) for (int64_t p : poss[j]) if (p != NONE && p - ts > M) behind = true;
            // is there a choice of fronts that are all within the margin of each other?
            std::vector<int64_t> lo; std::function<bool(size_t, int64_t, int64_t)> fit = [&](size_t a, int64_t mn, int64_t mx) { if (mx - mn > M) return false; if (a == others.size()) return true; for (int64_t p : poss[others[a]]) if (p != NONE && fit(a + 1, std::min(mn, p), std::max(mx, p))) return true; return false; };
            aligned = fit(0, ts, ts);
            if (!aligned && !behind) { for (int j : others) { if (poss[j].size() == 1 && poss[j][0] == NONE) { wi = j; wempty = true; } else if (ts - poss[j].back() > worst) { worst = ts - poss[j].back(); wi = j; } } }
            if (!behind && !aligned) { if (full[k]) { fullpass++; } else violation("ahead", "input %d hands over a frame at %lld us %s although its buffer is not nearly full", id, (long long)ts, wempty ? ("while input " + std::to_string(wi >= 0 ? in[wi].rid : -1) + " has no frame").c_str() : ("that is " + std::to_string(worst) + " us ahead of input " + std::to_string(wi >= 0 ? in[wi].rid : -1)).c_str()); }
            if (behind && !aligned) catchup++;
        }
        passes++;
        if (work) sleep_us(range(W, 0, work)); else yield("body");
        for (int id : nw) { Tag t; std::string why; if (!get(o[id], t, why)) violation("corrupt-frame", "the filter has %s on input %d while using it", why.c_str(), id); }
        return true;
    };
    random_sched(true, true);
    std::vector<int> th; int tt = spawn("tail", [&] { while (!stop) {
        peeking = true;
        for (Feed &f : in) if (!f.left) { f.has0 = front_of(f, f.frontTs0); Sut u; f.el = f.q->getElements(); f.lost0 = f.q->getLostBlocs(); }
        peeking = false;
        int ret = 0; { Sut u; tail->processFrame(ret); } sleep_us(ret ? range(W, 400, 3000) : range(W, 0, 50)); } });
    for (int i = 0; i < n; i++) th.push_back(spawn("input", [&, i] { Feed &f = in[i]; sleep_us(f.base); int64_t next = wall_ns() / 1000; while (!stop) { int ret; { Sut u; f.h->processFrame(ret); } next += f.period; int64_t w = wall_ns() / 1000; if (next < w - 200000) next = w; if (next > w) sleep_us(next - w); else yield("late"); } }));
    int ops = choose(W, 5); int quit = n > 2 && chance(W, 1, 3) ? (int)choose(W, n) : -1;
    for (int i = 0; i < ops; i++) { sleep_us(range(W, 1000, 120000)); Feed &f = in[choose(W, n)]; f.stalled = true; fault("input_stall"); sleep_us(range(W, 1000, 200000)); f.stalled = false; }
    if (quit >= 0) { Feed &f = in[quit]; leaving++; f.left = true; log("input %d leaves", f.rid); while (peeking) sleep_us(20); bool rd = chance(W, 1, 2); { Sut u; if (rd) tail->disconnectReader(f.rid); else f.h->disconnectWriter(1); } leaves++; leaving--; fault(rd ? "input_removed" : "input_left"); }
    stop_disturbing(); for (Feed &f : in) f.stalled = false;
    int64_t L = 2 * spread + 10 * maxp + 100000; sleep_us(L); std::vector<uint64_t> mid; for (Feed &f : in) mid.push_back(f.delivered);
    sleep_us(L);
    for (int i = 0; i < n; i++) if (!in[i].left && in[i].delivered == mid[i]) violation("stall", "input %d is not handed over any more although all inputs deliver", in[i].rid);
    stop = true; for (int t : th) join(t); join(tt);
    for (Feed &f : in) if (!f.left) { unsigned lost, el; { Sut u; lost = f.q->getLostBlocs(); el = f.q->getElements(); } if (f.committed != f.delivered + lost + el) violation("lost-frames", "input %d: %llu frames queued, %llu handed over, %u counted as lost, %u waiting", f.rid, (unsigned long long)f.committed, (unsigned long long)f.delivered, lost, el); if (lost) probe("losses"); }
    { Sut u; delete tail; for (Feed &f : in) delete f.h; }
    nontrivial(passes > 10); if (fullpass) probe("passed_when_full"); if (catchup) probe("laggard_passed"); state(n * 100 + passes / 16);
}
}
SCENARIO(filter_sync, "a filter that synchronises its inputs") { sync_run(); }

// ---- E01 ---------------------------------------------------------------------------------------
namespace {
struct Rec { int64_t pts, dts, org; uint64_t seq; };
struct Edge;
struct Take { uint64_t last = 0, count = 0; };        // one consumer of an edge
struct Edge { int id, w, wid; std::vector<Rec> sent; std::map<std::pair<int, int>, Take> takers; unsigned qmax; };
struct Pn { int id, kind; BaseFilter *f = nullptr; std::map<int, Edge *> out, in; int work = 0; uint64_t runs = 0; bool inside = false; std::map<int, Tag> cur; uint64_t seq = 0; };
struct PipeRun { std::map<int, Pn *> n; std::deque<Edge> e; uint64_t roots = 0; bool paused = false; };
PipeRun *P;
template <class B> struct Pf : public B { Pn *me; std::function<unsigned(int)> qsize; template <class... A> Pf(Pn *m, A... a) : B(a...), me(m) {}
    FrameQueue *allocQueue(ConnectionData c) override { Harness h; unsigned q = me->out[c.writerId]->qmax; Sut u; return new SmallQueue(c, &this->si, q, sizeof(Tag) + 40); } };
enum { K_HEAD, K_ONE, K_SPLIT, K_MIX, K_TAIL };
void take(Pn *n, int rid, Frame *f)
{
    if (!n->in.count(rid)) violation("unknown-input", "filter %d is given a frame on input %d, which it does not have", n->id, rid);
    Edge *e = n->in[rid]; Tag t; std::string why;
    if (!get(f, t, why)) violation("corrupt-frame", "filter %d is given %s on input %d", n->id, why.c_str(), rid);
    if (t.stream != (unsigned)e->id) violation("wrong-input", "filter %d is given a frame of connection %d on connection %d", n->id, t.stream, e->id);
    Take &k = e->takers[{n->id, rid}];
    if (t.serial <= k.last) violation(t.serial == k.last ? "frame-twice" : "order", "filter %d is given frame %llu of connection %d after frame %llu", n->id, (unsigned long long)t.serial, e->id, (unsigned long long)k.last);
    if (t.serial > e->sent.size()) violation("frame-never-sent", "filter %d is given a frame that was never sent", n->id);
    Rec &r = e->sent[t.serial - 1];
    if (r.pts != t.pts || r.dts != t.dts) violation("timestamps", "frame %llu of connection %d has other timestamps", (unsigned long long)t.serial, e->id);
    Pn *w = P->n[e->w]; uint64_t seq; int64_t org; { Sut u; seq = f->getSequenceNumber(); } org = org_us(f);
    if (w->kind == K_HEAD || w->kind == K_MIX) { if (seq != t.serial - 1) violation("sequence", "frame %llu of connection %d has sequence number %llu", (unsigned long long)t.serial, e->id, (unsigned long long)seq); }
    else { if (seq != r.seq) violation("sequence", "frame %llu of connection %d has sequence number %llu instead of its origin's %llu", (unsigned long long)t.serial, e->id, (unsigned long long)seq, (unsigned long long)r.seq);
        if (org != r.org) violation("origin-time", "frame %llu of connection %d has another origin time", (unsigned long long)t.serial, e->id); }
    k.last = t.serial; k.count++; n->cur[rid] = t; log("f%d takes c%d #%llu", n->id, e->id, (unsigned long long)t.serial);
}
void send(Pn *n, int wid, Frame *d, int64_t pts, int64_t dts, uint64_t seq, int64_t org)
{
    if (!n->out.count(wid)) violation("unknown-output", "filter %d is asked for a frame for output %d, which it does not have", n->id, wid);
    Edge *e = n->out[wid]; Tag t = {MAGIC, (unsigned)e->id, e->sent.size() + 1, seq, pts, dts, org, 0};
    put(d, t, false); d->setConsumed(true); e->sent.push_back(Rec{pts, dts, org, seq});
}
void enter(Pn *n) { if (n->inside) violation("run-twice-at-once", "filter %d is run by two threads", n->id); n->inside = true; n->runs++; n->cur.clear(); }
void leave(Pn *n, std::map<int, Frame *> o, std::vector<int> nw) { if (n->work) { if (chance(W, 1, 2)) sleep_us(range(W, 0, n->work)); } else yield("work"); for (int id : nw) { Tag t; std::string why; if (!get(o[id], t, why) || t.serial != n->cur[id].serial) violation("corrupt-frame", "filter %d sees another frame on input %d while it is using it", n->id, id); } n->inside = false; }
void pipe_run()
{
    utils::infoMsg("warm up"); int ep = track_begin();
    PipeRun R; P = &R; int nextId = 1;
    static const int wk[] = {0, 0, 100, 1500, 8000}; static const unsigned qm[] = {3, 4, 6, 12};
    struct Open { Pn *w; int wid; }; std::vector<Open> open;
    auto mkn = [&](int kind) { Pn *n = new Pn; n->id = nextId; nextId += 1 + choose(W, 3); n->kind = kind; n->work = wk[choose(W, 5)]; R.n[n->id] = n; return n; };
    std::vector<Pn *> order;
    int64_t period = pick(W, (const int[]){200, 1000, 5000, 20000}); int burst = choose(W, 2);
    auto add = [&](int kind) -> Pn * {
        Pn *n = mkn(kind); order.push_back(n);
        if (kind == K_HEAD) { auto *h = new Pf<Head>(n, n->id, MAX_WRITERS, true, chance(W, 1, 4) ? SERVER : REGULAR); n->f = h; int skip = choose(W, 4); h->body = [&R, n, period, burst, skip](std::map<int, Frame *> &d, int &ret) {
            enter(n); ret = burst && chance(W, 2, 3) ? 0 : range(W, period / 2, period);
            if (R.paused) { ret = 5000; n->inside = false; return false; }
            for (auto &x : d) { if (skip && chance(W, 1, 4)) continue; int64_t id = ++R.roots; send(n, x.first, x.second, id * 1000, chance(W, 1, 2) ? id * 1000 - 500 : -1, 0, 0); }
            yield("head"); n->inside = false; return true; }; }
        else if (kind == K_ONE) { auto *o = new Pf<One>(n, n->id); n->f = o; bool drops = chance(W, 1, 4); o->body = [n, drops](Frame *i, Frame *d) {
            enter(n); std::map<int, Frame *> om; om[1] = i; take(n, 1, i); Tag t = n->cur[1]; uint64_t seq = i->getSequenceNumber(); int64_t org = org_us(i);
            if (!drops || chance(W, 2, 3)) { send(n, 1, d, t.pts, t.dts, seq, org); { Sut u; d->setSequenceNumber(seq); d->setOriginTime(i->getOriginTime()); } }
            leave(n, om, {1}); return true; }; }
        else if (kind == K_SPLIT) { auto *s = new Pf<Split>(n, n->id); n->f = s; s->body = [n](Frame *i, std::map<int, Frame *> &d) {
            enter(n); std::map<int, Frame *> om; om[1] = i; take(n, 1, i); Tag t = n->cur[1]; uint64_t seq = i->getSequenceNumber(); int64_t org = org_us(i);
            for (auto &x : d) if (chance(W, 7, 8)) send(n, x.first, x.second, t.pts, t.dts, seq, org);
            leave(n, om, {1}); return true; }; }
        else if (kind == K_MIX) { auto *m = new Pf<Mix>(n, n->id); n->f = m; m->body = [n](std::map<int, Frame *> &o, Frame *d, std::vector<int> nw) {
            enter(n); if (nw.empty()) violation("no-input", "filter %d is run without any new frame", n->id); int64_t pts = 0; for (int id : nw) { take(n, id, o[id]); pts = std::max(pts, n->cur[id].pts); }
            send(n, 1, d, pts, -1, 0, 0); leave(n, o, nw); return true; }; }
        else { auto *t = new Pf<Tail>(n, n->id, MAX_READERS, chance(W, 1, 4) ? SERVER : REGULAR); n->f = t; t->body = [n](std::map<int, Frame *> &o, std::vector<int> nw, int &) {
            enter(n); for (int id : nw) take(n, id, o[id]); leave(n, o, nw); return true; }; }
        return n;
    };
    auto link = [&](Open o, Pn *r, int rid) { R.e.emplace_back(); Edge *e = &R.e.back(); e->id = R.e.size(); e->w = o.w->id; e->wid = o.wid; e->qmax = qm[choose(W, 4)]; o.w->out[o.wid] = e; r->in[rid] = e; e->takers[{r->id, rid}];
        bool ok; { Sut u; ok = o.w->f->connectManyToMany(r->f, rid, o.wid); } if (!ok) violation("wrong-refusal", "connection %d:%d -> %d:%d refused", o.w->id, o.wid, r->id, rid); };
    auto pop = [&] { int i = choose(W, open.size()); Open o = open[i]; open.erase(open.begin() + i); return o; };
    int nh = 1 + choose(W, 2);
    for (int i = 0; i < nh; i++) { Pn *h = add(K_HEAD); int nw = 1 + choose(W, 3); int w0 = choose(W, 2); for (int w = 1; w <= nw; w++) open.push_back({h, (w - w0) * 2}); }
    int nm = choose(W, 4);
    for (int i = 0; i < nm; i++) {
        int k = K_ONE + choose(W, 3); Pn *m = add(k);
        if (k == K_ONE) { link(pop(), m, 1); open.push_back({m, 1}); }
        else if (k == K_SPLIT) { link(pop(), m, 1); int nw = 1 + choose(W, 3); for (int w = 1; w <= nw; w++) open.push_back({m, w}); }
        else { int c = std::min<int>(open.size(), 1 + choose(W, 3)); for (int j = 0; j < c; j++) link(pop(), m, 1 + j); open.push_back({m, 1}); }
    }
    std::vector<Pn *> single; for (Pn *n : order) if (n->kind == K_ONE || n->kind == K_SPLIT) single.push_back(n);
    bool syncTail = chance(W, 1, 3);
    while (!open.empty()) { Pn *t = add(K_TAIL); int c = syncTail ? std::min<int>(open.size(), 1 + choose(W, 3)) : 1; for (int j = 0; j < c; j++) link(pop(), t, 1 + j); if (c == 1) single.push_back(t); }
    int ns = single.empty() ? 0 : choose(W, 3); for (int i = 0; i < ns; i++) { Pn *o = single[choose(W, single.size())]; Pn *t = add(K_TAIL); int orid = o->in.begin()->first; Edge *e = o->in[orid]; t->in[1] = e; e->takers[{t->id, 1}]; bool ok; { Sut u; ok = o->f->shareReader(t->f, 1, orid); } if (!ok) violation("wrong-refusal", "sharing input %d of filter %d refused", orid, o->id); fault("shared_input"); }
    Sched s = random_sched(true, true);
    WorkersPool *pool; int nwk = 1 + choose(W, 4); { Sut u; pool = new WorkersPool(nwk); }
    std::vector<Pn *> ad = order; for (size_t i = ad.size(); i > 1; i--) std::swap(ad[i - 1], ad[choose(W, i)]);
    for (Pn *n : ad) { bool ok; { Sut u; ok = pool->addTask(n->f); } if (!ok) violation("add-refused", "filter %d refused by the pool", n->id); if (chance(W, 1, 4)) sleep_us(range(W, 0, 2000)); }
    int rounds = 1 + choose(W, 3); int64_t mw = 0; unsigned slots = 0; for (Pn *n : order) mw = std::max<int64_t>(mw, n->work); for (Edge &e : R.e) slots += e.qmax;
    std::string where;
    auto drained = [&] {
        where.clear();
        for (Pn *n : order) { bool empty = false; for (auto &x : n->in) { Edge *e = x.second; Take &k = e->takers[{n->id, x.first}]; size_t lost; { Sut u; lost = n->f->getLostBlocs(x.first); } if (e->sent.size() == k.count + lost) empty = true; }
            for (auto &x : n->in) { Edge *e = x.second; Take &k = e->takers[{n->id, x.first}]; size_t lost; { Sut u; lost = n->f->getLostBlocs(x.first); }
                if (k.count + lost > e->sent.size()) violation("count", "connection %d: %zu frames sent, %llu received and %zu lost", e->id, e->sent.size(), (unsigned long long)k.count, lost);
                if (e->sent.size() != k.count + lost && !(n->kind == K_TAIL && n->in.size() > 1 && empty)) { char b[200]; snprintf(b, sizeof b, "connection %d to filter %d: %zu frames sent, %llu received, %zu lost", e->id, n->id, e->sent.size(), (unsigned long long)k.count, lost); where = b; return false; } } }
        return true; };
    for (int r = 0; r < rounds; r++) {
        R.paused = false; sleep_us(range(W, 2000, 40000)); R.paused = true; fault("sources_pause");
        bool last = r == rounds - 1; if (last) stop_disturbing(); else if (chance(W, 1, 2)) continue;
        int64_t bound = 300000 + (int64_t)slots * (2 * mw + 3000) * 2 + (int64_t)order.size() * 20000; if (!last) bound += 100 * (int64_t)s.stall_max_us;
        sleep_us(6000);
        wait_progress(drained, bound, 1000);
        if (!drained()) violation("stuck", "%lld us after the sources paused: %s", (long long)bound, where.c_str());
        probe("drained");
    }
    uint64_t tot = 0; bool lossy = false; for (Edge &e : R.e) tot += e.sent.size(); for (Pn *n : order) for (auto &x : n->in) { Sut u; if (n->f->getLostBlocs(x.first)) lossy = true; }
    if (lossy) probe("losses");
    for (Pn *n : ad) { bool ok; { Sut u; ok = pool->removeTask(n->id); } if (!ok) violation("remove-refused", "filter %d cannot be removed from the pool", n->id); }
    { Sut u; pool->stop(); delete pool; for (Pn *n : order) delete n->f; }
    std::string what; uint64_t l = live_in_epoch(ep, &what); if (l) violation("leak", "%llu blocks stay allocated after the pipeline is gone: %s", (unsigned long long)l, what.c_str());
    nontrivial(tot >= 10); state(order.size() * 64 + R.e.size() * 4 + ns);
    for (Pn *n : order) delete n;
}
}
SCENARIO(pipeline, "pipelines of filters run by the worker pool") { pipe_run(); }
