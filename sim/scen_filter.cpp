// Filters connected by queues: sharing (F02), connecting (F03), events (F04), synchronisation (F05), pipelines (E01).
#include "filters.h"
using namespace hf;

// ---- F02 ---------------------------------------------------------------------------------------
namespace {
struct Shr {               // one consumer
    Tail *f; int id; bool joined = false, joining = false, leaving = false; uint64_t joinSeq = 0, joinStart = 0, leftSeq = 0; long last = -1; bool got1 = false; int extra = 0; bool inStep = false; uint64_t steps = 0;
    bool member() { return joined && !leaving; }
    std::vector<long> mustFrom; int work = 0; bool quit = false; int thread = -1;
    std::set<long> got; long joinNext = -1;       // frames committed from this serial on are its due
};
void share_run()
{
    int nsh = 2 + choose(W, 3); unsigned qmax = 3 + choose(W, 6); static const int wk[] = {0, 100, 1500, 8000};
    Head *w = new Head(1, 4, true); w->qmax = qmax;
    int nframes = 6 + choose(W, 40); int srcPause = choose(W, 3); bool push = chance(W, 1, 3);
    long committed = 0; bool prodDone = false; uint64_t seq = 0; long lostSeen = 0;
    std::vector<Shr *> sh; std::map<long, uint64_t> openedAt; std::map<long, std::set<int>> gotBy;
    std::vector<long> opened;                    // serials handed to anyone, in order of first delivery
    std::map<long, int64_t> org, took; bool unseen = false; static const int64_t gaps[] = {33000, 33000, 150000, 700000}; int64_t gap = gaps[choose(W, 4)];   // for the measured delay
    for (int i = 0; i < nsh; i++) { Shr *s = new Shr; s->id = 10 + i; s->f = new Tail(s->id, 1); s->work = wk[choose(W, 4)]; sh.push_back(s); }
    auto handout = [&](Shr *s, std::map<int, Frame *> &o, std::vector<int> n) {
        seq++;
        for (int id : n) {
            Tag t; std::string why;
            if (!o.count(id)) violation("new-without-frame", "input %d reported new without a frame", id);
            Frame *f = o[id];
            if (!s->joined && !s->joining && s->extra++ >= 1) violation("delivery-after-leaving", "consumer %d is still given new frames after it left", s->id);
            if (!s->joining && !s->member()) { probe("left_while_processing"); unseen = true; continue; }    // it gave its claim up while it was fetching
            if (!get(f, t, why)) violation("corrupt-frame", "consumer %d is given %s", s->id, why.c_str());
            long k = t.serial; log("consumer %d gets %ld", s->id, k);
            if (k <= s->last) violation(s->got.count(k) ? "repeated-frame" : "order", "consumer %d is given frame %ld as new after frame %ld", s->id, k, s->last);
            if (s->joinStart && !s->got1 && openedAt.count(k) && openedAt[k] < s->joinStart) violation("early-frame", "consumer %d joined while frame %ld was already being consumed, yet is given it as new", s->id, k);
            // nothing that others were given in between may be missing
            for (auto it = openedAt.upper_bound(s->got1 ? s->last : k); it != openedAt.end() && it->first < k; ++it) violation("skipped-frame", "consumer %d is given frame %ld after frame %ld, but frame %ld was given to another consumer", s->id, k, s->last, it->first);
            // and if frame k is in front, all earlier ones are released: members had them
            if (!openedAt.count(k)) {
                for (auto m : sh) if (m != s && m->member() && m->joinNext >= 0)
                    for (auto it = openedAt.lower_bound(m->joinNext); it != openedAt.end() && it->first < k; ++it)
                        if (!m->got.count(it->first)) violation("skipped-frame", "frame %ld was released before consumer %d was given it", it->first, m->id);
                openedAt[k] = seq; opened.push_back(k); org[k] = org_us(f); took[k] = wall_ns() / 1000;
            }
            s->last = k; s->got1 = true; s->got.insert(k);
            bool member = s->member();
            if (s->work && chance(W, 1, 2)) sleep_us(range(W, 0, s->work)); else yield("using");
            Tag t2; bool ok = get(f, t2, why);
            if (member && s->member() && (!ok || t2.serial != t.serial)) violation("released-early", "frame %ld was given back to the producer while consumer %d was using it", k, s->id);
        }
        return true;
    };
    for (auto s : sh) s->f->body = [&, s](std::map<int, Frame *> &o, std::vector<int> n, int &) { return handout(s, o, n); };
    long mk = 0; bool filled = false;
    w->body = [&](std::map<int, Frame *> &d, int &ret) {
        if (d.size() != 1) violation("writers", "%zu output frames", d.size());
        Tag t = {MAGIC, 1, (uint64_t)mk, 0, 1000 + mk * gap, -1, 0, 0};
        for (auto it : d) { put(it.second, t); it.second->setConsumed(true); }
        mk++; filled = true; ret = 0; committed = mk; log("commit %ld", mk - 1);
        return true;
    };
    random_sched(true, true);
    bool c; { Sut u; c = w->connectManyToMany(sh[0]->f, 1, 1); }
    if (!c) violation("connect-refused", "first connection refused");
    sh[0]->joined = true; sh[0]->joinNext = 0;
    auto queue = [&] { return sh[0]->f; };(void)queue;
    // threads
    bool stop = false; std::vector<int> th;
    auto runner = [&](Shr *s) { s->quit = false; s->thread = spawn("consumer", [&, s] { while (!stop && !s->quit) { int ret = 0; s->inStep = true; s->f->step(ret); s->inStep = false; s->steps++; if (ret) sleep_us(prodDone ? 1500 : range(W, 50, 1000)); else yield("loop"); } }); };
    for (auto s : sh) runner(s);
    int prod = spawn("producer", [&] {
        static const int pz[] = {50, 700, 4000};
        while (mk < nframes) {
            bool full = false;
            { std::shared_ptr<Writer> wr; if (w->writers.count(1)) { wr = w->writers[1]; if (wr->queue && wr->queue->getElements() + 1 >= qmax) full = true; } }
            if (full && !push) { probe("queue_full"); sleep_us(400); continue; }
            if (full) fault("overflow");
            int ret = 0; filled = false; w->step(ret);
            if (!filled) violation("producer-stalled", "the producer finds no connected output");
            if (chance(W, 1, 2)) sleep_us(range(W, 0, pz[srcPause])); else yield("prod");
        }
        prodDone = true;
    });
    // joining and leaving
    int ops = choose(W, 12), nj = 0, nl = 0;
    auto members = [&] { int m = 0; for (auto s : sh) m += s->joined; return m; };
    for (int i = 0; i < ops; i++) {
        sleep_us(range(W, 0, 3000));
        Shr *s = sh[choose(W, sh.size())];
        if (!s->joined) {
            Shr *from = nullptr; for (auto m : sh) if (m->joined) from = m;
            s->joining = true; s->joinStart = ++seq; s->got1 = false; s->last = -1; s->got.clear(); s->joinNext = -1; s->extra = 0;
            bool ok; { Sut u; ok = from->f->shareReader(s->f, 1, 1); }
            if (!ok) violation("join-refused", "consumer %d may not share the stream", s->id);
            s->joined = true; s->joinNext = mk; if (s->got1) s->joinNext = std::min(s->joinNext, *s->got.begin()); s->joining = false; nj++; fault("join"); log("consumer %d joined, due from %ld", s->id, s->joinNext);
        } else if (members() > 1) {
            s->leaving = true; log("consumer %d leaves", s->id);
            if (chance(W, 1, 4)) { // the whole filter goes
                s->quit = true; join(s->thread); fault("consumer_destroyed"); { Sut u; delete s->f; }
                s->joined = s->leaving = false; nl++; s->f = new Tail(s->id, 1); s->f->body = [&, s](std::map<int, Frame *> &o, std::vector<int> n, int &) { return handout(s, o, n); }; runner(s); continue;
            }
            bool ok; { Sut u; ok = s->f->disconnectReader(1); }
            if (!ok) violation("leave-refused", "consumer %d may not leave", s->id);
            s->joined = false; nl++; fault("leave");
            // the filter may be in its last processing: wait until it is through, then it may join again
            for (uint64_t st = s->steps; s->inStep && s->steps == st;) sleep_us(200);
            s->leaving = false;
        }
    }
    join(prod); stop_disturbing();
    // everything committed and not dropped reaches every member
    Shr *any = nullptr; for (auto s : sh) if (s->joined) any = s;
    auto lost = [&] { Sut u; return any->f->getLostBlocs(1); };
    int64_t bound = 300000 + (int64_t)nframes * nsh * 12000;
    auto left = [&]() -> size_t { Sut u; return any->f->getReader(1)->getQueueElements(); };   // queued or in use
    auto drained = [&] { if (left()) return false; for (auto s : sh) if (s->joined && !opened.empty() && s->joinNext <= opened.back() && s->last != opened.back()) return false; return true; };
    wait_until(drained, bound);
    if (left()) violation("stall", "%zu of %ld frames stay queued although all consumers keep running; last given: %ld", left(), mk, opened.empty() ? -1L : opened.back());
    // members that joined after the last commit have nothing due
    for (auto s : sh) if (s->joined && s->joinNext < mk && !opened.empty() && s->joinNext <= opened.back() && s->last != opened.back()) violation("stall", "consumer %d stopped at frame %ld of %ld although all consumers keep running", s->id, s->last, mk - 1);
    sleep_us(30000);
    long l = lost();
    // a frame that only a leaving consumer had fetched went with it
    if ((long)opened.size() + l > mk || (long)opened.size() + l < mk - nl) violation((long)opened.size() + l < mk ? "silent-loss" : "loss-miscounted", "%ld frames committed, %zu handed to a consumer, %ld counted as lost", mk, opened.size(), l);
    for (auto s : sh) if (s->joined) for (long k : opened) if (k >= s->joinNext && !s->got.count(k)) violation("skipped-frame", "consumer %d was never given frame %ld", s->id, k);
    stop = true; for (auto s : sh) join(s->thread);
    // the delay that is reported is one of these frames'
    if (!strcmp(property(), "E01") && opened.size() >= 4 && !unseen) {
        int64_t lo = INT64_MAX, hi = 0, end = wall_ns() / 1000, big = 0, avg; for (size_t i = 0; i < opened.size(); i++) { long k = opened[i]; lo = std::min(lo, took[k] - org[k]); hi = std::max(hi, (i + 1 < opened.size() ? took[opened[i + 1]] : end) - org[k]); if (i) big = std::max(big, (int64_t)(k - opened[i - 1]) * gap); }
        { Sut u; avg = any->f->getAvgReaderDelay(1).count(); }
        bool due = (int64_t)(opened.back() - opened.front()) * gap >= 2 * DEFAULT_STATS_TIME_INTERVAL + 2 * big;
        if (avg > hi || (avg < lo && (due || avg))) violation("delay", "the average delay is reported as %lld us; frames were between %lld and %lld us old%s", (long long)avg, (long long)lo, (long long)hi, due ? "" : " (first interval)");
        if (due) probe("delay_measured");
    }
    { Sut u; for (auto s : sh) delete s->f; delete w; }
    nontrivial(opened.size() >= 3 && nj > 0); if (nl) probe("left");
    state(nj * 8 + nl);
}
}
SCENARIO(filter_share, "consumers sharing one reader, joining and leaving") { share_run(); }

// ---- F03 ---------------------------------------------------------------------------------------
namespace {
struct Slot { int w, wid, r, rid; bool up = false; int shr = 0, srid = 0; };   // shr: the filter sharing the input
struct Node {              // a filter with the thread that runs it
    BaseFilter *f = nullptr; int id; bool stop = false; int th = -1; uint64_t steps = 0; bool inStep = false; bool mux = false;
    std::map<int, uint64_t> out;             // by writer id: frames written
};
void conn_run()
{
    struct In { uint64_t n = 0; std::map<unsigned, uint64_t> last; };
    std::map<std::pair<int, int>, In> in;    // (reader filter, reader id)
    std::set<std::pair<int, int>> gone;      // inputs left while others go on sharing them
    utils::infoMsg("warm up"); int ep = track_begin();
    int nh = 1 + choose(W, 2), nt = 1 + choose(W, 2); bool mid = chance(W, 1, 2);
    std::map<int, Node *> nodes; uint64_t serial = 0;
    static const int wk[] = {0, 50, 600, 4000}; int work = wk[choose(W, 4)], period = wk[1 + choose(W, 2)];
    unsigned qmax = 3 + choose(W, 4); int id0 = choose(W, 2);    // the first id in use
    auto consume = [&](int id, std::map<int, Frame *> &o, const std::vector<int> &n) {
        std::vector<Tag> ts;
        for (auto &it : o) { Tag t; std::string why; bool isnew = std::find(n.begin(), n.end(), it.first) != n.end();
            if (gone.count({id, it.first})) { probe("left_while_processing"); continue; }      // its frame was given back when it left
            if (!isnew) { check_access(it.second->getDataBuf(), sizeof t, false, __builtin_return_address(0)); continue; }
            if (!get(it.second, t, why)) violation("corrupt-frame", "filter %d is given %s on input %d", id, why.c_str(), it.first);
            In &i = in[{id, it.first}]; uint64_t &l = i.last[t.stream];
            if (t.serial <= l) violation("order", "filter %d is given frame %llu after frame %llu of the same output", id, (unsigned long long)t.serial, (unsigned long long)l);
            l = t.serial; i.n++; log("filter %d input %d gets %llu", id, it.first, (unsigned long long)t.serial); }
        if (work && chance(W, 1, 2)) sleep_us(range(W, 0, work)); else yield("consume");
        for (auto &it : o) { Tag t; std::string why; check_access(it.second->getDataBuf(), sizeof t, false, __builtin_return_address(0)); if (std::find(n.begin(), n.end(), it.first) != n.end() && !gone.count({id, it.first}) && !get(it.second, t, why)) violation("corrupt-frame", "filter %d has %s on input %d while using it", id, why.c_str(), it.first); }
    };
    auto produce = [&](int id, std::map<int, Frame *> &d) {
        for (auto &it : d) { Tag t = {MAGIC, (unsigned)(id * 1000 + it.first), ++serial, 0, (int64_t)(1000 + serial * 1000), -1, 0, 0}; put(it.second, t); it.second->setConsumed(true); nodes[id]->out[it.first]++; }
    };
    auto make = [&](int id) {
        Node *n = nodes.count(id) ? nodes[id] : new Node; n->id = id; nodes[id] = n;
        if (id < 10) { Head *h = new Head(id, 3); h->qmax = qmax; h->paired = true; h->body = [&, id](std::map<int, Frame *> &d, int &ret) { produce(id, d); ret = 0; return true; }; n->f = h; }
        else if (id < 20) { One *m = new One(id); m->qmax = qmax; m->paired = true; m->body = [&, id](Frame *o, Frame *d) { std::map<int, Frame *> om; om[1] = o; std::vector<int> nw; if (o->getConsumed()) nw.push_back(1); consume(id, om, nw); std::map<int, Frame *> dm; dm[1] = d; produce(id, dm); return true; }; n->f = m; }
        else { Tail *t = new Tail(id, 3); t->sync = n->mux; t->paired = true; t->body = [&, id](std::map<int, Frame *> &o, std::vector<int> nw, int &) { consume(id, o, nw); return true; }; n->f = t; }
        return n;
    };
    auto runner = [&](Node *n) { n->stop = false; n->th = spawn("filter", [&, n] { while (!n->stop) { int ret = 0; n->inStep = true; { Sut u; n->f->processFrame(ret); } n->inStep = false; n->steps++; sleep_us(n->id < 10 ? range(W, 20, period) : ret ? range(W, 50, 1000) : 10); } }); };
    std::vector<int> ws, rs;
    for (int i = 0; i < nh; i++) { make(1 + i); ws.push_back(1 + i); }
    if (mid) { make(10); ws.push_back(10); rs.push_back(10); }
    for (int i = 0; i < nt; i++) { nodes[20 + i] = new Node; nodes[20 + i]->mux = chance(W, 1, 2); make(20 + i); rs.push_back(20 + i); }
    random_sched(true, true);
    for (auto &n : nodes) runner(n.second);
    uint64_t connects = 0, teardowns = 0, carried = 0;
    auto dis = [&](int f, int id, bool wr) { bool ok; Sut u; ok = wr ? nodes[f]->f->disconnectWriter(id) : nodes[f]->f->disconnectReader(id); return ok; };
    auto connect = [&](const Slot &s) { bool ok, gen = chance(W, 1, 2); BaseFilter *a = nodes[s.w]->f, *b = nodes[s.r]->f; Sut u; ok = gen && s.w == 10 ? a->connectOneToMany(b, s.rid) : gen && s.r == 10 ? a->connectManyToOne(b, s.wid) : a->connectManyToMany(b, s.rid, s.wid); return ok; };
    auto isup = [&](const Slot &s) { bool a; { Sut u; a = nodes[s.w]->f->isWConnected(s.wid) ; } bool b; { Sut u; b = nodes[s.r]->f->isRConnected(s.rid); } return a && b; };
    // after a refused attempt both ends have to take as many connections as before
    auto spare = [&](std::vector<Slot> &slots, const Slot &s, Base<HeadFilter> *hd, Base<TailFilter> *tl) {
        int usedW = 0, usedR = 0; for (auto &o : slots) if (o.up) { usedW += o.w == s.w; usedR += (o.r == s.r) + (o.shr == s.r); } int capW = hd ? 3 : 1, capR = tl ? 3 : 1; probe("spare_connections");
        bool out = chance(W, 1, 2); int used = out ? usedW : usedR, cap = out ? capW : capR; if (used > cap) violation("harness", "capacity");
        Tail *t = new Tail(98, 4); Head *h = new Head(99, 4); t->body = [](std::map<int, Frame *> &, std::vector<int>, int &) { return true; }; h->body = [](std::map<int, Frame *> &, int &) { return false; };
        for (int k = 0; k <= cap - used; k++) { bool ok; { Sut u; ok = out ? nodes[s.w]->f->connectManyToMany(t, k + 1, 90 + k) : h->connectManyToMany(nodes[s.r]->f, 90 + k, k + 1); } if (ok != (k < cap - used)) violation("refusal-changed-state", "filter %d, with %d of %d connections in use, %s another one after a refused attempt", out ? s.w : s.r, used + k, cap, ok ? "accepts" : "refuses"); }
        for (int k = 0; k < cap - used; k++) { Sut u; if (out) { nodes[s.w]->f->disconnectWriter(90 + k); t->disconnectReader(k + 1); } else { h->disconnectWriter(k + 1); nodes[s.r]->f->disconnectReader(90 + k); } }
        { Sut u; delete t; delete h; } };
    // the filter may be in its last processing: wait until it is through
    auto part = [&](int f, int id) { gone.insert({f, id}); bool ok = dis(f, id, false); Node *n = nodes[f]; for (uint64_t st = n->steps; n->inStep && n->steps == st;) sleep_us(200); gone.erase({f, id}); return ok; };
    auto leave = [&](Slot &s) {
        log("filter %d leaves input %d of filter %d", s.shr, s.rid, s.r); fault("sharer_leaves");
        int f = s.shr; s.shr = 0; if (!part(f, s.srid)) violation("wrong-refusal", "filter %d may not leave input %d of filter %d", f, s.rid, s.r);
        bool a; { Sut u; a = nodes[f]->f->isRConnected(s.srid); } if (a) violation("still-connected", "filter %d is still connected after leaving", f); };
    auto share = [&](std::vector<Slot> &slots, Slot &s) {
        if (s.shr) { leave(s); if (!isup(s)) violation("teardown-too-far", "connection %d:%d -> %d:%d is gone because a filter that shared it left", s.w, s.wid, s.r, s.rid); return; }
        int t2 = s.r == 20 ? 21 : 20, used = 0; for (auto &o : slots) if (o.up) used += (o.r == t2) + (o.shr == t2);
        Tail *tl = static_cast<Tail *>(nodes[t2]->f); bool refuse = chance(W, 1, 5); tl->refuseReader = refuse; s.srid = 5 + (&s - slots.data());
        log("filter %d shares input %d of filter %d%s", t2, s.rid, s.r, refuse || used >= 3 ? " (to be refused)" : "");
        bool ok; { Sut u; ok = nodes[s.r]->f->shareReader(tl, s.srid, s.rid); } tl->refuseReader = false;
        if (refuse || used >= 3) { fault("refused_sharing"); if (ok) violation("wrong-accept", "filter %d shares input %d of filter %d although %s", t2, s.rid, s.r, refuse ? "its configuration failed" : "it has no input left");
            bool b; { Sut u; b = nodes[t2]->f->isRConnected(s.srid); } if (b || !isup(s)) violation("refusal-changed-state", "refused sharing of input %d of filter %d left %s", s.rid, s.r, b ? "it connected" : "the connection torn down"); return; }
        if (!ok) violation("wrong-refusal", "filter %d may not share input %d of filter %d", t2, s.rid, s.r);
        s.shr = t2; fault("sharer_joins"); bool b; { Sut u; b = nodes[t2]->f->isRConnected(s.srid); } if (!b || !isup(s)) violation("not-connected", "sharing of input %d of filter %d accepted but %s", s.rid, s.r, b ? "the connection is gone" : "it does not exist");
        uint64_t before = in[{t2, s.srid}].n;
        if (s.w < 10 && !nodes[s.r]->mux && !nodes[t2]->mux && chance(W, 1, 2)) {
            bool other = false; for (auto &o : slots) if (o.up && &o != &s && o.shr) other = true;
            wait_progress([&] { return in[{t2, s.srid}].n > before; }, 1500000, 500);
            if (in[{t2, s.srid}].n <= before) violation("no-flow", "no frame reaches filter %d through input %d of filter %d%s", t2, s.rid, s.r, other ? " (others share)" : "");
            probe("flow_to_sharer");
        } };
    // every control thread owns its own slots
    auto control = [&](std::vector<Slot> &slots, int ops, bool solo) {
        for (int i = 0; i < ops; i++) {
            if (chance(W, 2, 3)) sleep_us(range(W, 0, 2500));
            size_t pick = choose(W, slots.size()); if (chance(W, 1, 3)) for (size_t k = 0; k < slots.size(); k++) if (slots[k].up) pick = k;
            Slot &s = slots[pick];
            if (solo && s.up && s.r >= 20 && nt == 2 && chance(W, 1, 2)) { share(slots, s); continue; }
            bool busyW = false, busyR = false; for (auto &o : slots) if (o.up) { if (o.w == s.w && o.wid == s.wid) busyW = true; if (o.r == s.r && o.rid == s.rid) busyR = true; }
            if (!s.up) {
                bool refuse = false; Base<HeadFilter> *hd = dynamic_cast<Base<HeadFilter> *>(nodes[s.w]->f); Base<TailFilter> *tl = dynamic_cast<Base<TailFilter> *>(nodes[s.r]->f);
                int how = 0;
                if (solo && chance(W, 1, 4)) { how = 1 + choose(W, 3); if (how == 1 && hd) hd->refuseQueue = true; else if (how == 2 && tl) tl->refuseReader = true; else if (how == 3 && hd) hd->refuseWriter = true; else how = 0; }
                int usedR = 0; for (auto &o : slots) if (o.up) usedR += (o.r == s.r) + (o.shr == s.r); bool full = tl && usedR >= 3;
                refuse = how != 0 || busyW || busyR || full;
                uint64_t before = in[{s.r, s.rid}].n;
                log("connect %d:%d -> %d:%d%s", s.w, s.wid, s.r, s.rid, refuse ? " (to be refused)" : "");
                bool ok = connect(s);
                if (hd) hd->refuseQueue = hd->refuseWriter = false; if (tl) tl->refuseReader = false;
                if (refuse) {
                    fault("refused_connection");
                    if (ok) violation("wrong-accept", "connection %d:%d -> %d:%d accepted although %s", s.w, s.wid, s.r, s.rid, how ? "its configuration failed" : full ? "the filter has no input left" : "one end is in use");
                    bool a, b; { Sut u; a = nodes[s.w]->f->isWConnected(s.wid); } { Sut u; b = nodes[s.r]->f->isRConnected(s.rid); }
                    if (a != busyW || b != busyR) violation("refusal-changed-state", "the refused connection %d:%d -> %d:%d left the output %s and the input %s", s.w, s.wid, s.r, s.rid, a ? "connected" : "not connected", b ? "connected" : "not connected");
                    if (how && chance(W, 1, 2)) spare(slots, s, hd, tl);
                } else {
                    if (!ok) violation("wrong-refusal", "connection %d:%d -> %d:%d refused although both ends are free", s.w, s.wid, s.r, s.rid);
                    s.up = true; connects++;
                    if (!isup(s)) violation("not-connected", "connection %d:%d -> %d:%d accepted but it does not exist", s.w, s.wid, s.r, s.rid);
                    ConnectionData cd; { Sut u; cd = nodes[s.w]->f->getWConnectionData(s.wid); }
                    if (cd.wFilterId != s.w || cd.writerId != s.wid || cd.readers.size() != 1 || cd.readers.front().rFilterId != s.r || cd.readers.front().readerId != s.rid) violation("not-connected", "connection %d:%d -> %d:%d is described as %d:%d -> %zu readers", s.w, s.wid, s.r, s.rid, cd.wFilterId, cd.writerId, cd.readers.size());
                    bool fed = s.w < 10; for (auto &o : slots) if (s.w == 10 && o.up && o.r == 10) fed = true;
                    bool wired = true; if (s.r == 10) { wired = false; for (auto &o : slots) if (o.up && o.w == 10) wired = true; }
                    if (solo && fed && wired && !nodes[s.r]->mux && chance(W, 1, 2)) {
                        wait_progress([&] { return in[{s.r, s.rid}].n > before; }, 1500000, 500);
                        if (in[{s.r, s.rid}].n <= before) violation("no-flow", "no frame passes connection %d:%d -> %d:%d", s.w, s.wid, s.r, s.rid);
                        carried++;
                    }
                }
            } else {
                int how = choose(W, 5); teardowns++;
                if (s.shr && chance(W, 1, 3)) leave(s);
                log("teardown %d:%d -> %d:%d (%d)", s.w, s.wid, s.r, s.rid, how);
                if (s.shr) { // the filter it was connected to leaves first, or the one that shares it is left over
                    fault("teardown_with_sharer");
                    if (how < 2) { part(s.r, s.rid); bool a, b; { Sut u; a = nodes[s.w]->f->isWConnected(s.wid); } { Sut u; b = nodes[s.shr]->f->isRConnected(s.srid); }
                        if (!a || !b) violation("teardown-too-far", "filter %d left connection %d:%d, which filter %d still shares, and the %s is torn down", s.r, s.w, s.wid, s.shr, a ? "sharing" : "output");
                        if (chance(W, 1, 2)) sleep_us(range(W, 0, 5000)); if (how == 0) { dis(s.shr, s.srid, false); dis(s.w, s.wid, true); } else { dis(s.w, s.wid, true); dis(s.shr, s.srid, false); } }
                    else { dis(s.w, s.wid, true); if (chance(W, 1, 2)) sleep_us(range(W, 0, 20000)); dis(how == 2 ? s.r : s.shr, how == 2 ? s.rid : s.srid, false); dis(how == 2 ? s.shr : s.r, how == 2 ? s.srid : s.rid, false); }
                    bool b; { Sut u; b = nodes[s.shr]->f->isRConnected(s.srid); } if (b) violation("still-connected", "filter %d is still connected to %d:%d after its teardown", s.shr, s.w, s.wid);
                    s.shr = 0;
                } else
                if (solo && how < 2) { // the connection is gone for both ends as soon as one of them gives it up
                    bool wr = how == 1, a, b; if (!dis(wr ? s.w : s.r, wr ? s.wid : s.rid, wr)) violation("wrong-refusal", "filter %d may not give up its end of %d:%d -> %d:%d", wr ? s.w : s.r, s.w, s.wid, s.r, s.rid);
                    { Sut u; a = nodes[s.w]->f->isWConnected(s.wid); } { Sut u; b = nodes[s.r]->f->isRConnected(s.rid); } if (a || b) violation("still-connected", "filter %d gave up its end of %d:%d -> %d:%d, the %s is still connected", wr ? s.w : s.r, s.w, s.wid, s.r, s.rid, a ? "output" : "input");
                    fault(wr ? "teardown_by_writer" : "teardown_by_reader"); Node *n = nodes[wr ? s.r : s.w];
                    // an output can be used again at once, an input after its filter noticed
                    if (wr && chance(W, 2, 3)) { uint64_t st = n->steps; if (n->id >= 20) wait_until([&] { return n->steps >= st + 2; }, 10000000); else dis(s.r, s.rid, false); } else if (wr || chance(W, 1, 2)) { if (chance(W, 1, 2)) sleep_us(range(W, 0, 1500)); dis(wr ? s.r : s.w, wr ? s.rid : s.wid, !wr); }
                }
                else if (how == 0) { dis(s.r, s.rid, false); if (chance(W, 1, 2)) sleep_us(range(W, 0, 1500)); dis(s.w, s.wid, true); fault("teardown_reader_first"); }
                else if (how == 1) { dis(s.w, s.wid, true); if (chance(W, 1, 2)) sleep_us(range(W, 0, 1500)); dis(s.r, s.rid, false); fault("teardown_writer_first"); }
                else if (how == 2) { int t1 = spawn("teardown", [&] { dis(s.w, s.wid, true); }); dis(s.r, s.rid, false); join(t1); fault("teardown_both_at_once"); }
                else { // from one end: the other one notices when it runs
                    bool wr = how == 3; dis(wr ? s.w : s.r, wr ? s.wid : s.rid, wr); fault(wr ? "teardown_by_writer" : "teardown_by_reader");
                    if (chance(W, 1, 2)) wait_until([&] { return !isup(s); }, 3000);
                    sleep_us(range(W, 0, 20000));
                    dis(wr ? s.r : s.w, wr ? s.rid : s.wid, !wr);
                }
                bool a, b; { Sut u; a = nodes[s.w]->f->isWConnected(s.wid); } { Sut u; b = nodes[s.r]->f->isRConnected(s.rid); }
                if (a || b) violation("still-connected", "after the teardown of %d:%d -> %d:%d the %s is still connected", s.w, s.wid, s.r, s.rid, a ? "output" : "input");
                s.up = false;
            }
            // once in a while a filter is replaced
            if (solo && chance(W, 1, 10)) {
                auto it = nodes.begin(); std::advance(it, choose(W, nodes.size())); Node *n = it->second;
                n->stop = true; join(n->th); log("filter %d destroyed", n->id); fault("filter_destroyed");
                { Sut u; delete n->f; }
                for (auto &o : slots) if (o.shr == n->id) o.shr = 0;
                for (auto &o : slots) if (o.up && (o.w == n->id || o.r == n->id)) { o.up = false; if (o.shr) { dis(o.shr, o.srid, false); o.shr = 0; } if (o.w != n->id) dis(o.w, o.wid, true); if (o.r != n->id) dis(o.r, o.rid, false); }
                make(n->id); runner(n);
            }
            state(connects * 16 + slots.size());
        }
    };
    std::vector<Slot> all;
    for (int w : ws) for (int wid = 1; wid <= (w == 10 ? 1 : 2); wid++) for (int r : rs) if (w != r) { Slot s; s.w = w; s.wid = w == 10 ? 1 : wid - id0; s.r = r; s.rid = r == 10 ? 1 : 1 - id0 + choose(W, 2); all.push_back(s); }
    int ops = 3 + choose(W, 10);
    if (chance(W, 1, 2)) control(all, ops, true);
    else { // two controllers with disjoint ends
        std::vector<Slot> a, b; for (auto &s : all) { bool second = s.w != 10 && s.wid == 2 - id0; if (s.r == 10 && second) continue; if (second) { s.rid = 2 - id0; b.push_back(s); } else { s.rid = s.r == 10 ? 1 : 1 - id0; a.push_back(s); } }
        if (b.empty()) b.push_back(a.back()), a.pop_back();
        if (a.empty()) control(b, ops, false);
        else { int t = spawn("control", [&] { control(a, ops, false); }); control(b, ops, false); join(t); }
        // two filters share each other's input
        Slot *x0 = nullptr, *x1 = nullptr; for (auto v : {&a, &b}) for (auto &o : *v) if (o.up && o.w < 10) { if (o.r == 20) x0 = &o; if (o.r == 21) x1 = &o; }
        if (x0 && x1 && chance(W, 1, 2)) {
            bool r1 = false, r2 = false; fault("mutual_sharing");
            int t = spawn("control", [&] { Sut u; r1 = nodes[20]->f->shareReader(nodes[21]->f, 8, x0->rid); }); { Sut u; r2 = nodes[21]->f->shareReader(nodes[20]->f, 9, x1->rid); } join(t);
            if (!r1 || !r2) violation("wrong-refusal", "filter %d may not share the input of the other one", r1 ? 20 : 21);
            gone.insert({21, 8}); gone.insert({20, 9}); int t1 = spawn("control", [&] { dis(21, 8, false); }); dis(20, 9, false); join(t1);
        }
        else
        // both go for the same input
        if (nh == 2 && chance(W, 1, 2)) {
            bool r1 = false, r2 = false; Slot x, y; x.w = 1; y.w = 2; x.wid = y.wid = 7; x.r = y.r = 20; x.rid = y.rid = 3;
            // inputs 1 and 2 may be taken: three fit
            int t = spawn("control", [&] { r1 = connect(x); }); r2 = connect(y); join(t);
            bool free1 = false; { Sut u; free1 = nodes[1]->f->isWConnected(7); } bool free2; { Sut u; free2 = nodes[2]->f->isWConnected(7); }
            if (r1 && r2) violation("wrong-accept", "two outputs are connected to the same input");
            if (!r1 && !r2) violation("wrong-refusal", "two attempts to connect to one input refused each other");
            if (free1 != r1 || free2 != r2) violation("refusal-changed-state", "the refused attempt left its output connected");
            fault("competing_connections");
        }
    }
    stop_disturbing(); sleep_us(3000);
    for (auto &n : nodes) n.second->stop = true; for (auto &n : nodes) join(n.second->th);
    // destroy in any order
    std::vector<Node *> v; for (auto &n : nodes) v.push_back(n.second);
    while (!v.empty()) { size_t i = choose(W, v.size()); { Sut u; delete v[i]->f; } v.erase(v.begin() + i); }
    std::string what; uint64_t l = live_in_epoch(ep, &what);
    if (l) violation("leak", "%llu blocks stay allocated after all filters are gone: %s", (unsigned long long)l, what.c_str());
    nontrivial(connects >= 1 && teardowns >= 1); if (carried) probe("flow_after_reconnection");
}
}
SCENARIO(filter_conn, "connecting and disconnecting running filters") { conn_run(); }
