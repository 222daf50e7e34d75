// P01: the pipeline as the control thread builds, changes and removes it while it runs.
#include "pmw.h"
using namespace sim;
using namespace hf;
namespace pm { StreamInfo *stream_info(); }
namespace {
struct P { int id, org, dst, ow, dr; std::vector<int> mids; bool has(int f) const { if (f == org || f == dst) return true; for (int m : mids) if (m == f) return true; return false; } };
struct Model { std::map<int, int> uid; std::map<int, P> paths; };      // filter id -> object
struct Hop { int w, wid, r, rid, path; bool first; };
std::vector<Model> M; bool inOp; Model nextM;                          // history of models; the last one is current
std::vector<std::pair<int, FilterType>> types;
pm::Obj &obj(const Model &m, int f) { return *pm::G->objs[m.uid.at(f)]; }
bool single(const pm::Obj &o) { return o.role == '1' || o.role == 'S'; }
std::vector<Hop> hops(const Model &m)
{
    std::vector<Hop> v;
    for (auto &x : m.paths) {
        const P &p = x.second; int w = p.org; std::vector<int> fs = p.mids; fs.push_back(p.dst);
        for (size_t i = 0; i < fs.size(); i++) {
            char wr = obj(m, w).role; Hop h; h.w = w; h.r = fs[i]; h.first = i == 0; h.path = p.id;
            h.wid = wr == '1' || wr == 'M' ? 0 : i == 0 ? p.ow : 1000000 + p.id; h.rid = single(obj(m, fs[i])) ? 0 : i + 1 == fs.size() ? p.dr : -1; v.push_back(h); w = fs[i];
        }
    }
    return v;
}
bool feeds(const Model &m, int ruid, int rid, int wuid, int wid)         // may object wuid deliver to object ruid?
{
    for (auto &h : hops(m)) {
        if (m.uid.at(h.r) != ruid || m.uid.at(h.w) != wuid) continue; pm::Obj &r = obj(m, h.r), &w = obj(m, h.w);
        if (!single(r) && h.rid >= 0 && rid >= 0 && h.rid != rid) continue;
        if (w.role == 'H' && wid >= 0 && h.wid >= 0 && h.wid != wid) continue; return true;
    }
    return false;
}
std::string ptext(const P &p) { std::string s = "path " + std::to_string(p.id) + " " + std::to_string(p.org) + "(" + std::to_string(p.ow) + ")"; for (int m : p.mids) s += " " + std::to_string(m); return s + " " + std::to_string(p.dst) + "(" + std::to_string(p.dr) + ")"; }
// which hops deliver frames for good
std::set<size_t> delivering(const Model &m, const std::vector<Hop> &H)
{
    std::set<int> outs; for (auto &h : H) outs.insert(h.w);
    auto consumes = [&](int f) { return obj(m, f).role == 'T' || outs.count(f); };
    std::set<size_t> d; bool more = true;
    while (more) {
        more = false;
        for (size_t i = 0; i < H.size(); i++) {
            if (d.count(i)) continue; bool prod = obj(m, H[i].w).role == 'H'; for (size_t j : d) if (H[j].r == H[i].w) prod = true; if (!prod) continue;
            bool ok = true; for (auto &o : H) if (o.w == H[i].w && o.wid == H[i].wid && !consumes(o.r)) ok = false; if (ok) { d.insert(i); more = true; }
        }
    }
    return d;
}
bool cyclic(const Model &m, const P &np)
{
    std::map<int, std::set<int>> g; auto add = [&](const P &p) { int w = p.org; for (int x : p.mids) { g[w].insert(x); w = x; } g[w].insert(p.dst); }; for (auto &x : m.paths) add(x.second); add(np);
    std::set<int> st; std::function<bool(int, int)> go = [&](int n, int d) { if (d > 30) return true; for (int x : g[n]) if (go(x, d + 1)) return true; return false; };
    for (auto &x : g) if (go(x.first, 0)) return true; return false;
}
enum Want { ACCEPT, REFUSE, EITHER };
Want judge(const Model &m, const P &p)
{
    if (m.paths.count(p.id) || !m.uid.count(p.org) || !m.uid.count(p.dst) || p.org == p.dst) return REFUSE; std::set<int> u;
    for (int x : p.mids) { if (!m.uid.count(x) || x == p.org || x == p.dst || !u.insert(x).second) return REFUSE; char r = obj(m, x).role; if (r == 'H' || r == 'T') return REFUSE; }
    pm::Obj &o = obj(m, p.org), &d = obj(m, p.dst); if (o.role == 'T' || d.role == 'H') return REFUSE;
    auto H = hops(m); auto into = [&](int f, int rid) { int n = 0; for (auto &h : H) if (h.r == f && (rid < 0 || h.rid == rid || h.rid < 0)) n++; return n; }; auto outof = [&](int f) { int n = 0; for (auto &h : H) n += h.w == f; return n; };
    for (int x : p.mids) if (single(obj(m, x)) && into(x, -1)) return REFUSE;
    if (single(d) ? into(p.dst, -1) : p.dr >= 0 && [&] { for (auto &h : H) if (h.r == p.dst && h.rid == p.dr) return true; return false; }()) return REFUSE;
    // nothing in the way?
    for (int x : p.mids) for (auto &y : m.paths) if (y.second.has(x)) return EITHER;
    if (!single(d) && (into(p.dst, -1) >= (int)d.max || (p.dr >= 0 && into(p.dst, p.dr)))) return EITHER;
    int F = p.mids.empty() ? p.dst : p.mids[0]; unsigned maxw = o.role == 'H' || o.role == 'S' ? o.max : 1; std::set<std::pair<int, int>> ws; bool shared = false;
    for (auto &h : H) if (h.w == p.org) { int rw = h.wid; if (h.first) rw = m.paths.at(h.path).ow; else if (o.role == '1' || o.role == 'M') rw = DEFAULT_ID; ws.insert({h.w, rw}); if (rw == p.ow || (p.ow < 0 && maxw == 1 && rw == DEFAULT_ID)) { shared = true; if (!h.first) return EITHER; if (h.r == F) return EITHER; } }
    if (shared) return EITHER == EITHER && !p.mids.empty() ? ACCEPT : (p.dr == -1 && !single(d) && d.max != 1 ? ACCEPT : ACCEPT);
    if (ws.size() >= maxw) return EITHER; return ACCEPT;
}
void set(const Model &m) { if (inOp) M.push_back(nextM); M.push_back(m); inOp = false; }
void begin(const Model &nx) { nextM = nx; inOp = true; }
Jzon::Object fire(const std::string &action, Jzon::Object params, int filter = -1, int delay = -1)
{
    Jzon::Object ev, out; int64_t t0 = now_ns(); ev.Add("action", action); ev.Add("params", params); if (filter >= 0) ev.Add("filterId", filter); if (delay >= 0) ev.Add("delay", delay);
    { Sut u; PipelineManager::getInstance()->processEvent(ev, out); }
    if (now_ns() - t0 > 20000000000LL) violation("slow-control", "%s takes %lld ms", action.c_str(), (long long)(now_ns() - t0) / 1000000); return out;
}
bool accepted(Jzon::Object &o, const char *what)
{
    int n = 0; bool ok = false; for (Jzon::Object::iterator i = o.begin(); i != o.end(); ++i) if ((*i).first == "error") { n++; ok = (*i).second.IsNull(); }
    if (n != 1) violation("no-answer", "%s is answered with %d results", what, n); return ok;
}
void check_alive(const Model &m)
{
    std::set<int> u; for (auto &x : m.uid) u.insert(x.second);
    for (auto &o : pm::G->objs) { if (o->alive && !u.count(o->uid)) violation("filter-left", "filter object %d is still there although no filter has it", o->uid); if (!o->alive && u.count(o->uid)) violation("filter-lost", "filter object %d is destroyed although it still belongs to the pipeline", o->uid); }
}
const char *tname(FilterType t)
{
    static std::map<int, std::string> n = {{RECEIVER, "receiver"}, {TRANSMITTER, "transmitter"}, {DEMUXER, "demuxer"}, {VIDEO_DECODER, "videoDecoder"}, {VIDEO_ENCODER, "videoEncoder"}, {VIDEO_RESAMPLER, "videoResampler"}, {VIDEO_MIXER, "videoMixer"}, {AUDIO_DECODER, "audioDecoder"}, {AUDIO_ENCODER, "audioEncoder"}, {AUDIO_MIXER, "audioMixer"}, {DASHER, "dasher"}, {VIDEO_SPLITTER, "videoSplitter"}, {V4L_CAPTURE, "v4lcapture"}, {SHARED_MEMORY, "sharedMemory"}}; return n[t].c_str();
}
void check_state(Model &m)                                 // what getState reports; also learns the ids that were generated
{
    Jzon::Object out = fire("getState", Jzon::Object()); if (!out.Has("filters") || !out.Has("paths")) violation("state", "the state has no filters or no paths");
    std::set<int> seen; Jzon::Array &fa = out.Get("filters").AsArray(); for (Jzon::Array::iterator i = fa.begin(); i != fa.end(); ++i) { int id = (*i).Get("id").ToInt(); if (!seen.insert(id).second || !m.uid.count(id)) violation("state", "filter %d is reported, it is not there", id); std::string t = (*i).Get("type").ToString(); if (t != tname(obj(m, id).type)) violation("state", "filter %d is reported as %s, it is a %s", id, t.c_str(), tname(obj(m, id).type)); }
    if (seen.size() != m.uid.size()) violation("state", "%zu filters are reported, there are %zu", seen.size(), m.uid.size());
    std::set<int> ps; Jzon::Array &pa = out.Get("paths").AsArray();
    for (Jzon::Array::iterator i = pa.begin(); i != pa.end(); ++i) {
        Jzon::Node &n = *i; int id = n.Get("id").ToInt(); if (!ps.insert(id).second || !m.paths.count(id)) violation("state", "path %d is reported, it is not there", id); P &p = m.paths[id];
        int ow = n.Get("originWriter").ToInt(), dr = n.Get("destinationReader").ToInt(); if (p.ow < 0) p.ow = ow; if (p.dr < 0) p.dr = dr; std::vector<int> mids; Jzon::Array &ma = n.Get("filters").AsArray(); for (Jzon::Array::iterator k = ma.begin(); k != ma.end(); ++k) mids.push_back((*k).ToInt());
        if (n.Get("originFilter").ToInt() != p.org || n.Get("destinationFilter").ToInt() != p.dst || ow != p.ow || dr != p.dr || mids != p.mids) violation("state", "%s is reported otherwise", ptext(p).c_str());
        if (n.Get("lostBlocs").ToInt() < 0) violation("state", "%s lost %d frames", ptext(p).c_str(), n.Get("lostBlocs").ToInt());
    }
    if (ps.size() != m.paths.size()) violation("state", "%zu paths are reported, there are %zu", ps.size(), m.paths.size());
    for (auto &x : m.paths) { P &p = x.second; bool r, w; { Sut u; r = obj(m, p.dst).f->isRConnected(p.dr); w = obj(m, p.org).f->isWConnected(p.ow); } if (!r || !w) violation("not-connected", "%s is not connected at its %s", ptext(p).c_str(), r ? "origin" : "destination"); }
}
// every path whose origin has something to deliver gets new frames to its destination
void check_flow(const Model &m, int64_t us, const char *when)
{
    auto H = hops(m); auto D = delivering(m, H); std::vector<std::pair<size_t, uint64_t>> base; auto count = [&](const Hop &h) { uint64_t n = 0; pm::Obj &r = obj(m, h.r); int wu = m.uid.at(h.w); for (auto &a : r.arrived) if (a.first.second == wu && (single(r) || h.rid < 0 || a.first.first == h.rid)) n += a.second; return n; };
    for (size_t i : D) base.push_back({i, count(H[i])}); auto ok = [&] { for (auto &b : base) if (count(H[b.first]) < b.second + 2) return false; return true; };
    wait_progress(ok, us, 2000); for (auto &b : base) if (count(H[b.first]) < b.second + 2) { const Hop &h = H[b.first]; for (auto &x : m.uid) { pm::Obj &o = obj(m, x.first); std::string t; for (auto &a : o.arrived) t += " r" + std::to_string(a.first.first) + "<-o" + std::to_string(a.first.second) + ":" + std::to_string(a.second); log("filter %d object %d (%c) period %lld work %lld steps %llu%s", x.first, x.second, o.role, (long long)o.period, (long long)o.work, (unsigned long long)o.steps, t.c_str()); } violation("no-flow", "%s: %s: filter %d gets no frames of filter %d any more", when, ptext(m.paths.at(h.path)).c_str(), h.r, h.w); }
    if (!base.empty()) probe("flowing_paths"); if (D.size() < H.size()) probe("blocked_paths");
}
void pm_run(bool big)
{
    warm(); pm::stream_info(); int ep = track_begin(); uint64_t serialEv = 0; size_t nops = 0; std::string what;
    {
        pm::World world; pm::G = &world; M.clear(); M.push_back(Model()); inOp = false; std::map<uint64_t, int> sentTo;
        set_hw_threads(1 + choose(W, 3)); random_sched(true, true); bool faults = chance(F, 1, 2); static const uint32_t rd[] = {40, 12, 5}; if (faults) world.refuse_den = rd[choose(F, 3)]; world.qmax = 12 + choose(W, 4); set_step_limit(big ? 12000000 : 6000000);
        world.on_step = [&](pm::Obj &o) { o.seen = M.size() - 1; };   // at the end of each
        world.on_frame = [&](pm::Obj &o, int r, const Tag &t) {
            bool ok = false; for (size_t i = o.seen; i < M.size() && !ok; i++) ok = feeds(M[i], o.uid, r, t.stream, (int)t.seq); if (!ok && inOp) ok = feeds(nextM, o.uid, r, t.stream, (int)t.seq);
            if (!ok) violation("wrong-frame", "filter object %d gets a frame of object %d (writer %d) on reader %d, no path connects them", o.uid, t.stream, (int)t.seq, r);
        };
        world.on_upstream = [&](pm::Obj &o, int r) {
            uint64_t n = ++serialEv; sentTo[n] = -1; size_t i0 = o.seen; bool op0 = inOp; Model mo = nextM; Jzon::Object e, p; p.Add("serial", (int)n); e.Add("action", "mark"); e.Add("params", p);
            { Sut u; Event ev(e, std::chrono::system_clock::now(), -1); o.f->sendEvent(ev, r); }
            size_t i1 = M.size() - 1; auto it = world.marks.find(n); int times = it == world.marks.end() ? 0 : it->second.first;
            if (times > 1) violation("event-twice", "event %llu is applied %d times", (unsigned long long)n, times);
            if (i0 == i1 && !op0 && !inOp) { for (auto &h : hops(M[i0])) if (M[i0].uid[h.r] == o.uid && h.rid == r && obj(M[i0], h.w).role == 'H' && !times) violation("event-lost", "the event of filter %d for filter %d, which feeds it, is not applied", h.r, h.w); }
            if (times) { bool ok = false; auto match = [&](const Model &m) { for (auto &h : hops(m)) if (m.uid.at(h.r) == o.uid && (h.rid < 0 || h.rid == r)) for (size_t k = i0; k <= i1; k++) if (M[k].uid.count(h.w) && M[k].uid[h.w] == it->second.second) return true; return false; }; for (size_t k = i0; k <= i1 && !ok; k++) ok = match(M[k]); if (!ok && op0) ok = match(mo); if (!ok && inOp) ok = match(nextM); if (!ok) violation("wrong-event", "event %llu of filter object %d is applied by object %d, which does not feed it", (unsigned long long)n, o.uid, it->second.second); }
            probe("upstream_events");
        };
        { Sut u; PipelineManager::getInstance(1 + choose(W, 4)); }
        auto model = [&]() -> Model & { return M.back(); };
        static const FilterType T[] = {RECEIVER, DEMUXER, V4L_CAPTURE, TRANSMITTER, DASHER, VIDEO_DECODER, VIDEO_ENCODER, VIDEO_RESAMPLER, AUDIO_DECODER, SHARED_MEMORY, VIDEO_MIXER, AUDIO_MIXER, VIDEO_SPLITTER};
        auto create = [&](int id, FilterType t) {
            Model n = model(); int before = world.created(); begin(n); Jzon::Object p; p.Add("id", id); p.Add("type", tname(t)); Jzon::Object o = fire("createFilter", p); bool ok = accepted(o, "createFilter"), want = id >= 0 && !n.uid.count(id);
            log("createFilter %d %s: %d", id, tname(t), ok); if (ok != want) violation(want ? "refused" : "accepted", "createFilter %d %s is %s", id, tname(t), ok ? "accepted" : "refused");
            if (ok) { if (world.created() != before + 1) violation("filter-left", "createFilter creates %d objects", world.created() - before); n.uid[id] = before; world.objs[before]->upstream = chance(W, 1, 2); if (world.objs[before]->f->getType() != t) violation("state", "createFilter %s creates something else", tname(t)); world.objs[before]->seen = M.size(); } set(n);
        };
        auto fresh = [&](const char *roles) { static const FilterType A[] = {RECEIVER, DEMUXER, V4L_CAPTURE}, B[] = {TRANSMITTER, DASHER}, C[] = {VIDEO_DECODER, VIDEO_ENCODER, VIDEO_RESAMPLER, AUDIO_DECODER, AUDIO_ENCODER, SHARED_MEMORY}, D[] = {VIDEO_MIXER, AUDIO_MIXER}; int id = 0; while (model().uid.count(id)) id++; if (chance(W, 1, 3)) id += choose(W, 5); while (model().uid.count(id)) id++; char r = roles[choose(W, strlen(roles))]; create(id, r == 'H' ? A[choose(W, 3)] : r == 'T' ? B[choose(W, 2)] : r == '1' ? C[choose(W, 6)] : r == 'M' ? D[choose(W, 2)] : VIDEO_SPLITTER); return id; };
        auto pickf = [&](const char *roles) { std::vector<int> v; for (auto &x : model().uid) if (strchr(roles, world.objs[x.second]->role)) v.push_back(x.first); return v.empty() ? -1 : v[choose(W, v.size())]; };
        auto addpath = [&](P p) {
            Model n = model(); Want w = judge(n, p); world.faulted = false; if (w != REFUSE && cyclic(n, p)) return; Model nx = n; bool known = p.org != p.dst && n.uid.count(p.org) && n.uid.count(p.dst) && !n.paths.count(p.id); for (int m : p.mids) if (!n.uid.count(m)) known = false; if (known) nx.paths[p.id] = p;   // (hops of a path that is refused may exist for a moment)
            begin(nx);
            Jzon::Object q; Jzon::Array a; for (int m : p.mids) a.Add(m); q.Add("id", p.id); q.Add("orgFilterId", p.org); q.Add("dstFilterId", p.dst); q.Add("orgWriterId", p.ow); q.Add("dstReaderId", p.dr); q.Add("midFiltersIds", a);
            Jzon::Object o = fire("createPath", q); bool ok = accepted(o, "createPath"); log("createPath %s: %d (%d)", ptext(p).c_str(), ok, w);
            if (ok && w == REFUSE) violation("accepted", "createPath %s is accepted", ptext(p).c_str()); if (!ok && w == ACCEPT && !world.faulted) violation("refused", "createPath %s is refused", ptext(p).c_str());
            if (ok) { probe(p.mids.empty() ? "direct_path" : "path_with_filters"); n.paths[p.id] = p; bool unk = p.ow < 0 || p.dr < 0; if (unk) { nx = n; check_state(n); for (auto &h : M) (void)h; } } else { probe("path_refused"); if (world.faulted) probe("path_fails_halfway"); }
            set(n);
        };
        auto rmpath = [&](int id) {
            Model n = model(); bool there = n.paths.count(id); if (there) { P p = n.paths[id]; n.paths.erase(id); auto used = [&](int f) { for (auto &x : n.paths) if (x.second.has(f)) return true; return false; }; for (int m : p.mids) if (!used(m)) n.uid.erase(m); else probe("kept_middle_filter"); if (!used(p.dst)) n.uid.erase(p.dst); if (!used(p.org)) n.uid.erase(p.org); }
            Model keep = model(); begin(n); Jzon::Object q; q.Add("id", id); Jzon::Object o = fire("removePath", q); bool ok = accepted(o, "removePath"); log("removePath %d: %d", id, ok); if (there && !ok) violation("refused", "removePath %s is refused", ptext(keep.paths[id]).c_str()); set(n);
        };
        auto rmfilter = [&](int id) {
            Model n = model(); bool want = n.uid.count(id); for (auto &x : n.paths) if (x.second.has(id)) want = false; if (want) n.uid.erase(id); begin(n); Jzon::Object q; q.Add("id", id); Jzon::Object o = fire("removeFilter", q); bool ok = accepted(o, "removeFilter"); log("removeFilter %d: %d", id, ok);
            if (ok != want) violation(want ? "refused" : "accepted", "removeFilter %d is %s", id, ok ? "accepted" : "refused"); set(n);
        };
        auto event = [&](int id) {
            uint64_t n = ++serialEv; Jzon::Object p; static const char *act[] = {"mark", "mark", "mark", "refuse", "nothing"}; int k = choose(W, 5); p.Add("serial", (int)n); bool want = model().uid.count(id); Jzon::Object o = fire(act[k], p, id); bool ok = accepted(o, "an event"); if (ok != want) violation(want ? "refused" : "accepted", "an event for filter %d is %s", id, ok ? "accepted" : "refused");
            if (want && k < 3) { pm::Obj &t = obj(model(), id); auto &mk = world.marks[n]; if (strchr("HT", t.role) && mk.first != 1) violation("event-lost", "an event for filter %d is applied %d times", id, mk.first); if (mk.first && mk.second != t.uid) violation("wrong-event", "an event for filter %d is applied by another one", id); }
        };
        // a plausible pipeline first, then changes
        auto someid = [&] { if (chance(W, 1, 12)) return -1 - (int)choose(W, 2); if (chance(W, 1, 6) || model().uid.empty()) return (int)choose(W, 12); auto it = model().uid.begin(); std::advance(it, choose(W, model().uid.size())); return it->first; };
        auto goodpath = [&] {
            P p; p.id = 0; while (model().paths.count(p.id)) p.id++; static const char *orgs[] = {"H", "H", "HSM1"}; p.org = chance(W, 2, 3) ? pickf(orgs[choose(W, 3)]) : -1; if (p.org < 0) p.org = fresh("H"); int n = choose(W, 4); for (int i = 0; i < n; i++) p.mids.push_back(fresh("111SM"));
            p.dst = chance(W, 2, 3) ? pickf(chance(W, 3, 4) ? "T" : "MS1T") : -1; if (p.dst < 0) p.dst = fresh("TTTMS"); static const int wr[] = {1, 2, 3, -1}; p.ow = wr[choose(W, 4)]; if (chance(W, 1, 3)) for (auto &x : model().paths) if (x.second.org == p.org) p.ow = x.second.ow; p.dr = chance(W, 1, 4) ? -1 : 1 + choose(W, 4); addpath(p); };
        auto anypath = [&] { P p; p.id = choose(W, 5); p.org = someid(); p.dst = someid(); int n = choose(W, 3); for (int i = 0; i < n; i++) p.mids.push_back(someid()); p.ow = chance(W, 1, 4) ? -1 : 1 + choose(W, 3); p.dr = chance(W, 1, 4) ? -1 : 1 + choose(W, 4); addpath(p); };
        auto again = [&] { if (model().paths.empty()) return goodpath(); auto it = model().paths.begin(); std::advance(it, choose(W, model().paths.size())); P p = it->second; rmpath(p.id); for (int &m : p.mids) m = model().uid.count(m) ? fresh("1") : (create(m, VIDEO_DECODER), m); if (!model().uid.count(p.dst)) create(p.dst, TRANSMITTER); if (!model().uid.count(p.org)) create(p.org, RECEIVER); addpath(p); };
        int rounds = big ? 12 + choose(W, 20) : 4 + choose(W, 10); for (int i = 0, n = 1 + choose(W, 3); i < n; i++) goodpath();
        for (int i = 0; i < rounds; i++) {
            nops++; if (chance(W, 1, 2)) sleep_us(range(W, 0, 60000));
            switch (choose(W, 12)) {
            case 0: case 1: case 2: goodpath(); break; case 3: anypath(); break; case 4: again(); break;
            case 5: case 6: if (model().paths.empty() || chance(W, 1, 8)) rmpath(choose(W, 6)); else { auto it = model().paths.begin(); std::advance(it, choose(W, model().paths.size())); rmpath(it->first); } break;
            case 7: rmfilter(someid()); break; case 8: create(someid(), T[choose(W, 13)]); break; case 9: event(someid()); break; case 10: event(someid()); break;
            case 11: if (chance(W, 1, 6)) { Model n; begin(n); bool empty = model().uid.empty(); Jzon::Object o = fire("stop", Jzon::Object()); bool ok = accepted(o, "stop"); log("stop: %d", ok); if (!ok && !empty) violation("refused", "stop is refused"); set(n); probe("stopped"); } else sleep_us(range(W, 1000, 200000)); break;
            }
            check_alive(model()); if (chance(W, 1, 2)) check_state(model());
            if (chance(W, 1, 6) && !faults) check_flow(model(), 6000000, "meanwhile");
        }
        stop_disturbing(); world.refuse_den = 0; check_state(model()); check_flow(model(), 6000000, "at the end"); check_alive(model()); state(model().paths.size() * 100 + model().uid.size());
        if (chance(W, 1, 2)) while (!model().paths.empty()) { rmpath(model().paths.begin()->first); check_alive(model()); if (chance(W, 1, 2)) check_state(model()); }
        if (chance(W, 1, 2)) sleep_us(20000); Model none; begin(none); { Sut u; PipelineManager::destroyInstance(); } set(none); check_alive(model()); nontrivial(true); for (auto &e : world.marks) if (e.second.first > 1) violation("event-twice", "event %llu is applied %d times", (unsigned long long)e.first, e.second.first);
        M.clear(); M.shrink_to_fit(); nextM = Model(); pm::G = nullptr;
    }
    std::string leak; if (uint64_t n = live_in_epoch(ep, &leak)) violation("leak", "%llu blocks are left: %s", (unsigned long long)n, leak.c_str());
}
}
SCENARIO(pipe, "a pipeline that is built, changed and removed while it runs") { pm_run(false); }
SCENARIO(pipe_big, "the same with more changes") { pm_run(true); }
