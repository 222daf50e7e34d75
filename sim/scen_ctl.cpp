// K01: the control server and its clients on an unreliable network.
#include "pmw.h"
#include "net.h"
#include "Controller.hh"
#include <signal.h>
using namespace sim;
using namespace hf;
namespace pm { StreamInfo *stream_info(); }
namespace {
const int PORT = 7777; const size_t LIMIT = 16383;             // of a request
// -- replies: one JSON document, what its "error" members are
struct Rep { bool ok = false; std::vector<int> errors; bool filters = false, paths = false; };   // 1: null
struct Js {
    const std::string &s; size_t i = 0; Js(const std::string &x) : s(x) {} void ws() { while (i < s.size() && strchr(" \t\r\n", s[i])) i++; }
    bool str(std::string &o) { if (i >= s.size() || s[i] != '"') return false; for (i++; i < s.size() && s[i] != '"'; i++) { if (s[i] == '\\') i++; if (i < s.size()) o += s[i]; } return i < s.size() && s[i++] == '"'; }
    bool value(int depth, Rep *r, bool *null)
    {
        if (depth > 100) return false; ws(); if (i >= s.size()) return false; std::string k; if (s[i] == '"') return str(k);
        if (s[i] == '{' || s[i] == '[') {
            char e = s[i] == '{' ? '}' : ']'; bool obj = s[i] == '{'; i++; ws(); if (i < s.size() && s[i] == e) { i++; return true; }
            while (true) { ws(); k.clear(); if (obj) { if (!str(k)) return false; ws(); if (i >= s.size() || s[i++] != ':') return false; ws(); } bool nl = false; if (!value(depth + 1, nullptr, &nl)) return false; if (r && obj) { if (k == "error") r->errors.push_back(nl); if (k == "filters") r->filters = true; if (k == "paths") r->paths = true; } ws(); if (i >= s.size()) return false; if (s[i] == e) { i++; return true; } if (s[i++] != ',') return false; } }
        size_t b = i; while (i < s.size() && !strchr(",]} \t\r\n", s[i])) i++; std::string w = s.substr(b, i - b); if (null) *null = w == "null"; if (w == "null" || w == "true" || w == "false") return true; char *e; strtod(w.c_str(), &e); return !w.empty() && !*e;
    }
};
Rep parse(const std::string &s) { Rep r; Js j(s); j.ws(); r.ok = j.i < s.size() && s[j.i] == '{' && j.value(0, &r, nullptr); j.ws(); if (j.i != s.size()) r.ok = false; return r; }
enum Kind { GOOD, STALL, SLOW, RESET, HALF, JUNK, BIG, EARLY, SILENT, TRAIL };
const char *kname[] = {"good", "stalling", "slow", "resetting", "half-closing", "malformed", "oversized", "early closing", "silent", "talkative"};
struct Cl {
    int no; Kind kind; std::string req, reply; std::vector<int> want; bool anyEvents = false; std::vector<uint64_t> marks; bool done = false, tried = false, eof = false, state = false; int64_t start = 0, connected = 0, end = 0; int own; std::set<int> has; std::shared_ptr<simnet::Conn> c; bool certain = false; std::vector<std::pair<int, bool>> made;
};
struct Run { std::vector<std::unique_ptr<Cl>> cl; uint64_t serial = 0; bool stop = false; std::map<int, int> filters; int heads[2]; int64_t served = 0; } *R;
std::string num(int64_t n) { return std::to_string(n); }
std::string pad(unsigned n) { static const char *p[] = {"x", "{", "}", "[", "]", " ", ",", ":", "\\\"", "\\\\"}; std::string s; while (s.size() < n) s += p[choose(W, 10)]; return s; }
// a text parameter and the sum of its characters weighted with their places
std::string text(const Cl &c)
{
    if (c.kind == JUNK || !chance(W, 1, 4)) return "";
    static const char *p[][2] = {{"x", "x"}, {"{", "{"}, {"}", "}"}, {"]", "]"}, {" ", " "}, {"/", "/"}, {"\\/", "/"}, {"//", "//"}, {",", ","}, {":", ":"}, {"\\\"", "\""}, {"\\\\", "\\"}, {"\\n", "\n"}, {"\\t", "\t"}, {"\xc3\xa9", "\xc3\xa9"}, {"/*", "/*"}};
    std::string s; int64_t sum = 0, k = 0; for (int i = choose(W, 12); i >= 0; i--) { auto &t = p[choose(W, 16)]; s += t[0]; for (const char *q = t[1]; *q; q++) sum += ++k * (unsigned char)*q; }
    return ",\"text\":\"" + s + "\",\"sum\":" + num(sum);
}
// one event; what its answer is (1: null, 0: an error, -1: none, -2: not said)
std::string event(Cl &c, int &want)
{
    auto mark = [&](int f, const char *act) { uint64_t n = ++R->serial; c.marks.push_back(n); want = 1; return std::string("{\"action\":\"") + act + "\",\"filterId\":" + num(f) + ",\"params\":{\"serial\":" + num(n) + ",\"value\":" + num(choose(W, 100)) + text(c) + "}}"; };
    switch (choose(W, 12)) {
    case 0: case 1: case 2: return mark(R->heads[choose(W, 2)], "mark");
    case 3: return mark(R->heads[choose(W, 2)], "strict");
    case 4: { int id = c.own + choose(W, 3); bool ok = !c.has.count(id); c.has.insert(id); want = ok; return "{\"action\":\"createFilter\",\"params\":{\"id\":" + num(id) + ",\"type\":\"" + (chance(W, 1, 2) ? "receiver" : "videoDecoder") + "\"}}"; }
    case 5: { int id = c.own + choose(W, 3); bool ok = c.has.count(id); c.has.erase(id); want = ok; return "{\"params\":{\"id\":" + num(id) + "},\"action\":\"removeFilter\"}"; }
    case 6: c.state = true; want = -1; return "{\"action\":\"getState\",\"params\":{}}";
    case 7: want = 0; return "{\"action\":\"nonsense\",\"params\":{\"a\":[1,2,{}]}}";
    case 8: want = 0; return "{\"action\":\"mark\"}";
    case 9: want = 0; return "{\"action\":\"mark\",\"filterId\":" + num(90000 + choose(W, 10)) + ",\"params\":{}}";
    case 10: want = 1; return "{\"action\":\"refuse\",\"filterId\":" + num(R->heads[0]) + ",\"params\":{\"text\":\"" + pad(choose(W, 40)) + "\"}}";
    default: want = 0; return "{\"action\":\"createPath\",\"params\":{\"id\":5,\"orgFilterId\":88888,\"dstFilterId\":1,\"orgWriterId\":-1,\"dstReaderId\":-1,\"midFiltersIds\":[]}}";
    }
}
// a value of an unexpected type
std::string odd() { static const char *o[] = {"1", "\"a\"", "[]", "{}", "null", "true", "[1,[2]]", "{\"action\":5,\"params\":{}}", "{\"action\":\"createFilter\",\"params\":[]}", "{\"action\":\"createFilter\",\"params\":7}", "{\"action\":\"createFilter\",\"params\":{\"id\":-100,\"type\":{}}}", "{\"action\":\"createPath\",\"params\":{\"id\":{},\"orgFilterId\":[],\"dstFilterId\":\"x\",\"orgWriterId\":null,\"dstReaderId\":1,\"midFiltersIds\":3}}", "{\"action\":\"removePath\",\"params\":{\"id\":\"abc\"}}", "{\"action\":\"getState\",\"params\":null}", "{\"action\":{},\"params\":{},\"filterId\":1}", "{\"action\":\"strict\",\"params\":{\"serial\":{},\"value\":[]},\"filterId\":1}", "{\"action\":\"strict\",\"params\":5,\"filterId\":1}", "{\"action\":\"mark\",\"params\":[],\"filterId\":1}", "{\"action\":\"mark\",\"params\":{\"serial\":\"x\"},\"filterId\":1,\"delay\":\"y\"}", "{\"action\":\"removeFilter\",\"params\":{\"id\":[]}}", "{\"action\":\"createFilter\",\"params\":{\"type\":\"receiver\"}}", "{\"action\":\"stop\"}", "-2.5", "{\"a\":{\"b\":{\"c\":[[[[]]]]}}}"}; return o[choose(W, sizeof o / sizeof *o)]; }
void request(Cl &c)
{
    int n = 1 + choose(W, 6); std::string ev; for (int i = 0; i < n; i++) { if (i) ev += chance(W, 1, 4) ? ", \n" : ","; int w = -2; if (c.kind == JUNK && chance(W, 1, 2)) { ev += odd(); c.anyEvents = true; continue; } ev += event(c, w); if (w >= 0) c.want.push_back(w); }
    std::string pre = chance(W, 1, 6) ? "\"comment\":\"" + pad(choose(W, 60)) + "\"," : ""; c.req = "{" + pre + "\"events\":[" + ev + "]}";
    if (chance(W, 1, 10)) { size_t m = chance(W, 1, 2) ? LIMIT : range(W, 2000, LIMIT); if (c.req.size() + 14 < m) { std::string fill(m - c.req.size() - 14, 'z'); c.req = "{" + pre + "\"padding\":\"" + fill + "\",\"events\":[" + ev + "]}"; while (c.req.size() < m) c.req.insert(c.req.size() - 1, " "); if (c.req.size() == LIMIT) probe("largest_request"); } }
    if (chance(W, 1, 8) && c.req.size() < LIMIT - 8) c.req = std::string(1 + choose(W, 5), " \n\t\r"[choose(W, 4)]) + c.req;
    if (c.kind == BIG) { size_t m = LIMIT + 1 + (chance(W, 1, 2) ? choose(W, 4) : choose(W, 40000)); if (c.req.size() + 14 < m) { std::string fill(m - c.req.size() - 14, chance(W, 1, 2) ? 'z' : '{'); c.req = "{\"padding\":\"" + fill + "\",\"events\":[" + ev + "]}"; while (c.req.size() < m) c.req.insert(c.req.size() - 1, " "); } }
    if (c.kind == JUNK) switch (choose(W, 10)) {
    case 0: c.req = pad(1 + choose(W, 50)); c.marks.clear(); break; case 1: { std::string s; for (int i = 0, k = 1 + choose(W, 200); i < k; i++) s += (char)(1 + choose(W, 255)); c.req = s; c.marks.clear(); break; }
    case 2: c.req[choose(W, c.req.size())] = (char)(1 + choose(W, 255)); break; case 3: c.req = "{\"events\":" + odd() + "}"; c.marks.clear(); break; case 4: c.req = odd(); c.marks.clear(); break;
    case 5: { int d = 1 + choose(W, 150); std::string o, e; for (int i = 0; i < d; i++) { bool b = chance(W, 1, 2); o += b ? "[" : "{\"a\":"; e = (b ? "]" : "}") + e; } c.req = "{\"events\":[" + o + "1" + e + "]}"; c.marks.clear(); break; }
    case 6: c.req.erase(choose(W, c.req.size()), 1 + choose(W, 3)); break; case 7: c.req = "{\"events\":[" + ev + "],\"events\":[" + odd() + "]}"; break; default: c.certain = true; break; }
    if (c.kind == TRAIL) c.req += chance(W, 1, 2) ? "\r\n" : c.req;
}
void reads(Cl &c, size_t max) { std::string s = simnet::client_read(*c.c, max); c.reply += s; }
void client(Cl &c)
{
    c.start = now_ns(); bool again = false; sleep_us(range(W, 0, 3000000)); c.start = now_ns();
    for (int64_t d = 200000; !(c.c = simnet::connect(PORT)); d = std::min<int64_t>(d * 2, 1600000)) { again = true; sleep_us(d); if (now_ns() - c.start > 400000000000LL) violation("no-service", "client %d cannot connect: nobody accepts connections", c.no); }
    if (again) probe("connected_late"); simnet::Conn &n = *c.c; c.connected = now_ns(); c.tried = true; log("client %d (%s) is connection %d, %zu bytes, %zu answers", c.no, kname[c.kind], n.id, c.req.size(), c.want.size());
    if (chance(W, 1, 3)) n.window = 200 + choose(F, 3000);
    int pieces = chance(W, 1, 2) ? 1 : 2 + choose(W, chance(W, 1, 4) ? 30 : 4); size_t pos = 0, cut = c.req.size(); bool full = true;
    if (c.kind == STALL || c.kind == HALF || ((c.kind == RESET || c.kind == EARLY) && chance(F, 1, 2))) { cut = c.kind == STALL || c.kind == RESET || c.kind == EARLY ? choose(F, c.req.size()) : chance(F, 1, 2) ? c.req.size() : choose(F, c.req.size()); full = cut == c.req.size(); }
    if (c.kind == SILENT) { cut = 0; full = false; }
    int64_t gap = c.kind == STALL ? 1000000 : 900000 / pieces;                       // a good client needs less than a second
    for (int i = 0; i < pieces && pos < cut; i++) { size_t m = i + 1 == pieces ? cut - pos : choose(W, cut - pos + 1); if (m) simnet::client_send(n, c.req.substr(pos, m)); pos += m; if (i + 1 < pieces) sleep_us(range(W, 0, gap)); else break; }
    if (full) probe("complete_request");
    switch (c.kind) {
    case RESET: sleep_us(chance(W, 1, 2) ? choose(W, 3000) : choose(W, 3000000)); reads(c, 100000); fault("client_resets"); simnet::client_reset(n); c.end = now_ns(); c.done = true; return;
    case EARLY: sleep_us(chance(W, 1, 2) ? choose(W, 3000) : choose(W, 1000000)); fault("client_closes_early"); simnet::client_close(n); c.done = true; return;
    case HALF: fault("client_half_closes"); simnet::client_shutdown(n); break;
    case STALL: fault("client_stalls"); break; case SILENT: fault("client_silent"); break;
    case SLOW: { fault("client_reads_late"); n.window = 1 + choose(F, 100); sleep_us(range(F, 500000, 8000000)); break; }
    default: break;
    }
    log("client %d sent %zu bytes: %.300s", c.no, pos, c.req.c_str());
    // a good client reads at least 20 kB/s
    bool patient = c.kind != STALL && c.kind != SILENT; int64_t lim = patient ? 0 : now_ns() + range(F, 1, 20) * 1000000000LL; size_t got = 0; int64_t first = 0;
    while (true) {
        size_t before = c.reply.size(); reads(c, c.kind == SLOW ? 1 + choose(F, 50) : 64 + n.window / 2 + choose(W, 20000)); got += c.reply.size() - before; if (got && !first) first = now_ns(); if (n.eof() || n.rstOut) { c.eof = true; break; } if (lim && now_ns() > lim) break;
        if (patient && now_ns() - c.connected > 300000000000LL) violation("no-service", "connection %d (%s client) is not closed %lld s after it was made", n.id, kname[c.kind], (long long)(now_ns() - c.connected) / 1000000000);
        sleep_us(c.kind == SLOW ? 1 + choose(F, 30000) : before != c.reply.size() ? 100 + choose(W, 400) : 500 + choose(W, 2000)); }
    log("client %d got %.200s", c.no, c.reply.c_str()); c.end = now_ns(); simnet::client_close(n); c.done = true;
}
void verify(Cl &c, int64_t bound, bool calm)
{
    pm::World &w = *pm::G; bool good = c.kind == GOOD || (c.kind == HALF && c.c->read + c.c->in.size() == c.req.size() && c.req.size() <= LIMIT) || (c.kind == JUNK && c.certain);
    auto times = [&](uint64_t m) { auto it = w.marks.find(m); return it == w.marks.end() ? 0 : it->second.first; };
    for (uint64_t m : c.marks) { int t = times(m); if (t > 1) violation("executed-twice", "event %llu of the request of connection %d is executed %d times", (unsigned long long)m, c.c->id, t); }
    if (!good) {
        bool complete = c.c->read >= c.req.size(); size_t ex = 0; for (uint64_t m : c.marks) ex += times(m);
        if (!complete && ex && c.kind != TRAIL) violation("executed-incomplete", "%zu events of a request are executed of which %llu of %zu bytes arrived", ex, (unsigned long long)c.c->read, c.req.size());
        if (c.kind == BIG && ex && ex != c.marks.size()) violation("executed-partly", "%zu of %zu events of a request that is too long are executed", ex, c.marks.size());
        if (!c.reply.empty() && c.eof && !c.c->rstOut && c.kind != SLOW && !parse(c.reply).ok) violation("reply-broken", "connection %d (%s client) gets an answer of %zu bytes that is no JSON object", c.c->id, kname[c.kind], c.reply.size());
        if (c.kind == SLOW && c.eof && !c.c->rstOut && !c.marks.empty() && complete && ex != c.marks.size()) violation("not-executed", "%zu of %zu events of the complete request of connection %d are executed", ex, c.marks.size(), c.c->id);
        return;
    }
    if (c.c->srvClosed && !c.c->accepted) { probe("connection_aborted"); return; }       // by a fault
    for (uint64_t m : c.marks) if (times(m) != 1) violation("not-executed", "event %llu of the complete request of connection %d is not executed", (unsigned long long)m, c.c->id);
    if (c.c->rstOut) violation("reply-lost", "connection %d is reset by the server", c.c->id);
    if (!c.eof) violation("not-closed", "connection %d is not closed", c.c->id); Rep r = parse(c.reply); if (!r.ok) violation("reply-broken", "connection %d gets an answer of %zu bytes that is no JSON object: %.60s", c.c->id, c.reply.size(), c.reply.c_str());
    if (c.kind == JUNK && c.anyEvents) { size_t n = 0; for (int x : r.errors) n += !x; if (r.errors.size() < c.want.size()) violation("reply-short", "connection %d gets %zu results for %zu events", c.c->id, r.errors.size(), c.want.size()); }
    else if (r.errors != c.want) { std::string a, b; for (int x : r.errors) a += x ? "+" : "-"; for (int x : c.want) b += x ? "+" : "-"; violation("reply-wrong", "connection %d gets the results %s, expected %s", c.c->id, a.c_str(), b.c_str()); }
    if (c.state && (!r.filters || !r.paths)) violation("reply-wrong", "connection %d asks for the state and does not get it", c.c->id);
    if (c.end - c.connected > bound) violation("no-service", "connection %d is served after %lld ms, the bound is %lld ms", c.c->id, (long long)(c.end - c.connected) / 1000000, (long long)bound / 1000000);
    R->served++; probe("served");
}
void ctl(bool gentle)
{
    warm(); pm::stream_info(); signal(SIGPIPE, SIG_DFL); simnet::clear(); int ep = track_begin();
    {
        Run run; R = &run; pm::World world; pm::G = &world; world.slow = chance(W, 1, 4) ? 1 : 10; set_hw_threads(1 + choose(W, 2)); Sched sc = random_sched(true, true); sc.stall_max_us = std::min<uint32_t>(sc.stall_max_us, sc.access_gap && sc.access_gap < 2000 ? 100 : 20000); if (sc.access_gap && sc.access_gap < 12 && sc.stall_den) sc.stall_den = 40; configure(sc);   // the server needs no second for 16 kB
        set_step_limit(80000000);
        simnet::short_den = chance(F, 1, 2) ? 1 + choose(F, 6) : 0; static const uint32_t ed[] = {0, 0, 30, 6}; simnet::eintr_den = ed[choose(F, 4)]; static const uint32_t fd[] = {0, 0, 12, 4}; simnet::fault_den = fd[choose(F, 4)]; if (gentle) simnet::eintr_den = simnet::fault_den = 0;
        Controller *ctrl; { Sut u; PipelineManager::getInstance(1 + choose(W, 3)); ctrl = Controller::getInstance(); if (ctrl->pipelineManager() != PipelineManager::getInstance()) violation("state", "the controller uses another pipeline"); }
        auto op = [&](const std::string &a, Jzon::Object p) { Jzon::Object e, out; e.Add("action", a); e.Add("params", p); { Sut u; PipelineManager::getInstance()->processEvent(e, out); } };
        for (int k = 0; k < 2; k++) { Jzon::Object p; p.Add("id", 1 + k); p.Add("type", "receiver"); op("createFilter", p); run.heads[k] = 1 + k; }
        { Jzon::Object p; p.Add("id", 3); p.Add("type", "transmitter"); op("createFilter", p); Jzon::Object q; Jzon::Array m; q.Add("id", 0); q.Add("orgFilterId", 1); q.Add("dstFilterId", 3); q.Add("orgWriterId", 1); q.Add("dstReaderId", 1); q.Add("midFiltersIds", m); op("createPath", q); } if (world.created() != 3) give_up("no pipeline");
        int n = 3 + choose(W, 8); auto add = [&](Kind k) { Cl *c = new Cl; c->no = run.cl.size(); c->kind = k; c->own = 100 + c->no * 10; run.cl.emplace_back(c); request(*c); return c; };
        static const Kind ks[] = {GOOD, GOOD, GOOD, STALL, SLOW, RESET, HALF, JUNK, JUNK, BIG, EARLY, SILENT, TRAIL}; int tries = 0;
        for (int i = 0; i < n; i++) add(gentle ? GOOD : ks[choose(W, 13)]);
        bool up = false; int srv = spawn("server", [&] {
            for (;; tries++) { bool ok; { Sut u; ok = ctrl->createSocket(PORT); } if (ok) break; if (!simnet::failed) violation("no-socket", "the listening socket cannot be made"); if (!simnet::fds.empty()) violation("descriptor-left", "%zu descriptors are left after the listening socket could not be made", simnet::fds.size()); sleep_us(100000); if (tries > 3) simnet::fault_den = 0; }
            up = true; while (!run.stop) { Sut u; if (!ctrl->listenSocket()) continue; if (!ctrl->readAndParse()) continue; ctrl->processRequest(); }
            Sut u; ctrl->stopAndCloseSocket(); });
        std::vector<int> f; for (auto &c : run.cl) { Cl *p = c.get(); f.push_back(spawn("client", [p] { client(*p); })); } for (int x : f) join(x);
        // faults end; a last client has to be served soon
        stop_disturbing(); simnet::fault_den = simnet::eintr_den = 0; sleep_us(range(W, 0, 2000000)); Cl *last = add(GOOD); int64_t pendingBefore = simnet::waiting.size() + simnet::conn_fds(); client(*last);
        sleep_us(6000000); if (int k = simnet::conn_fds()) violation("connection-left", "%d connections are still open on the server although every client has gone", k);
        int64_t bound = 15000000000LL; for (auto &c : run.cl) bound += c->kind == GOOD ? 3500000000LL : 6000000000LL;
        for (auto &c : run.cl) verify(*c, c.get() == last ? 6000000000LL + pendingBefore * 6000000000LL : bound, c.get() == last);
        run.stop = true; join(srv); if (!simnet::fds.empty()) violation("descriptor-left", "%zu descriptors are left at the end", simnet::fds.size());
        state(run.served * 20 + simnet::accepted_total); nontrivial(run.served > 1 || (run.served && run.cl.size() > 3)); { Sut u; PipelineManager::destroyInstance(); Controller::destroyInstance(); }
        for (auto &o : world.objs) if (o->alive) violation("filter-left", "a filter is left"); R = nullptr; pm::G = nullptr;
    }
    simnet::clear(); std::string leak; if (uint64_t n = live_in_epoch(ep, &leak)) violation("leak", "%llu blocks are left: %s", (unsigned long long)n, leak.c_str());
}
}
SCENARIO(ctl, "the control server and good, bad and broken clients") { ctl(false); }
SCENARIO(ctl_good, "the control server and good clients only") { ctl(true); }
