// Driver: explores seeds, gates, minimises and replays violations.
#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <unordered_set>
using namespace sim;
namespace sim {
void set_property(const char *p); void add_opt(const char *o);
static std::vector<Scenario> &scens() { static std::vector<Scenario> v; return v; }
void register_scenario(const Scenario &s) { scens().push_back(s); }
}
static const Scenario *find(const std::string &n) { for (auto &s : scens()) if (n == s.name) return &s; return nullptr; }
static double rnow() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Outcome { int status; std::string cls, msg; uint64_t hash, ihash, steps; Choices ch; };
static bool g_quiet = true;
static Outcome run(const Choices &c, const Scenario &s, bool trace = false, bool keep = false)
{
    Result *r = res;
    r->status = ST_RUNNING; r->cls[0] = r->msg[0] = 0; r->hash = r->ihash = r->steps = r->switches = r->syncs = 0; r->vtime = 0;
    r->nW = r->nF = r->nS = r->nstates = r->nfaults = r->nprobes = r->nknown = 0; r->nontrivial = 0; r->overflow = 0; r->tracelen = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        if (g_quiet) { int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); }
        run_in_child(c, s, trace);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    if (r->status == ST_RUNNING) { o.status = ST_INTERNAL; char b[100]; snprintf(b, sizeof b, "child ended with wait status 0x%x", st); o.msg = b; }
    else { o.status = r->status; o.cls = r->cls; o.msg = r->msg; }
    o.hash = r->hash; o.ihash = r->ihash; o.steps = r->steps;
    if (keep) { o.ch.replay = true; o.ch.seed = c.seed; o.ch.W.assign(r->Wv, r->Wv + r->nW); o.ch.F.assign(r->Fv, r->Fv + r->nF); o.ch.S.assign(r->Sv, r->Sv + r->nS); }
    return o;
}
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

static std::string traits(const std::string &prop, const Scenario &s, const Choices &c, const Outcome &o)
{
    std::ostringstream f;
    f << "lmsim-replay 1\nproperty " << prop << "\nscenario " << s.name << "\nseed " << c.seed << "\nclass " << o.cls << "\nhash " << std::hex << o.hash << std::dec << "\n";
    f << "W"; for (auto v : c.W) f << ' ' << v; f << "\nF"; for (auto v : c.F) f << ' ' << v; f << "\nS"; for (auto &d : c.S) f << ' ' << d.step << ':' << d.val; f << "\n";
    f << "message " << o.msg << "\n";
    return f.str();
}
static bool load(const std::string &path, std::string &prop, std::string &scen, std::string &cls, uint64_t &hash, Choices &c)
{
    std::ifstream f(path); if (!f) return false; std::string line;
    if (!std::getline(f, line) || line != "lmsim-replay 1") return false;
    c = Choices(); c.replay = true;
    while (std::getline(f, line)) {
        std::istringstream l(line); std::string k; l >> k;
        if (k == "property") l >> prop; else if (k == "scenario") l >> scen; else if (k == "seed") l >> c.seed; else if (k == "class") l >> cls;
        else if (k == "hash") l >> std::hex >> hash; else if (k == "W" || k == "F") { uint32_t v; while (l >> v) (k == "W" ? c.W : c.F).push_back(v); }
        else if (k == "S") { std::string t; while (l >> t) { SDec d; size_t p = t.find(':'); d.step = strtoull(t.c_str(), 0, 10); d.val = strtoul(t.c_str() + p + 1, 0, 10); c.S.push_back(d); } }
    }
    return true;
}
static Outcome minimise(const Scenario &s, Choices best, const std::string &cls, int &runs, double budget)
{
    double end = rnow() + budget; int maxruns = 600; runs = 0;
    Outcome bo = run(best, s, false, true); best = bo.ch;
    auto ok = [&](const Choices &c, Outcome &o) { runs++; o = run(c, s, false, true); return o.status == ST_VIOLATION && o.cls == cls; };
    auto left = [&]() { return runs < maxruns && rnow() < end; };
    bool changed = true; Outcome o;
    auto accept = [&](Outcome &o) { best = o.ch; bo = o; while (!best.W.empty() && best.W.back() == 0) best.W.pop_back(); while (!best.F.empty() && best.F.back() == 0) best.F.pop_back(); changed = true; };
    while (changed && left()) {
        changed = false;
        { Choices t = best; t.F.clear(); if (!best.F.empty() && left() && ok(t, o)) accept(o); }
        { Choices t = best; t.S.clear(); if (!best.S.empty() && left() && ok(t, o)) accept(o); }
        for (size_t ch = best.S.size() / 2; ch >= 1 && left(); ch /= 2) for (size_t i = 0; i < best.S.size() && left();) {
            Choices t = best; t.S.erase(t.S.begin() + i, t.S.begin() + std::min(best.S.size(), i + ch));
            size_t before = best.S.size();
            if (ok(t, o) && o.ch.S.size() < before) accept(o); else i += ch; }
        for (size_t ch = best.F.size() / 2; ch >= 1 && left(); ch /= 2) for (size_t i = 0; i < best.F.size() && left(); i += ch) {
            Choices t = best; bool any = false; for (size_t k = i; k < best.F.size() && k < i + ch; k++) { if (t.F[k]) any = true; t.F[k] = 0; }
            if (any && ok(t, o)) accept(o); }
        for (size_t ch = best.W.size() / 2; ch >= 1 && left(); ch /= 2) for (size_t i = 0; i < best.W.size() && left(); i += ch) {
            Choices t = best; bool any = false; for (size_t k = i; k < best.W.size() && k < i + ch; k++) { if (t.W[k]) any = true; t.W[k] = 0; }
            if (any && ok(t, o)) { accept(o); continue; }
            if (ch == 1 && left() && best.W[i] > 1) { t = best; t.W[i] /= 2; if (ok(t, o)) accept(o); } }
        for (size_t i = 0; i < best.S.size() && left(); i++) if (best.S[i].val >> 8) { Choices t = best; t.S[i].val = (t.S[i].val & 255); if (ok(t, o) && o.ch.S.size() <= best.S.size()) accept(o); }
    }
    bo.ch = best;
    return bo;
}
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return (z ^ (z >> 31)) & 0x7fffffffffffULL; }

int main(int argc, char **argv)
{
    res = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (res == MAP_FAILED) { perror("mmap"); return 2; }
    {   // the findings recorded for this tree: ../../known_findings.txt next to the executable
        char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); std::string d = n > 0 ? std::string(exe, n) : ""; for (int i = 0; i < 3 && !d.empty(); i++) d.erase(d.rfind('/'));
        std::ifstream k(d + "/known_findings.txt"); std::string l; while (std::getline(k, l)) { size_t p = l.find(" id="); if (l.compare(0, 8, "finding:") == 0 && p != std::string::npos) list_finding(l.substr(p + 4, l.find(' ', p + 4) - p - 4).c_str()); }
    }
    std::map<std::string, std::string> a; std::string cmd = argc > 1 ? argv[1] : "list"; std::string pos;
    for (int i = 2; i < argc; i++) { std::string k = argv[i]; if (k.compare(0, 2, "--") == 0) { if (i + 1 < argc) a[k.substr(2)] = argv[++i]; } else pos = k; }
    { std::istringstream l(a["opts"]); std::string t; while (std::getline(l, t, ',')) if (!t.empty()) add_opt(strdup(t.c_str())); }
    std::string prop = a.count("property") ? a["property"] : ""; set_property(prop.c_str());
    if (cmd == "list") { for (auto &s : scens()) printf("%s\t%s\n", s.name, s.what); return 0; }
    if (cmd == "one") {
        const Scenario *s = find(a["scenario"]); if (!s) { fprintf(stderr, "no scenario\n"); return 2; }
        if (a.count("loud")) g_quiet = false;
        Choices c; c.seed = strtoull(a["seed"].c_str(), 0, 10); if (a.count("steps")) set_step_limit(strtoull(a["steps"].c_str(), 0, 10));
        Outcome o = run(c, *s, true, true);
        fwrite(res->trace, 1, res->tracelen, stdout);
        printf("status %d class %s hash %llx steps %llu switches %llu vtime %lld us nW %u nF %u nS %u\n%s\n", o.status, o.cls.c_str(), (unsigned long long)o.hash, (unsigned long long)o.steps, (unsigned long long)res->switches, (long long)res->vtime / 1000, res->nW, res->nF, res->nS, o.msg.c_str());
        for (unsigned i = 0; i < res->nfaults; i++) printf("fault %s %llu\n", res->faults[i].name, (unsigned long long)res->faults[i].n);
        for (unsigned i = 0; i < res->nprobes; i++) printf("probe %s %llu\n", res->probes[i].name, (unsigned long long)res->probes[i].n);
        return o.status == ST_VIOLATION ? 1 : o.status == ST_OK || o.status == ST_GIVEUP ? 0 : 2;
    }
    if (cmd == "replay") {
        std::string scen, cls, rp; uint64_t h = 0; Choices c;
        if (!load(pos, rp, scen, cls, h, c)) { fprintf(stderr, "cannot read %s\n", pos.c_str()); return 2; }
        set_property(rp.c_str());
        const Scenario *s = find(scen); if (!s) { fprintf(stderr, "no scenario %s\n", scen.c_str()); return 2; }
        Outcome o = run(c, *s, a.count("trace") > 0, false);
        if (a.count("trace")) fwrite(res->trace, 1, res->tracelen, stdout);
        printf("status %d class %s hash %llx\n%s\n", o.status, o.cls.c_str(), (unsigned long long)o.hash, o.msg.c_str());
        if (o.status == ST_VIOLATION && o.cls == cls && o.hash == h) { printf("REPRODUCED\n"); return 1; }
        if (o.status == ST_VIOLATION) { printf("DIFFERENT VIOLATION\n"); return 1; }
        printf("NOT REPRODUCED\n"); return o.status == ST_INTERNAL ? 2 : 0;
    }
    if (cmd != "explore") return 2;
    // scenarios: name:weight,name:weight
    std::vector<std::pair<const Scenario *, int>> sc; int tot = 0;
    { std::istringstream l(a["scenario"]); std::string t; while (std::getline(l, t, ',')) { size_t p = t.find(':'); int w = p == std::string::npos ? 1 : atoi(t.c_str() + p + 1); const Scenario *s = find(t.substr(0, p)); if (!s) { fprintf(stderr, "no scenario %s\n", t.c_str()); return 2; } sc.push_back({s, w}); tot += w; } }
    uint64_t base = strtoull(a["seed"].c_str(), 0, 10); long first = atol(a["first"].c_str()), stride = atol(a["stride"].c_str()), total = atol(a["runs"].c_str()); double tmax = atof(a["time"].c_str());
    int dupe = a.count("dupe") ? atoi(a["dupe"].c_str()) : 37; std::string out = a["out"];
    // known findings: class<TAB>substring lines
    std::vector<std::pair<std::string, std::string>> known; if (a.count("known")) { std::ifstream k(a["known"]); std::string l; while (std::getline(k, l)) { size_t p = l.find('\t'); if (p != std::string::npos) known.push_back({l.substr(0, p), l.substr(p + 1)}); } }
    std::unordered_set<uint64_t> ih, states; std::map<std::string, uint64_t> faults, probes, runsOf, knownHits, giveups; std::map<std::string, uint64_t> faultRuns;
    uint64_t runs = 0, okn = 0, gu = 0, viol = 0, nontriv = 0, steps = 0, switches = 0, internal = 0, rechecked = 0; int64_t vt = 0; std::string ierr, vjson; double t0 = rnow(); std::vector<std::string> samples; uint64_t ntdist = 0; std::unordered_set<uint64_t> ntset;
    for (long i = first; i < total && rnow() - t0 < tmax; i += stride) {
        int w = i % tot; const Scenario *s = nullptr; for (auto &x : sc) { if (w < x.second) { s = x.first; break; } w -= x.second; }
        Choices c; c.seed = mix(base, (uint64_t)i * 131 + 7);
        Outcome o = run(c, *s, false, false);
        runs++; runsOf[s->name]++; steps += o.steps; switches += res->switches; vt += res->vtime;
        ih.insert(o.ihash); for (unsigned k = 0; k < res->nstates; k++) states.insert(res->states[k]);
        for (unsigned k = 0; k < res->nfaults; k++) { faults[res->faults[k].name] += res->faults[k].n; faultRuns[res->faults[k].name]++; }
        for (unsigned k = 0; k < res->nprobes; k++) probes[res->probes[k].name] += res->probes[k].n;
        for (unsigned k = 0; k < res->nknown; k++) knownHits[res->known[k].name] += res->known[k].n;
        if (res->nontrivial) { nontriv++; if (ntset.insert(o.ihash ^ o.hash).second) ntdist++; }
        if (samples.size() < 2 && res->nontrivial) { std::ostringstream j; j << "{\"scenario\":\"" << s->name << "\",\"seed\":" << c.seed << ",\"steps\":" << o.steps << ",\"switches\":" << res->switches << ",\"simulated_us\":" << res->vtime / 1000 << ",\"workload_choices\":" << res->nW << ",\"fault_choices\":" << res->nF << ",\"schedule_decisions\":" << res->nS << ",\"hash\":\"" << std::hex << o.hash << "\"}"; samples.push_back(j.str()); }
        if (o.status == ST_OK) okn++;
        else if (o.status == ST_GIVEUP) { gu++; giveups[o.msg]++; }
        else if (o.status == ST_INTERNAL) { internal++; ierr = std::string(s->name) + " seed " + std::to_string(c.seed) + ": " + o.msg; if (internal > 3) break; }
        else {
            Outcome o2 = run(c, *s, false, true);
            if (o2.status != ST_VIOLATION || o2.hash != o.hash || o2.cls != o.cls) { internal++; ierr = "nondeterministic: " + std::string(s->name) + " seed " + std::to_string(c.seed) + ": " + o.cls + "/" + o2.cls; break; }
            Outcome o3 = run(o2.ch, *s, false, true);
            if (o3.status != ST_VIOLATION || o3.hash != o.hash) { internal++; ierr = "explicit choices differ from seed: " + std::string(s->name) + " seed " + std::to_string(c.seed) + " " + o.cls + "/" + o3.cls + " " + o3.msg; break; }
            bool isk = false; for (auto &k : known) if (k.first == o.cls && o.msg.find(k.second) != std::string::npos) { knownHits[k.first + "|" + k.second]++; isk = true; break; }
            if (isk) continue;
            int mr = 0; Outcome m = minimise(*s, o3.ch, o.cls, mr, a.count("mintime") ? atof(a["mintime"].c_str()) : 40);
            // final run of the minimised choices, traced
            Outcome f1 = run(m.ch, *s, true, true); std::string tr(res->trace, res->tracelen);
            Outcome f2 = run(m.ch, *s, false, true);
            if (f1.status != ST_VIOLATION || f1.hash != f2.hash) { internal++; ierr = "minimised run differs"; break; }
            std::string path = out + ".replay"; { std::ofstream f(path); f << traits(prop, *s, m.ch, f1); size_t lim = 60000; if (tr.size() > lim) tr = "...\n" + tr.substr(tr.size() - lim); std::istringstream t(tr); std::string l; while (std::getline(t, l)) f << "# " << l << "\n"; }
            std::ostringstream j; j << "{\"scenario\":\"" << s->name << "\",\"seed\":" << c.seed << ",\"class\":" << jstr(f1.cls) << ",\"message\":" << jstr(f1.msg) << ",\"original_message\":" << jstr(o.msg) << ",\"replay\":" << jstr(path) << ",\"hash\":\"" << std::hex << f1.hash << std::dec << "\",\"minimise_runs\":" << mr << ",\"choices\":[" << o3.ch.W.size() << "," << o3.ch.F.size() << "," << o3.ch.S.size() << "],\"min_choices\":[" << m.ch.W.size() << "," << m.ch.F.size() << "," << m.ch.S.size() << "],\"run\":" << i << ",\"after_s\":" << rnow() - t0 << "}";
            vjson = j.str(); viol++; break;
        }
        if (dupe && (long)(runs % dupe) == 1) { Outcome o2 = run(c, *s, false, false); rechecked++; if (o2.hash != o.hash || o2.status != o.status || o2.ihash != o.ihash) { internal++; ierr = "nondeterministic run: " + std::string(s->name) + " seed " + std::to_string(c.seed); break; } }
    }
    std::ofstream f(out);
    auto mapj = [&](std::map<std::string, uint64_t> &m) { std::string s = "{"; for (auto &x : m) { if (s.size() > 1) s += ","; s += jstr(x.first) + ":" + std::to_string(x.second); } return s + "}"; };
    f << "{\"runs\":" << runs << ",\"ok\":" << okn << ",\"giveup\":" << gu << ",\"internal\":" << internal << ",\"internal_msg\":" << jstr(ierr) << ",\"violations\":" << viol << ",\"violation\":" << (vjson.empty() ? "null" : vjson)
      << ",\"nontrivial\":" << nontriv << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"vtime_ns\":" << vt << ",\"rechecked\":" << rechecked << ",\"wall\":" << rnow() - t0 << ",\"faults\":" << mapj(faults) << ",\"fault_runs\":" << mapj(faultRuns) << ",\"probes\":" << mapj(probes) << ",\"scenarios\":" << mapj(runsOf) << ",\"known\":" << mapj(knownHits) << ",\"giveups\":" << mapj(giveups) << ",\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << samples[i];
    f << "]}\n"; f.close();
    auto dump = [&](const std::string &p, std::unordered_set<uint64_t> &s) { std::ofstream b(p, std::ios::binary); for (auto v : s) b.write((const char *)&v, 8); };
    dump(out + ".ih", ih); dump(out + ".st", states); dump(out + ".nt", ntset);
    return 0;
}
