#include "internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <dlfcn.h>
#include <ucontext.h>
#include <cxxabi.h>
#include <new>

extern char __libc_single_threaded;

namespace sim {

Result *res = nullptr;
bool active = false;
const int64_t WALL_EPOCH_NS = 1500000000LL * 1000000000LL;
static const char *g_property = "";
static std::vector<std::string> *g_opts;
void set_property(const char *p) { g_property = strdup(p); }
const char *property() { return g_property; }
void add_opt(const char *o) { if (!g_opts) g_opts = new std::vector<std::string>; g_opts->push_back(o); }
bool has_opt(const char *n) { if (g_opts) for (auto &o : *g_opts) if (o == n) return true; return false; }

// ---------------------------------------------------------------------------- PRNG
struct Rng { uint64_t s;
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)(next() % n); }
};
static Rng rngW, rngF, rngS, rngR;
static bool replaying, tracing;
static std::vector<uint32_t> *repW, *repF; static std::vector<SDec> *repS; static size_t repSi;

static uint64_t H = 1469598103934665603ULL, IH = 1469598103934665603ULL;
static inline void hmix(uint64_t &h, uint64_t v) { h ^= v; h *= 1099511628211ULL; h ^= h >> 29; }
void hash(uint64_t v) { hmix(H, v); }

uint32_t choose(Stream s, uint32_t n)
{
    if (n == 0) n = 1;
    uint32_t &cnt = s == W ? res->nW : res->nF; uint32_t *buf = s == W ? res->Wv : res->Fv;
    uint32_t v;
    if (replaying) { auto &r = s == W ? *repW : *repF; v = cnt < r.size() ? r[cnt] % n : 0; }
    else v = (s == W ? rngW : rngF).below(n);
    if (cnt < (uint32_t)MAXW) buf[cnt++] = v; else { res->overflow = 1; give_up("choice log full"); }
    hmix(H, v);
    return v;
}
bool chance(Stream s, uint32_t num, uint32_t den)
{
    if (!num || !den) return false;
    // biased so that value 0 means "no"
    uint32_t v;
    uint32_t &cnt = s == W ? res->nW : res->nF; uint32_t *buf = s == W ? res->Wv : res->Fv;
    if (replaying) { auto &r = s == W ? *repW : *repF; v = cnt < r.size() ? (r[cnt] ? 1 : 0) : 0; }
    else v = (s == W ? rngW : rngF).below(den) < num ? 1 : 0;
    if (cnt < (uint32_t)MAXW) buf[cnt++] = v; else { res->overflow = 1; give_up("choice log full"); }
    hmix(H, v);
    return v;
}
uint32_t range(Stream s, uint32_t lo, uint32_t hi) { return hi <= lo ? lo : lo + choose(s, hi - lo + 1); }

// ---------------------------------------------------------------------------- fibers
enum FState { RUN, B_MUTEX, B_COND, B_JOIN, B_SLEEP, B_GUARD, B_STALL, DONE };
struct Fiber {
    int id; FState st; void *sp; void *waitobj; int64_t deadline; bool dlwall; bool timedout; bool signalled;
    int np; int saved_errno; void *eh[2]; void *(*fn)(void *); void *arg; void *ret; std::function<void()> *hfn;
    bool detached, joined; char name[24]; uint32_t prio; FState prestall; void *callstack[64]; int depth;
};
static const int MAXF = 64;
static Fiber fib[MAXF]; static int nfib; static Fiber *cur;
static char *stack_base = (char *)0x200000000000ULL; static const size_t STK = 1 << 20;
static int64_t now; static int64_t walloff;
static Sched cfg; static bool disturb = true;
static bool fairMode;
static uint64_t steps, nextPre, stepLimit = 60000000ULL, lastSwitchStep;
static uint64_t pctChange[16]; static int pctN;
static int hwthreads = 4;

int64_t now_ns() { return now; }
int64_t wall_ns() { return WALL_EPOCH_NS + now + walloff; }
void step_wall_clock(int64_t d) { walloff += d; log("clock step %+lld us", (long long)(d / 1000)); }
int self() { return cur ? cur->id : 0; }
int hw_threads() { return hwthreads; }
void set_hw_threads(int n) { hwthreads = n; }
bool fiber_ctx() { return active && cur; }
void set_step_limit(uint64_t n) { stepLimit = n; }

extern "C" void sim_switch(void **from, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8,%rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

static void schedule();      // current is not runnable: pick another
static void fiber_main();

static void switch_to(Fiber *f)
{
    if (f == cur) return;
    Fiber *o = cur;
    res->switches++; lastSwitchStep = steps;
    hmix(IH, (uint64_t)o->id * 64 + f->id); hmix(IH, o->depth > 0 ? (uint64_t)(uintptr_t)o->callstack[(o->depth - 1) & 63] : 0);
    hmix(H, 0x5157 + f->id);
    o->saved_errno = errno;
    void **g = (void **)abi::__cxa_get_globals(); o->eh[0] = g[0]; o->eh[1] = g[1];
    cur = f;
    sim_switch(&o->sp, f->sp);
    // resumed
    g = (void **)abi::__cxa_get_globals(); g[0] = cur->eh[0]; ((unsigned *)&g[1])[0] = ((unsigned *)&cur->eh[1])[0];
    errno = cur->saved_errno;
}

static int make_fiber(const char *name, void *(*fn)(void *), void *arg, std::function<void()> *hfn, int np)
{
    if (nfib >= MAXF) give_up("too many threads");
    Fiber *f = &fib[nfib]; memset(f, 0, sizeof *f);
    f->id = nfib++; f->st = RUN; f->deadline = -1; f->fn = fn; f->arg = arg; f->hfn = hfn; f->np = np;
    f->prio = rngS.below(1000000) + 1000; snprintf(f->name, sizeof f->name, "%s", name);
    char *s = stack_base + (size_t)f->id * (STK + 65536);
    void *m = mmap(s, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (m != s) { perror("stack mmap"); _exit(97); }
    uintptr_t top = (uintptr_t)(s + STK); top &= ~15ULL; top -= 64;
    void **sp = (void **)top;           // layout popped by sim_switch
    *--sp = 0;                          // fake return address keeps alignment
    *--sp = (void *)fiber_main;
    for (int i = 0; i < 6; i++) *--sp = 0;
    --sp; ((uint32_t *)sp)[0] = 0x1f80; ((uint32_t *)sp)[1] = 0x037f;
    f->sp = sp;
    return f->id;
}
static void fiber_main()
{
    void **g = (void **)abi::__cxa_get_globals(); g[0] = 0; ((unsigned *)&g[1])[0] = 0;
    Fiber *me = cur;
    if (me->hfn) (*me->hfn)(); else me->ret = me->fn(me->arg);
    me->np = 1;
    log("thread %d ends", me->id);
    me->st = DONE;
    schedule();
    abort();
}

static bool mutex_free(void *m);
static bool guard_free(void *g);
static bool runnable(Fiber *f)
{
    switch (f->st) {
    case RUN: return true;
    case B_MUTEX: return mutex_free(f->waitobj);
    case B_GUARD: return guard_free(f->waitobj);
    case B_COND: return f->signalled;
    case B_JOIN: return ((Fiber *)f->waitobj)->st == DONE;
    default: return false;
    }
}
static int64_t mono_deadline(Fiber *f) { return f->dlwall ? f->deadline - WALL_EPOCH_NS - walloff : f->deadline; }
static bool timer_due(Fiber *f)
{
    if (f->deadline < 0) return false;
    if (f->st != B_COND && f->st != B_SLEEP && f->st != B_STALL) return false;
    return mono_deadline(f) <= now;
}
static void take(Fiber *f)     // f was chosen: leave its blocked state
{
    if (f->st == B_STALL) { f->st = f->prestall; f->deadline = -1; }
    else if (f->st == B_COND) { f->timedout = !f->signalled; f->st = RUN; f->deadline = -1; }
    else if (f->st == B_SLEEP) { f->st = RUN; f->deadline = -1; }
    else f->st = RUN;
}
static int candidates(Fiber **out, bool self_too)
{
    int n = 0;
    for (int k = 1; k <= nfib; k++) {
        Fiber *f = &fib[(cur->id + k) % nfib];
        if (f == cur && !self_too) continue;
        if (f->st == DONE) continue;
        if (runnable(f) || timer_due(f)) out[n++] = f;
    }
    return n;
}
static const char *stname(FState s) { static const char *n[] = {"runnable", "mutex", "condition", "join", "sleep", "guard", "stalled", "done"}; return n[s]; }
static std::string fibers_text()
{
    std::string s;
    for (int i = 0; i < nfib; i++) if (fib[i].st != DONE) { char b[128]; snprintf(b, sizeof b, " [%d %s:%s]", i, fib[i].name, stname(fib[i].st)); s += b; }
    return s;
}

static void record_S(uint64_t step, uint32_t v)
{
    if (res->nS < (uint32_t)MAXS) { res->Sv[res->nS].step = step; res->Sv[res->nS].val = v; res->nS++; }
    else { res->overflow = 1; give_up("schedule log full"); }
}
static uint32_t replay_S()     // value recorded for exactly this step, or 0
{
    while (repSi < repS->size() && (*repS)[repSi].step < steps) repSi++;
    if (repSi < repS->size() && (*repS)[repSi].step == steps) { uint32_t v = (*repS)[repSi].val; record_S(steps, v); repSi++; return v; }
    return 0;
}
static inline void set_next_pre()
{
    if (replaying) { while (repSi < repS->size() && (*repS)[repSi].step <= steps) repSi++; nextPre = repSi < repS->size() ? (*repS)[repSi].step : ~0ULL; return; }
    nextPre = ~0ULL;
    if (cfg.access_gap) { // roughly geometric
        uint64_t g = 1; uint32_t r = rngS.below(16);
        g = 1 + rngS.below(cfg.access_gap * 2); if (r == 0) g *= 4;
        nextPre = steps + g;
    }
    for (int i = 0; i < pctN; i++) if (pctChange[i] > steps && pctChange[i] < nextPre) nextPre = pctChange[i];
}
// generic decision recorded in the schedule stream; 0 is the default
static uint32_t sched_choice(uint32_t n)
{
    steps++;
    uint32_t v;
    if (replaying) { v = replay_S(); if (n) v %= n; set_next_pre(); }
    else { v = rngS.below(n); if (v) record_S(steps, v); }
    return v;
}

// A run that gets long continues under a fair schedule without disturbances: only what does not end then is a violation.
static void go_fair()
{
    fairMode = true; stop_disturbing();
    cfg.pct_depth = 0; pctN = 0; cfg.sync_den = 4; cfg.access_gap = 2000; cfg.stall_den = 0;
    log("fair schedule from here on");
}
static void over_limit()
{
    if (steps > stepLimit) violation("no-progress", "step limit reached at %lld us:%s", (long long)now / 1000, fibers_text().c_str());
}

static void check_limits() // called at the same steps in a search and in its replay
{
    if (!fairMode && steps > stepLimit / 2) go_fair();
    over_limit();
}

static void schedule()
{
    Fiber *c[MAXF];
    for (;;) {
        int n = candidates(c, true);
        if (n == 0) {
            int64_t best = -1;
            for (int i = 0; i < nfib; i++) { Fiber *f = &fib[i]; if (f->st == DONE || f->deadline < 0) continue; int64_t d = mono_deadline(f); if (best < 0 || d < best) best = d < 0 ? 0 : d; }
            if (best < 0) violation("deadlock", "all threads are blocked:%s", fibers_text().c_str());
            if (best > now) now = best; else now += 1;
            continue;
        }
        Fiber *f;
        steps++; check_limits();
        if (n == 1) f = c[0];
        else {
            uint32_t v;
            if (replaying) { v = replay_S() % n; set_next_pre(); }
            else {
                if (cfg.pct_depth) { v = 0; for (int i = 1; i < n; i++) if (c[i]->prio > c[v]->prio) v = i; }
                else v = rngS.below(n);
                if (v) record_S(steps, v);
            }
            f = c[v];
        }
        take(f);
        if (f == cur) return;
        switch_to(f);
        return;
    }
}

// optional switch; value: 0 none, else (index+1) | stall_us << 8
static void apply_preempt(uint32_t v)
{
    if (!v) return;
    Fiber *c[MAXF]; int n = candidates(c, false);
    uint32_t stall = v >> 8;
    if (stall && disturb) {
        fault("thread_stall");
        cur->prestall = RUN; cur->st = B_STALL; cur->deadline = now + (int64_t)stall * 1000; cur->dlwall = false;
        schedule(); return;
    }
    if (n == 0) return;
    Fiber *f = c[((v & 255) - 1) % n];
    take(f);
    switch_to(f);
}
static uint32_t draw_preempt()
{
    uint32_t stall = 0;
    if (disturb && cfg.stall_den && rngS.below(cfg.stall_den) == 0 && cfg.stall_max_us) {
        uint32_t mx = cfg.stall_max_us; static const uint32_t div[] = {1000, 100, 10, 1};
        mx /= div[rngS.below(4)]; stall = 1 + rngS.below(mx ? mx : 1);
    }
    return (1 + rngS.below(200)) | (stall << 8);
}
static void pct_maybe()
{
    Fiber *c[MAXF]; int n = candidates(c, false); uint32_t best = 0;
    for (int i = 0; i < n; i++) if (c[i]->prio > cur->prio && (!best || c[i]->prio > c[best - 1]->prio)) best = i + 1;
    if (!best && n && steps - lastSwitchStep > 100000) best = 1 + rngS.below(n);
    if (best) { record_S(steps, best); apply_preempt(best); }
}
static void maybe_preempt_access()
{
    if (replaying) { uint32_t v = replay_S(); set_next_pre(); apply_preempt(v); return; }
    if (cfg.pct_depth) {
        bool hit = false; for (int i = 0; i < pctN; i++) if (pctChange[i] == steps) { cur->prio = i + 1; hit = true; }
        set_next_pre();
        if (hit) { pct_maybe(); return; }
        if (!cfg.access_gap) return;
        if (rngS.below(8)) return;
    }
    set_next_pre();
    Fiber *c[MAXF]; if (candidates(c, false) == 0 && !(disturb && cfg.stall_den)) return;
    uint32_t v = draw_preempt(); record_S(steps, v); apply_preempt(v);
}

void sync_point(const char *, const void *)
{
    if (!active || !cur) return;
    steps++; res->syncs++; now += cfg.sync_ns;
    if ((steps & 1023) == 0) check_limits();
    if (cur->np) return;
    if (replaying) { uint32_t v = replay_S(); set_next_pre(); apply_preempt(v); return; }
    if (cfg.pct_depth) { pct_maybe(); return; }
    if (cfg.sync_den && rngS.below(cfg.sync_den) == 0) {
        Fiber *c[MAXF]; if (candidates(c, false) == 0 && !(disturb && cfg.stall_den)) return;
        uint32_t v = draw_preempt(); record_S(steps, v); apply_preempt(v);
    }
}
void yield(const char *why)
{
    if (!active || !cur) return;
    int s = cur->np; cur->np = 0; sync_point(why); cur->np = s;
}

void configure(const Sched &s)
{
    cfg = s; pctN = 0;
    if (cfg.pct_depth) for (uint32_t i = 0; i < cfg.pct_depth && i < 16; i++) { uint32_t mag = 1u << (6 + rngS.below(13)); pctChange[pctN++] = steps + 1 + rngS.below(mag); }
    set_next_pre();
}
Sched random_sched(bool access_level, bool stalls)
{
    Sched s;
    static const uint32_t gaps[] = {0, 0, 2000, 300, 60, 12, 3}; static const uint32_t sd[] = {0, 8, 3, 2, 30};
    s.sync_den = sd[choose(W, 5)];
    s.access_gap = access_level ? gaps[choose(W, 7)] : 0;
    if (chance(W, 1, 4)) s.pct_depth = 1 + choose(W, 5);
    if (stalls) { static const uint32_t st[] = {0, 40, 10, 200}; s.stall_den = st[choose(W, 4)]; static const uint32_t sm[] = {200, 3000, 30000}; s.stall_max_us = sm[choose(W, 3)]; }
    static const uint32_t sp[] = {0, 20, 4}; s.spurious_den = sp[choose(W, 3)];
    static const uint32_t an[] = {2, 1, 20}; s.access_ns = an[choose(W, 3)];
    static const uint32_t sn[] = {300, 50, 3000}; s.sync_ns = sn[choose(W, 3)];
    configure(s);
    return s;
}
void stop_disturbing()
{
    disturb = false;
    for (int i = 0; i < nfib; i++) if (fib[i].st == B_STALL) fib[i].deadline = now;
}
bool disturbing() { return disturb; }

int spawn(const std::string &name, std::function<void()> fn)
{
    int id = make_fiber(name.c_str(), nullptr, nullptr, new std::function<void()>(fn), 1);
    log("spawn %d %s", id, name.c_str());
    return id;
}
void join(int id)
{
    Fiber *f = &fib[id];
    sync_point("join");
    if (f->st != DONE) { cur->st = B_JOIN; cur->waitobj = f; schedule(); }
}
static void block_until(int64_t dl, bool wall)
{
    cur->st = B_SLEEP; cur->deadline = dl; cur->dlwall = wall; schedule();
}
void sleep_us(int64_t us) { sync_point("sleep"); if (us < 0) us = 0; block_until(now + us * 1000, false); }
void wait_until(std::function<bool()> cond, int64_t max_us, int64_t poll_us)
{
    int64_t end = now + max_us * 1000;
    while (!cond() && now < end) sleep_us(poll_us);
}
bool wait_progress(std::function<bool()> cond, int64_t max_us, int64_t poll_us)
{
    wait_until(cond, max_us, poll_us); if (cond() || !disturb) return cond();
    // the stalls may have taken all of that time: once more without them
    stop_disturbing(); probe("waited_without_stalls"); wait_until(cond, max_us, poll_us); disturb = true; return cond();
}
bool all_others_blocked() { for (int i = 0; i < nfib; i++) if (&fib[i] != cur && fib[i].st != DONE && (runnable(&fib[i]) || timer_due(&fib[i]))) return false; return true; }

Sut::Sut() : saved(cur ? cur->np : 0) { if (cur) cur->np = 0; }
Sut::~Sut() { if (cur) cur->np = saved; }
Harness::Harness() : saved(cur ? cur->np : 0) { if (cur) cur->np = 1; }
Harness::~Harness() { if (cur) cur->np = saved; }

// ---------------------------------------------------------------------------- reports
static bool nohash;
static void vtrace(const char *fmt, va_list ap)
{
    char b[600]; int n = vsnprintf(b, sizeof b, fmt, ap); if (n >= (int)sizeof b) n = sizeof b - 1;
    if (!nohash) { for (int i = 0; i < n; i++) hmix(H, (unsigned char)b[i]); hmix(H, (uint64_t)now); }
    if (!tracing) return;
    char l[700]; int m = snprintf(l, sizeof l, "%10lld.%03lld t%d s%llu %s\n", (long long)now / 1000000, (long long)(now / 1000) % 1000, self(), (unsigned long long)steps, b);
    if (res->tracelen + m < TRACE) { memcpy(res->trace + res->tracelen, l, m); res->tracelen += m; }
}
void log(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap); }
static void bump(Named *a, uint32_t &n, const char *name)
{
    for (uint32_t i = 0; i < n; i++) if (!strcmp(a[i].name, name)) { a[i].n++; return; }
    if (n < MAXNAMES) { snprintf(a[n].name, sizeof a[n].name, "%s", name); a[n].n = 1; n++; }
}
void fault(const char *k) { bump(res->faults, res->nfaults, k); hmix(H, 77); for (const char *p = k; *p; p++) hmix(H, *p); if (tracing) { nohash = true; log("FAULT %s", k); nohash = false; } }
void probe(const char *k) { bump(res->probes, res->nprobes, k); }
static char listed[32][48]; static unsigned nlisted;
void list_finding(const char *k) { if (nlisted < 32) snprintf(listed[nlisted++], 48, "%s", k); }
bool known_finding(const char *k) { for (unsigned i = 0; i < nlisted; i++) if (!strcmp(listed[i], k)) { bump(res->known, res->nknown, k); return true; } return false; }
void state(uint64_t h) { h *= 0x9e3779b97f4a7c15ULL; h ^= h >> 31; if (!h) h = 1; if (res->nstates < MAXSTATES) res->states[res->nstates++] = h; }
void nontrivial(bool v) { res->nontrivial = v; }
void finish(Status st)
{
    active = false;
    if (tracing && getenv("SIM_STACK")) { nohash = true; for (int i = 0; i < nfib; i++) { char b[600]; int k = 0; for (int d = fib[i].depth - 1; d >= 0 && d > fib[i].depth - 12; d--) k += snprintf(b + k, sizeof b - k, " %p", fib[i].callstack[d & 63]); b[k] = 0; log("fiber %d %s:%s", i, stname(fib[i].st), b); } }
    res->hash = H; res->ihash = IH; res->steps = steps; res->vtime = now;
    res->status = st;
    _exit(0);
}
static void stack_text(char *o, size_t n)
{
    size_t k = 0; o[0] = 0;
    if (!cur) return;
    for (int d = cur->depth - 1; d >= 0 && d > cur->depth - 10 && d > cur->depth - 64; d--) {
        // callstack holds return addresses into the callers; the top entry names the caller of the innermost function
        int m = snprintf(o + k, n - k, "%s0x%llx", k ? "," : " @", (unsigned long long)(uintptr_t)cur->callstack[d & 63]);
        if (m < 0 || (size_t)m >= n - k) break; k += m;
    }
}
static uintptr_t g_fault_pc;
void violation(const char *cls, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    snprintf(res->cls, sizeof res->cls, "%s", cls);
    int n = vsnprintf(res->msg, sizeof res->msg - 600, fmt, ap); va_end(ap);
    if (n > (int)sizeof res->msg - 600) n = sizeof res->msg - 600;
    if (n < 0) n = 0;
    char st[500]; stack_text(st, sizeof st);
    if (g_fault_pc) snprintf(res->msg + n, sizeof res->msg - n, " pc=0x%llx", (unsigned long long)g_fault_pc), n = strlen(res->msg);
    snprintf(res->msg + n, sizeof res->msg - n, " (thread %d %s, %lld us)%s", self(), cur ? cur->name : "?", (long long)now / 1000, st);
    for (const char *p = cls; *p; p++) hmix(H, *p);
    if (tracing) { nohash = true; log("VIOLATION %s %s", cls, res->msg); }
    finish(ST_VIOLATION);
}
void end_ok() { finish(ST_OK); }
void give_up(const char *why) { snprintf(res->msg, sizeof res->msg, "%s", why); finish(ST_GIVEUP); }

// ---------------------------------------------------------------------------- heap
// Bump allocator with byte-exact shadow; freed memory is never handed out again within a run.
static char *const AR = (char *)0x100000000000ULL; static const size_t ARSZ = 64ULL << 30;
static unsigned char *const SH = (unsigned char *)0x180000000000ULL;   // AR>>3 based
static size_t ar_top; static uint64_t nlive, blive; static uint32_t epoch; static uint32_t alloc_fault_den;
struct Blk { uint64_t magic; uint64_t size; uint32_t epoch; uint32_t state; void *site; uint64_t id; uint64_t pad[3]; }; // 64 bytes
static const uint64_t MAGIC = 0x51e0b10c51e0b10cULL;
static uint64_t blkid;
void scrib(void *p, size_t n) { if (p) memset(p, 0xCD, n < 4096 ? n : 4096); }
bool in_arena(const void *p) { return (size_t)((char *)p - AR) < ARSZ; }
static inline unsigned char *shadow(const void *p) { return SH + ((size_t)((char *)p - AR) >> 3); }
void heap_init()
{
    void *m = mmap(AR, ARSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *s = mmap(SH, ARSZ >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != AR || s != (void *)SH) { perror("arena"); _exit(97); }
}
static void *ar_alloc(size_t n, size_t align, void *site)
{
    if (align < 16) align = 16;
    size_t total0 = ar_top;
    size_t user = (total0 + sizeof(Blk) + align - 1) & ~(align - 1);
    size_t end = (user + n + 15) & ~15ULL; end += 32;
    if (end > ARSZ || n > (4ULL << 30)) return nullptr;
    Blk *b = (Blk *)(AR + user - sizeof(Blk));
    b->magic = MAGIC; b->size = n; b->epoch = cur && !cur->np ? epoch : 0; b->state = 1; b->site = site; b->id = ++blkid;
    memset(shadow(AR + total0), 0xfa, (user - total0) >> 3);
    size_t full = n >> 3;
    unsigned char *sp = shadow(AR + user);
    // fresh shadow pages are zero already: only mark the tail
    if (n & 7) sp[full] = n & 7;
    size_t tail = (n + 7) >> 3; memset(sp + tail, 0xfa, ((end - user) >> 3) - tail);
    if (n >= (1 << 20)) { uintptr_t a = ((uintptr_t)(AR + user) + 4095) & ~4095ULL, e = (uintptr_t)(AR + user + n) & ~4095ULL; madvise((void *)a, e - a, MADV_HUGEPAGE); }
    ar_top = end; nlive++; blive += n;
    return AR + user;
}
static Blk *blk_of(const void *p) { Blk *b = (Blk *)((char *)p - sizeof(Blk)); return b->magic == MAGIC ? b : nullptr; }
static void ar_free(void *p, void *pc)
{
    Blk *b = blk_of(p);
    if (!b) { if (active) violation("bad-free", "free of %p which is not the start of a block pc=%p", p, pc); return; }
    if (b->state != 1) { if (active) violation("double-free", "block of %llu bytes freed twice", (unsigned long long)b->size); return; }
    b->state = 2; nlive--; blive -= b->size;
    size_t tail = (b->size + 7) >> 3;
    if (tail > (1 << 16)) { memset(shadow(p), 0xfd, tail); madvise((void *)(((uintptr_t)p + 4095) & ~4095ULL), b->size & ~4095ULL ? (b->size & ~4095ULL) - 4096 : 0, MADV_DONTNEED); }
    else memset(shadow(p), 0xfd, tail);
}
static const void *blk_find(const void *p) // nearest block start at or before p
{
    const char *q = (const char *)((uintptr_t)p & ~15ULL);
    for (int i = 0; i < (1 << 18) && in_arena(q - sizeof(Blk)); i++, q -= 16) if (blk_of(q)) return q;
    return nullptr;
}
static void bad_access(const void *p, size_t n, bool w, void *pc, unsigned char k)
{
    const char *base = (const char *)blk_find(p); Blk *b = base ? blk_of(base) : nullptr;
    g_fault_pc = (uintptr_t)pc;
    if (k == 0xfd) violation("use-after-free", "%s of %zu bytes at offset %ld in a freed block of %llu bytes", w ? "write" : "read", n, b ? (long)((char *)p - base) : -1, b ? (unsigned long long)b->size : 0);
    violation("heap-overflow", "%s of %zu bytes at offset %ld of a block of %llu bytes", w ? "write" : "read", n, b ? (long)((char *)p - base) : -1, b ? (unsigned long long)b->size : 0);
}
void check_access(const void *p, size_t n, bool w, void *pc)
{
    if (!in_arena(p) || !n) return;
    const char *a = (const char *)p;
    if ((size_t)(a - AR) + n > ar_top) { unsigned char k = (size_t)(a - AR) < ar_top ? 0xfa : 0xfa; bad_access(p, n, w, pc, k); }
    unsigned char *s = shadow(a), *e = shadow(a + n - 1);
    for (unsigned char *q = s; q < e; q++) if (*q) { // interior bytes must be fully addressable from their start
        bad_access(p, n, w, pc, *q);
    }
    unsigned char k = *e;
    if (k && (k >= 0x80 || ((uintptr_t)(a + n - 1) & 7) >= k)) bad_access(p, n, w, pc, k);
}
bool heap_is_live(const void *p) { const void *q = blk_find(p); Blk *b = q ? blk_of(q) : nullptr; return b && b->state == 1 && (size_t)((char *)p - (char *)q) < (b->size ? b->size : 1); }
uint64_t live_blocks() { return nlive; }
uint64_t live_bytes() { return blive; }
int track_begin() { return ++epoch; }
uint64_t live_in_epoch(int e, std::string *what)
{
    uint64_t n = 0; size_t o = 0; std::map<std::pair<uint64_t, void *>, int> m;
    // blocks are laid out one after another: walk them
    while (o < ar_top) {
        // header sits right before the user pointer; alignment padding may precede it
        Blk *b = (Blk *)(AR + o); if (b->magic != MAGIC) { o += 16; continue; }
        if (b->state == 1 && (int)b->epoch == e) { n++; if (what) m[{b->size, b->site}]++; if (getenv("SIM_LEAK")) { std::string h; for (size_t i = 0; i < std::min<size_t>(b->size, 48); i++) { unsigned char c = ((unsigned char *)(b + 1))[i]; h += c >= 32 && c < 127 ? (char)c : '.'; } log("left: %u bytes '%s'", (unsigned)b->size, h.c_str()); } }
        size_t user = o + sizeof(Blk); o = ((user + b->size + 15) & ~15ULL) + 32;
    }
    if (what) for (auto &x : m) { char t[96]; snprintf(t, sizeof t, "%s%dx%llu bytes @0x%llx", what->empty() ? "" : ", ", x.second, (unsigned long long)x.first.first, (unsigned long long)(uintptr_t)x.first.second); if (what->size() < 400) *what += t; }
    return n;
}
void set_alloc_fault(uint32_t den) { alloc_fault_den = den; }

// ---------------------------------------------------------------------------- child run
static void on_signal(int sig, siginfo_t *si, void *uc)
{
    g_fault_pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    if (!active) { if (res) { snprintf(res->msg, sizeof res->msg, "signal %d outside a run pc=0x%llx", sig, (unsigned long long)g_fault_pc); res->status = ST_INTERNAL; } _exit(96); }
    if (cur) cur->np = 1;
    uintptr_t a = (uintptr_t)si->si_addr;
    if (sig == SIGALRM) { snprintf(res->msg, sizeof res->msg, "real-time alarm at step %llu, simulated %lld us:%s", (unsigned long long)steps, (long long)now / 1000, fibers_text().c_str()); res->status = ST_INTERNAL; _exit(96); }
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "signal";
    violation("crash", "%s%s", n, sig == SIGSEGV ? (a < 65536 ? " null pointer" : " wild pointer") : "");
}
struct MainArg { const Scenario *s; };
void run_in_child(const Choices &c, const Scenario &s, bool trace)
{
    __libc_single_threaded = 0;
    static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}; for (int x : sigs) sigaction(x, &sa, nullptr);
    alarm(60);
    rngW.s = c.seed * 3 + 0x1111; rngF.s = c.seed * 5 + 0x2222; rngS.s = c.seed * 7 + 0x3333; rngW.next(); rngF.next(); rngS.next(); rngR.s = c.seed * 11 + 0x4444; rngR.next();
    replaying = c.replay; tracing = trace;
    repW = new std::vector<uint32_t>(c.W); repF = new std::vector<uint32_t>(c.F); repS = new std::vector<SDec>(c.S); repSi = 0;
    heap_init();
    static Fiber boot; cur = &boot; boot.id = MAXF;
    static const Scenario *sc; sc = &s;
    nfib = 0; nextPre = ~0ULL;
    Sched d; d.sync_den = 0; configure(d);
    make_fiber("main", nullptr, nullptr, new std::function<void()>([] { sc->run(); finish(ST_OK); }), 1);
    active = true;
    void *dummy; cur = &fib[0]; (void)boot;
    sim_switch(&dummy, fib[0].sp);
    _exit(95);
}

// ---------------------------------------------------------------------------- mutex etc.
// State is kept inside the pthread objects, in the places glibc uses.
struct M { int lock; unsigned count; int owner; unsigned nusers; int kind; };
static bool mutex_free(void *m) { return ((M *)m)->owner == 0; }
static bool guard_free(void *g) { return ((volatile char *)g)[1] == 0; }
static void chk(const void *p, size_t n) { check_access(p, n, true, __builtin_return_address(1)); }
static int m_lock(M *m)
{
    chk(m, sizeof *m);
    for (;;) {
        if (m->owner == 0) { m->owner = cur->id + 1; m->count = 1; return 0; }
        if (m->owner == cur->id + 1) {
            if ((m->kind & 3) == 1) { m->count++; return 0; }
            violation("self-deadlock", "thread locks a mutex it already holds");
        }
        cur->st = B_MUTEX; cur->waitobj = m; probe("mutex_contended");
        schedule();
        chk(m, sizeof *m);
    }
}
static void m_unlock(M *m)
{
    chk(m, sizeof *m);
    if (m->owner != cur->id + 1) violation("mutex-misuse", "unlock of a mutex held by %d", m->owner - 1);
    if (--m->count == 0) m->owner = 0;
}
static int c_wait(void *c, M *m, int64_t deadline, bool wall)
{
    chk(c, 8);
    sync_point("cond_wait", c);
    uint32_t sp = 0;
    if (cfg.spurious_den && disturb) {
        steps++;
        if (replaying) { sp = replay_S(); set_next_pre(); }
        else if (rngS.below(cfg.spurious_den) == 0) { sp = 1 + rngS.below(3000); record_S(steps, sp); }
    }
    unsigned cnt = m->count; m->count = 1; m_unlock(m);
    cur->st = B_COND; cur->waitobj = c; cur->signalled = false; cur->timedout = false;
    int64_t real = deadline < 0 ? -1 : (wall ? deadline - WALL_EPOCH_NS - walloff : deadline); if (deadline >= 0 && real < 0) real = 0;
    bool spur = false;
    if (sp && (real < 0 || now + (int64_t)sp * 1000 < real)) { spur = true; cur->deadline = now + (int64_t)sp * 1000; cur->dlwall = false; }
    else { cur->deadline = deadline; cur->dlwall = wall; if (wall && deadline >= 0 && real == 0) { cur->dlwall = false; cur->deadline = 0; } }
    schedule();
    bool to = cur->timedout; if (to && spur) { to = false; fault("spurious_wakeup"); }
    cur->st = RUN;
    m_lock(m); m->count = cnt;
    return to ? ETIMEDOUT : 0;
}
static void c_signal(void *c, bool all)
{
    chk(c, 8);
    Fiber *w[MAXF]; int n = 0;
    for (int i = 0; i < nfib; i++) { Fiber *f = &fib[i]; FState st = f->st == B_STALL ? f->prestall : f->st; if (st == B_COND && f->waitobj == c && !f->signalled) w[n++] = f; }
    if (!n) return;
    if (all) for (int i = 0; i < n; i++) w[i]->signalled = true;
    else w[n == 1 ? 0 : sched_choice(n)]->signalled = true;
}
static int64_t ts_ns(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec; }
} // namespace sim

using namespace sim;
static int64_t real_clock(int clk) { struct timespec t; syscall(SYS_clock_gettime, clk, &t); return ts_ns(&t); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { if (!fiber_ctx()) return 0; sync_point("lock", m); return m_lock((M *)m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!fiber_ctx()) return 0; m_unlock((M *)m); sync_point("unlock", m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m_) { if (!fiber_ctx()) return 0; sync_point("trylock", m_); M *m = (M *)m_; if (m->owner && !((m->kind & 3) == 1 && m->owner == cur->id + 1)) return EBUSY; return m_lock(m); }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); if (a) ((M *)m)->kind = *(const int *)a & 3; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!fiber_ctx()) return 0; return c_wait(c, (M *)m, -1, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!fiber_ctx()) return ETIMEDOUT; return c_wait(c, (M *)m, ts_ns(t) < 0 ? 0 : ts_ns(t), true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!fiber_ctx()) return ETIMEDOUT; return c_wait(c, (M *)m, ts_ns(t) < 0 ? 0 : ts_ns(t), k == CLOCK_REALTIME); }
int pthread_cond_signal(pthread_cond_t *c) { if (!fiber_ctx()) return 0; sync_point("signal", c); c_signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!fiber_ctx()) return 0; sync_point("broadcast", c); c_signal(c, true); return 0; }
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
    if (!fiber_ctx()) return EAGAIN;
    int id = make_fiber("thread", fn, arg, nullptr, 0); *t = (pthread_t)(id + 1000); log("thread %d created", id); sync_point("create"); return 0;
}
int pthread_join(pthread_t t, void **r)
{
    if (!fiber_ctx()) return 0;
    int id = (int)t - 1000; if (id < 0 || id >= nfib) return ESRCH;
    Fiber *f = &fib[id]; sync_point("join");
    if (f->st != DONE) { cur->st = B_JOIN; cur->waitobj = f; schedule(); }
    if (r) *r = f->ret; return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self(void) { return fiber_ctx() ? (pthread_t)(cur->id + 1000) : (pthread_t)999; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sched_yield(void) { sync_point("yield"); return 0; }
int pthread_once(pthread_once_t *o, void (*fn)(void)) { if (*o == 2) return 0; *o = 2; fn(); return 0; }
int __cxa_guard_acquire(uint64_t *g)
{
    volatile char *b = (volatile char *)g;
    if (b[0]) return 0;
    if (!fiber_ctx()) { b[1] = 1; return 1; }
    while (b[1]) { cur->st = B_GUARD; cur->waitobj = (void *)g; schedule(); if (b[0]) return 0; }
    b[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t *g) { volatile char *b = (volatile char *)g; b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t *g) { volatile char *b = (volatile char *)g; b[1] = 0; }

int clock_gettime(clockid_t k, struct timespec *t)
{
    int64_t v;
    if (!fiber_ctx()) v = real_clock(k);
    else { now += 40; v = (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) ? wall_ns() : now; }
    t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL; return 0;
}
int gettimeofday(struct timeval *__restrict tv, void *__restrict) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t time(time_t *o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
int nanosleep(const struct timespec *r, struct timespec *rem)
{
    if (!fiber_ctx()) return syscall(SYS_nanosleep, r, rem);
    int64_t d = ts_ns(r);
    if (rem) rem->tv_sec = rem->tv_nsec = 0;   // may be the same object
    sync_point("nanosleep"); block_until(now + d, false); return 0;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec *r, struct timespec *rem)
{
    if (!fiber_ctx()) { nanosleep(r, rem); return 0; }
    sync_point("nanosleep"); if (flags & TIMER_ABSTIME) block_until(ts_ns(r), k == CLOCK_REALTIME); else block_until(now + ts_ns(r), false); return 0;
}
int usleep(useconds_t us) { struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, nullptr); return 0; }
int get_nprocs(void) { return hwthreads; }
int rand(void) { return fiber_ctx() ? (int)((uint32_t)rngR.next() & 0x7fffffff) : 4; }
void srand(unsigned) {}
long random(void) { return rand(); }

// ---- allocator entry points
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
#define SITE __builtin_return_address(0)
static void scribble(void *p, size_t n) { if (p) memset(p, 0xCD, n < 4096 ? n : 4096); }
void *malloc(size_t n) { if (!active) return __libc_malloc(n); void *p = ar_alloc(n, 16, SITE); scribble(p, n); return p; }
void free(void *p) { if (!p) return; if (in_arena(p)) ar_free(p, SITE); else __libc_free(p); }
void *calloc(size_t a, size_t b) { if (!active) return __libc_calloc(a, b); return ar_alloc(a * b, 16, SITE); }
void *realloc(void *p, size_t n)
{
    if (p && !in_arena(p)) { if (!active) return __libc_realloc(p, n); /* block from before the run: move it */ void *q = ar_alloc(n, 16, SITE); memcpy(q, p, n); return q; }
    if (!active && !p) return __libc_realloc(p, n);
    void *q = ar_alloc(n, 16, SITE); if (!q) return nullptr;
    if (p) { Blk *b = blk_of(p); if (!b || b->state != 1) violation("bad-free", "realloc of a dead block"); memcpy(q, p, b->size < n ? b->size : n); ar_free(p, SITE); }
    return q;
}
void *memalign(size_t a, size_t n) { if (!active) return __libc_memalign(a, n); return ar_alloc(n, a, SITE); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : ENOMEM; }
size_t malloc_usable_size(void *p) { if (in_arena(p)) { Blk *b = blk_of(p); return b ? b->size : 0; } return 0; }

// ---- instrumentation entry points (the code under test is compiled with -fsanitize=thread)
#define PC __builtin_return_address(0)
static inline __attribute__((always_inline)) void acc(const void *p, size_t n, bool w, void *pc)
{
    if (!active) return;
    check_access(p, n, w, pc);
    steps++; now += cfg.access_ns;
    if (steps >= nextPre) { if (steps > stepLimit) over_limit(); if (!cur->np) maybe_preempt_access(); else if (!replaying && steps >= nextPre) nextPre = steps + 1; }
    else if ((steps & 0xfffff) == 0) over_limit();
}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, false, PC); } void __tsan_write##n(void *p) { acc(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { acc(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { acc(p, n, true, PC); } \
    void __tsan_read##n##_pc(void *p, void *) { acc(p, n, false, PC); } void __tsan_write##n##_pc(void *p, void *) { acc(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { acc(p, 8, false, PC); }
void __tsan_func_entry(void *pc) { if (active && cur) { cur->callstack[cur->depth & 63] = pc; cur->depth++; } }
void __tsan_func_exit(void) { if (active && cur && cur->depth > 0) cur->depth--; }
void __tsan_init(void) {}
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, int) { sync_point("atomic"); acc((void *)a, sizeof(T), false, PC); return *a; } \
void __tsan_atomic##N##_store(volatile T *a, T v, int) { sync_point("atomic"); acc((void *)a, sizeof(T), true, PC); *a = v; } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { sync_point("atomic"); acc((void *)a, sizeof(T), true, PC); T o = *a; *a = v; return o; } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { sync_point("atomic"); acc((void *)a, sizeof(T), true, PC); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { sync_point("atomic"); acc((void *)a, sizeof(T), true, PC); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { sync_point("atomic"); acc((void *)a, sizeof(T), true, PC); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { sync_point("atomic"); acc((void *)a, sizeof(T), true, PC); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { sync_point("atomic"); acc((void *)a, sizeof(T), true, PC); T o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { sync_point("atomic"); acc((void *)a, sizeof(T), true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { sync_point("atomic"); acc((void *)a, sizeof(T), true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { sync_point("atomic"); acc((void *)a, sizeof(T), true, PC); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sync_point("fence"); }
void __tsan_atomic_signal_fence(int) {}

// ---- memory functions called by the code under test (redirected with objcopy)
static void mid(const void *p, size_t n, bool w, void *pc) { if (active && n) { check_access(p, n, w, pc); acc(p, 1, w, pc); } }
void *sim_memcpy(void *d, const void *s, size_t n)
{
    mid(s, n, false, PC); mid(d, n, true, PC);
    if (!active || n < 16) return memcpy(d, s, n);
    // a copy is not atomic: it can be interrupted between its parts
    size_t h = n / 3; memcpy(d, s, h); acc((char *)d + h, 1, true, PC); memcpy((char *)d + h, (char *)s + h, h); acc((char *)d + 2 * h, 1, true, PC);
    memcpy((char *)d + 2 * h, (char *)s + 2 * h, n - 2 * h); acc((char *)d + n - 1, 1, true, PC);
    return d;
}
void *sim_memmove(void *d, const void *s, size_t n) { mid(s, n, false, PC); mid(d, n, true, PC); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { mid(d, n, true, PC); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { mid(a, n, false, PC); mid(b, n, false, PC); return memcmp(a, b, n); }
size_t sim_strlen(const char *s) { size_t n = strlen(s); mid(s, n + 1, false, PC); return n; }
void sim_exit(int c) { if (active) violation("exit", "the code under test calls exit(%d)", c); _exit(c); }
}

// operator new/delete: the allocation site is the caller, not libstdc++
void *operator new(size_t n) { if (!sim::active) { void *p = __libc_malloc(n); if (!p) abort(); return p; } void *p = sim::ar_alloc(n, 16, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); sim::scrib(p, n); return p; }
void *operator new[](size_t n) { if (!sim::active) { void *p = __libc_malloc(n); if (!p) abort(); return p; } void *p = sim::ar_alloc(n, 16, __builtin_return_address(0)); if (!p) throw std::bad_alloc(); sim::scrib(p, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
