// Deterministic simulator: public interface for scenarios.
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <functional>
#include <vector>
#include <map>
#include <set>

namespace sim {

// ---- choices ---------------------------------------------------------------------------------
// Every nondeterministic decision is one draw from one of three streams derived from the seed:
// W workload, F faults, S schedule.  0 is always the simplest alternative.
enum Stream { W = 0, F = 1 };
uint32_t choose(Stream s, uint32_t n);                 // in [0,n)
bool chance(Stream s, uint32_t num, uint32_t den);     // true with probability num/den (0 == false)
uint32_t range(Stream s, uint32_t lo, uint32_t hi);    // inclusive; lo is the simplest
template <class T, size_t N> T pick(Stream s, const T (&a)[N]) { return a[choose(s, N)]; }

// ---- time ------------------------------------------------------------------------------------
int64_t now_ns();                                      // simulated monotonic time
int64_t wall_ns();                                     // simulated system clock (can step)
void step_wall_clock(int64_t delta_ns);                // fault: clock step
void sleep_us(int64_t us);                             // block the calling fiber
extern const int64_t WALL_EPOCH_NS;

// ---- scheduling ------------------------------------------------------------------------------
struct Sched {                                         // per-run swarm configuration
    uint32_t access_gap = 0;     // mean number of memory accesses between pre-emptions (0 = none)
    uint32_t sync_den = 4;       // pre-empt at one in sync_den synchronisation operations (0 = never)
    uint32_t stall_den = 0;      // one in stall_den pre-emptions stalls the thread
    uint32_t stall_max_us = 0;
    uint32_t spurious_den = 0;   // one in spurious_den condition waits wakes up spuriously
    uint32_t pct_depth = 0;      // >0: priority scheduling with that many change points
    uint32_t access_ns = 2;      // simulated cost of one memory access
    uint32_t sync_ns = 300;      // simulated cost of one synchronisation operation
};
void configure(const Sched &s);
Sched random_sched(bool access_level = true, bool stalls = true); // swarm: drawn from W
void stop_disturbing();          // from now on: no stalls, no spurious wake-ups (pre-emption stays)
bool disturbing();
int spawn(const std::string &name, std::function<void()> fn);  // a harness thread; its code is not pre-empted
void join(int id);
void yield(const char *why = "yield");                 // explicit scheduling point (works in harness code too)
void wait_until(std::function<bool()> cond, int64_t max_us, int64_t poll_us = 200);
bool wait_progress(std::function<bool()> cond, int64_t max_us, int64_t poll_us = 200);   // for bounds on progress: if it does not come in time, again without stalls
int self();
int hw_threads();                                      // what hardware_concurrency reports
void set_hw_threads(int n);
bool all_others_blocked();

// Code of the scenario itself is not pre-empted.  Calls into the code under test are made under
// Sut, callbacks from the code under test begin with Harness.
struct Sut { int saved; Sut(); ~Sut(); };
struct Harness { int saved; Harness(); ~Harness(); };

// ---- verdicts --------------------------------------------------------------------------------
void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // trace line, part of the hash
void hash(uint64_t v);
void fault(const char *kind);                          // count a fault that was really injected
void probe(const char *name);                          // rare condition reached
void state(uint64_t h);                                // observed abstract state, for coverage
void nontrivial(bool v);
void end_ok() __attribute__((noreturn));               // end the run early, verdict ok
void give_up(const char *why) __attribute__((noreturn));// run tells nothing (counted)
bool known_finding(const char *id);                    // is this finding recorded (and then counted)? Otherwise the caller reports a violation
void list_finding(const char *id);
void set_step_limit(uint64_t steps);
const char *property();                                // property under check
bool has_opt(const char *name);

// ---- memory ----------------------------------------------------------------------------------
bool heap_is_live(const void *p);                      // block containing p is allocated
uint64_t live_blocks(); uint64_t live_bytes();
int track_begin();                                     // allocations from now on are attributed to a new epoch
uint64_t live_in_epoch(int e, std::string *what = nullptr);
void check_access(const void *p, size_t n, bool write, void *pc);
void register_region(void *p, size_t n);               // extra region with pre-emption (e.g. shared memory)
// allocation faults
void set_alloc_fault(uint32_t den);                    // one in den operator new calls throws bad_alloc (0 = off)

struct Scenario { const char *name; void (*run)(); const char *what; };
void register_scenario(const Scenario &s);
struct Reg { Reg(const char *n, void (*r)(), const char *w) { register_scenario(Scenario{n, r, w}); } };
#define SCENARIO(name, what) static void scen_##name(); static sim::Reg reg_##name(#name, scen_##name, what); static void scen_##name()

} // namespace sim
#endif
