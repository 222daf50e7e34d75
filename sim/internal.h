#ifndef SIM_INTERNAL_H
#define SIM_INTERNAL_H
#include "sim.h"
#include <pthread.h>
namespace sim {
enum Status { ST_RUNNING = 0, ST_OK, ST_VIOLATION, ST_GIVEUP, ST_INTERNAL };
static const int MAXW = 1 << 18, MAXS = 1 << 18, MAXNAMES = 96, MAXSTATES = 2048, TRACE = 1 << 20;
struct Named { char name[40]; uint64_t n; };
struct SDec { uint64_t step; uint32_t val; };
struct Result {
    volatile int status;
    char cls[64];
    char msg[3000];
    uint64_t hash, ihash, steps, switches, syncs;
    int64_t vtime;
    uint32_t nW, nF, nS, nstates, nfaults, nprobes, nknown;
    int nontrivial;
    int overflow;
    uint64_t tracelen;
    Named faults[MAXNAMES], probes[MAXNAMES], known[MAXNAMES];
    uint64_t states[MAXSTATES];
    uint32_t Wv[MAXW], Fv[MAXW];
    SDec Sv[MAXS];
    char trace[TRACE];
};
struct Choices { bool replay = false; uint64_t seed = 0; std::vector<uint32_t> W, F; std::vector<SDec> S; };
extern Result *res;
extern bool active;
extern int g_np_dummy;
void run_in_child(const Choices &c, const Scenario &s, bool trace);   // never returns
void sync_point(const char *what, const void *obj = nullptr);
bool in_arena(const void *p);
void finish(Status st) __attribute__((noreturn));
bool fiber_ctx();
void heap_init();
// disk, net, ... reset hooks are plain globals: each run is a fresh process
}
#endif
