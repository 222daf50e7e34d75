// Simulated System V shared memory.
#pragma once
#include "sim.h"
namespace simshm {
struct Seg { int key = 0, id = 0; size_t size = 0; char *p = nullptr; int attached = 0; bool gone = false; };   // gone: marked for removal
extern std::map<int, Seg> segs;          // by id: what exists in the "kernel"
extern uint32_t get_den, at_den, ctl_den; // one in ... calls fails
extern uint64_t get_failed, at_failed;
}
