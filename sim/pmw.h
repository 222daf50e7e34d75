// The world of stand-in filters behind the real PipelineManager and Controller.
#pragma once
#include "filters.h"
#include "PipelineManager.hh"
#include "pm_filters.h"
namespace pm {
using namespace sim;
struct Obj {
    int uid; BaseFilter *f; FilterType type; char role; unsigned max; bool alive = true, processing = false; uint64_t seen = 0;   // role: H T 1 S M
    int64_t period = 0, work = 0; std::map<int, uint64_t> serial; std::map<std::pair<int, int>, std::map<int, uint64_t>> last; // (reader, sender) -> writer -> serial
    std::map<std::pair<int, int>, uint64_t> arrived; uint64_t steps = 0; bool upstream = false;
};
struct World {
    std::vector<std::unique_ptr<Obj>> objs; uint32_t refuse_den = 0; bool faulted = false, running = true; unsigned qmax = 12; int slow = 1;
    std::map<uint64_t, std::pair<int, int>> marks;              // event serial -> (times applied, uid of the last)
    std::function<void(Obj &, int reader, const hf::Tag &)> on_frame; std::function<void(Obj &)> on_step, on_dead; std::function<void(Obj &, uint64_t)> on_mark; std::function<void(Obj &, int)> on_upstream;
    int created() { return (int)objs.size(); } int alive() { int n = 0; for (auto &o : objs) n += o->alive; return n; }
};
extern World *G;
}
