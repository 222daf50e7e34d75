// Worker pool: exclusivity and delays (S01), liveness (S02), removal and stop (S03).
#include "sim.h"
#include "WorkersPool.hh"
#include <memory>
#include <string.h>
using namespace sim;

namespace {
struct World;
struct Task;
struct World {
    std::map<int, Task *> tasks;             // registered now
    uint64_t seq = 0; uint64_t execs = 0;
    int64_t maxDelayUs = 0, maxWorkUs = 0;
    std::vector<Task *> all;
    bool stopped = false, quiesce = false;
    uint64_t produced = 0, consumed = 0;
    std::map<int, uint64_t> enabledAt, executedAt;   // by id, while registered
    std::map<int, int64_t> tokens;
    int maxId = 0;
};
World *Wd;

struct Task : public Runnable {
    int idx; bool executing = false, removed = false; int64_t earliest = -1, maxWall = 0; uint64_t ran = 0; volatile uint64_t effect = 0;
    std::vector<int> outs; int budget = 0; int kind = 0; bool pinned = false; uint32_t delayMode = 0; bool selfEnable = false; int lastRet = 0; int workMode = 0;
    Task(int id) : Runnable(false), idx(id) { setId(id); }
    ~Task() { memset((void *)&effect, 0xEE, sizeof effect); }
    bool pendingJobs() override
    {
        Harness h;
        if (removed) violation("touched-after-removal", "the pool asks task %d for pending work after its removal returned", idx);
        return Wd->tokens[idx] > 0;
    }
    void busy()
    {
        static const int us[] = {0, 0, 20, 300, 2000, 12000};
        int w = us[workMode];
        yield("work");
        if (w) { int64_t d = range(W, 0, w); if (d > Wd->maxWorkUs) Wd->maxWorkUs = d; sleep_us(d); }
        yield("work");
    }
    std::vector<int> processFrame(int &ret) override
    {
        Harness h; World &w = *Wd;
        uint64_t start = ++w.seq;
        if (removed) violation("executed-after-removal", "task %d executes after its removal returned", idx);
        if (w.stopped) violation("executed-after-stop", "task %d executes after the pool stopped", idx);
        if (executing) violation("concurrent-execution", "task %d is executed by two workers at once", idx);
        if (!w.tasks.count(idx) && !removed) { /* registration call has not returned yet */ probe("ran_before_add_returned"); }
        int64_t seen = wall_ns() > maxWall ? wall_ns() : maxWall;
        if (earliest >= 0 && seen < earliest) violation("too-early", "task %d executes %lld us before the delay it asked for is over", idx, (long long)(earliest - seen) / 1000);
        executing = true; ran++; w.execs++;
        w.executedAt[idx] = start;
        log("task %d runs (%llu)", idx, (unsigned long long)ran);
        uint64_t e = effect;
        bool got = false;
        if (w.tokens[idx] > 0) { w.tokens[idx]--; w.consumed++; got = true; }
        busy();
        std::vector<int> en;
        if (kind == 0) { // source
            if (budget > 0 && !w.quiesce) {
                int n = 1 + choose(W, 2);
                for (int i = 0; i < n && budget > 0; i++) if (!outs.empty()) { int o = outs[choose(W, outs.size())]; w.tokens[o]++; w.produced++; budget--; en.push_back(o); }
                if (outs.empty()) budget--;
                if (budget > 0 || selfEnable) en.push_back(idx);
            }
        } else if (got && !outs.empty()) {
            int o = outs[choose(W, outs.size())]; w.tokens[o]++; w.produced++; en.push_back(o);
            if (chance(W, 1, 8)) en.push_back(o);                                                   // reported twice
            if (chance(W, 1, 8) && !w.quiesce && !w.tasks.empty()) { auto it = w.tasks.begin(); std::advance(it, choose(W, w.tasks.size())); en.push_back(it->first); } // wake without input
            if (chance(W, 1, 16)) en.push_back(9999);                                                // unknown id
        }
        static const int del[] = {0, 0, 0, 1, 150, 1000, 4000, 15000};
        ret = del[choose(W, delayMode)];
        if (ret > w.maxDelayUs) w.maxDelayUs = ret;
        busy();
        if (effect != e) violation("concurrent-execution", "task %d lost the effect of an execution", idx);
        effect = e + 1;
        if (effect != ran) violation("concurrent-execution", "task %d does not see the effect of its previous execution", idx);
        executing = false;
        uint64_t now = ++w.seq;
        for (int id : en) if (w.tasks.count(id)) w.enabledAt[id] = now;
        earliest = wall_ns() + (int64_t)ret * 1000; maxWall = 0; lastRet = ret;
        state((w.tokens[idx] * 31 + idx) * 1009 + (ret ? 7 : 0) + ran % 5);
        return en;
    }
};

void step_clock(int64_t d) { for (Task *t : Wd->all) if (!t->removed && wall_ns() > t->maxWall) t->maxWall = wall_ns(); step_wall_clock(d);
    if (d < 0) for (Task *t : Wd->all) if (!t->removed && t->run && !t->executing && t->earliest >= 0) { int64_t e = wall_ns() + (int64_t)t->lastRet * 1000; if (e < t->earliest) t->earliest = e; } // its delay starts after this step
    fault(d < 0 ? "clock_step_back" : "clock_step_forward"); }

void pool_run(int mode)     // 1 exclusivity, 2 liveness, 3 removal and stop
{
    Wd = new World;
    Sched s = random_sched(true, true);
    set_hw_threads(1 + choose(W, 8));
    int nw = choose(W, 8);                    // 0: as many as the hardware has, doubled
    int nt = 1 + choose(W, 6);
    std::vector<Task *> ts;
    int dm = 1 + choose(W, 8), wm = choose(W, 6);
    for (int i = 0; i < nt; i++) {
        Task *t = new Task(i * 3 + 1); t->kind = (i == 0 || chance(W, 1, 5)) ? 0 : 1; t->budget = t->kind == 0 ? range(W, 1, 14) : 0; t->delayMode = dm; t->workMode = chance(W, 1, 2) ? wm : 0; Wd->all.push_back(t);
        ts.push_back(t);
    }
    for (int i = 0; i < nt; i++) { // forward edges only, so tokens die out
        for (int j = i + 1; j < nt; j++) if (ts[j]->kind == 1 && chance(W, 2, 3)) ts[i]->outs.push_back(ts[j]->getId());
        if (ts[i]->kind == 0 && ts[i]->outs.empty()) for (int j = i + 1; j < nt; j++) if (ts[j]->kind == 1) { ts[i]->outs.push_back(ts[j]->getId()); break; }
    }
    if (mode == 1) for (auto t : ts) if (t->kind == 0) t->selfEnable = chance(W, 1, 2);
    WorkersPool *pool;
    { Sut u; pool = new WorkersPool(nw); }
    // registration from one or two threads
    int nreg = 1 + choose(W, 2); std::vector<int> th;
    bool firstRemovalDone = false; (void)firstRemovalDone;
    auto reg = [&](Task *t) {
        bool ok; Wd->tasks[t->idx] = t; Wd->enabledAt[t->idx] = ++Wd->seq; // a fresh registration has to be executed
        { Sut u; ok = pool->addTask(t); }
        if (!ok) violation("add-refused", "registration of task %d refused", t->idx);
        log("task %d added", t->idx);
    };
    // sinks before sources: tokens for unregistered tasks stay pending by contract of their producer
    for (int k = 0; k < nreg; k++) th.push_back(spawn("reg", [&, k] {
        for (int i = nt - 1; i >= 0; i--) if (i % nreg == k) {
            if (chance(W, 1, 4)) sleep_us(range(W, 0, 5000));
            Task *t = ts[i]; bool dup = chance(W, 1, 6); t->pinned = dup;    // pinned: nobody removes it meanwhile
            reg(t);
            if (dup) { bool ok; { Sut u; ok = pool->addTask(t); } if (ok) violation("duplicate-add", "task %d accepted twice", t->idx); t->pinned = false; }
        } }));
    if (mode != 2 && chance(W, 1, 4)) th.push_back(spawn("clock", [&] {
        int n = 1 + choose(W, 3);
        for (int i = 0; i < n; i++) { sleep_us(range(W, 100, 20000)); static const int64_t d[] = {1000000, 50000000, 900000000, -1000000, -20000000}; if (!chance(F, 1, 2)) continue; step_clock(d[choose(F, 5)]); }
    }));
    if (chance(W, 1, 8)) { Task *t = new Task(-1); t->removed = true; bool ok; { Sut u; ok = pool->addTask(t); } if (ok) violation("task-without-id", "a task without an id is accepted"); delete t; fault("task_without_id"); }   // nothing may be kept of it
    std::vector<Task *> dead;
    bool removing = mode == 3;
    if (removing) {
        int nr = 1 + choose(W, 2);
        for (int k = 0; k < nr; k++) th.push_back(spawn("remover", [&, k] {
            int n = 1 + choose(W, 4);
            for (int i = 0; i < n; i++) {
                sleep_us(range(W, 0, 12000));
                std::vector<int> ids; for (auto &x : Wd->tasks) if ((x.first / 3) % nr == k && !x.second->pinned) ids.push_back(x.first); // removers never race on one id
                if (chance(W, 1, 10)) { bool r; { Sut u; r = pool->removeTask(12345); } if (r) violation("remove-unknown", "removal of an unknown task succeeds"); }
                if (ids.empty()) continue;
                int id = ids[choose(W, ids.size())]; Task *t = Wd->tasks[id];
                uint64_t owed = Wd->enabledAt[id]; Wd->tasks.erase(id); Wd->enabledAt.erase(id);   // from here on no execution is owed
                int64_t t0 = now_ns(); bool ok; bool was = t->executing;
                { Sut u; ok = pool->removeTask(id); }
                if (!ok) {
                    // not added yet: the registration is still under way
                    Wd->tasks[id] = t; Wd->enabledAt[id] = owed; continue;
                }
                if (was) probe("removed_while_executing");
                if (t->executing) violation("removed-while-executing", "removal of task %d returned while it is executing", id);
                if (now_ns() - t0 > (Wd->maxWorkUs * 2 + 400000 + 60 * (int64_t)s.stall_max_us) * 1000) violation("removal-stalls", "removal of task %d took %lld us", id, (long long)(now_ns() - t0) / 1000);
                log("task %d removed", id);
                t->removed = true; Wd->tokens.erase(id);
                for (auto &a : Wd->all) if (a == t) { a = Wd->all.back(); Wd->all.pop_back(); break; }
                if (chance(W, 1, 3)) yield();
                delete t; fault("owner_frees_task");
                if (chance(W, 1, 2)) {
                    Task *n2 = new Task(id); n2->kind = 1; n2->delayMode = dm; Wd->all.push_back(n2); reg(n2); probe("re_added");
                }
            } }));
    }
    bool early_stop = mode == 3 && chance(W, 1, 2);
    for (int t : th) join(t);
    if (early_stop) sleep_us(range(W, 0, 20000));
    else {
        // sources run dry, then everything owed must be executed
        int64_t maxTotal = 400;
        auto idle = [&] {
            for (auto &x : Wd->tasks) { if (x.second->kind == 0 && x.second->budget > 0 && !x.second->outs.empty()) return false; if (Wd->tokens[x.first] > 0) return false; if (Wd->enabledAt.count(x.first) && Wd->executedAt[x.first] < Wd->enabledAt[x.first]) return false; }
            return true; };
        if (mode == 1) { sleep_us(range(W, 1000, 60000)); Wd->quiesce = true; for (auto t : Wd->all) t->budget = 0; }
        // first let the sources go (their own re-execution is part of the property as well)
        int64_t per = Wd->maxDelayUs + 2 * 12000 + 15000 + 10000 + s.stall_max_us;
        wait_until(idle, 2000000, 500);
        stop_disturbing();
        wait_until(idle, per * maxTotal, 1000);
        if (!idle()) {
            for (auto &x : Wd->tasks) {
                if (Wd->tokens[x.first] > 0) violation("stuck-input", "task %d keeps %lld unprocessed inputs forever", x.first, (long long)Wd->tokens[x.first]);
                if (Wd->enabledAt.count(x.first) && Wd->executedAt[x.first] < Wd->enabledAt[x.first]) violation("lost-wakeup", "task %d was enabled and is never executed", x.first);
                if (x.second->kind == 0 && x.second->budget > 0) violation("lost-wakeup", "task %d asked to be executed again and is not", x.first);
            }
        }
        nontrivial(Wd->execs > (uint64_t)nt + 2);
    }
    if (mode == 3) {
        int64_t t0 = now_ns();
        { Sut u; pool->stop(); }
        for (auto t : Wd->all) if (t->executing) violation("stop-while-executing", "stop returned while task %d is executing", t->idx);
        Wd->stopped = true;
        if (now_ns() - t0 > (Wd->maxWorkUs * 2 + Wd->maxDelayUs + 20000 + 60 * (int64_t)s.stall_max_us) * 1000 + 2000000000LL) violation("stop-stalls", "stop took %lld us", (long long)(now_ns() - t0) / 1000);
        log("stopped");
        for (auto t : Wd->all) { t->removed = true; delete t; }
        Wd->all.clear();
        sleep_us(50000);
        nontrivial(Wd->execs > 3);
    }
    { Sut u; delete pool; }
    Wd->stopped = true; sleep_us(1000);
}
}
SCENARIO(pool_excl, "worker pool: exclusivity and requested delays") { pool_run(1); }
SCENARIO(pool_live, "worker pool: nothing enabled is lost") { pool_run(2); }
SCENARIO(pool_remove, "worker pool: removal and stop") { pool_run(3); }
