// Simulated file system: every path below /simfs lives in memory; other paths are passed on.
#pragma once
#include "sim.h"
#include <memory>
namespace simfs {
extern uint64_t versions; struct Node { std::string data; uint64_t ver = ++versions; };
typedef std::shared_ptr<Node> P;
extern std::map<std::string, P> files;           // name -> content
extern std::set<std::string> dirs, readonly;     // directories that exist / that refuse writing
// Called after every operation that changed what is on the disk: what a crash at this point leaves behind.
extern std::function<void(const char *op, const std::string &path)> hook;
struct Faults {
    uint32_t den = 0;           // one in den operations fails
    bool full = false;          // no space for any new byte
    bool dead = false;          // every operation on the device fails (EIO)
    bool shortw = false;        // writes are cut short (legal, not an error)
    int64_t slow_us = 0;        // an operation may take up to this long
    bool open = true, write = true, close = true, rename = true, remove = true;
};
extern Faults faults;
extern uint64_t crash_in; extern bool crashed;   // the process dies with the n-th operation from now: nothing reaches the disk any more
extern uint64_t failed, ops;    // operations that failed so far / operations
extern std::map<std::string, uint64_t> failed_on;   // per path
bool opened(const std::string &path);  // open for writing now
uint64_t bytes();
}
