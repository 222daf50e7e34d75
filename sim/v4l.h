// Simulated V4L2 capture devices.
#pragma once
#include "sim.h"
#include <stdint.h>
namespace simv4l {
struct Buf { enum St { APP, QUEUED, DONE } st = APP; char *p = nullptr; bool mapped = false; uint32_t used = 0; uint64_t serial = 0; };
struct Dev {
    std::string path; bool present = true, capture = true, streamingCap = true, cropSup = true, parmSup = true; std::vector<uint32_t> formats; uint32_t maxW = 1920, maxH = 1080, step = 2, pad = 0; int parmMode = 0; uint32_t maxBufs = 32;
    // negotiated
    uint32_t w = 64, h = 48, pix = 0, bpl = 0, size = 0; uint32_t num = 1, den = 25; uint64_t gen = 0;      // gen: counts unplugging
    int owner = -1; std::vector<Buf> bufs; std::vector<int> queue, done; bool streaming = false; int64_t next = 0; uint32_t slow = 0; uint64_t serial = 0, dropped = 0;
    int fps10() const { return num ? den * 10 / num : 0; }
};
struct VFrame { uint64_t serial; std::string data; uint32_t w, h, pix; bool optional; int64_t wall, mono; };
struct Fd { int dev; uint64_t gen; };
extern std::vector<Dev> devs; extern std::map<int, Fd> fds;
extern uint32_t fault_den, eintr_den, gap_den, stall_den; extern uint64_t failed, qbuf_failed, app_held;
extern bool slow_calls; extern std::set<std::string> notdev;       // regular files
extern std::function<void(const VFrame &)> on_dequeued;
int held(const Dev &d);                          // buffers held by the application although the device streams
uint64_t mappings();
void unplug(int d); void plug(int d); void produce(Dev &d);
std::string content(const Dev &d, uint64_t serial, uint32_t size);
}
