// Stand-ins of libx264 and libx265: they reorder, delay, fail and slice as the real ones may.
#pragma once
#include "sim.h"
#include <map>
#include <deque>
#include <vector>
#include <string>
extern "C" {
#include <x264.h>
#include <x265.h>
}
namespace cod {
struct Par { int w = 0, h = 0, csp = 1, keyint = 0, bframes = 0, threads = 0, bitrate = 0, fpsNum = 0, fpsDen = 1, look = 0; bool repeat = true, annexb = true, aud = false; std::string preset; };   // csp: 1, 2, 3 for 4:2:0, 4:2:2, 4:4:4
struct Nal { uint64_t hash; unsigned len; };
struct Coded { int64_t pts, dts; bool key; std::vector<Nal> nals; };
struct In { int64_t pts; uint64_t hash; bool idr; };
struct Enc { bool h265 = false, open = true; Par p; int serial = 0; std::deque<In> pending; std::deque<int64_t> order; std::deque<In> ready; int64_t first = 0; uint64_t in = 0, out = 0; int bdelay = 0, delay = 0, sinceKey = 0; unsigned char *buf = nullptr, *head = nullptr; unsigned headLen = 0; std::vector<x264_nal_t> n4; std::vector<x265_nal> n5; };
struct Hooks {      // what the scenario is told and asked
    std::function<void(Enc &)> opened, closed; std::function<void(Enc &, const In &, int)> given; std::function<void(Enc &, const Coded &)> made;
    bool failOpen = false, failEncode = false, failHeaders = false; unsigned many = 0, big = 0; int slow = 0; unsigned failP = 0;
};
extern Hooks H; extern std::vector<Enc *> all; extern std::string lastPreset;
uint64_t hashBytes(const unsigned char *d, size_t n, uint64_t h = 1469598103934665603ull);
Enc *current();
void reset();
}
