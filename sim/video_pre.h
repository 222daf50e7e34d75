// Small pictures: the size limits of raw video are those of the simulated world.
#include "Types.hh"
#undef DEFAULT_WIDTH
#undef DEFAULT_HEIGHT
#define DEFAULT_WIDTH 96
#define DEFAULT_HEIGHT 64
