// Small pictures and NAL units: the size limits are those of the simulated world.
#include "Types.hh"
#undef DEFAULT_WIDTH
#undef DEFAULT_HEIGHT
#define DEFAULT_WIDTH 64
#define DEFAULT_HEIGHT 48
#undef MAX_H264_OR_5_NAL_SIZE
#define MAX_H264_OR_5_NAL_SIZE 600
#undef DEFAULT_VIDEO_FRAMES
#define DEFAULT_VIDEO_FRAMES 20
