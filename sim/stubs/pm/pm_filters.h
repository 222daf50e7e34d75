// Stand-ins for the media modules: real filter base classes, no media.  Everything but the
// classes themselves is in pm_filters.cpp.
#pragma once
#include "Filter.hh"
#include <algorithm>
#include <memory>
namespace pm { struct Obj; }
#define PM_COMMON(name, base) public: name(FilterType t, unsigned n); ~name(); protected: \
    FrameQueue *allocQueue(struct ConnectionData c); void doGetState(Jzon::Object &o); \
    bool specificReaderConfig(int id, FrameQueue *q); bool specificReaderDelete(int id); \
    bool specificWriterConfig(int id); bool specificWriterDelete(int id); pm::Obj *o;
class PmHead : public HeadFilter { PM_COMMON(PmHead, HeadFilter) bool doProcessFrame(std::map<int, Frame *> &d, int &ret); };
class PmTail : public TailFilter { PM_COMMON(PmTail, TailFilter) bool doProcessFrame(std::map<int, Frame *> &f, std::vector<int> n, int &ret); };
class PmOne : public OneToOneFilter { PM_COMMON(PmOne, OneToOneFilter) bool doProcessFrame(Frame *f, Frame *d); };
class PmSplit : public OneToManyFilter { PM_COMMON(PmSplit, OneToManyFilter) bool doProcessFrame(Frame *f, std::map<int, Frame *> &d); };
class PmMix : public ManyToOneFilter { PM_COMMON(PmMix, ManyToOneFilter) bool doProcessFrame(std::map<int, Frame *> &f, Frame *d, std::vector<int> n); };
#define PM_CLASS(name, base, type, n) class name : public base { public: name(int = 0, int = 0) : base(type, n) {} static name *createNew(int = 0, int = 0, int = 0) { return new name(); } };
PM_CLASS(SourceManager, PmHead, RECEIVER, 16)
PM_CLASS(HeadDemuxerLibav, PmHead, DEMUXER, 4)
PM_CLASS(V4LCapture, PmHead, V4L_CAPTURE, 1)
PM_CLASS(SinkManager, PmTail, TRANSMITTER, 16)
PM_CLASS(Dasher, PmTail, DASHER, 4)
PM_CLASS(VideoDecoderLibav, PmOne, VIDEO_DECODER, 1)
PM_CLASS(VideoEncoderX264, PmOne, VIDEO_ENCODER, 1)
PM_CLASS(VideoResampler, PmOne, VIDEO_RESAMPLER, 1)
PM_CLASS(AudioDecoderLibav, PmOne, AUDIO_DECODER, 1)
PM_CLASS(AudioEncoderLibav, PmOne, AUDIO_ENCODER, 1)
PM_CLASS(SharedMemory, PmOne, SHARED_MEMORY, 1)
PM_CLASS(VideoMixer, PmMix, VIDEO_MIXER, 8)
PM_CLASS(AudioMixer, PmMix, AUDIO_MIXER, 4)
PM_CLASS(VideoSplitter, PmSplit, VIDEO_SPLITTER, 8)
