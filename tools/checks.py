"""What each check runs."""
SIM = "scheduler, clocks, sleeps, pthread mutexes/conditions/threads, heap: simulated"
CHECKS = {
 "S01": dict(parts=[dict(group="core", scenarios={"pool_excl": 1})],
   rule="A run builds a pool with random worker count and tasks (delays, work times, wake-ups of other tasks) and steps the system clock; non-trivial: more executions than registrations plus two.",
   quick=dict(runs=160000, time=50), thorough=dict(runs=4000000, time=900),
   real=["WorkersPool", "TaskQueue", "Runnable"], stub=["the tasks (instrumented harness filters)", SIM],
   assumptions=["delays are measured on the system clock the pool itself uses; after a clock step back the delay may count from the highest time already seen"]),
 "S02": dict(parts=[dict(group="core", scenarios={"pool_live": 3, "pool_excl": 1})],
   rule="Tasks hand tokens to each other; after disturbances stop every token has to be consumed and every enabled task executed within a bounded simulated time; non-trivial: more executions than registrations plus two.",
   quick=dict(runs=160000, time=50), thorough=dict(runs=4000000, time=900),
   real=["WorkersPool", "TaskQueue", "Runnable"], stub=["the tasks (instrumented harness filters)", SIM],
   assumptions=["bound: 400 times the sum of the largest delay, largest work time and the idle period"]),
 "S03": dict(parts=[dict(group="core", scenarios={"pool_remove": 1})],
   rule="Removers take tasks out while workers run them, free them at once (any later access is caught by the simulated heap) and register new ones under the same id; the pool is stopped at a random moment; non-trivial: at least four executions.",
   quick=dict(runs=160000, time=50), thorough=dict(runs=4000000, time=900),
   real=["WorkersPool", "TaskQueue", "Runnable"], stub=["the tasks (instrumented harness filters)", SIM],
   assumptions=["bound for removal: twice the longest execution plus 0.4 s plus injected stalls; for stop: plus the longest requested delay"]),
}
CHECKS["F01"] = dict(parts=[dict(group="core", scenarios={"queue_av": 240, "queue_sliced": 120, "queue_audio": 39, "queue_video": 1, "queue_formats": 2})],
   rule="A producer and a consumer run against one queue with random sizes, speeds, forced overflows and slices; every frame carries a unique pattern; queues of all codecs, pixel and sample formats are created and filled to the last slot; non-trivial: at least four commits and three deliveries.",
   quick=dict(runs=120000, time=50), thorough=dict(runs=3000000, time=900),
   real=["AVFramedQueue", "VideoFrameQueue", "AudioFrameQueue", "SlicedVideoFrameQueue", "FrameQueue", "VideoFrame", "AudioFrame"], stub=["producer and consumer (harness)", SIM],
   assumptions=["queues of at least three slots", "slices no larger than the slot size the queue was created with"])
CHECKS["F02"] = dict(parts=[dict(group="core", scenarios={"filter_share": 1})],
   rule="A producer feeds several consumers sharing one reader that work at different speeds, join and leave; non-trivial: at least three frames opened and a consumer joined.",
   quick=dict(runs=30000, time=50), thorough=dict(runs=1500000, time=900),
   real=["BaseFilter", "Reader", "Writer", "AVFramedQueue"], stub=["bodies of the filters and the threads that run them (harness)", "PipelineManager", SIM],
   assumptions=["a joining consumer may see the frame being shared at that moment or start with the next one"])
CHECKS["F03"] = dict(parts=[dict(group="core", scenarios={"filter_conn": 1})],
   rule="One or two control threads connect, disconnect (from either end, in either order, at once), share inputs, refuse and destroy filters while threads run them; at the end everything has to be freed; non-trivial: at least one connection and one teardown.",
   quick=dict(runs=30000, time=60), thorough=dict(runs=1000000, time=900),
   real=["BaseFilter", "HeadFilter", "TailFilter", "OneToOneFilter", "Reader", "Writer", "AVFramedQueue"], stub=["bodies of the filters and the threads that run them (harness)", "PipelineManager", SIM],
   assumptions=["two control threads never address the same end of a connection at once, except for the competing connections to one input", "filters are destroyed after they were taken out of the pool"])
CHECKS["F04"] = dict(parts=[dict(group="core", scenarios={"filter_events": 1})],
   rule="Several threads post events (past, present and future timestamps, delays, unknown actions, missing, failing or throwing handlers) to a filter of any kind while a thread runs it, another connects it and the system clock steps; non-trivial: at least two valid events and frames processed in between.",
   quick=dict(runs=30000, time=60), thorough=dict(runs=1000000, time=900),
   real=["BaseFilter", "HeadFilter", "TailFilter", "OneToOneFilter", "OneToManyFilter", "ManyToOneFilter", "Event", "Jzon (parameters)"], stub=["event handlers and bodies of the filters, threads that run them (harness)", "PipelineManager", SIM],
   assumptions=["the order of events with equal timestamps is free", "an event waits behind events with earlier timestamps whose delay has not elapsed", "head and tail filters apply events when they are posted, without delay"])
CHECKS["F05"] = dict(parts=[dict(group="core", scenarios={"filter_sync": 1})],
   rule="Two to four inputs with different rates, time offsets, jitter, buffer sizes and stalls feed a synchronising filter, one may leave; every frame handed over is justified against the fronts of all inputs; non-trivial: more than ten passes.",
   quick=dict(runs=12000, time=60), thorough=dict(runs=300000, time=900),
   real=["BaseFilter", "TailFilter", "HeadFilter", "Reader", "Writer", "AVFramedQueue"], stub=["bodies of the filters and the threads that run them (harness)", "PipelineManager", SIM],
   assumptions=["nearly full: at least nine tenths of the slots in use", "buffers of fewer than ten slots are never nearly full"])
CHECKS["K01"] = dict(parts=[dict(group="pm", scenarios={"ctl": 2, "ctl_good": 1})],
   rule="Four to eleven clients talk to the server's loop over a simulated network while media flows: good ones in any fragmentation, and ones that stall, read slowly, reset, half-close, close early, stay silent, send malformed, oversized or several requests; socket calls fail, are interrupted or short. When all have gone a last good client has to be served; non-trivial: two requests served and judged.",
   quick=dict(runs=20000, time=60), thorough=dict(runs=600000, time=900),
   real=["Controller", "Jzon", "PipelineManager", "PathManager (Path)", "WorkersPool", "BaseFilter and its direct subclasses", "Event"], stub=["kernel sockets: socket, bind, listen, accept, select, poll, recv, send, close, ... (in-memory TCP with windows, resets and half-closed connections)", "media filters (harness: stand-ins of all filter types)", "the loop of main() around the server", SIM],
   assumptions=["requests are served one after another", "a good client sends its request within 0.9 s and reads its reply with at least 20 kB/s", "thread stalls do not add up to more than a second per request", "the server may answer or drop what is not a complete JSON object, but not execute it in part"])
CHECKS["P01"] = dict(parts=[dict(group="pm", scenarios={"pipe": 3, "pipe_big": 1})],
   rule="A control thread sends random operations with new, known, unknown and conflicting ids to the pipeline manager while its real pool runs the stand-in filters, connections can be refused by filters, and filters post events to each other; after each operation the answer, the reported state, the connections of all filters and what reaches each filter are compared with a reference model; at the end everything is stopped and the heap checked; non-trivial: every run that gets to the end.",
   quick=dict(runs=20000, time=60), thorough=dict(runs=600000, time=900),
   real=["PipelineManager", "Path", "WorkersPool", "BaseFilter and its direct subclasses", "Reader, Writer", "AVFramedQueue", "Event", "Jzon"], stub=["media filters (harness: stand-ins of all filter types behind the headers the pipeline manager includes)", SIM],
   assumptions=["control operations come from one thread at a time, as the controller's do", "paths do not form a cycle of filters (other than a filter to itself, which must be refused)"])
CHECKS["E01"] = dict(parts=[dict(group="core", scenarios={"pipeline": 5, "filter_share": 1})],
   rule="A random pipeline (heads, one-to-one, one-to-many, many-to-one and tail filters, shared inputs, queue sizes, work times) is run by a real worker pool; sources pause several times and everything sent must have been received or counted as lost by every consumer; at the end it is removed, and everything must be freed; non-trivial: at least ten frames sent.",
   quick=dict(runs=30000, time=60), thorough=dict(runs=1000000, time=900),
   real=["WorkersPool", "TaskQueue", "Runnable", "BaseFilter and all its direct subclasses", "Reader", "Writer", "AVFramedQueue"], stub=["bodies of the filters (harness)", "PipelineManager", SIM],
   assumptions=["a tail filter with several inputs may hold frames back for an input that has none (F05)", "bound for draining: two times the slots of all queues times (twice the longest work plus 3 ms) plus 0.3 s"])
CHECKS["A01"] = dict(parts=[dict(group="core", scenarios={"audio_buffer": 1})],
   rule="A producer offers frames with gaps, jumps, old timestamps and jitter while a consumer takes blocks at another speed; the recorded blocks are parsed against the accepted input; the position may start close to 2^32 samples; non-trivial: at least three accepted frames and two blocks.",
   quick=dict(runs=120000, time=50), thorough=dict(runs=3000000, time=900),
   real=["AudioCircularBuffer", "PlanarAudioFrame", "FrameQueue"], stub=["producer and consumer (harness)", SIM],
   assumptions=["decisions within 2 us or one sample of a limit are free", "ageing moves the buffer's position by a multiple of its length, as long use would"])
CHECKS["A02"] = dict(parts=[dict(group="core", scenarios={"audio_mix": 2, "audio_mix_mt": 1})],
   rule="One to five inputs (float and 16 bit) deliver in any order, jump, fall behind, join and leave while gains change; each mixing pass is compared with a reference model of the mixing window; non-trivial: at least five mixed blocks.",
   quick=dict(runs=6000, time=70), thorough=dict(runs=300000, time=900),
   real=["AudioMixer", "ManyToOneFilter, BaseFilter, Reader, Writer", "AudioCircularBuffer", "Event"], stub=["sources and sink (harness filters around the real base classes)", "PipelineManager", SIM],
   assumptions=["sums stay below the compression threshold", "window: five blocks of 20 ms, output once three blocks are buffered; a block further off than the window restarts the timeline", "a block whose input leaves during the pass may or may not be mixed"])
_dash = dict(parts=[dict(group="dash", scenarios={"dash": 2, "dash_mt": 1})],
   quick=dict(runs=20000, time=80), thorough=dict(runs=300000, time=900),
   real=["Dasher", "MpdManager", "DashVideoSegmenterAVC/HEVC", "DashAudioSegmenter", "i2libdash, i2libisoff (segment writer)", "tinyxml2", "TailFilter, BaseFilter, Reader, Writer", "Event"],
   stub=["encoders (generated H.264, HEVC and AAC streams)", "file system (in memory, below /simfs, every operation can fail, be torn or be the last one)", "PipelineManager", SIM])
_drule = "Up to four generated streams are segmented for 8 to 60 simulated seconds (up to 27 minutes on a dead disk, hours with pauses) to a disk that fails, fills up or dies, or the process dies and starts again on the folder; inputs join and leave, the configuration changes; "
CHECKS["D01"] = dict(_dash, rule=_drule + "the folder is checked after every single file operation; non-trivial: more than three manifests or a segment.",
   assumptions=["the machine survives the process: completed writes are not lost by a crash", "one process writes to a folder at a time", "after a restart, segments still listed by the dead process's manifest may be replaced as a whole"])
CHECKS["D02"] = dict(_dash, rule=_drule + "every segment that appears is parsed and compared with a reference model of the access units the segmenter was given; non-trivial: more than three manifests or a segment.",
   assumptions=["decode times do not go back within a stream", "NAL unit types other than slices, parameter sets, delimiters, SEI and filler data are not covered", "the copy of profile and level in the H.264 decoder configuration record is not judged (the existing tests pin it shifted by one byte)", "listing is compared for representations whose key frames coincide and that do not run a whole segment ahead of each other"])
CHECKS["D03"] = dict(_dash, rule=_drule + "each manifest is compared with the one before, the folder with the manifest after each publication, the heap at the end; non-trivial: more than three manifests or a segment.",
   assumptions=["files that were in the folder when it was configured are not the segmenter's to delete", "order and overlap are compared for representations whose key frames coincide and that do not run a whole segment ahead of each other"])
CHECKS["D04"] = dict(_dash, rule=_drule + "bandwidths are set and the state is read in between; each manifest with new segments, and the initialisation segments, are compared with the configuration in force and the frames the inputs delivered; non-trivial: more than three manifests or a segment.",
   assumptions=["an audio input keeps its sampling rate and channels while it is connected", "pictures change their size with a key frame that carries parameter sets; any size since the start of the newest segment is accepted", "several audio inputs of different sampling rates share one time scale (not judged)", "the frame rate the manifest states (always 0) is not judged"])
CHECKS["M01"] = dict(parts=[dict(group="shm", scenarios={"shm": 1})],
   rule="A source sends raw pictures or H.264 NAL units (some malformed, unknown or larger than the segment) through the filter to a sink while reader processes poll, read in pieces, compare, give the turn back, stall and die; creation is tried with failing system calls; non-trivial: more than three frames read or ten sent.",
   quick=dict(runs=20000, time=60), thorough=dict(runs=600000, time=900),
   real=["SharedMemory", "OneToOneFilter, BaseFilter, Reader, Writer", "VideoFrameQueue, InterleavedVideoFrame"], stub=["source, sink and reader processes (harness)", "System V shared memory (in memory, calls can fail)", "PipelineManager", SIM],
   assumptions=["sequentially consistent memory", "a reader only writes the turn flag, and only from '1' to '0'", "the header may carry the sequence number of any NAL unit of its access unit"])
CHECKS["V01"] = dict(parts=[dict(group="v4l", scenarios={"v4l": 1})],
   rule="A control thread sends configurations (good, malformed, absurd, for missing and unsuitable devices), connects, asks for the state, unplugs and replugs devices and sets the system clock while a worker steps the element and a sink consumes; any system call can fail, be interrupted or be slow, frames go missing, devices stall; then the faults stop. non-trivial: more than three frames delivered.",
   quick=dict(runs=16000, time=60), thorough=dict(runs=500000, time=900),
   real=["V4LCapture", "HeadFilter, BaseFilter, Writer", "VideoFrameQueue, InterleavedVideoFrame"], stub=["the kernel's V4L2 interface: stat, open, close, ioctl, mmap, munmap, select (a state machine per device)", "sink (harness)", "PipelineManager", SIM],
   assumptions=["sequentially consistent memory", "requests reach the element from one thread at a time, as the controller's do", "munmap does not fail", "descriptors are below FD_SETSIZE", "a frame may be dropped when the element's queue is nearly full or the frame does not fit in a slot", "the codec label of an existing connection is not checked after a reconfiguration to another kind of format"])
CHECKS["V02"] = dict(parts=[dict(group="video", scenarios={"video": 1})],
   rule="A mixer, splitter or resampler is run by a thread of its own while sources with pictures of changing size and format, consumers of different speed and a control thread that posts configuration events (a quarter invalid, an eighth extreme), joins and leaves act on it; every picture made is compared pixel by pixel with the reference of each configuration that can be in force, and every picture delivered with the one made; non-trivial: more than three pictures compared.",
   quick=dict(runs=20000, time=60), thorough=dict(runs=600000, time=900),
   real=["VideoMixer", "VideoSplitter", "VideoResampler", "BaseFilter and its direct subclasses", "Reader, Writer", "VideoFrameQueue", "VideoFrame", "Event", "Jzon", "OpenCV", "libswscale"], stub=["sources, consumers and the threads that run the filters (harness)", "PipelineManager", SIM],
   assumptions=["the largest picture is 96x64 instead of 1920x1080 (a compile-time constant of the repository)", "the order of channels on the same layer is free", "pixels next to the borders of a scaled area are not compared; scaled or converted values may differ by 9 of 255", "an old picture whose buffer its source overwrites is not judged", "OpenCV and libswscale run on one thread and are not pre-empted", "with a frame time only contents are compared, not the time of the mixed picture"])
CHECKS["V03"] = dict(parts=[dict(group="enc", scenarios={"enc": 1})],
   rule="An H.264 or H.265 encoding element is run by a thread of its own while a source changes size and format and jumps in time, a consumer of any speed reads and a control thread posts configurations (a quarter invalid), intra requests and group reference times; the encoder library delays, reorders, slices and fails; then the faults stop. non-trivial: more than five pictures coded and NAL units delivered.",
   quick=dict(runs=20000, time=60), thorough=dict(runs=600000, time=900),
   real=["VideoEncoderX264or5, VideoEncoderX264, VideoEncoderX265", "SlicedVideoFrameQueue", "OneToOneFilter, BaseFilter, Reader, Writer", "VideoFrame", "Event", "Jzon", "av_image_fill_arrays (libavutil)"], stub=["libx264 and libx265 (stand-ins that code no pixels: they delay, reorder, slice and fail as the real ones may)", "source, consumer and the threads that run the filters (harness)", "PipelineManager", SIM],
   assumptions=["pictures are at most 64x48, slots 600 bytes and queues 20 frames instead of 1920x1080, 2 MB and 100 (compile-time constants of the repository)", "pictures still inside an encoder that has to be opened again are lost", "an unknown preset name, framing without start codes and absurdly large values are not judged", "presentation times increase"])
