#!/usr/bin/env python3
# Source of properties.jsonl (one place to edit wording); run: python3 tools/gen_properties.py
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[observe]
    if hook: a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("S01","A filter is never executed by two workers at once, nor before its delay",
  "However many workers the pool has and however their wake-ups interleave, a registered filter is processed by at most one worker at a time, and each execution sees every effect of the previous one. An execution never starts before the delay that the filter itself asked for at the end of its previous execution has elapsed on the system clock.",
  ["schedules","histories","configurations"],"all interleavings of 1..16 workers and of threads registering filters; all delays filters return; clock steps; spurious wake-ups",
  "The only pool test adds and removes one task; no test runs two workers against the same filter or controls which one wakes.",
  ["src/WorkersPool.cpp","src/WorkersPool.hh","src/Runnable.cpp"],
  [("shared task queue with one mutex and a condition variable","WorkersPool worker loop"),("running flag and next-execution time per filter","Runnable")],
  [("run flag","a worker is executing the filter"),("time","earliest next execution")],"entry and exit of a filter's processing function")

p("S02","Enabled filters are always executed again; no wake-up is lost",
  "A filter that has just been registered, that is reported as having new input by the execution of another filter, or that still has pending input after its own execution, is executed again once the delays requested by the registered filters have expired. This holds for every worker count and interleaving, with delayed wake-ups and stalled workers, so a pipeline with unprocessed input never stays idle.",
  ["schedules","fault_sequences","histories"],"all interleavings of workers, producers and registrations; arbitrary finite stalls of a thread; spurious and reordered wake-ups; bounded number of simulated milliseconds once stalls stop",
  "Tests call processFrame by hand from one thread; a lost notification or a job dropped from the queue only shows under particular interleavings of several workers.",
  ["src/WorkersPool.cpp","src/Filter.cpp","src/Runnable.cpp"],
  [("enabled job ids returned by each execution and pushed back to the task queue","WorkersPool worker loop, BaseFilter::processFrame"),("pending input check after execution","BaseFilter::pendingJobs")],None,"executions of each filter against its unconsumed input")

p("S03","After a filter is removed or the pool stops, it is never run or touched again",
  "Once removing a filter from the worker pool has returned, no worker executes or accesses it again, so its owner may destroy it immediately; every other filter goes on being executed. Removing a filter and stopping the pool both return within bounded time whatever the filters are doing, and after a stop nothing is executed.",
  ["schedules","histories","fault_sequences"],"all interleavings of removal, registration, stop and destruction with workers that are idle, waiting for a delay, executing that filter or about to",
  "The existing test removes a task from an otherwise idle pool and never frees it while workers hold references.",
  ["src/WorkersPool.cpp","src/Runnable.cpp"],
  [("removal waits for the running flag to clear","WorkersPool::removeTask"),("stop flag, notify and join","WorkersPool::stop")],None,"return of the remove and stop calls; any later access to the filter's memory")

p("F01","Frames cross a queue in order, intact, at most once; every loss is counted",
  "Between one producer and one consumer running concurrently, frames are delivered in the order they were committed, each at most once, with the content, timestamps and sequence number the producer gave them. Frames can go missing only when the queue overflows, in which case the newest queued frames are dropped while the frame in use by the consumer stays intact, and the lost-frame counter equals the number dropped. This holds for frame queues of at least three slots and for queues that split an encoded picture in slices; a queue for a media format is either refused or every one of its slots takes a whole frame of that format.",
  ["schedules","inputs","histories","configurations"],"all interleavings of the producer's and consumer's individual memory accesses, all queue sizes from three frames up, all relative speeds and forced writes",
  "Queue tests push and pop from a single thread; overflow while the consumer is in the middle of a frame cannot be provoked by them.",
  ["src/AVFramedQueue.cpp","src/SlicedVideoFrameQueue.cpp","src/FrameQueue.hh","src/IOInterface.cpp"],
  [("circular buffer with front and rear indices","AVFramedQueue"),("overflow drops the most recently committed frame","AVFramedQueue::forceGetRear / doFlush"),("slice splitting","SlicedVideoFrameQueue::pushBackSliceGroup")],
  [("front, rear","ring positions"),("lostBlocs","frames dropped by overflow")],"frames obtained by the consumer")

p("F02","Every consumer sharing a stream gets each frame once; none can stall others",
  "When several consumers share one input stream, each of them is handed every frame exactly once as new and in order, and a frame is released to the producer only after every current sharer has finished with it. A consumer that stops sharing, at any moment, neither makes the remaining ones skip or repeat a frame nor blocks them, and one that joins is served from the next frame on.",
  ["schedules","histories"],"all interleavings of 2..4 consumers taking, finishing, joining and leaving with one producer",
  "Tests share a reader between two filters stepped in a fixed order on one thread and never detach one in the middle of a frame.",
  ["src/IOInterface.cpp","src/Filter.cpp"],
  [("per-consumer pending flags in the shared reader","Reader::getFrame, Reader::removeFrame, Reader::disconnect"),("sharing","BaseFilter::shareReader")],
  [("filters map","which consumers still have to take or finish the current frame")],"frames each consumer is handed with the new-frame flag")

p("F03","Connecting and disconnecting running filters is safe and leak-free",
  "Two filters can be connected, and the connection can be torn down from either end, in any order and from any thread while both filters keep processing: no frame or queue is used after it is freed, freed twice or left allocated once both ends are gone. A connection attempt that is refused leaves both filters as they were, and after a teardown the same ids can be connected again and carry frames.",
  ["schedules","histories","fault_sequences"],"all interleavings of connect, disconnect from either end, destruction of an end and frame processing on workers; refused connections and allocation refusals at every step",
  "Tests connect and disconnect idle filters sequentially; no frame is in flight and no failure is injected.",
  ["src/Filter.cpp","src/IOInterface.cpp","src/FrameQueue.hh"],
  [("two-phase release of the queue by the last end that leaves","Writer::disconnect, Reader::disconnect"),("dead writer and reader removal during processing","BaseFilter::demandDestinationFrames, demandOriginFrames*")],
  [("connected flag","one end has left when false")],"allocation and access of queues and frames")

p("F04","Configuration events run once, in order, when due, between two frames",
  "A configuration event posted to a filter from any thread is applied exactly once and never while that filter is processing a frame. Filters in the middle of a pipeline apply it the next time they run, never before its requested delay has elapsed since its timestamp, and in the order of the events' timestamps (an event waits for earlier ones that are not due); head and tail filters apply it before posting it returns. Events with an unknown action or invalid parameters are dropped without effect on the others, and every valid event is applied once it is due and the filter keeps being scheduled.",
  ["schedules","inputs","histories","fault_sequences"],"all interleavings of several posting threads with the worker running the filter; all timestamps and delays; clock steps; unknown and failing events mixed in",
  "Tests post one event and then run the filter on the same thread; they never race posting with processing nor exercise delays.",
  ["src/Filter.cpp","src/Event.cpp","src/Event.hh"],
  [("priority queue of events ordered by timestamp, drained before each execution","BaseFilter::pushEvent, BaseFilter::processEvent")],
  [("eventQueue","events not applied yet")],"invocations of the filter's event handlers and of its frame processing")

p("F05","Inputs are consumed aligned in time, never stalled or dropped silently",
  "A filter that synchronises its inputs (every tail filter) holds an input back as long as another connected input has no frame or lags behind it by more than the synchronisation margin: a frame is handed over only if its input itself lags by more than the margin behind another one, if all inputs have frames within the margin, or if its buffer is nearly full. Every queued frame that is not counted as lost is handed over as new exactly once and per input in order. When every connected input keeps delivering, so does the filter for each of them, whatever their time offsets, arrival times and stalls, and an input that leaves does not hold the others back.",
  ["schedules","inputs","histories","fault_sequences"],"all arrival orders, rates, timestamp offsets and stalls of 1..4 inputs; buffers filling up; schedules of producers against the synchronising filter",
  "Functional tests feed one or two perfectly regular inputs from the same thread.",
  ["src/Filter.cpp","src/IOInterface.cpp"],
  [("synchronisation of inputs by frame time and margin","BaseFilter::framesSync, demandOriginFrames"),("next frame time and fill level of an input","Reader::getCurrentTime, Reader::isFull")],
  [("front frames of the inputs","what the decision is based on")],"frames handed to the filter's processing function with the set of new inputs")

p("A01","Audio buffer output is the input timeline: no sample lost, repeated or moved",
  "For a producer and a consumer running concurrently on an audio buffer, the consumed samples are exactly the accepted input samples in order, with silence exactly where the input timestamps jump ahead by more than the tolerated jitter (64 samples), and each output block carries the timestamp of its first sample on that timeline, however long the buffer has been in use. Input that is too old or does not fit is refused as a whole and changes nothing; a jump of the configured maximum or more drops what is buffered, is counted as a loss and restarts the timeline with the next input. No other input is refused, no sample of accepted input is changed, shifted or repeated, and the origin time of a block is the one of its samples (within an input block). A buffer without channels, rate or size or for a format it cannot hold is not created, and a deleted one leaves no memory behind.",
  ["schedules","inputs","histories","fault_sequences"],"all interleavings of the producer's and the consumer's memory accesses; all block sizes, sample formats, gaps, overlaps and timestamp jumps; consumer stalls that fill the buffer",
  "Tests fill and drain the buffer from one thread with regular timestamps; gaps longer than a frame and concurrent use are not reached.",
  ["src/AudioCircularBuffer.cpp","src/AudioFrame.cpp"],
  [("circular buffer with gap filling and late discard by timestamp","AudioCircularBuffer::addFrame, getFront")],
  [("elements","bytes stored per channel"),("syncTimestamp","time of position zero")],"blocks obtained by the consumer")

p("A02","The audio mix is the sum of its inputs on one timeline for any arrival order",
  "For input blocks that arrive within the mixing window (100 ms), the mixer's output timeline is the gain-weighted sum of the inputs at the same timestamps (compressed, in both half waves alike and never beyond full scale, where it exceeds the threshold of 0.6), independent of the order in which inputs arrive, of scheduling, of how long it has run and of which inputs join or leave meanwhile. Output blocks are contiguous and in order, and a late, missing or departed input only silences its own contribution; a block beyond the window restarts the timeline without leaving old samples behind. Gain, mute and solo requests take effect exactly on the blocks mixed after them; requests without valid parameters change nothing.",
  ["schedules","inputs","histories","fault_sequences"],"all arrival orders, jitter, stalls, joins and leaves of 1..4 inputs; gain, mute and solo changes between blocks",
  "Functional tests feed equal sine blocks in a fixed order and check only lengths of the output.",
  ["src/modules/audioMixer/AudioMixer.cpp","src/modules/audioMixer/AudioMixer.hh"],
  [("per-channel mixing buffers positioned by presentation time","AudioMixer::doProcessFrame, pushToBuffer, extractMixedFrame")],None,"blocks on the mixer's output")

p("D01","A published DASH manifest never references a missing or incomplete file",
  "At every instant, including after the process dies at any point or is started again on the same folder, and after any disk error, the manifest in the output folder is one complete document, every media segment it lists exists with its full content (which does not change while it is listed by the process that wrote it, provided the representations of a set are aligned, i.e. have the same key frame times), and so does the initialisation segment of every representation with listed segments. Once writes succeed again after a disk error, publication resumes, initialisation segments included. Changing the configuration or adding and removing inputs does not interrupt any of this.",
  ["crash_points","fault_sequences","histories","inputs"],"a process crash inside or between any two file operations, with a restart; failed, short, torn and refused writes, opens, renames, closes and deletions, full and dead disk; all segment durations, window sizes, paths and sets of representations",
  "Dasher tests compare single segments in memory with reference files; they never fail a write nor look at the folder between operations.",
  ["src/modules/dasher/Dasher.cpp","src/modules/dasher/MpdManager.cpp","src/modules/dasher/DashVideoSegmenter.cpp","src/modules/dasher/DashAudioSegmenter.cpp"],
  [("segment files are written before the manifest that lists them, removed after it stops listing them","Dasher::writeVideoSegments, writeAudioSegments"),("initialisation segment","Dasher::generateInitSegment"),("manifest serialisation","MpdManager::writeToDisk")],None,"the output folder after every file operation")

p("D02","DASH segments hold every input frame once, in order, on a continuous timeline",
  "From the first key frame on for which the parameter sets are known, every access unit given to the segmenter appears in exactly one media segment, complete (all its slices), in order, with its duration, composition time and key flag on the stream's timeline; audio frames likewise from the start of the timeline on. A video segment starts with a key frame, lasts at least the configured duration (less one frame), and begins where the previous one of its representation ends; the manifest lists each complete segment at the time and duration it has (provided the representations of a set are aligned), in order, skipping none unless a manifest could not be written. Initialisation segments carry the stream's current parameter sets, which may change at any key frame, or its audio configuration; what is no frame (audio without header, empty and filler NAL units) leaves no trace. This holds for any frame timing with increasing timestamps, key-frame spacing and interleaving of several audio and video inputs; access units may be left out only where a segment exceeds 10 MB or 65536 samples.",
  ["inputs","schedules","histories","configurations"],"all interleavings of audio and video inputs, H.264 and HEVC with reordered pictures, jittered and missing frames, pauses of hours, key-frame intervals, segment durations, and schedules of the producing filters; failing disks",
  "Tests replay one recorded sequence per codec and compare one or two segments.",
  ["src/modules/dasher/Dasher.cpp","src/modules/dasher/DashVideoSegmenter.cpp","src/modules/dasher/DashVideoSegmenterAVC.cpp","src/modules/dasher/DashVideoSegmenterHEVC.cpp","src/modules/dasher/DashAudioSegmenter.cpp","src/modules/dasher/i2libdash.c","src/modules/dasher/i2libisoff.c"],
  [("sample accumulation and segment cut at key frames","DashVideoSegmenter::appendFrameToDashSegment, i2libdash"),("timestamps to time base","DashSegmenter::microsToTimeBase")],None,"published segment files")

p("D03","The DASH output folder holds a sliding window: nothing more, nothing less",
  "Each manifest lists per stream the most recent published segments, as many as the configured window (at least two) or as many as there are, in increasing time order without overlap for aligned representations, and only representations that are connected. A segment that leaves the window, an input that is removed and a previous configuration leave no file behind once the next publication succeeds, a deletion that fails being tried again with the following ones, and everything the segmenter allocated is freed with it; so disk and memory usage stay bounded for an unbounded run.",
  ["histories","inputs","fault_sequences","configurations"],"arbitrarily long runs; all window sizes and changes to them while running; irregular segment durations; inputs added and removed; changes of folder and name; failures of delete and other operations",
  "Manifest tests insert a handful of timestamps and never relate them to files on disk.",
  ["src/modules/dasher/MpdManager.cpp","src/modules/dasher/Dasher.cpp"],
  [("segment timeline with a maximum length","MpdManager::updateAdaptationSetTimestamp"),("file removal","Dasher::cleanSegments")],None,"the manifest and the folder after every publication, and the heap at the end")

p("D04","The DASH manifest describes the presentation and its streams as they are",
  "Every manifest published when segments are new states the configuration in force (update period, depth of the window, buffering time of at least two segments and at most the window, one constant start of availability) lists every input all of whose segments in the window are there, and for each representation the codec, size (which may change at key frames) or sampling rate and channels of the frames its input delivers and the bandwidth that was last set for it; its initialisation segment has the same codec, size, rates and the time scale its segment times are in. The element's state reports the configuration in force and the connected inputs; a configuration with an unusable folder changes nothing, and an input whose codec cannot be segmented, or that comes before a configuration, is refused without effect on the others.",
  ["inputs","schedules","histories","configurations","fault_sequences"],"all sizes, codecs, sampling rates, channel counts and bandwidths, reconfigurations and bandwidth changes at any point of a run, inputs coming and going and coming back under the same id, failing disks, restarts, and schedules of control against the segmenter's thread",
  "Manifest tests compare one document built from literals; no test relates the manifest to what the inputs delivered or to events.",
  ["src/modules/dasher/MpdManager.cpp","src/modules/dasher/Dasher.cpp","src/modules/dasher/DashVideoSegmenter.cpp","src/modules/dasher/DashAudioSegmenter.cpp","src/modules/dasher/i2libdash.c","src/modules/dasher/i2libisoff.c"],
  [("configuration and bandwidth events","Dasher::configureEvent, setBitrateEvent, MpdManager::configure"),("representation attributes","MpdManager::updateVideoRepresentation, updateAudioRepresentation, toMpd"),("context of the segment writer","DashVideoSegmenter::setup, DashAudioSegmenter::setup")],None,"every published manifest, the initialisation segments and the element's state")

p("M01","Shared memory hands over whole frames: the reader never sees a torn one",
  "A process that reads the shared segment under its turn flag always finds one complete frame (a raw picture, or an H.264 access unit between two delimiters) whose header (sequence, size, format, codec, time, length) and payload belong together and that is newer than the one before, and nothing changes in the segment while it is the reader's turn. Each frame that fits, exactly or with room to spare, and is complete when it is the writer's turn is handed over; larger ones are left out. The reported state names the segment, its key and the codec. Whatever the reader's speed, or if it dies while it holds the turn, the filter passes every frame on to its own output unchanged and never blocks. A filter that cannot be created reports it and leaves neither memory nor a segment behind, nor does one that is deleted.",
  ["schedules","fault_sequences","inputs"],"all interleavings of the writer's memory accesses with a reader process, slow, stalled or dying at any point, and its successors; all frame sizes, malformed NAL units; failures of the shared-memory system calls",
  "The tests write a frame and read it back afterwards in the same thread.",
  ["src/modules/sharedMemory/SharedMemory.cpp","src/modules/sharedMemory/SharedMemory.hh"],
  [("turn flag in the first byte of the segment","SharedMemory::doProcessFrame, writeSharedMemoryRAW, writeSharedMemoryH264")],None,"the shared segment as a concurrent reader process sees it; the filter's output queue")

p("V01","The capture device is always driven validly and its buffers are never lost",
  "For any sequence of configurations, device errors, interrupted or slow system calls, missing frames, unplugged devices and steps of the system clock, the capture element only issues requests valid in the device's current state, keeps no buffer of the driver (except while the driver refuses to take it back), and holds no descriptor, mapping or memory after a failed configuration, a release or its destruction. Every frame taken from the device is delivered once, in order, with the bytes, size and format the device produced (frames that find the queue full or do not fit may be dropped) and the time it was read; the device is asked for the configured size, format and rate; the reported state (with a rate not above what the device delivers in the long run) and the stream it announces to its consumers are the device's, and once the faults stop a good configuration is accepted and frames keep coming.",
  ["fault_sequences","inputs","histories"],"every system call failing or being interrupted at any point; all device capabilities and negotiated formats; reconfiguration in every state",
  "There is no test for the capture element: it needs a device.",
  ["src/modules/V4LCapture/V4LCapture.cpp","src/modules/V4LCapture/V4LCapture.hh"],
  [("state machine close/open/init/capture","V4LCapture"),("buffer exchange with the driver","V4LCapture::getFrame, readFrame, queueBuffers"),("configuration and release","V4LCapture::configure, releaseDevice, initDevice")],None,"the sequence of system calls on the device")

p("K01","Every control request gets exactly one answer, on its own connection",
  "For every client connection whose request (up to 16383 bytes) arrives complete without longer pauses, the control server executes every event of the request exactly once with the parameters sent, sends one complete JSON reply with the result of each event in order on that connection and then closes it. Malformed, oversized, incomplete and stalled requests and clients that disconnect, stall or read slowly at any point never crash or block the server, leak a connection, are executed in part, or affect the requests and replies of others: the next client is served within a bounded time. If the server cannot create its listening socket it reports that and leaves nothing behind.",
  ["inputs","fault_sequences","histories","schedules"],"all orders of concurrent clients, fragmentation of requests and replies, resets and half-open connections, interrupted system calls, malformed and oversized input",
  "No test opens the control socket.",
  ["src/Controller.cpp","src/Controller.hh"],
  [("select and accept loop","Controller::listenSocket"),("parse, dispatch and answer","Controller::readAndParse, processRequest, sendAndClose")],None,"the byte streams of client connections")

p("P01","Building, rewiring and tearing down pipelines leaves a consistent system",
  "Any sequence of control operations (create and remove filters, create, connect and remove paths, events for filters, stop) that the system accepts leaves every path connected exactly as described (frames of its origin, and only those, reach its destination, also through shared and middle filters) and every filter either registered and scheduled or gone, and the reported state says so; any refused operation leaves the system as it was and reports an error, and no operation is refused without a reason. No sequence of operations, run while media flows and filters send events to each other, crashes the process, processes a filter twice at once, uses destroyed filters, blocks, or leaks.",
  ["histories","schedules","fault_sequences"],"all operation sequences including duplicate, unknown and conflicting ids, interleaved with media processing by the workers",
  "The pipeline manager's tests build a fixed set of paths with no media flowing (and are not runnable here).",
  ["src/PipelineManager.cpp","src/Path.cpp","src/Filter.cpp"],
  [("filter and path tables","PipelineManager::createFilter, createPath, connectPath, removePath, stop")],None,"state reported by the control interface and executions of filters")

p("E01","Media flows end to end: nothing lost silently, reordered, duplicated or stuck",
  "In a running pipeline of connected filters executed by the worker pool, every frame injected at a source reaches each sink exactly once and in order with its timestamps, unless a queue on its way counted it as lost. Whenever sources pause, all frames accepted so far arrive at the sinks within bounded time, except those a sink holds back to wait for another of its inputs. The average delay reported for an input is one its frames really had.",
  ["schedules","fault_sequences","configurations","histories"],"all topologies of chains, fan-outs, shared inputs and fan-ins, queue sizes, worker counts, filter delays and thread stalls",
  "Functional tests step each filter by hand in topological order; the pool, queues and filters are never run together.",
  ["src/WorkersPool.cpp","src/Filter.cpp","src/IOInterface.cpp","src/AVFramedQueue.cpp","src/Runnable.cpp"],
  [("frame queues between filters executed by a worker pool","BaseFilter::processFrame, WorkersPool")],None,"frames at sinks against frames injected and lost-frame counters")

p("V02","Mixed, split and resampled pictures show what is configured",
  "Every picture the video mixer, splitter and resampler deliver shows exactly what was configured when it was made: each enabled, connected input at its position, size, opacity and layer and black elsewhere; the configured crop; the configured size and pixel format. Its dimensions, length, format and times belong to that picture, and it does not change while a consumer uses it. This holds for any schedule of input pictures (of any and changing size), configuration requests (also invalid or extreme ones) and sources or consumers that join or leave; requests that are refused change nothing, the reported state is the state in force, and no request or picture crashes, stalls or leaks.",
  ["schedules","configurations","inputs","histories"],"all interleavings of pictures, configuration events, connections and disconnections; all sizes, positions, layers, opacities, crops and pixel formats, including values out of range",
  "The tests configure a few valid layouts once and compare single pictures processed by hand.",
  ["src/modules/videoMixer/VideoMixer.cpp","src/modules/videoSplitter/VideoSplitter.cpp","src/modules/videoResampler/VideoResampler.cpp","src/Filter.cpp"],
  [("picture elements, their sources, consumers and the control thread","VideoMixer, VideoSplitter, VideoResampler on BaseFilter::processFrame")],None,"every output picture against the reference picture of a configuration in force while it was made")

p("V03","Encoders code each picture with the configuration and times that belong to it",
  "The H.264 and H.265 encoding elements give every supported picture (4:2:0 in any even size, for H.264 also 4:2:2, and 4:4:4) to the encoder library once, with its real planes, size and pixel format, in an encoder opened with the configuration in force (bit rate, frame rate, group length, B-frames, lookahead, threads, preset, headers); an intra picture is asked for exactly when it was requested or the group time has passed, and the request survives a failing library. Every coded picture the library returns reaches the consumers as the library's NAL units, whole and in order, with the presentation time, origin time, sequence number and size of the picture it codes and decode times that increase and are not later than it; a NAL unit that does not fit or a picture of too many costs no more than itself. The stream description carries the headers of the encoder in use. This holds for encoders that delay and reorder pictures, library calls that fail at any point, pictures of changing and unsupported shape, timestamp jumps and configuration events at any time; invalid configurations change nothing, a failure is overcome with the next picture, and no encoder, parameter or picture leaks.",
  ["schedules","fault_sequences","configurations","inputs","histories"],"all interleavings of pictures, configuration and intra events and consumers; all orders, delays, NAL counts and failures of the encoder library",
  "The encoders have no test that runs with the libraries of this sandbox; their tests decode a file and do not fail, reorder or reconfigure.",
  ["src/modules/videoEncoder/VideoEncoderX264or5.cpp","src/modules/videoEncoder/VideoEncoderX264.cpp","src/modules/videoEncoder/VideoEncoderX265.cpp","src/SlicedVideoFrameQueue.cpp","src/VideoFrame.cpp"],
  [("encoding elements, their source, consumer and the control thread","VideoEncoderX264, VideoEncoderX265 on BaseFilter::processFrame")],None,"every call of the encoder library and every delivered NAL unit against the pictures, configuration and requests at that moment")

# ---- not claimed
p("N02","The JSON codec parses what it prints and rejects malformed text",
  "Any document written by the JSON codec is read back equal, and malformed text of any shape is rejected without crash.",
  ["inputs"],"all byte strings","No test of the codec exists.",["src/Jzon.cpp"],[("recursive parser","Jzon::Parser")])
p("N03","RTSP/RTP reception and transmission deliver the negotiated streams",
  "Each RTSP session and RTP connection set up through the receiver and transmitter delivers the access units of its stream in order with their presentation times, and tearing one down does not disturb the others.",
  ["schedules","fault_sequences","inputs"],"packet loss, reordering and session churn","The tests need live555, which is not available here.",
  ["src/modules/receiver/SourceManager.cpp","src/modules/transmitter/SinkManager.cpp"],[("live555 event loop","SourceManager, SinkManager")])
p("N04","Decoders, audio encoder and demuxer preserve frame timing and content",
  "Every frame given to a decoder filter, to the audio encoder or read by the demuxer comes out once with its own timestamps, and the decoded content matches within codec loss.",
  ["inputs","configurations"],"all frame sequences and codec settings","The encoding/decoding tests need the FFmpeg 2.x API.",
  ["src/modules/headDemuxer/HeadDemuxerLibav.cpp","src/modules/audioDecoder/AudioDecoderLibav.cpp","src/modules/audioEncoder/AudioEncoderLibav.cpp","src/modules/videoDecoder/VideoDecoderLibav.cpp"],[("libav wrappers","doProcessFrame of each module")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
