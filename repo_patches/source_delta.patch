From b156e67eab0d35766acf070ed2faec73b03a3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:04 +0000
Subject: [PATCH 01/78] fix: pop the job a worker selected, not the queue head

A worker skips queued jobs that are running and may select a later one, but
TaskQueue::pop() always dropped the head. The skipped job lost its pending
execution and the selected one stayed queued.
---
 src/WorkersPool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index a0a069a..78aec47 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -39,9 +39,9 @@ void TaskQueue::pushBack(Runnable *run){
 }
 
 void TaskQueue::pop(){
-    if (!queue.empty()){
-        sQueue.erase(queue.front());
-        queue.pop_front();
+    if (iter != queue.end()){
+        sQueue.erase(*iter);
+        queue.erase(iter);
         resetIterator();
     }
 }
-- 
2.43.0


From 2b00bf646ca39b6082f93b9a0468c9fc5f24684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:58 +0000
Subject: [PATCH 02/78] fix: removeTask leaves the removed task in the run
 queue

removeTask() only erased the id, so a queued task was still executed (or its
pending work asked for) after the call returned and the owner freed it. Take
it out of the queue, and look at isRunning() under the pool mutex so that the
worker has also finished asking the task for pending jobs.
---
 src/WorkersPool.cpp | 16 +++++++++++++++-
 src/WorkersPool.hh  |  2 ++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/WorkersPool.cpp b/src/WorkersPool.cpp
index 78aec47..20afc3d 100644
--- a/src/WorkersPool.cpp
+++ b/src/WorkersPool.cpp
@@ -46,6 +46,18 @@ void TaskQueue::pop(){
     }
 }
 
+void TaskQueue::remove(Runnable *run){
+    if (sQueue.erase(run) > 0){
+        for (std::deque<Runnable*>::iterator it = queue.begin(); it != queue.end(); it++){
+            if (*it == run){
+                queue.erase(it);
+                break;
+            }
+        }
+        resetIterator();
+    }
+}
+
 void TaskQueue::resetIterator(){
     iter = queue.begin();
 }
@@ -182,11 +194,13 @@ bool WorkersPool::removeTask(const int id)
     if (runnables.count(id) > 0){
         Runnable *runnable = runnables[id];
         runnables.erase(id);
-        guard.unlock();
+        queue.remove(runnable);
         qCheck.notify_one();
         while(runnable->isRunning()){
+            guard.unlock();
             utils::warningMsg("awaiting task to finish " + std::to_string(id));
             std::this_thread::sleep_for(std::chrono::milliseconds(100));
+            guard.lock();
         }
         return true;
     }
diff --git a/src/WorkersPool.hh b/src/WorkersPool.hh
index 62e9019..7c00136 100644
--- a/src/WorkersPool.hh
+++ b/src/WorkersPool.hh
@@ -42,6 +42,8 @@ public:
     
     void pop();
     
+    void remove(Runnable *run);
+    
     void resetIterator();
     
     void clear();
-- 
2.43.0


From 962dbec7b8b6c859b5bf62c2b680a362fce5fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 03/78] fix: flushing a frame queue races with its reader

The writer checks that the queue is full and then moves the rear back. When the
reader releases frames in between, the flush hits a queue that is not full any
more: the frame in use is overwritten, or already consumed frames come back.
Move the indexes under a mutex and only flush (and count) while still full.
---
 src/AVFramedQueue.cpp         | 10 ++++++++++
 src/AVFramedQueue.hh          |  7 +++++++
 src/FrameQueue.hh             |  2 +-
 src/SlicedVideoFrameQueue.cpp |  1 +
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index 7de8744..6a92ad6 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -73,6 +73,7 @@ std::vector<int> AVFramedQueue::addFrame()
     if ((rear + 1) % max == front){
         return ret;
     }
+    std::lock_guard<std::mutex> guard(idxMtx);
     rear =  (rear + 1) % max;
     
     return ret;
@@ -80,6 +81,7 @@ std::vector<int> AVFramedQueue::addFrame()
 
 int AVFramedQueue::removeFrame() 
 {
+    std::lock_guard<std::mutex> guard(idxMtx);
     if (rear == front){
         return -1;
     }
@@ -87,6 +89,14 @@ int AVFramedQueue::removeFrame()
     return connectionData.wFilterId;
 }
 
+void AVFramedQueue::flush()
+{
+    std::lock_guard<std::mutex> guard(idxMtx);
+    if ((rear + 1) % max == front){
+        FrameQueue::flush();
+    }
+}
+
 void AVFramedQueue::doFlush() 
 {
     rear = (rear + (max - 1)) % max;
diff --git a/src/AVFramedQueue.hh b/src/AVFramedQueue.hh
index 0a10fa2..1e49e81 100644
--- a/src/AVFramedQueue.hh
+++ b/src/AVFramedQueue.hh
@@ -29,6 +29,7 @@
 #include "FrameQueue.hh"
 #include "AudioFrame.hh"
 #include "StreamInfo.hh"
+#include <mutex>
 
 /*! It is an abstract class that represents a discrete buffering structure. 
 *   Each queue position is associated to a frame. It is implemented by VideoFrameQueue and AudioFrameQueue
@@ -71,6 +72,11 @@ public:
     */
     unsigned getElements() const;
 
+    /**
+    * Drops (and counts) the newest element, unless the reader has made room meanwhile
+    */
+    void flush();
+
     /**
      * The maximum number of frames allocated during construction. Used for replication, basically.
      * @returns the #maxFrames parameter using at construction
@@ -90,6 +96,7 @@ protected:
     void doFlush();
     Frame* frames[MAX_FRAMES];
     unsigned max;
+    std::mutex idxMtx; //!< Protects rear and front, flushing moves the rear back
 };
 
 /*! It represents a video AVFramedQueue */
diff --git a/src/FrameQueue.hh b/src/FrameQueue.hh
index 3bce029..71a62e6 100644
--- a/src/FrameQueue.hh
+++ b/src/FrameQueue.hh
@@ -111,7 +111,7 @@ public:
     /**
     * Counts lost blocs and flushes the queue
     */
-    void flush() 
+    virtual void flush() 
     { 
         lostBlocs++;
         doFlush();
diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index 93cc8ad..efbac74 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -104,6 +104,7 @@ Frame* SlicedVideoFrameQueue::innerForceGetRear()
 
 void SlicedVideoFrameQueue::innerAddFrame() 
 {
+    std::lock_guard<std::mutex> guard(idxMtx);
     rear =  (rear + 1) % max;
 }
 
-- 
2.43.0


From 821b8df638f5101df2d9819077be828e1c95ea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:31 +0000
Subject: [PATCH 04/78] fix: a consumer that stops sharing a reader blocks the
 remaining ones

Release the frame when the consumer that leaves was the last one pending,
and do not measure the delay of no frame.
---
 src/IOInterface.cpp | 21 ++++++++++++++-------
 src/IOInterface.hh  |  1 +
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 4481d84..fa97d1a 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -127,14 +127,19 @@ int Reader::removeFrame(int fId)
         filters[fId].second = false;
     }
     
-    if (allRead()){
-        measureDelay();
-        frame = NULL;
-        ready = true;
-        return queue ? queue->removeFrame() : -1;
+    return releaseFrame();
+}
+
+int Reader::releaseFrame()
+{
+    if (!frame || !allRead()){
+        return -1;
     }
-    
-    return -1;
+
+    measureDelay();
+    frame = NULL;
+    ready = true;
+    return queue ? queue->removeFrame() : -1;
 }
 
 void Reader::measureDelay()
@@ -205,6 +210,8 @@ bool Reader::disconnect(int id)
     }
     
     if (filters.size() > 0){
+        //NOTE: the remaining filters may have been waiting just for the one that leaves
+        releaseFrame();
         return true;
     }
     
diff --git a/src/IOInterface.hh b/src/IOInterface.hh
index 02d2a58..ed53b3f 100644
--- a/src/IOInterface.hh
+++ b/src/IOInterface.hh
@@ -208,6 +208,7 @@ private:
     bool disconnectQueue();
     void measureDelay();
     bool allRead();
+    int releaseFrame();
 
     friend class Writer;
      
-- 
2.43.0


From 302472707ac57955022c83e722916dd58f0804b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 05/78] fix: the consumers of a queue are listed while another
 thread changes them

---
 src/AVFramedQueue.cpp         |  3 ++-
 src/AudioCircularBuffer.cpp   |  3 ++-
 src/FrameQueue.hh             | 10 +++++++++-
 src/SlicedVideoFrameQueue.cpp |  3 ++-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index 6a92ad6..a0264eb 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -66,7 +66,8 @@ std::vector<int> AVFramedQueue::addFrame()
 {
     std::vector<int> ret;
     
-    for (auto& r : connectionData.readers){
+    ConnectionData cData = getCData();
+    for (auto& r : cData.readers){
         ret.push_back(r.rFilterId);
     }
     
diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 5862326..4f7e4e3 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -144,7 +144,8 @@ std::vector<int> AudioCircularBuffer::addFrame()
     
     orgTime = inputFrame->getOriginTime();
     
-    for (auto& r : connectionData.readers){
+    ConnectionData cData = getCData();
+    for (auto& r : cData.readers){
         ret.push_back(r.rFilterId);
     }
     
diff --git a/src/FrameQueue.hh b/src/FrameQueue.hh
index 71a62e6..3ddc46a 100644
--- a/src/FrameQueue.hh
+++ b/src/FrameQueue.hh
@@ -31,6 +31,7 @@
 #include <sys/time.h>
 #include <chrono>
 #include <list>
+#include <mutex>
 #include <vector>
 #include "Types.hh"
 #include "StreamInfo.hh"
@@ -167,7 +168,10 @@ public:
     * Gets the connection cData.
     * @return the struct that contains the connection data.
     */
-    ConnectionData getCData() const {return connectionData;};
+    ConnectionData getCData() const {
+        std::lock_guard<std::mutex> guard(cDataMtx);
+        return connectionData;
+    };
     
     /**
     * Adds reader to the CData
@@ -176,6 +180,7 @@ public:
     * @return true if the addition succeeded
     */
     bool addReaderCData(int rFilterId, int readerId) {
+        std::lock_guard<std::mutex> guard(cDataMtx);
         for(auto r : connectionData.readers){
             if (r.rFilterId == rFilterId){
                 return false;
@@ -198,6 +203,7 @@ public:
     * @return true if the removal succeeded
     */
     bool removeReaderCData(int fId) {            
+        std::lock_guard<std::mutex> guard(cDataMtx);
         std::list<ReaderData>::iterator i = connectionData.readers.begin();
         while (i != connectionData.readers.end())
         {
@@ -226,6 +232,8 @@ protected:
     size_t lostBlocs;
 
     ConnectionData connectionData;
+    //Consumers come and go while the producer adds frames
+    mutable std::mutex cDataMtx;
 
     const StreamInfo *streamInfo;
 
diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index efbac74..f4ef3c9 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -71,7 +71,8 @@ std::vector<int> SlicedVideoFrameQueue::addFrame()
     
     std::vector<int> ret;
     
-    for (auto& r : connectionData.readers){
+    ConnectionData cData = getCData();
+    for (auto& r : cData.readers){
         ret.push_back(r.rFilterId);
     }
     
-- 
2.43.0


From 54e213930271f74103facea8c8d36bd677eb4d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 06/78] fix: sharing a reader changes the other filter without
 its lock

A sharer that could not be recorded (the stream just ended, or it shares
it already) was reported as connected.
---
 src/Filter.cpp      | 11 +++++++++--
 src/IOInterface.cpp |  5 ++++-
 src/IOInterface.hh  |  3 ++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 47a93d2..2e0e3e0 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -268,17 +268,24 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
-    if (shared->isRConnected(sharedRId)){
+    std::lock_guard<std::mutex> sharedGuard(shared->mtx);
+
+    if (shared->readers.count(sharedRId) > 0 && shared->readers[sharedRId]->isConnected()){
         utils::errorMsg("The shared filter has the reader already connected!");
         return false;
     }
     
+    if (!readers[orgRId]->addReader(shared->getId(), sharedRId)){
+        utils::errorMsg("The shared filter could not be added to the reader!");
+        return false;
+    }
+
     if (!shared->specificReaderConfig(sharedRId, readers[orgRId]->getQueue())){
+        readers[orgRId]->disconnect(shared->getId());
         return false;
     }
     
     shared->readers[sharedRId] = readers[orgRId];
-    readers[orgRId]->addReader(shared->getId(), sharedRId);
     
     return true;
 }
diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index fa97d1a..7aacfa4 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -57,14 +57,17 @@ bool Reader::disconnectQueue()
     return true;
 }
 
-void Reader::addReader(int fId, int rId)
+bool Reader::addReader(int fId, int rId)
 {
     std::lock_guard<std::mutex> guard(lck);
         
     if (queue && queue->isConnected() && queue->addReaderCData(fId, rId)){
         filters[fId].first = false;
         filters[fId].second = false;
+        return true;
     }
+
+    return false;
 }
 
 Frame* Reader::getFrame(int fId, bool &newFrame)
diff --git a/src/IOInterface.hh b/src/IOInterface.hh
index ed53b3f..d0c68cf 100644
--- a/src/IOInterface.hh
+++ b/src/IOInterface.hh
@@ -168,8 +168,9 @@ public:
     * Records the filters that are sharing this reader
     * @param int the filter Id that will use this reader.
     * @param int the reader Id that will use the filter.
+    * @return true if the filter has been added, false if it was there already or the queue is not connected
     */
-    void addReader(int fId, int rId);
+    bool addReader(int fId, int rId);
 
     /**
     * Get FrameQueue elements number
-- 
2.43.0


From 076a6091479537677c336ade921dc2da957cfe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 07/78] fix: a connection torn down while its filters run

Frames handed to a running filter stay allocated until it has processed them, each
end of a queue leaves it exactly once, a new reader is connected before its filter
can see it, a refused connection leaves no reader behind and the sequence numbers
are protected as the writers they belong to.
---
 src/Filter.cpp      | 90 ++++++++++++++++++++++++++++++++++++---------
 src/Filter.hh       | 10 +++++
 src/FrameQueue.hh   | 30 ++++++++++++++-
 src/IOInterface.cpp | 28 ++++++--------
 src/IOInterface.hh  |  8 +++-
 5 files changed, 129 insertions(+), 37 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 2e0e3e0..061ea5b 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -127,12 +127,15 @@ std::shared_ptr<Reader> BaseFilter::setReader(int readerID, FrameQueue* queue)
         return NULL;
     }
 
-    std::shared_ptr<Reader> r (new Reader());
-    
     if (!specificReaderConfig(readerID, queue)){
-        r.reset();
+        return NULL;
     }
     
+    //NOTE: this filter may be running, its new reader has to be connected from the beginning
+    std::shared_ptr<Reader> r (new Reader());
+    
+    queue->setConnected(true);
+    r->setConnection(queue);
     readers[readerID] = r;
 
     return r;
@@ -189,6 +192,14 @@ bool BaseFilter::demandDestinationFrames(std::map<int, Frame*> &dFrames)
         }
 
         Frame *f = it->second->getFrame(true);
+        if (!f) {
+            //NOTE: the other end has just left
+            ++it;
+            continue;
+        }
+
+        holdQueue(it->second->getQueue());
+        writersInUse.insert(it->first);
         f->setConsumed(false);
         dFrames[it->first] = f;
         newFrame = true;
@@ -206,7 +217,7 @@ std::vector<int> BaseFilter::addFrames(std::map<int, Frame*> &dFrames)
     for (auto it : dFrames){
         if (it.second->getConsumed()) {
             int wId = it.first;
-            if (writers.count(wId) > 0 && writers[wId]->isConnected()){
+            if (writersInUse.count(wId) > 0 && writers.count(wId) > 0 && writers[wId]->isConnected()){
                 std::vector<int> addFrameReturn = writers[wId]->addFrame();
                 enabledJobs.insert(enabledJobs.begin(), addFrameReturn.begin(), addFrameReturn.end());
             }
@@ -227,7 +238,7 @@ bool BaseFilter::removeFrames(std::vector<int> framesToRemove)
     std::lock_guard<std::mutex> guard(mtx);
     
     for (auto id : framesToRemove){
-        if (readers.count(id) > 0){
+        if (readersInUse.count(id) > 0 && readers.count(id) > 0){
             readers[id]->removeFrame(getId());
         } else {
             removed = false;
@@ -237,6 +248,25 @@ bool BaseFilter::removeFrames(std::vector<int> framesToRemove)
     return removed;
 }
 
+void BaseFilter::holdQueue(FrameQueue *queue)
+{
+    queue->hold();
+    queuesInUse.push_back(queue);
+}
+
+void BaseFilter::releaseQueues()
+{
+    std::lock_guard<std::mutex> guard(mtx);
+
+    for (auto q : queuesInUse){
+        q->release();
+    }
+
+    queuesInUse.clear();
+    readersInUse.clear();
+    writersInUse.clear();
+}
+
 bool BaseFilter::pendingJobs()
 {
     std::lock_guard<std::mutex> guard(mtx);
@@ -317,6 +347,7 @@ bool BaseFilter::setWriter(int writerID)
 bool BaseFilter::deleteWriter(int writerID)
 {
     if (writers.count(writerID)){
+        writersInUse.erase(writerID);
         writers.erase(writerID);
         seqNums.erase(writerID);
         return specificWriterDelete(writerID);
@@ -337,7 +368,7 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
 
     std::lock_guard<std::mutex> guard(mtx);
     
-    if (R->getReader(readerID) && R->getReader(readerID)->isConnected()){
+    if ((r = R->getReader(readerID)) && r->isConnected()){
         utils::errorMsg("Reader " + std::to_string(readerID) + " null or already connected");
         return false;
     }
@@ -359,15 +390,15 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
         return false;
     }
 
-    if (!(r = R->setReader(readerID, queue))) {
+    writers[writerID]->setQueue(queue);
+
+    if (!R->setReader(readerID, queue)) {
         deleteWriter(writerID);
         utils::errorMsg("Could not create the reader or set the queue");
         return false;
     }
 
-    writers[writerID]->setQueue(queue);
-
-    return writers[writerID]->connect(r);
+    return true;
 }
 
 bool BaseFilter::connectOneToOne(BaseFilter *R)
@@ -517,6 +548,7 @@ std::vector<int> BaseFilter::regularProcessFrame(int& ret)
     if (!demandOriginFrames(oFrames, newFrames) || !demandDestinationFrames(dFrames)){
         ret = WAIT;
         removeFrames(newFrames);
+        releaseQueues();
         return enabledJobs;
     }
 
@@ -526,6 +558,7 @@ std::vector<int> BaseFilter::regularProcessFrame(int& ret)
     enabledJobs = addFrames(dFrames);
     
     removeFrames(newFrames);
+    releaseQueues();
 
     return enabledJobs;
 }
@@ -546,6 +579,7 @@ std::vector<int> BaseFilter::serverProcessFrame(int& ret)
 
     enabledJobs = addFrames(dFrames);
     removeFrames(newFrames);
+    releaseQueues();
     
     //ret = 0;
     
@@ -627,6 +661,7 @@ std::vector<int> BaseFilter::framesSync()
 bool BaseFilter::deleteReader(int readerId)
 {
     if (readers.count(readerId) > 0){
+        readersInUse.erase(readerId);
         readers[readerId]->disconnect(getId());
         readers.erase(readerId);
         return specificReaderDelete(readerId);
@@ -654,6 +689,8 @@ bool BaseFilter::demandOriginFramesBestEffort(std::map<int, Frame*> &oFrames, st
             continue;
         }
 
+        holdQueue(readers[id]->getQueue());
+        readersInUse.insert(id);
         frame->setConsumed(newFrame);
         oFrames[id] = frame;
         if (newFrame){
@@ -688,6 +725,8 @@ bool BaseFilter::demandOriginFramesFrameTime(std::map<int, Frame*> &oFrames, std
             continue;
         }
 
+        holdQueue(r->second->getQueue());
+        readersInUse.insert(r->first);
         frame->setConsumed(newFrame);
         oFrames[r->first] = frame;
         if (newFrame){
@@ -742,16 +781,20 @@ bool BaseFilter::demandOriginFramesFrameTime(std::map<int, Frame*> &oFrames, std
 
 void BaseFilter::sendEvent(Event e, int readerId)
 {
-    std::lock_guard<std::mutex> guard(mtx);
     ConnectionData cData;
     
-    if (readers.count(readerId)<= 0){
-        return;
-    }
-    if (readers[readerId]->isConnected()){
+    {
+        std::lock_guard<std::mutex> guard(mtx);
+        
+        if (readers.count(readerId) <= 0 || !readers[readerId]->isConnected()){
+            return;
+        }
+
         cData = readers[readerId]->getQueue()->getCData();
-        PipelineManager::getInstance()->processFilterEvent(e, cData.wFilterId);
     }
+
+    //NOTE: the preceding filter may be waiting for this one (e.g. while it is being connected)
+    PipelineManager::getInstance()->processFilterEvent(e, cData.wFilterId);
 }
 
 OneToOneFilter::OneToOneFilter(FilterRole fRole_, bool periodic) :
@@ -804,10 +847,15 @@ bool HeadFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
         return false;
     }
 
+    std::lock_guard<std::mutex> guard(mtx);
+
     for (auto it : dFrames) {
         if (it.second->getConsumed()){
             it.second->setOriginTime(std::chrono::high_resolution_clock::now());
-            it.second->setSequenceNumber(seqNums[it.first]++);
+            //NOTE: the writer may have been disconnected meanwhile
+            if (seqNums.count(it.first) > 0) {
+                it.second->setSequenceNumber(seqNums[it.first]++);
+            }
         }
     }
 
@@ -880,8 +928,14 @@ bool ManyToOneFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
         return false;
     }
 
+    std::lock_guard<std::mutex> guard(mtx);
+
     dFrames.begin()->second->setOriginTime(std::chrono::high_resolution_clock::now());
-    dFrames.begin()->second->setSequenceNumber(seqNums[dFrames.begin()->first]++);
+    //NOTE: the writer may have been disconnected meanwhile
+    if (seqNums.count(dFrames.begin()->first) > 0) {
+        dFrames.begin()->second->setSequenceNumber(seqNums[dFrames.begin()->first]++);
+    }
+
     return true;
 }
 
diff --git a/src/Filter.hh b/src/Filter.hh
index 6b0869c..944e1b8 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -26,6 +26,7 @@
 #define _FILTER_HH
 
 #include <map>
+#include <set>
 #include <vector>
 #include <queue>
 #include <mutex>
@@ -261,6 +262,9 @@ private:
     bool pendingJobs();
     std::vector<int> framesSync();
 
+    void holdQueue(FrameQueue *queue);
+    void releaseQueues();
+
 private:
     std::priority_queue<Event> eventQueue;
     
@@ -269,6 +273,12 @@ private:
     std::chrono::microseconds syncTs;
     
     bool sync;
+
+    //Frames in use by the ongoing processFrame: the queues that own them and the ids of the
+    //readers and writers they were demanded from (as long as these are not disconnected)
+    std::vector<FrameQueue*> queuesInUse;
+    std::set<int> readersInUse;
+    std::set<int> writersInUse;
 };
 
 class OneToOneFilter : public BaseFilter {
diff --git a/src/FrameQueue.hh b/src/FrameQueue.hh
index 3ddc46a..80c787c 100644
--- a/src/FrameQueue.hh
+++ b/src/FrameQueue.hh
@@ -32,6 +32,7 @@
 #include <chrono>
 #include <list>
 #include <mutex>
+#include <atomic>
 #include <vector>
 #include "Types.hh"
 #include "StreamInfo.hh"
@@ -78,7 +79,7 @@ public:
     */
     FrameQueue(ConnectionData cData, const StreamInfo *si = NULL) :
             rear(0), front(0), connected(false), firstFrame(false),
-            lostBlocs(0), connectionData(cData), streamInfo(si) {};
+            lostBlocs(0), users(1), connectionData(cData), streamInfo(si) {};
 
     /**
     * Class destructor
@@ -151,6 +152,30 @@ public:
     * @param boolean to set connected to true or false
     */
     void setConnected(bool conn) {connected = conn;};
+
+    /**
+    * Has to be called once by each end (reader and writer) of the queue when it leaves, it must not
+    * use the queue any more. The queue is deleted when both of them left and nobody holds it.
+    */
+    void disconnect() {
+        if (!connected.exchange(false)) {
+            release();
+        }
+    };
+
+    /**
+    * Keeps the queue and its frames allocated until release is called, even if its ends leave.
+    */
+    void hold() {users++;};
+
+    /**
+    * Undoes hold
+    */
+    void release() {
+        if (--users == 0) {
+            delete this;
+        }
+    };
     
     /**
     * Get number of elements in the queue
@@ -227,9 +252,10 @@ public:
 protected:
     size_t rear;
     size_t front;
-    bool connected;
+    std::atomic<bool> connected;
     bool firstFrame;
     size_t lostBlocs;
+    std::atomic<unsigned> users;
 
     ConnectionData connectionData;
     //Consumers come and go while the producer adds frames
diff --git a/src/IOInterface.cpp b/src/IOInterface.cpp
index 7aacfa4..4f66f8f 100644
--- a/src/IOInterface.cpp
+++ b/src/IOInterface.cpp
@@ -46,12 +46,7 @@ bool Reader::disconnectQueue()
         return false;
     }
 
-    if (queue->isConnected()) {
-        queue->setConnected(false);
-    } else {
-        delete queue;
-    }
-    
+    queue->disconnect();
     queue = NULL;
     
     return true;
@@ -186,7 +181,7 @@ size_t Reader::getLostBlocs()
 void Reader::setConnection(FrameQueue *queue)
 {
     std::lock_guard<std::mutex> guard(lck);
-    if (!queue || isConnected()){
+    if (!queue || (this->queue && this->queue->isConnected())){
         return;
     }
     
@@ -223,6 +218,8 @@ bool Reader::disconnect(int id)
 
 bool Reader::isConnected()
 {
+    std::lock_guard<std::mutex> guard(lck);
+
     if (!queue) {
         return false;
     }
@@ -243,13 +240,15 @@ size_t Reader::getQueueElements()
 
 std::chrono::microseconds Reader::getCurrentTime()
 {
+    std::lock_guard<std::mutex> guard(lck);
+
     if (frame){
         return frame->getFrameTime();
     }
     
     Frame *f;
     
-    f = queue->getFront();
+    f = queue ? queue->getFront() : NULL;
     if (f){
         return f->getFrameTime();
     }
@@ -259,7 +258,9 @@ std::chrono::microseconds Reader::getCurrentTime()
 
 bool Reader::isFull() const
 {
-    return queue->isFull(); 
+    std::lock_guard<std::mutex> guard(lck);
+
+    return queue ? queue->isFull() : false; 
 }
 
 
@@ -296,13 +297,8 @@ bool Writer::disconnect() const
         return false;
     }
 
-    if (queue->isConnected()) {
-        queue->setConnected(false);
-        queue = NULL;
-    } else {
-        delete queue;
-        queue = NULL;
-    }
+    queue->disconnect();
+    queue = NULL;
     return true;
 }
 
diff --git a/src/IOInterface.hh b/src/IOInterface.hh
index d0c68cf..d235c3a 100644
--- a/src/IOInterface.hh
+++ b/src/IOInterface.hh
@@ -77,6 +77,12 @@ public:
     */
     void setQueue(FrameQueue *queue) const;
 
+    /**
+    * Get FrameQueue object pointer
+    * @return FrameQueue object pointer
+    */
+    FrameQueue* getQueue() const {return queue;};
+
     /**
     * Gets rear frame object from queue if possible. If force is set to true and
     * frame is NULL this will flush queue until having a frame object from rear
@@ -218,7 +224,7 @@ private:
     std::map<int, std::pair<bool, bool>> filters;
     bool ready;
     
-    std::mutex lck;
+    mutable std::mutex lck;
 
     //Stats
     std::chrono::microseconds avgDelay;
-- 
2.43.0


From 518fd76b2b418bb6c550e56b7d1065cd695700e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 08/78] fix: events are executed while their filter processes a
 frame

Connecting a running filter, and posting an event to a head or tail filter, executed
the event on the caller's thread in the middle of the filter's processing.
---
 src/Filter.cpp | 63 +++++++++++++++++++++++++-------------------------
 src/Filter.hh  |  9 ++++++++
 2 files changed, 40 insertions(+), 32 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 061ea5b..651aa62 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -363,8 +363,15 @@ bool BaseFilter::connect(BaseFilter *R, int writerID, int readerID)
     ConnectionData cData;
     ReaderData reader;
     
-    processEvent();
-    R->processEvent();
+    {
+        std::lock_guard<std::mutex> processGuard(processMtx);
+        processEvent();
+    }
+
+    {
+        std::lock_guard<std::mutex> processGuard(R->processMtx);
+        R->processEvent();
+    }
 
     std::lock_guard<std::mutex> guard(mtx);
     
@@ -504,6 +511,25 @@ void BaseFilter::pushEvent(Event e)
     eventQueue.push(e);
 }
 
+void BaseFilter::executeEvent(Event e)
+{
+    std::string action = e.getAction();
+
+    if (action.empty()) {
+        return;
+    }
+
+    if (eventMap.count(action) <= 0) {
+        return;
+    }
+
+    std::lock_guard<std::mutex> processGuard(processMtx);
+
+    if (!eventMap[action](e.getParams())) {
+        utils::errorMsg("Error executing filter event");
+    }
+}
+
 void BaseFilter::getState(Jzon::Object &filterNode)
 {
     std::lock_guard<std::mutex> guard(mtx);
@@ -514,6 +540,7 @@ void BaseFilter::getState(Jzon::Object &filterNode)
 
 std::vector<int> BaseFilter::processFrame(int& ret)
 {
+    std::lock_guard<std::mutex> processGuard(processMtx);
     std::vector<int> enabledJobs;
 
     switch(fRole) {
@@ -864,21 +891,7 @@ bool HeadFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
 
 void HeadFilter::pushEvent(Event e)
 {
-    std::string action = e.getAction();
-    Jzon::Node* params = e.getParams();
-    Jzon::Object outputNode;
-
-    if (action.empty()) {
-        return;
-    }
-
-    if (eventMap.count(action) <= 0) {
-        return;
-    }
-
-    if (!eventMap[action](params)) {
-        utils::errorMsg("Error executing filter event");
-    }
+    executeEvent(e);
 }
 
 TailFilter::TailFilter(unsigned readersNum, FilterRole fRole_, bool periodic) :
@@ -898,21 +911,7 @@ bool TailFilter::runDoProcessFrame(std::map<int, Frame*> &oFrames,
 
 void TailFilter::pushEvent(Event e)
 {
-    std::string action = e.getAction();
-    Jzon::Node* params = e.getParams();
-    Jzon::Object outputNode;
-
-    if (action.empty()) {
-        return;
-    }
-
-    if (eventMap.count(action) <= 0) {
-        return;
-    }
-
-    if (!eventMap[action](params)) {
-        utils::errorMsg("Error executing filter event");
-    }
+    executeEvent(e);
 }
 
 ManyToOneFilter::ManyToOneFilter(unsigned readersNum, FilterRole fRole_, bool periodic) :
diff --git a/src/Filter.hh b/src/Filter.hh
index 944e1b8..5b3a12b 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -237,6 +237,12 @@ protected:
     
     void setSync(bool sync_){sync = sync_;};
     
+    /**
+    * Executes an event immediately, as soon as the filter is not processing frames
+    * @param event to execute
+    */
+    void executeEvent(Event e);
+
 protected:
     std::map<int, std::shared_ptr<Reader>> readers;
     std::map<int, std::shared_ptr<Writer>> writers;
@@ -266,6 +272,9 @@ private:
     void releaseQueues();
 
 private:
+    //Held while processing frames or executing events, always locked before mtx
+    std::mutex processMtx;
+
     std::priority_queue<Event> eventQueue;
     
     bool enabled;
-- 
2.43.0


From a59fb0914125ec2f4da929bcb0b5c0b266c3f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 09/78] fix: every event leaks its parameters

---
 src/Event.cpp | 2 +-
 src/Event.hh  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Event.cpp b/src/Event.cpp
index 9ee2079..8cfd3e6 100644
--- a/src/Event.cpp
+++ b/src/Event.cpp
@@ -33,7 +33,7 @@ bool Event::operator<(const Event& e) const
 
 Event::Event(Jzon::Object rootNode, std::chrono::system_clock::time_point timestamp, int delay) 
 {
-    inputRootNode = new Jzon::Object(rootNode);
+    inputRootNode = std::make_shared<Jzon::Object>(rootNode);
     this->timestamp = timestamp;
     this->delay = std::chrono::milliseconds(delay);
 }
diff --git a/src/Event.hh b/src/Event.hh
index 3452df9..6d7ce3d 100644
--- a/src/Event.hh
+++ b/src/Event.hh
@@ -26,6 +26,7 @@
 
 #include <string>
 #include <chrono>
+#include <memory>
 #include "Jzon.h"
 
 class Event {
@@ -39,7 +40,7 @@ public:
     bool operator<(const Event& e) const;
 
 private:
-    Jzon::Object* inputRootNode;
+    std::shared_ptr<Jzon::Object> inputRootNode;
     std::chrono::system_clock::time_point timestamp;
     std::chrono::milliseconds delay;
 
-- 
2.43.0


From b6d900e0545df1642ee5cdca32c9e9fa04e3c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:20 +0000
Subject: [PATCH 10/78] fix: synchronised inputs are judged by two different
 views of their queues

The time of each input was read twice while frames arrive, its element count was
computed from an index that changes meanwhile, and an input whose other end left
made the remaining ones wait for ever.
---
 src/AVFramedQueue.cpp |  1 +
 src/AVFramedQueue.hh  |  2 +-
 src/Filter.cpp        | 29 ++++++++++++++++++-----------
 3 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index a0264eb..84882ac 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -120,6 +120,7 @@ Frame* AVFramedQueue::forceGetFront()
 
 unsigned AVFramedQueue::getElements() const
 {
+    std::lock_guard<std::mutex> guard(idxMtx);
     return front > rear ? (max - front + rear) : (rear - front);
 }
 
diff --git a/src/AVFramedQueue.hh b/src/AVFramedQueue.hh
index 1e49e81..8b1b758 100644
--- a/src/AVFramedQueue.hh
+++ b/src/AVFramedQueue.hh
@@ -96,7 +96,7 @@ protected:
     void doFlush();
     Frame* frames[MAX_FRAMES];
     unsigned max;
-    std::mutex idxMtx; //!< Protects rear and front, flushing moves the rear back
+    mutable std::mutex idxMtx; //!< Protects rear and front, flushing moves the rear back
 };
 
 /*! It represents a video AVFramedQueue */
diff --git a/src/Filter.cpp b/src/Filter.cpp
index 651aa62..0973f76 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -642,18 +642,29 @@ std::vector<int> BaseFilter::framesSync()
 {      
     std::vector<int> allReaders;
     std::vector<int> framesToPass;
+    std::map<int, std::chrono::microseconds> currentTimes;
     
     std::chrono::microseconds wallClock = std::chrono::microseconds(0);
-    std::chrono::microseconds currentFTime;
     
     for(std::map<int, std::shared_ptr<Reader>>::iterator r = readers.begin() ; r != readers.end(); ){
         if (!r->second){
             ++r;
             continue;
         }
+
+        if (sync && !r->second->isConnected()) {
+            //NOTE: the other inputs must not wait for the one that left
+            int rId = r->first;
+            ++r;
+            deleteReader(rId);
+            continue;
+        }
+
         allReaders.push_back(r->first);
-        if (sync && wallClock < r->second->getCurrentTime()){
-            wallClock = r->second->getCurrentTime();
+        if (sync) {
+            //NOTE: the time is got just once, a frame may arrive to an empty queue at any moment
+            currentTimes[r->first] = r->second->getCurrentTime();
+            wallClock = std::max(wallClock, currentTimes[r->first]);
         }
         ++r;
     }
@@ -663,19 +674,15 @@ std::vector<int> BaseFilter::framesSync()
     }
     
     bool emptyQueue = false;
-    for (std::map<int, std::shared_ptr<Reader>>::iterator r = readers.begin() ; r != readers.end(); ) {
-        currentFTime = r->second->getCurrentTime();
-        if (currentFTime == NO_DTS){
-            ++r;
+    for (auto& t : currentTimes) {
+        if (t.second == NO_DTS){
             emptyQueue = true;
             continue;
         } 
         
-        if (r->second->isFull() || wallClock - syncMargin > currentFTime){
-            framesToPass.push_back(r->first);
+        if (readers[t.first]->isFull() || wallClock - syncMargin > t.second){
+            framesToPass.push_back(t.first);
         }
-        
-        ++r;
     }
     
     if (emptyQueue || !framesToPass.empty()){
-- 
2.43.0


From 0bd95efc0009f45519cfe79891dd2d841e251e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:19 +0000
Subject: [PATCH 11/78] fix: silence longer than one audio frame is read beyond
 the silent frame

---
 src/AudioCircularBuffer.cpp | 16 +++++++++++++++-
 src/AudioCircularBuffer.hh  |  1 +
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 4f7e4e3..ef83f6b 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -22,6 +22,7 @@
 
 #include "AudioCircularBuffer.hh"
 #include "Utils.hh"
+#include <algorithm>
 #include <cstring>
 #include <iostream>
 
@@ -129,10 +130,12 @@ std::vector<int> AudioCircularBuffer::addFrame()
             return ret;
         }
 
-        if(!pushBack(dummyFrame->getPlanarDataBuf(), paddingSamples)) {
+        if (paddingSamples + inputFrame->getSamples() > (unsigned) getFreeSamples()) {
             utils::warningMsg("[AudioCircularBuffer] Cannot push padding");
             return ret;
         }
+
+        pushSilence(paddingSamples);
     }
 
     if(!pushBack(inputFrame->getPlanarDataBuf(), inputFrame->getSamples())) {
@@ -254,6 +257,17 @@ bool AudioCircularBuffer::pushBack(unsigned char **buffer, int samplesRequested)
     return true;
 }
 
+void AudioCircularBuffer::pushSilence(unsigned samples)
+{
+    unsigned chunk;
+
+    while (samples > 0) {
+        chunk = std::min(samples, dummyFrame->getMaxSamples());
+        pushBack(dummyFrame->getPlanarDataBuf(), chunk);
+        samples -= chunk;
+    }
+}
+
 bool AudioCircularBuffer::popFront(unsigned char **buffer, unsigned samplesRequested)
 {
     unsigned bytesRequested = samplesRequested * bytesPerSample;
diff --git a/src/AudioCircularBuffer.hh b/src/AudioCircularBuffer.hh
index b3194b5..86a7aff 100644
--- a/src/AudioCircularBuffer.hh
+++ b/src/AudioCircularBuffer.hh
@@ -98,6 +98,7 @@ private:
     AudioCircularBuffer(struct ConnectionData cData, unsigned ch, unsigned sRate, unsigned maxSamples, SampleFmt sFmt);
 
     bool pushBack(unsigned char **buffer, int samplesRequested);
+    void pushSilence(unsigned samples);
     bool forcePushBack(unsigned char **buffer, int samplesRequested);
     bool popFront(unsigned char **buffer, unsigned samplesRequested);
     void fillOutputBuffers(unsigned char **buffer, int bytesRequested);
-- 
2.43.0


From 9d4e7ea406bb842bbce962ee692a43fcff7f95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 12/78] fix: an audio buffer restarts its timeline after 2^32
 samples

---
 src/AudioCircularBuffer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index ef83f6b..ea68ae0 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -70,7 +70,7 @@ Frame* AudioCircularBuffer::getRear()
 Frame* AudioCircularBuffer::getFront()
 {
     std::chrono::microseconds ts;
-    unsigned frontSampleIdx;
+    size_t frontSampleIdx;
 
     std::lock_guard<std::mutex> guard(mtx);
 
@@ -100,8 +100,8 @@ std::vector<int> AudioCircularBuffer::addFrame()
     std::chrono::microseconds rearTs;
     std::chrono::microseconds deviation;
     std::vector<int> ret;
-    unsigned paddingSamples;
-    unsigned rearSampleIdx;
+    std::intmax_t paddingSamples;
+    size_t rearSampleIdx;
 
     inTs = inputFrame->getPresentationTime();
 
@@ -130,7 +130,7 @@ std::vector<int> AudioCircularBuffer::addFrame()
             return ret;
         }
 
-        if (paddingSamples + inputFrame->getSamples() > (unsigned) getFreeSamples()) {
+        if (paddingSamples + inputFrame->getSamples() > getFreeSamples()) {
             utils::warningMsg("[AudioCircularBuffer] Cannot push padding");
             return ret;
         }
-- 
2.43.0


From efc453af5e47098c83404d69ec71313a9dcbadc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 13/78] fix: adding audio to a buffer races with its reader

---
 src/AudioCircularBuffer.cpp | 12 +++++++++---
 src/AudioCircularBuffer.hh  |  1 +
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index ea68ae0..4ca6af9 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -103,6 +103,8 @@ std::vector<int> AudioCircularBuffer::addFrame()
     std::intmax_t paddingSamples;
     size_t rearSampleIdx;
 
+    std::lock_guard<std::mutex> guard(mtx);
+
     inTs = inputFrame->getPresentationTime();
 
     if (!synchronized) {
@@ -126,7 +128,8 @@ std::vector<int> AudioCircularBuffer::addFrame()
 
         if (paddingSamples >= chMaxSamples) {
             utils::warningMsg("[AudioCircularBuffer] Time discontinuity. Flushing buffer!");
-            flush();
+            lostBlocs++;
+            reset();
             return ret;
         }
 
@@ -143,8 +146,6 @@ std::vector<int> AudioCircularBuffer::addFrame()
         return ret;
     }
     
-    std::lock_guard<std::mutex> guard(mtx);
-    
     orgTime = inputFrame->getOriginTime();
     
     ConnectionData cData = getCData();
@@ -164,6 +165,11 @@ int AudioCircularBuffer::removeFrame()
 void AudioCircularBuffer::doFlush()
 {
     std::lock_guard<std::mutex> guard(mtx);
+    reset();
+}
+
+void AudioCircularBuffer::reset()
+{
     rear = 0;
     front = 0;
     elements = 0;
diff --git a/src/AudioCircularBuffer.hh b/src/AudioCircularBuffer.hh
index 86a7aff..8ee4ac5 100644
--- a/src/AudioCircularBuffer.hh
+++ b/src/AudioCircularBuffer.hh
@@ -101,6 +101,7 @@ private:
     void pushSilence(unsigned samples);
     bool forcePushBack(unsigned char **buffer, int samplesRequested);
     bool popFront(unsigned char **buffer, unsigned samplesRequested);
+    void reset();
     void fillOutputBuffers(unsigned char **buffer, int bytesRequested);
     bool setup();
 
-- 
2.43.0


From 2ddbc8558d46588a5a02198ad25278e7db900e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 14/78] fix: every audio buffer leaks its silent frame

---
 src/AudioCircularBuffer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AudioCircularBuffer.cpp b/src/AudioCircularBuffer.cpp
index 4ca6af9..3543f6b 100644
--- a/src/AudioCircularBuffer.cpp
+++ b/src/AudioCircularBuffer.cpp
@@ -59,6 +59,7 @@ AudioCircularBuffer::~AudioCircularBuffer()
         
         delete inputFrame;
         delete outputFrame;
+        delete dummyFrame;
     }
 }
 
-- 
2.43.0


From 8173a65dc273ad7a78c9b60a48a70588c9d34412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:15 +0000
Subject: [PATCH 15/78] fix: the audio mixer reads 16 bit samples with the
 stride of its output

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index c65267f..8f5f20d 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -110,8 +110,8 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
 
-    bytesPerSample = utils::getBytesPerSampleFromFormat(sampleFormat);
     fmt = frame->getSampleFmt();
+    bytesPerSample = utils::getBytesPerSampleFromFormat(fmt);
     nOfSamples = frame->getSamples();
 
     freeSpaceInMixBuffer = mixBufferMaxSamples - (rear - front);
-- 
2.43.0


From e08b5ea0db2eaecc5731a9a9b942ef31a6abe5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 16/78] fix: the audio mixer keeps old samples when it
 resynchronises

---
 src/modules/audioMixer/AudioMixer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 8f5f20d..020f437 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -25,6 +25,7 @@
 #include "AudioMixer.hh"
 #include "../../AudioCircularBuffer.hh"
 #include "../../Utils.hh"
+#include <algorithm>
 #include <iostream>
 #include <utility>
 #include <cmath>
@@ -138,6 +139,10 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
         rear = 0;
         syncTs = frame->getPresentationTime();
         absolutePosition = front;
+
+        for (int i = 0; i < MAX_CHANNELS; i++) {
+            std::fill(mixBuffers[i], mixBuffers[i] + mixBufferMaxSamples, 0);
+        }
     }
 
     for (int i = 0; i < channels; i++) {
-- 
2.43.0


From d1c65e16c40113b30da4905537a7e36cf7be0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 17/78] fix: the audio mixer takes late samples for a
 discontinuity and its position overflows

---
 src/modules/audioMixer/AudioMixer.cpp | 6 +++---
 src/modules/audioMixer/AudioMixer.hh  | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 020f437..7704558 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -107,7 +107,7 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     SampleFmt fmt;
     unsigned nOfSamples;
     int bytesPerSample;
-    unsigned absolutePosition;
+    int64_t absolutePosition;
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
 
@@ -128,12 +128,12 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
 
     absolutePosition = (frame->getPresentationTime() - syncTs).count()*sampleRate/std::micro::den;
 
-    if (absolutePosition < front) {
+    if (absolutePosition < front && absolutePosition >= -(int64_t) mixBufferMaxSamples) {
         utils::errorMsg("[AudioMixer] Samples from the past ignored");
         return false;
     }
 
-    if (absolutePosition > front + mixBufferMaxSamples - nOfSamples) {
+    if (absolutePosition < front || absolutePosition > front + mixBufferMaxSamples - nOfSamples) {
         utils::errorMsg("[AudioMixer] Received frame exceeds buffer scope. Resyncing!");
         front = 0;
         rear = 0;
diff --git a/src/modules/audioMixer/AudioMixer.hh b/src/modules/audioMixer/AudioMixer.hh
index df43e82..dd212ed 100644
--- a/src/modules/audioMixer/AudioMixer.hh
+++ b/src/modules/audioMixer/AudioMixer.hh
@@ -26,6 +26,7 @@
 #include "../../Frame.hh"
 #include "../../Filter.hh"
 #include "../../AudioFrame.hh"
+#include <cstdint>
 
 #define COMPRESSION_THRESHOLD 0.6
 #define DEFAULT_MASTER_GAIN 0.6
@@ -145,8 +146,8 @@ private:
     int inputFrameSamples;
     SampleFmt sampleFormat;
     int maxMixingChannels;
-    unsigned front;
-    unsigned rear;
+    int64_t front;
+    int64_t rear;
 
     float masterGain;
     float th;  //Dynamic Range Compression algorithm threshold
-- 
2.43.0


From 7463f73f62de396df1b0af7e948f67b2d9f3cfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 18/78] fix: a full audio mixing buffer discards samples that
 belong into it

---
 src/modules/audioMixer/AudioMixer.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 7704558..d3438e8 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -115,13 +115,6 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     bytesPerSample = utils::getBytesPerSampleFromFormat(fmt);
     nOfSamples = frame->getSamples();
 
-    freeSpaceInMixBuffer = mixBufferMaxSamples - (rear - front);
-
-    if (freeSpaceInMixBuffer < nOfSamples) {
-        utils::errorMsg("[AudioMixer] No free space in mixing buffer, discarding frame from channel " + std::to_string(mixChId));
-        return false;
-    }
-
     if (syncTs.count() < 0) {
         syncTs = frame->getPresentationTime();
     }
@@ -133,6 +126,13 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
         return false;
     }
 
+    freeSpaceInMixBuffer = mixBufferMaxSamples - (rear - front);
+
+    if (freeSpaceInMixBuffer < nOfSamples && absolutePosition > front + mixBufferMaxSamples - nOfSamples) {
+        utils::errorMsg("[AudioMixer] No free space in mixing buffer, discarding frame from channel " + std::to_string(mixChId));
+        return false;
+    }
+
     if (absolutePosition < front || absolutePosition > front + mixBufferMaxSamples - nOfSamples) {
         utils::errorMsg("[AudioMixer] Received frame exceeds buffer scope. Resyncing!");
         front = 0;
-- 
2.43.0


From 6b3c6e84bda84bb7316cada178f42dfde1df64b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 19/78] fix: audio mixing buffers are freed with the wrong
 operator

---
 src/modules/audioMixer/AudioMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index d3438e8..702cf87 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -53,7 +53,7 @@ syncTs(std::chrono::microseconds(-1))
 AudioMixer::~AudioMixer() 
 {
     for (int i = 0; i < MAX_CHANNELS; i++) {
-        delete mixBuffers[i];
+        delete[] mixBuffers[i];
     }
 }
 
-- 
2.43.0


From 66bdcc5ebf01c95197a99cf099a9570463036d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:29 +0000
Subject: [PATCH 20/78] fix: connecting audio mixer inputs races with mixing

---
 src/modules/audioMixer/AudioMixer.cpp | 31 ++++++++++++++++++++++++---
 src/modules/audioMixer/AudioMixer.hh  |  3 +++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/modules/audioMixer/AudioMixer.cpp b/src/modules/audioMixer/AudioMixer.cpp
index 702cf87..69961ea 100644
--- a/src/modules/audioMixer/AudioMixer.cpp
+++ b/src/modules/audioMixer/AudioMixer.cpp
@@ -110,6 +110,18 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
     int64_t absolutePosition;
     unsigned bufferIdx;
     unsigned freeSpaceInMixBuffer;
+    float gain;
+
+    {
+        std::lock_guard<std::mutex> guard(gainsMtx);
+
+        if (gains.count(mixChId) <= 0) {
+            utils::warningMsg("[AudioMixer] Channel " + std::to_string(mixChId) + " has just left, discarding its frame");
+            return false;
+        }
+
+        gain = gains[mixChId];
+    }
 
     fmt = frame->getSampleFmt();
     bytesPerSample = utils::getBytesPerSampleFromFormat(fmt);
@@ -158,7 +170,7 @@ bool AudioMixer::pushToBuffer(int mixChId, AudioFrame* frame)
                 return false;
             }
 
-            mixSample(fSample, mixBuff, bufferIdx, gains[mixChId]);
+            mixSample(fSample, mixBuff, bufferIdx, gain);
             bufferIdx = (bufferIdx + 1) % mixBufferMaxSamples;
         }
     }
@@ -282,6 +294,7 @@ bool AudioMixer::specificReaderConfig(int readerID, FrameQueue* queue)
 
     inBuffer->setOutputFrameSamples(inputFrameSamples);
 
+    std::lock_guard<std::mutex> guard(gainsMtx);
     gains[readerID] = DEFAULT_CHANNEL_GAIN;
 
     return true;
@@ -289,6 +302,8 @@ bool AudioMixer::specificReaderConfig(int readerID, FrameQueue* queue)
 
 bool AudioMixer::specificReaderDelete(int readerID)
 {
+    std::lock_guard<std::mutex> guard(gainsMtx);
+
     if (gains.count(readerID) > 0){
         gains.erase(readerID);
         return true;
@@ -297,6 +312,12 @@ bool AudioMixer::specificReaderDelete(int readerID)
 }
 
 bool AudioMixer::setChannelGain(int id, float value)
+{
+    std::lock_guard<std::mutex> guard(gainsMtx);
+    return setGain(id, value);
+}
+
+bool AudioMixer::setGain(int id, float value)
 {
     if (gains.count(id) <= 0) {
         return false;
@@ -363,13 +384,15 @@ bool AudioMixer::soloChannelEvent(Jzon::Node* params)
 
     id = params->Get("id").ToInt();
 
-    if (!setChannelGain(id, DEFAULT_CHANNEL_GAIN)) {
+    std::lock_guard<std::mutex> guard(gainsMtx);
+
+    if (!setGain(id, DEFAULT_CHANNEL_GAIN)) {
         return false;
     }
 
     for (auto it : gains) {
         if (it.first != id) {
-            setChannelGain(it.first, 0);
+            setGain(it.first, 0);
         }
     }
 
@@ -487,6 +510,8 @@ void AudioMixer::doGetState(Jzon::Object &filterNode)
     filterNode.Add("maxChannels", maxMixingChannels);
     filterNode.Add("masterGain", masterGain);
 
+    std::lock_guard<std::mutex> guard(gainsMtx);
+
     for (auto it : gains) {
         Jzon::Object gain;
         gain.Add("id", it.first);
diff --git a/src/modules/audioMixer/AudioMixer.hh b/src/modules/audioMixer/AudioMixer.hh
index dd212ed..b5d7748 100644
--- a/src/modules/audioMixer/AudioMixer.hh
+++ b/src/modules/audioMixer/AudioMixer.hh
@@ -27,6 +27,7 @@
 #include "../../Filter.hh"
 #include "../../AudioFrame.hh"
 #include <cstdint>
+#include <mutex>
 
 #define COMPRESSION_THRESHOLD 0.6
 #define DEFAULT_MASTER_GAIN 0.6
@@ -127,6 +128,7 @@ private:
     bool extractMixedFrame(AudioFrame* frame);
     void mixSample(float sample, float* mixBuff, int bufferIdx, float gain);
     bool setChannelGain(int id, float value);
+    bool setGain(int id, float value);
     
     bool specificReaderConfig(int readerID, FrameQueue* queue);
     bool specificReaderDelete(int readerID);
@@ -153,6 +155,7 @@ private:
     float th;  //Dynamic Range Compression algorithm threshold
 
     std::map<int, float> gains;
+    std::mutex gainsMtx;
     std::chrono::microseconds syncTs;
     float* mixBuffers[MAX_CHANNELS];
 
-- 
2.43.0


From 9f38fb560b3b9e9abaadb7cee2673c15b85e2f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 21/78] fix: DASH files are replaced in place and failing
 writes go unnoticed

A manifest or segment under construction was visible under its final name,
and errors of write and close were ignored. Files are now written aside and
renamed once complete.
---
 src/Utils.cpp                     | 22 ++++++++++++++++++++++
 src/Utils.hh                      | 10 ++++++++++
 src/modules/dasher/Dasher.cpp     | 11 +----------
 src/modules/dasher/MpdManager.cpp |  8 ++++++--
 src/modules/dasher/MpdManager.hh  |  3 ++-
 5 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index a36d829..ca25e16 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -30,6 +30,8 @@
 #include <log4cplus/consoleappender.h>
 #include <log4cplus/configurator.h>
 #include <sys/time.h>
+#include <cstdio>
+#include <fstream>
 #include <random>
 #include <iostream>
 
@@ -669,6 +671,26 @@ namespace utils
         LOG4CPLUS_INFO(logger, "\e[1;33m" + msg + "\e[0m");
     }
 
+    bool writeFile(std::string path, const char* data, size_t length)
+    {
+        std::string tmpPath = path + ".tmp";
+        std::ofstream file(tmpPath.c_str(), std::ofstream::binary);
+
+        if (!file) {
+            return false;
+        }
+
+        file.write(data, length);
+        file.close();
+
+        if (!file || std::rename(tmpPath.c_str(), path.c_str()) != 0) {
+            std::remove(tmpPath.c_str());
+            return false;
+        }
+
+        return true;
+    }
+
     void printMood(bool mood){
         if (mood){
             std::cout << "\e[1;32mSUCCESS \e[5m(⌐■_■)\e[0m" << std::endl << std::endl;
diff --git a/src/Utils.hh b/src/Utils.hh
index 1090b09..c46d257 100644
--- a/src/Utils.hh
+++ b/src/Utils.hh
@@ -56,6 +56,16 @@ namespace utils
     int getPayloadFromCodec(std::string codec);
     int getBytesPerSampleFromFormat(SampleFmt fmt);
 
+    /**
+    * Writes a file completely or not at all: its content is written aside and gets its name
+    * once it is complete, an existing file is replaced in one step
+    * @param path of the file
+    * @param data its content
+    * @param length of the content in bytes
+    * @return true if the file was written, false if there is no change
+    */
+    bool writeFile(std::string path, const char* data, size_t length);
+
 
     void errorMsg(std::string msg);
     void warningMsg(std::string msg);
diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index f840bed..0bbb62f 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -711,16 +711,7 @@ void DashSegment::setDataLength(unsigned int length)
 
 bool DashSegment::writeToDisk(std::string path)
 {
-    const char* p = path.c_str();
-    std::ofstream file(p, std::ofstream::binary);
-
-    if (!file) {
-        return false;
-    }
-
-    file.write((char*)data, dataLength);
-    file.close();
-    return true;
+    return utils::writeFile(path, (char*)data, dataLength);
 }
 
 void DashSegment::setTimestamp(uint64_t ts)
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 64eb531..1ea777e 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -25,6 +25,7 @@
 #include <chrono> 
 
 #include "MpdManager.hh"
+#include "../../Utils.hh"
 
 MpdManager::MpdManager()
 {
@@ -62,8 +63,9 @@ void MpdManager::configure(unsigned int minBuffTime, unsigned int maxSegment, un
     minimumUpdatePeriod = "PT" + std::to_string(segDurInSec) + ".0S";
 }
 
-void MpdManager::writeToDisk(const char* fileName)
+bool MpdManager::writeToDisk(const char* fileName)
 {
+    tinyxml2::XMLPrinter printer;
     tinyxml2::XMLDocument doc;
     tinyxml2::XMLElement* root;
     tinyxml2::XMLElement* period;
@@ -110,7 +112,9 @@ void MpdManager::writeToDisk(const char* fileName)
     }
 
     root->InsertEndChild(period);
-    doc.SaveFile(fileName);
+    doc.Print(&printer);
+
+    return utils::writeFile(fileName, printer.CStr(), printer.CStrSize() - 1);
 }
 
 uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index 19772cc..da7ac0b 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -73,8 +73,9 @@ public:
     /**
     * Write to disk the .mpd file with the current data stored in the class. If the .mpd file already exists, it is overwritted
     * @param fileName File name (can be an absolute or relative path)
+    * @return true if succeded, false if the .mpd file is still the previous one
     */
-    void writeToDisk(const char* fileName);
+    bool writeToDisk(const char* fileName);
     
     //TODO: add documentation
     unsigned int getMaxSeg() {return maxSeg;};
-- 
2.43.0


From 2dfb33c977106851c49e652b3d8cbabaae0fc5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:35 +0000
Subject: [PATCH 22/78] fix: a DASH segment that cannot be written is lost and
 expired ones stay on disk

Segments were cleared although other representations of the set failed, the
first segment (timestamp 0) and all but one of several expired segments were
never deleted, files were deleted although the manifest on disk still listed
them, and a failing deletion was not repeated.
---
 src/modules/dasher/Dasher.cpp     | 74 ++++++++++++++++++-------------
 src/modules/dasher/Dasher.hh      |  8 +++-
 src/modules/dasher/MpdManager.cpp | 11 +++--
 src/modules/dasher/MpdManager.hh  | 10 +++--
 4 files changed, 66 insertions(+), 37 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 0bbb62f..eca5087 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -33,6 +33,8 @@
 #include <chrono>
 #include <fstream>
 #include <unistd.h>
+#include <cerrno>
+#include <cstdio>
 #include <math.h>
 
 Dasher::Dasher(unsigned readersNum) :
@@ -246,7 +248,7 @@ bool Dasher::writeVideoSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
     bool needEncoderConfig = false;
 
     if (vSegments.empty()) {
@@ -284,15 +286,10 @@ bool Dasher::writeVideoSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur);
+    mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur, &rmTimestamps);
+    expireSegments(vSegments, rmTimestamps, V_EXT);
 
-    mpdMngr->writeToDisk(mpdPath.c_str());
-
-    if (rmTimestamp > 0 && !cleanSegments(vSegments, rmTimestamp, V_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
-    }
-
-    return true;
+    return publishManifest();
 }
 
 void Dasher::sendSetReferenceEvent(uint64_t refTime)
@@ -311,7 +308,7 @@ bool Dasher::writeAudioSegments()
 {
     uint64_t ts;
     unsigned int dur;
-    uint64_t rmTimestamp;
+    std::vector<uint64_t> rmTimestamps;
 
     if (aSegments.empty()) {
         return false;
@@ -337,15 +334,10 @@ bool Dasher::writeAudioSegments()
         return false;
     }
 
-    rmTimestamp = mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur);
-
-    mpdMngr->writeToDisk(mpdPath.c_str());
-
-    if (rmTimestamp > 0 && !cleanSegments(aSegments, rmTimestamp, A_EXT)) {
-        utils::warningMsg("Error cleaning dash video segments");
-    }
+    mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur, &rmTimestamps);
+    expireSegments(aSegments, rmTimestamps, A_EXT);
 
-    return true;
+    return publishManifest();
 }
 
 bool Dasher::forceAudioSegmentsGeneration()
@@ -381,13 +373,24 @@ bool Dasher::forceAudioSegmentsGeneration()
 
 bool Dasher::writeSegmentsToDisk(std::map<int,DashSegment*> segments, uint64_t timestamp, std::string segExt)
 {
+    std::string segmentName;
+
     for (auto seg : segments) {
+        segmentName = getSegmentName(basePath, baseName, seg.first, timestamp, segExt);
+        expired.insert(segmentName);
+        expired.insert(segmentName + ".tmp");
 
-        if(!seg.second->writeToDisk(getSegmentName(basePath, baseName, seg.first, timestamp, segExt))) {
-            utils::errorMsg("Error writing DASH segment to disk: invalid path");
+        //NOTE: on failure all segments are kept, they are written again the next time
+        if(!seg.second->writeToDisk(segmentName)) {
+            utils::errorMsg("Error writing DASH segment to disk: " + segmentName);
             return false;
         }
 
+        expired.erase(segmentName + ".tmp");
+    }
+
+    for (auto seg : segments) {
+        expired.erase(getSegmentName(basePath, baseName, seg.first, timestamp, segExt));
         seg.second->clear();
         seg.second->incrSeqNumber();
     }
@@ -395,21 +398,32 @@ bool Dasher::writeSegmentsToDisk(std::map<int,DashSegment*> segments, uint64_t t
     return true;
 }
 
-bool Dasher::cleanSegments(std::map<int,DashSegment*> segments, uint64_t timestamp, std::string segExt)
+void Dasher::expireSegments(std::map<int,DashSegment*> segments, std::vector<uint64_t> timestamps, std::string segExt)
 {
-    bool success = true;
-    std::string segmentName;
-
     for (auto seg : segments) {
-        segmentName = getSegmentName(basePath, baseName, seg.first, timestamp, segExt);
+        for (auto ts : timestamps) {
+            expired.insert(getSegmentName(basePath, baseName, seg.first, ts, segExt));
+        }
+    }
+}
 
-        if (std::remove(segmentName.c_str()) != 0) {
-            success &= false;
-            utils::warningMsg("Error cleaning dash segment: " + segmentName);
+bool Dasher::publishManifest()
+{
+    if (!mpdMngr->writeToDisk(mpdPath.c_str())) {
+        utils::errorMsg("Error writing DASH manifest to disk: " + mpdPath);
+        return false;
+    }
+
+    for (auto it = expired.begin(); it != expired.end();) {
+        if (std::remove(it->c_str()) != 0 && errno != ENOENT) {
+            utils::warningMsg("Error cleaning dash segment: " + *it);
+            ++it;
+        } else {
+            it = expired.erase(it);
         }
     }
 
-    return success;
+    return true;
 }
 
 
@@ -579,7 +593,7 @@ bool Dasher::specificReaderDelete(int readerId)
         videoStarted = false;
     }
 
-    mpdMngr->writeToDisk(mpdPath.c_str());
+    publishManifest();
     return true;
 }
 
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index 3bd7f0f..b0540a8 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -35,6 +35,7 @@ extern "C" {
 }
 
 #include <map>
+#include <set>
 #include <string>
 
 #define DASH_VIDEO_TIME_BASE    12800
@@ -107,7 +108,8 @@ private:
     bool writeAudioSegments();
 
     bool writeSegmentsToDisk(std::map<int,DashSegment*> segments, uint64_t timestamp, std::string segExt);
-    bool cleanSegments(std::map<int,DashSegment*> segments, uint64_t timestamp, std::string segExt);
+    void expireSegments(std::map<int,DashSegment*> segments, std::vector<uint64_t> timestamps, std::string segExt);
+    bool publishManifest();
     bool configureEvent(Jzon::Node* params);
 
     bool setBitrateEvent(Jzon::Node* params);
@@ -121,6 +123,10 @@ private:
     std::map<int, DashSegment*> aSegments;
     std::map<int, DashSegment*> initSegments;
 
+    /*! Files that exist, or may exist, but are not part of the presentation (any more). They are
+        deleted as soon as the manifest on disk does not list them */
+    std::set<std::string> expired;
+
     MpdManager* mpdMngr;
     std::chrono::seconds segDur;
 
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 1ea777e..5c05347 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -117,7 +117,8 @@ bool MpdManager::writeToDisk(const char* fileName)
     return utils::writeFile(fileName, printer.CStr(), printer.CStrSize() - 1);
 }
 
-uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration)
+uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration,
+                                                  std::vector<uint64_t>* removed)
 {
     AdaptationSet* adSet;
     uint64_t removedTimestamp;
@@ -128,7 +129,7 @@ uint64_t MpdManager::updateAdaptationSetTimestamp(std::string id, uint64_t ts, u
         return 0;
     }
 
-    removedTimestamp = adSet->updateTimestamp(ts, duration, maxSeg);
+    removedTimestamp = adSet->updateTimestamp(ts, duration, maxSeg, removed);
     return removedTimestamp;
 }
 
@@ -242,12 +243,16 @@ AdaptationSet::~AdaptationSet()
 { 
 }
 
-uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg)
+uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg,
+                                        std::vector<uint64_t>* removed)
 {
     uint64_t removedTimestamp= 0;
 
     while (timestamps.size() >= maxSeg) {
         removedTimestamp = timestamps.front().first;
+        if (removed) {
+            removed->push_back(removedTimestamp);
+        }
         timestamps.pop_front();
     }
 
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index da7ac0b..970d9b6 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -24,6 +24,7 @@
 
 #include <map>
 #include <deque>
+#include <vector>
 #include <tinyxml2.h>
 
 #define MIN_SEGMENT 2
@@ -106,9 +107,11 @@ public:
     * @param id Adaptation set Id. Must exist.
     * @param ts Timestamp of the current segment in timescale base.
     * @param duration Duration of the current segment in timescale base.
-    * @return true if succeeded and false if not
+    * @param removed if not NULL, every timestamp that is no longer listed is added to it
+    * @return the last timestamp removed, 0 if none
     */
-    uint64_t updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration);
+    uint64_t updateAdaptationSetTimestamp(std::string id, uint64_t ts, unsigned int duration,
+                                          std::vector<uint64_t>* removed = NULL);
 
     /**
     * Updates an existing video representation. If it does not exists, it creates a new one. Each representation is
@@ -214,7 +217,8 @@ public:
     * Sets timestamp and duration
     * @see MpdManager::updateAdaptationSetTimestamp 
     */
-    uint64_t updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg);
+    uint64_t updateTimestamp(uint64_t ts, unsigned int duration, unsigned int maxSeg,
+                             std::vector<uint64_t>* removed = NULL);
 
     /**
     * Sets timescale, segment template and init template values
-- 
2.43.0


From 9e2d7c480d52a18f901ff31af6388a3544820a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:26 +0000
Subject: [PATCH 23/78] fix: a DASH segment waiting to be published is
 overwritten by the next one

Also, audio segments were cut on every attempt to write the video ones, even
without a single sample, and one audio input without samples kept the others
from being cut.
---
 src/modules/dasher/Dasher.cpp  | 21 ++++++++++++---------
 src/modules/dasher/i2libdash.c |  4 ++++
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index eca5087..3abb1d3 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -216,7 +216,8 @@ bool Dasher::generateSegment(unsigned int id, Frame* frame, DashSegmenter* segme
 
     if ((vSeg = dynamic_cast<DashVideoSegmenter*>(segmenter)) != NULL) {
 
-        if (!vSeg->generateSegment(vSegments[id], frame)) {
+        //NOTE: a complete segment waits for the other representations or for the disk
+        if (vSegments[id]->isComplete() || !vSeg->generateSegment(vSegments[id], frame)) {
             return false;
         }
 
@@ -228,7 +229,7 @@ bool Dasher::generateSegment(unsigned int id, Frame* frame, DashSegmenter* segme
 
     if (!hasVideo && (aSeg = dynamic_cast<DashAudioSegmenter*>(segmenter)) != NULL) {
         
-        if (!aSeg->generateSegment(aSegments[id], frame)) {
+        if (aSegments[id]->isComplete() || !aSeg->generateSegment(aSegments[id], frame)) {
             return false;
         }
 
@@ -261,10 +262,6 @@ bool Dasher::writeVideoSegments()
         }
     }
 
-    if (!forceAudioSegmentsGeneration()) {
-        utils::warningMsg("Forcing the generation of audio segments. This may cause errors!");
-    }
-
     ts = vSegments.begin()->second->getTimestamp();
     uint64_t lastTs = vSegments.begin()->second->getLastFrameTimestamp();
     dur = vSegments.begin()->second->getDuration();
@@ -286,6 +283,10 @@ bool Dasher::writeVideoSegments()
         return false;
     }
 
+    if (!forceAudioSegmentsGeneration()) {
+        utils::warningMsg("Forcing the generation of audio segments. This may cause errors!");
+    }
+
     mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur, &rmTimestamps);
     expireSegments(vSegments, rmTimestamps, V_EXT);
 
@@ -344,6 +345,7 @@ bool Dasher::forceAudioSegmentsGeneration()
 {
     DashSegmenter* segmenter;
     DashAudioSegmenter* aSeg;
+    bool success = true;
 
     for (auto seg : aSegments) {
         segmenter = getSegmenter(seg.first);
@@ -354,13 +356,14 @@ bool Dasher::forceAudioSegmentsGeneration()
 
         aSeg = dynamic_cast<DashAudioSegmenter*>(segmenter);
 
-        if (!aSeg) {
+        if (!aSeg || seg.second->isComplete()) {
             continue;
         }
 
         if (!aSeg->generateSegment(seg.second, NULL, true)) {
             utils::errorMsg("Error forcing audio segment generation");
-            return false;
+            success = false;
+            continue;
         }
 
         mpdMngr->updateAudioAdaptationSet(A_ADAPT_SET_ID, segmenters[seg.first]->getTimeBase(), aSegTempl, aInitSegTempl);
@@ -368,7 +371,7 @@ bool Dasher::forceAudioSegmentsGeneration()
                                             aSeg->getSampleRate(), aSeg->getBitrate(), aSeg->getChannels());
     }
 
-    return true;
+    return success;
 }
 
 bool Dasher::writeSegmentsToDisk(std::map<int,DashSegment*> segments, uint64_t timestamp, std::string segExt)
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 6158c69..c50142f 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -393,6 +393,10 @@ uint32_t force_generate_audio_segment(byte *output_data, i2ctx **context, uint64
         return I2ERROR_DESTINATION_NULL;
     }
 
+    if ((*context)->ctxaudio->ctxsample->mdat_sample_length == 0) {
+        return I2ERROR_SIZE_ZERO;
+    }
+
     segDataLength = segmentGenerator((*context)->ctxaudio->segment_data, (*context)->ctxaudio->segment_data_size, output_data, AUDIO_TYPE, context);
 
     if (segDataLength <= I2ERROR_MAX) {
-- 
2.43.0


From cbecee90e6d2b44ff32fe7230305ac96dbe238d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 24/78] fix: a DASH init segment that cannot be written is lost

The manifest referenced an initialisation segment that did not exist, the
frame at hand was dropped, and the audio one was written again for every
frame, with a wrong channel configuration for more than three channels.
Initialisation segments are now written with the first segment that needs
them, and representations are listed from then on.
---
 src/modules/dasher/DashAudioSegmenter.cpp |  6 +-
 src/modules/dasher/Dasher.cpp             | 76 +++++++++++++----------
 src/modules/dasher/Dasher.hh              |  1 +
 3 files changed, 46 insertions(+), 37 deletions(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 85893c1..33d5795 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -24,7 +24,7 @@
  #include "DashAudioSegmenter.hh"
 
 DashAudioSegmenter::DashAudioSegmenter(std::chrono::seconds segDur, std::chrono::microseconds offset) :
-DashSegmenter(segDur, 0, offset)
+DashSegmenter(segDur, 0, offset), profile(0xFF), audioObjectType(0), samplingFrequencyIndex(0xFF), channelConfiguration(0xFF)
 {
 
 }
@@ -182,7 +182,7 @@ bool DashAudioSegmenter::updateExtradata(AudioFrame* aFrame)
     }
 
     if (profile == getProfileFromADTSHeader(data) && samplingFrequencyIndex == getSamplingFreqIdxFromADTSHeader(data) &&
-        channelConfiguration == getChannelConfFromADTSHeader(data) && !extradata.empty())
+        channelConfiguration == getChannelConfFromADTSHeader(data))
     {
         return true;
     }
@@ -211,7 +211,7 @@ unsigned char DashAudioSegmenter::getSamplingFreqIdxFromADTSHeader(unsigned char
 
 unsigned char DashAudioSegmenter::getChannelConfFromADTSHeader(unsigned char* adtsHeader)
 {
-    return (adtsHeader[2] & 0x01) | ((adtsHeader[3] >> 6) & 0x03);
+    return ((adtsHeader[2] & 0x01) << 2) | ((adtsHeader[3] >> 6) & 0x03);
 }
 
 unsigned char DashAudioSegmenter::getExtradata1stByte(unsigned char audioObjectType, unsigned char samplingFrequencyIndex)
diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 3abb1d3..098121d 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -28,6 +28,7 @@
 #include "DashVideoSegmenterHEVC.hh"
 #include "DashAudioSegmenter.hh"
 
+#include <algorithm>
 #include <map>
 #include <string>
 #include <chrono>
@@ -117,7 +118,7 @@ bool Dasher::doProcessFrame(std::map<int, Frame*> &orgFrames, std::vector<int> n
         }
 
         if (!generateInitSegment(id, segmenter)) {
-            utils::errorMsg("[Dasher::doProcessFrame] Error generating init segment");
+            utils::debugMsg("[Dasher::doProcessFrame] No init segment yet, skipping frame");
             continue;
         }
 
@@ -175,37 +176,36 @@ bool Dasher::appendFrameToSegment(unsigned int id, Frame* frame, DashSegmenter*
 
 bool Dasher::generateInitSegment(unsigned int id, DashSegmenter* segmenter)
 {
-    DashVideoSegmenter* vSeg;
-    DashAudioSegmenter* aSeg;
-
-    if ((vSeg = dynamic_cast<DashVideoSegmenter*>(segmenter)) != NULL) {
-
-        if (!vSeg->generateInitSegment(initSegments[id])) {
-            return true;
-        }
+    DashSegment* init = initSegments[id];
+    std::vector<unsigned char> previous(init->getDataBuffer(), init->getDataBuffer() + init->getDataLength());
 
-        if(!initSegments[id]->writeToDisk(getInitSegmentName(basePath, baseName, id, V_EXT))) {
-            utils::errorMsg("Error writing DASH segment to disk: invalid path");
-            return false;
-        }
+    if (segmenter->generateInitSegment(init) && (previous.size() != init->getDataLength() ||
+        !std::equal(previous.begin(), previous.end(), init->getDataBuffer()))) {
+        //NOTE: complete means that it has to be written to disk
+        init->setComplete(true);
     }
 
-    if ((aSeg = dynamic_cast<DashAudioSegmenter*>(segmenter)) != NULL) {
+    return init->getDataLength() > 0;
+}
 
-        if (!aSeg->generateInitSegment(initSegments[id])) {
-            return true;
-        }
+bool Dasher::writeInitSegment(unsigned int id, std::string segExt)
+{
+    std::string segmentName = getInitSegmentName(basePath, baseName, id, segExt);
 
-        if(!initSegments[id]->writeToDisk(getInitSegmentName(basePath, baseName, id, A_EXT))) {
-            utils::errorMsg("Error writing DASH segment to disk: invalid path");
-            return false;
-        }
+    if (!initSegments[id]->isComplete()) {
+        return true;
     }
 
-    if (!vSeg && !aSeg) {
+    expired.insert(segmentName + ".tmp");
+
+    if (!initSegments[id]->writeToDisk(segmentName)) {
+        utils::errorMsg("Error writing DASH init segment to disk: " + segmentName);
         return false;
     }
 
+    expired.erase(segmentName);
+    expired.erase(segmentName + ".tmp");
+    initSegments[id]->setComplete(false);
     return true;
 }
 
@@ -221,10 +221,6 @@ bool Dasher::generateSegment(unsigned int id, Frame* frame, DashSegmenter* segme
             return false;
         }
 
-        mpdMngr->updateVideoAdaptationSet(V_ADAPT_SET_ID, segmenters[id]->getTimeBase(), vSegTempl, vInitSegTempl);
-        mpdMngr->updateVideoRepresentation(V_ADAPT_SET_ID, std::to_string(id), vSeg->getVideoFormat(), vSeg->getWidth(),
-                                            vSeg->getHeight(), vSeg->getBitrate(), vSeg->getFramerate());
-
     }
 
     if (!hasVideo && (aSeg = dynamic_cast<DashAudioSegmenter*>(segmenter)) != NULL) {
@@ -232,10 +228,6 @@ bool Dasher::generateSegment(unsigned int id, Frame* frame, DashSegmenter* segme
         if (aSegments[id]->isComplete() || !aSeg->generateSegment(aSegments[id], frame)) {
             return false;
         }
-
-        mpdMngr->updateAudioAdaptationSet(A_ADAPT_SET_ID, segmenters[id]->getTimeBase(), aSegTempl, aInitSegTempl);
-        mpdMngr->updateAudioRepresentation(A_ADAPT_SET_ID, std::to_string(id), AUDIO_CODEC, 
-                                            aSeg->getSampleRate(), aSeg->getBitrate(), aSeg->getChannels());
     }
 
     if (!vSeg && !aSeg) {
@@ -287,6 +279,14 @@ bool Dasher::writeVideoSegments()
         utils::warningMsg("Forcing the generation of audio segments. This may cause errors!");
     }
 
+    for (auto seg : vSegments) {
+        DashVideoSegmenter* vSeg = dynamic_cast<DashVideoSegmenter*>(segmenters[seg.first]);
+
+        mpdMngr->updateVideoAdaptationSet(V_ADAPT_SET_ID, vSeg->getTimeBase(), vSegTempl, vInitSegTempl);
+        mpdMngr->updateVideoRepresentation(V_ADAPT_SET_ID, std::to_string(seg.first), vSeg->getVideoFormat(), vSeg->getWidth(),
+                                            vSeg->getHeight(), vSeg->getBitrate(), vSeg->getFramerate());
+    }
+
     mpdMngr->updateAdaptationSetTimestamp(V_ADAPT_SET_ID, ts, dur, &rmTimestamps);
     expireSegments(vSegments, rmTimestamps, V_EXT);
 
@@ -335,6 +335,14 @@ bool Dasher::writeAudioSegments()
         return false;
     }
 
+    for (auto seg : aSegments) {
+        DashAudioSegmenter* aSeg = dynamic_cast<DashAudioSegmenter*>(segmenters[seg.first]);
+
+        mpdMngr->updateAudioAdaptationSet(A_ADAPT_SET_ID, aSeg->getTimeBase(), aSegTempl, aInitSegTempl);
+        mpdMngr->updateAudioRepresentation(A_ADAPT_SET_ID, std::to_string(seg.first), AUDIO_CODEC, 
+                                            aSeg->getSampleRate(), aSeg->getBitrate(), aSeg->getChannels());
+    }
+
     mpdMngr->updateAdaptationSetTimestamp(A_ADAPT_SET_ID, ts, dur, &rmTimestamps);
     expireSegments(aSegments, rmTimestamps, A_EXT);
 
@@ -365,10 +373,6 @@ bool Dasher::forceAudioSegmentsGeneration()
             success = false;
             continue;
         }
-
-        mpdMngr->updateAudioAdaptationSet(A_ADAPT_SET_ID, segmenters[seg.first]->getTimeBase(), aSegTempl, aInitSegTempl);
-        mpdMngr->updateAudioRepresentation(A_ADAPT_SET_ID, std::to_string(seg.first), AUDIO_CODEC, 
-                                            aSeg->getSampleRate(), aSeg->getBitrate(), aSeg->getChannels());
     }
 
     return success;
@@ -379,6 +383,10 @@ bool Dasher::writeSegmentsToDisk(std::map<int,DashSegment*> segments, uint64_t t
     std::string segmentName;
 
     for (auto seg : segments) {
+        if (!writeInitSegment(seg.first, segExt)) {
+            return false;
+        }
+
         segmentName = getSegmentName(basePath, baseName, seg.first, timestamp, segExt);
         expired.insert(segmentName);
         expired.insert(segmentName + ".tmp");
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index b0540a8..99435b7 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -100,6 +100,7 @@ private:
     void doGetState(Jzon::Object &filterNode);
     void initializeEventMap();
     bool generateInitSegment(unsigned int id, DashSegmenter* segmenter);
+    bool writeInitSegment(unsigned int id, std::string segExt);
     bool generateSegment(unsigned int id, Frame* frame, DashSegmenter* segmenter);
     bool appendFrameToSegment(unsigned int id, Frame* frame, DashSegmenter* segmenter);
     DashSegmenter* getSegmenter(unsigned int id);
-- 
2.43.0


From 67d89b9d5b8b2be9304e9c772a53439c2168a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 25/78] fix: the DASH files of removed inputs and previous
 configurations are never deleted

The timeline of a stream outlived its last representation and moved along to
another folder or base name, where its files do not exist.
---
 src/modules/dasher/Dasher.cpp     | 30 ++++++++++++++++++++++++++++--
 src/modules/dasher/Dasher.hh      |  1 +
 src/modules/dasher/MpdManager.cpp | 18 ++++++++++++++++++
 src/modules/dasher/MpdManager.hh  | 12 ++++++++++++
 4 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index 098121d..ab5a7a0 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -69,6 +69,17 @@ bool Dasher::configure(std::string dashFolder, std::string baseName_, unsigned i
         return false;
     }
 
+    if (mpdMngr && mpdPath != dashFolder + baseName_ + ".mpd") {
+        //NOTE: a new presentation starts, the one at the old path is left as it is
+        mpdMngr->flushAdaptationSetTimestamps(V_ADAPT_SET_ID);
+        mpdMngr->flushAdaptationSetTimestamps(A_ADAPT_SET_ID);
+        expired.clear();
+
+        for (auto init : initSegments) {
+            init.second->setComplete(init.second->getDataLength() > 0);
+        }
+    }
+
     basePath = dashFolder;
     baseName = baseName_;
     mpdPath = basePath + baseName + ".mpd";
@@ -418,6 +429,21 @@ void Dasher::expireSegments(std::map<int,DashSegment*> segments, std::vector<uin
     }
 }
 
+void Dasher::expireReader(int readerId, std::map<int,DashSegment*> segments, std::string adSetId, std::string segExt)
+{
+    std::map<int,DashSegment*> removed;
+
+    removed[readerId] = segments[readerId];
+    expireSegments(removed, mpdMngr->getAdaptationSetTimestamps(adSetId), segExt);
+    expired.insert(getInitSegmentName(basePath, baseName, readerId, segExt));
+
+    mpdMngr->removeRepresentation(adSetId, std::to_string(readerId));
+
+    if (segments.size() == 1) {
+        mpdMngr->flushAdaptationSetTimestamps(adSetId);
+    }
+}
+
 bool Dasher::publishManifest()
 {
     if (!mpdMngr->writeToDisk(mpdPath.c_str())) {
@@ -580,15 +606,15 @@ bool Dasher::specificReaderDelete(int readerId)
     }
 
     if (vSegments.count(readerId) > 0) {
+        expireReader(readerId, vSegments, V_ADAPT_SET_ID, V_EXT);
         delete vSegments[readerId];
         vSegments.erase(readerId);
-        mpdMngr->removeRepresentation(V_ADAPT_SET_ID, std::to_string(readerId));
     }
 
     if (aSegments.count(readerId) > 0) {
+        expireReader(readerId, aSegments, A_ADAPT_SET_ID, A_EXT);
         delete aSegments[readerId];
         aSegments.erase(readerId);
-        mpdMngr->removeRepresentation(A_ADAPT_SET_ID, std::to_string(readerId));
     }
 
     if (initSegments.count(readerId) > 0) {
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index 99435b7..3071d71 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -111,6 +111,7 @@ private:
     bool writeSegmentsToDisk(std::map<int,DashSegment*> segments, uint64_t timestamp, std::string segExt);
     void expireSegments(std::map<int,DashSegment*> segments, std::vector<uint64_t> timestamps, std::string segExt);
     bool publishManifest();
+    void expireReader(int readerId, std::map<int,DashSegment*> segments, std::string adSetId, std::string segExt);
     bool configureEvent(Jzon::Node* params);
 
     bool setBitrateEvent(Jzon::Node* params);
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 5c05347..383db52 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -147,6 +147,13 @@ bool MpdManager::flushAdaptationSetTimestamps(std::string id)
     return true;
 }
 
+std::vector<uint64_t> MpdManager::getAdaptationSetTimestamps(std::string id)
+{
+    AdaptationSet* adSet = getAdaptationSet(id);
+
+    return adSet ? adSet->getTimestamps() : std::vector<uint64_t>();
+}
+
 void MpdManager::updateVideoAdaptationSet(std::string id, int timescale, std::string segmentTempl, std::string initTempl)
 {
     AdaptationSet* adSet;
@@ -265,6 +272,17 @@ void AdaptationSet::flushTimestamps()
     timestamps.clear();
 }
 
+std::vector<uint64_t> AdaptationSet::getTimestamps()
+{
+    std::vector<uint64_t> list;
+
+    for (auto ts : timestamps) {
+        list.push_back(ts.first);
+    }
+
+    return list;
+}
+
 void AdaptationSet::update(int segTimescale, std::string segTempl, std::string initTempl)
 {
     timescale = segTimescale;
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index 970d9b6..33a326a 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -153,6 +153,13 @@ public:
     */
     bool flushAdaptationSetTimestamps(std::string id);
 
+    /**
+    * Get the timestamps of the segments that are listed
+    * @param id Adaptation set Id.
+    * @return the timestamps in timescale base, oldest first
+    */
+    std::vector<uint64_t> getAdaptationSetTimestamps(std::string id);
+
 
 private:
     bool addAdaptationSet(std::string id, AdaptationSet* adaptationSet);
@@ -227,6 +234,11 @@ public:
     virtual bool removeRepresentation(std::string id) = 0;
 
     void flushTimestamps();
+
+    /**
+    * @see MpdManager::getAdaptationSetTimestamps
+    */
+    std::vector<uint64_t> getTimestamps();
     
 protected:
 
-- 
2.43.0


From 614b5ba1e64dc7f037d8864b0c14460ce314681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:49 +0000
Subject: [PATCH 26/78] fix: the DASH output frees neither its segments nor its
 contexts and frames

---
 src/modules/dasher/DashVideoSegmenterAVC.cpp  |  3 ++-
 src/modules/dasher/DashVideoSegmenterHEVC.cpp |  3 ++-
 src/modules/dasher/Dasher.cpp                 | 11 ++++++---
 src/modules/dasher/i2libdash.c                | 24 +++++++++++++++++++
 src/modules/dasher/i2libdash.h                |  2 ++
 src/modules/dasher/i2libisoff.c               |  2 ++
 6 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/modules/dasher/DashVideoSegmenterAVC.cpp b/src/modules/dasher/DashVideoSegmenterAVC.cpp
index 872910c..4390286 100644
--- a/src/modules/dasher/DashVideoSegmenterAVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterAVC.cpp
@@ -33,7 +33,8 @@ DashVideoSegmenter(segDur, VIDEO_CODEC_AVC, offset)
 
 DashVideoSegmenterAVC::~DashVideoSegmenterAVC()
 {
-
+    delete vFrame;
+    delete tmpFrame;
 }
 
 uint8_t DashVideoSegmenterAVC::generateContext()
diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index c703b1b..2173ae3 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -34,7 +34,8 @@ DashVideoSegmenter(segDur, VIDEO_CODEC_HEVC, offset)
 
 DashVideoSegmenterHEVC::~DashVideoSegmenterHEVC()
 {
-
+    delete vFrame;
+    delete tmpFrame;
 }
 
 uint8_t DashVideoSegmenterHEVC::generateContext()
diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index ab5a7a0..b4509cd 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -50,6 +50,13 @@ Dasher::~Dasher()
     for (auto seg : segmenters) {
         delete seg.second;
     }
+
+    for (auto segs : {vSegments, aSegments, initSegments}) {
+        for (auto seg : segs) {
+            delete seg.second;
+        }
+    }
+
     delete mpdMngr;
 }
 
@@ -687,9 +694,7 @@ sequenceNumber(0), bitrateInBitsPerSec(0), tsOffset(offset)
 
 DashSegmenter::~DashSegmenter()
 {
-    if(dashContext){
-        free(dashContext);
-    }
+    free_context(&dashContext);
 }
 
 bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool force)
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index c50142f..af3fd02 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -48,6 +48,7 @@ void audio_context_initializer(i2ctx **context) {
     (*context)->ctxaudio = (i2ctx_audio *) malloc(sizeof(i2ctx_audio));
     i2ctx_audio *ctxAudio = (*context)->ctxaudio;
 
+    ctxAudio->aac_data = NULL;
     ctxAudio->aac_data_length = 0;
     ctxAudio->segment_data_size = 0;
     ctxAudio->channels = 0;
@@ -76,6 +77,7 @@ void video_context_initializer(i2ctx **context, uint32_t media_type) {
     (*context)->ctxvideo = (i2ctx_video *) malloc(sizeof(i2ctx_video));
     i2ctx_video *ctxVideo = (*context)->ctxvideo;
 
+    ctxVideo->pps_sps_data = NULL;
     ctxVideo->pps_sps_data_length = 0;
     ctxVideo->segment_data_size = 0;
     ctxVideo->width = 0;
@@ -148,6 +150,28 @@ uint8_t generate_context(i2ctx **context, uint32_t media_type)
     return I2OK;
 }
 
+void free_context(i2ctx **context)
+{
+    if ((*context) == NULL) {
+        return;
+    }
+
+    if ((*context)->ctxvideo != NULL) {
+        free((*context)->ctxvideo->pps_sps_data);
+        free((*context)->ctxvideo->ctxsample);
+        free((*context)->ctxvideo);
+    }
+
+    if ((*context)->ctxaudio != NULL) {
+        free((*context)->ctxaudio->aac_data);
+        free((*context)->ctxaudio->ctxsample);
+        free((*context)->ctxaudio);
+    }
+
+    free(*context);
+    *context = NULL;
+}
+
 uint8_t fill_video_context(i2ctx **context, uint32_t width, uint32_t height, uint32_t t_base) 
 {
     if ((*context) == NULL) {
diff --git a/src/modules/dasher/i2libdash.h b/src/modules/dasher/i2libdash.h
index 419e64f..785329f 100644
--- a/src/modules/dasher/i2libdash.h
+++ b/src/modules/dasher/i2libdash.h
@@ -35,6 +35,8 @@
 
 uint8_t generate_context(i2ctx **context, uint32_t media_type); 
 
+void free_context(i2ctx **context);
+
 uint8_t fill_video_context(i2ctx **context, uint32_t width, uint32_t height, uint32_t t_base);
 
 uint8_t fill_audio_context(i2ctx **context, uint32_t channels, uint32_t sample_rate, uint32_t sample_size, uint32_t t_base, uint32_t sample_duration); 
diff --git a/src/modules/dasher/i2libisoff.c b/src/modules/dasher/i2libisoff.c
index 34b9410..18aaf81 100644
--- a/src/modules/dasher/i2libisoff.c
+++ b/src/modules/dasher/i2libisoff.c
@@ -151,6 +151,7 @@ uint32_t initVideoGenerator(byte *source_data, uint32_t size_source_data, byte *
         return I2ERROR_MEDIA_TYPE;
     }
     count = 0;
+    free((*context)->ctxvideo->pps_sps_data);
     (*context)->ctxvideo->pps_sps_data = (byte*) malloc (size_source_data);
     memcpy((*context)->ctxvideo->pps_sps_data, source_data, size_source_data);
     (*context)->ctxvideo->pps_sps_data_length = size_source_data;
@@ -187,6 +188,7 @@ uint32_t initAudioGenerator(byte *source_data, uint32_t size_source_data, byte *
     }
 
     count = 0;
+    free((*context)->ctxaudio->aac_data);
     (*context)->ctxaudio->aac_data = (byte*) malloc(size_source_data);
     memcpy((*context)->ctxaudio->aac_data, source_data, size_source_data);
     (*context)->ctxaudio->aac_data_length = size_source_data;
-- 
2.43.0


From 06d6df0f1f64d5fcd0d1229c6db903d829669858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:47 +0000
Subject: [PATCH 27/78] fix: DASH segments mix up decode and presentation times

Frames without a decode time were given a decode time far in the future, the
last sample of a segment lasted until the presentation time of the next one,
32 bit overflows of the audio time and of the segment length check, and frames
from before the start of the presentation got negative times.
---
 src/modules/dasher/DashAudioSegmenter.cpp |  4 +--
 src/modules/dasher/DashAudioSegmenter.hh  |  2 +-
 src/modules/dasher/DashVideoSegmenter.cpp | 10 +++----
 src/modules/dasher/DashVideoSegmenter.hh  |  2 +-
 src/modules/dasher/Dasher.cpp             |  7 +++--
 src/modules/dasher/Dasher.hh              |  2 +-
 src/modules/dasher/i2libdash.c            |  6 ++---
 src/modules/dasher/i2libdash.h            |  2 +-
 src/modules/dasher/i2libisoff.c           | 32 +++++++++++------------
 9 files changed, 35 insertions(+), 32 deletions(-)

diff --git a/src/modules/dasher/DashAudioSegmenter.cpp b/src/modules/dasher/DashAudioSegmenter.cpp
index 33d5795..60fa452 100644
--- a/src/modules/dasher/DashAudioSegmenter.cpp
+++ b/src/modules/dasher/DashAudioSegmenter.cpp
@@ -113,7 +113,7 @@ bool DashAudioSegmenter::generateInitSegment(DashSegment* segment)
     return true;
 }
 
-unsigned DashAudioSegmenter::customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameTs, 
+unsigned DashAudioSegmenter::customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameDts, 
                                                     uint64_t &segTimestamp, uint32_t &segDuration, bool force)
 {
     unsigned segSize;
@@ -132,7 +132,7 @@ bool DashAudioSegmenter::appendFrameToDashSegment(Frame* frame)
     unsigned char* dataWithoutADTS;
     unsigned int dataLengthWithoutADTS;
     unsigned int addSampleReturn;
-    uint32_t timeBasePts;
+    uint64_t timeBasePts;
 
     if (!frame || !frame->getDataBuf() || frame->getLength() <= 0 || !dashContext) {
         utils::errorMsg("Error appeding frame to segment: frame not valid");
diff --git a/src/modules/dasher/DashAudioSegmenter.hh b/src/modules/dasher/DashAudioSegmenter.hh
index 87ddc0c..add8cd2 100644
--- a/src/modules/dasher/DashAudioSegmenter.hh
+++ b/src/modules/dasher/DashAudioSegmenter.hh
@@ -74,7 +74,7 @@ public:
 
 private:
     bool updateExtradata(AudioFrame* aFrame);
-    unsigned customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameTs, 
+    unsigned customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameDts, 
                                     uint64_t &segTimestamp, uint32_t &segDuration, bool force);
 
 
diff --git a/src/modules/dasher/DashVideoSegmenter.cpp b/src/modules/dasher/DashVideoSegmenter.cpp
index 0a15d68..1a6752f 100644
--- a/src/modules/dasher/DashVideoSegmenter.cpp
+++ b/src/modules/dasher/DashVideoSegmenter.cpp
@@ -115,14 +115,14 @@ bool DashVideoSegmenter::generateInitSegment(DashSegment* segment)
     return true;
 }
 
-unsigned DashVideoSegmenter::customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameTs, 
+unsigned DashVideoSegmenter::customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameDts, 
                                                     uint64_t &segTimestamp, uint32_t &segDuration, bool force)
 {
-    uint64_t timeBasePts;
+    uint64_t timeBaseDts;
 
-    timeBasePts = microsToTimeBase(nextFrameTs);
+    timeBaseDts = microsToTimeBase(nextFrameDts);
 
-    return generate_video_segment(isPreviousFrameIntra(), timeBasePts, segBuffer, &dashContext, &segTimestamp, &segDuration);
+    return generate_video_segment(isPreviousFrameIntra(), timeBaseDts, segBuffer, &dashContext, &segTimestamp, &segDuration);
 }
 
 bool DashVideoSegmenter::appendFrameToDashSegment(Frame* frame)
@@ -139,7 +139,7 @@ bool DashVideoSegmenter::appendFrameToDashSegment(Frame* frame)
     }
     
     timeBasePts = microsToTimeBase(vFrame->getPresentationTime());
-    timeBaseDts = microsToTimeBase(vFrame->getDecodeTime());
+    timeBaseDts = microsToTimeBase(vFrame->getFrameTime());
 
     //TODO: test it with bFrames
     addSampleReturn = add_video_sample(vFrame->getDataBuf(), vFrame->getLength(), timeBasePts, 
diff --git a/src/modules/dasher/DashVideoSegmenter.hh b/src/modules/dasher/DashVideoSegmenter.hh
index fa7726a..e5ca3d5 100644
--- a/src/modules/dasher/DashVideoSegmenter.hh
+++ b/src/modules/dasher/DashVideoSegmenter.hh
@@ -104,7 +104,7 @@ protected:
                            std::chrono::microseconds dts);
     int detectStartCode(unsigned char const* ptr);
     bool setup(unsigned int width, unsigned int height);
-    unsigned customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameTs, 
+    unsigned customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameDts, 
                                     uint64_t &segTimestamp, uint32_t &segDuration, bool force);
 
 
diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index b4509cd..ca69b0d 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -131,7 +131,8 @@ bool Dasher::doProcessFrame(std::map<int, Frame*> &orgFrames, std::vector<int> n
 
         frame = segmenter->manageFrame(orgFrames[id]);
 
-        if (!frame) {
+        //NOTE: the presentation starts with the first frame, nothing lies before it
+        if (!frame || frame->getFrameTime() < timestampOffset) {
             continue;
         }
 
@@ -703,6 +704,7 @@ bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool for
     uint64_t segTimestamp;
     uint32_t segDuration;
     std::chrono::microseconds frameTs = std::chrono::microseconds(0);
+    std::chrono::microseconds frameDts = std::chrono::microseconds(0);
 
     if (!frame && !force) {
         return false;
@@ -710,9 +712,10 @@ bool DashSegmenter::generateSegment(DashSegment* segment, Frame* frame, bool for
 
     if (frame) {
         frameTs = frame->getPresentationTime();
+        frameDts = frame->getFrameTime();
     }
 
-    segmentSize = customGenerateSegment(segment->getDataBuffer(), frameTs, segTimestamp, segDuration, force);
+    segmentSize = customGenerateSegment(segment->getDataBuffer(), frameDts, segTimestamp, segDuration, force);
 
     if (segmentSize <= I2ERROR_MAX) {
         segment->setLastFrameTimestamp(frameTs.count());
diff --git a/src/modules/dasher/Dasher.hh b/src/modules/dasher/Dasher.hh
index 3071d71..91c4264 100644
--- a/src/modules/dasher/Dasher.hh
+++ b/src/modules/dasher/Dasher.hh
@@ -213,7 +213,7 @@ public:
     unsigned int getBitrate() {return bitrateInBitsPerSec;};
 
 protected:
-    virtual unsigned customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameTs, 
+    virtual unsigned customGenerateSegment(unsigned char *segBuffer, std::chrono::microseconds nextFrameDts, 
                                             uint64_t &segTimestamp, uint32_t &segDuration, bool force) = 0;
     
     std::string getInitSegmentName();
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index af3fd02..9f891ff 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -320,7 +320,7 @@ uint32_t init_audio_handler(byte *input_data, uint32_t size_input, byte *output_
     return initAudio;
 }
 
-uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts, byte *output_data, 
+uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint64_t nextFrameDts, byte *output_data, 
                                  i2ctx **context, uint64_t* segmentTimestamp, uint32_t* segmentDuration)
 {
     uint32_t segDataLength;
@@ -351,9 +351,9 @@ uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts,
         return segDataLength;
     }
 
-    lastSampleDuration = nextFramePts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].presentation_timestamp;
+    lastSampleDuration = nextFrameDts - (*context)->ctxvideo->ctxsample->mdat[sampleIdx].decode_timestamp;
 
-    if ((nextFrameIsIntra == TRUE) && ((((*context)->duration - lastSampleDuration)) <= ((*context)->ctxvideo->current_video_duration + lastSampleDuration))) {
+    if ((nextFrameIsIntra == TRUE) && ((*context)->duration <= (uint64_t) (*context)->ctxvideo->current_video_duration + 2*(uint64_t) lastSampleDuration)) {
         (*context)->ctxvideo->ctxsample->mdat[sampleIdx].duration = lastSampleDuration;
         (*context)->ctxvideo->current_video_duration += lastSampleDuration;
 
diff --git a/src/modules/dasher/i2libdash.h b/src/modules/dasher/i2libdash.h
index 785329f..848bbd2 100644
--- a/src/modules/dasher/i2libdash.h
+++ b/src/modules/dasher/i2libdash.h
@@ -61,7 +61,7 @@ void set_sample_rate(uint32_t sample_rate, i2ctx **context);
 
 uint32_t get_sample_rate(i2ctx *context);
 
-uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint32_t nextFramePts, byte *output_data, 
+uint32_t generate_video_segment(uint8_t nextFrameIsIntra, uint64_t nextFrameDts, byte *output_data, 
                                  i2ctx **context, uint64_t* segmentTimestamp, uint32_t* segmentDuration);
 
 uint32_t generate_audio_segment(byte *output_data, i2ctx **context, uint64_t* segmentTimestamp, uint32_t* segmentDuration);
diff --git a/src/modules/dasher/i2libisoff.c b/src/modules/dasher/i2libisoff.c
index 18aaf81..1adf90a 100644
--- a/src/modules/dasher/i2libisoff.c
+++ b/src/modules/dasher/i2libisoff.c
@@ -1613,21 +1613,21 @@ uint32_t write_styp(byte *data, uint32_t media_type, i2ctx *context) {
 uint32_t write_sidx(byte *data, uint32_t media_type, i2ctx *context) {
     uint32_t count, version, duration, one_32, hton_one_32;
     uint32_t reference_size, hton_reference_size, size, hton_size, hton_timescale;
-    uint64_t earliest_presentation_time, hton_earliest_presentation_time, hton_duration;
+    uint64_t decode_time, hton_decode_time, hton_duration;
     uint32_t time_base;
     uint8_t zero_8;
     uint16_t zero_16, one_16, hton_one_16;
     byte flag8;
     i2ctx_video *ctxVideo = context->ctxvideo;
     i2ctx_audio *ctxAudio = context->ctxaudio;
-    earliest_presentation_time = 0;
+    decode_time = 0;
 
     if ((media_type == VIDEO_TYPE_AVC) || (media_type == VIDEO_TYPE_HEVC)) {
-        earliest_presentation_time = ctxVideo->earliest_presentation_time;
+        decode_time = ctxVideo->ctxsample->mdat[0].decode_timestamp;
         duration = ctxVideo->current_video_duration;
         time_base = ctxVideo->time_base;
     } else if (media_type == AUDIO_TYPE) {
-        earliest_presentation_time = ctxAudio->earliest_presentation_time;
+        decode_time = ctxAudio->ctxsample->mdat[0].decode_timestamp;
         duration = ctxAudio->current_audio_duration;
         time_base = ctxAudio->time_base;
     }
@@ -1658,10 +1658,10 @@ uint32_t write_sidx(byte *data, uint32_t media_type, i2ctx *context) {
     memcpy(data + count, &hton_timescale, sizeof(time_base));
     count+= sizeof(time_base);
 
-    // earliest_presentation_time
-    hton_earliest_presentation_time = htonl_64(earliest_presentation_time);
-    memcpy(data + count, &hton_earliest_presentation_time, sizeof(earliest_presentation_time));
-    count+= sizeof(earliest_presentation_time);
+    // decode_time
+    hton_decode_time = htonl_64(decode_time);
+    memcpy(data + count, &hton_decode_time, sizeof(decode_time));
+    count+= sizeof(decode_time);
 
     // first offset
     //TODO: review this value -> "is the distance in bytes, in the file containing media, from the anchor point, to the first byte of the indexed material"
@@ -1853,24 +1853,24 @@ uint32_t write_tfhd(byte *data, uint32_t media_type, i2ctx *context) {
 
 uint32_t write_tfdt(byte *data, uint32_t media_type, i2ctx *context) {
     uint32_t count, version, size, hton_size;
-    uint64_t earliest_presentation_time, hton_earliest_presentation_time;
+    uint64_t decode_time, hton_decode_time;
 
     i2ctx_video *ctxVideo = context->ctxvideo;
     i2ctx_audio *ctxAudio = context->ctxaudio;
-    earliest_presentation_time = 0;
+    decode_time = 0;
 
     if ((media_type == VIDEO_TYPE_AVC) || (media_type == VIDEO_TYPE_HEVC)) {
-        earliest_presentation_time = ctxVideo->earliest_presentation_time;
+        decode_time = ctxVideo->ctxsample->mdat[0].decode_timestamp;
     }
     else if (media_type == AUDIO_TYPE) {
-        earliest_presentation_time = ctxAudio->earliest_presentation_time;
+        decode_time = ctxAudio->ctxsample->mdat[0].decode_timestamp;
     }
 
     count = 0;
     version = 1;
 
     // Size
-    size = sizeof(size) + BOX_TYPE_SIZE + sizeof(version) + sizeof(earliest_presentation_time);
+    size = sizeof(size) + BOX_TYPE_SIZE + sizeof(version) + sizeof(decode_time);
     hton_size = htonl(size);
     memcpy(data + count, &hton_size, sizeof(size));
     count+= sizeof(size);
@@ -1884,9 +1884,9 @@ uint32_t write_tfdt(byte *data, uint32_t media_type, i2ctx *context) {
     count+= sizeof(version);
     
     // baseMediaDecodeTime
-    hton_earliest_presentation_time = htonl_64(earliest_presentation_time);
-    memcpy(data + count, &hton_earliest_presentation_time, sizeof(earliest_presentation_time));
-    count+= sizeof(earliest_presentation_time);
+    hton_decode_time = htonl_64(decode_time);
+    memcpy(data + count, &hton_decode_time, sizeof(decode_time));
+    count+= sizeof(decode_time);
 
     return count;
 }
-- 
2.43.0


From 36275c68b56f218b1763edc708a15961dd35e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:28 +0000
Subject: [PATCH 28/78] fix: the manifest lists segments that a representation
 that joined later does not have

---
 src/modules/dasher/Dasher.cpp     |  5 +---
 src/modules/dasher/MpdManager.cpp | 45 +++++++++++++++++++++++++++++++
 src/modules/dasher/MpdManager.hh  | 22 +++++++++++++++
 3 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/src/modules/dasher/Dasher.cpp b/src/modules/dasher/Dasher.cpp
index ca69b0d..15834bb 100644
--- a/src/modules/dasher/Dasher.cpp
+++ b/src/modules/dasher/Dasher.cpp
@@ -446,10 +446,7 @@ void Dasher::expireReader(int readerId, std::map<int,DashSegment*> segments, std
     expired.insert(getInitSegmentName(basePath, baseName, readerId, segExt));
 
     mpdMngr->removeRepresentation(adSetId, std::to_string(readerId));
-
-    if (segments.size() == 1) {
-        mpdMngr->flushAdaptationSetTimestamps(adSetId);
-    }
+    expireSegments(segments, mpdMngr->trimAdaptationSetTimestamps(adSetId), segExt);
 }
 
 bool Dasher::publishManifest()
diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 383db52..90b7c31 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -220,6 +220,18 @@ bool MpdManager::removeRepresentation(std::string adSetId, std::string reprId)
 }
 
 
+std::vector<uint64_t> MpdManager::trimAdaptationSetTimestamps(std::string id)
+{
+    AdaptationSet* adSet = getAdaptationSet(id);
+    std::vector<uint64_t> removed;
+
+    if (adSet) {
+        adSet->trimTimestamps(removed);
+    }
+
+    return removed;
+}
+
 bool MpdManager::addAdaptationSet(std::string id, AdaptationSet* adaptationSet)
 {
     if (adaptationSets.count(id) > 0) {
@@ -244,6 +256,7 @@ AdaptationSet::AdaptationSet(int segTimescale, std::string segTempl, std::string
     startWithSAP = START_WITH_SAP;
     subsegmentAlignment = SUBSEGMENT_ALIGNMENT;
     subsegmentStartsWithSAP = SUBSEGMENT_STARTS_WITH_SAP;
+    published = 0;
 }
 
 AdaptationSet::~AdaptationSet()
@@ -264,6 +277,7 @@ uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsi
     }
 
     timestamps.push_back(std::pair<uint64_t,uint64_t>(ts, duration));
+    published++;
     return removedTimestamp;
 }
 
@@ -283,6 +297,25 @@ std::vector<uint64_t> AdaptationSet::getTimestamps()
     return list;
 }
 
+bool AdaptationSet::isListed(std::string id)
+{
+    return since.count(id) > 0 && since[id] + timestamps.size() <= published;
+}
+
+void AdaptationSet::trimTimestamps(std::vector<uint64_t>& removed)
+{
+    while (!timestamps.empty()) {
+        for (auto repr : since) {
+            if (isListed(repr.first)) {
+                return;
+            }
+        }
+
+        removed.push_back(timestamps.front().first);
+        timestamps.pop_front();
+    }
+}
+
 void AdaptationSet::update(int segTimescale, std::string segTempl, std::string initTempl)
 {
     timescale = segTimescale;
@@ -314,6 +347,7 @@ bool VideoAdaptationSet::removeRepresentation(std::string id)
 
     delete representations[id];
     representations.erase(id);
+    since.erase(id);
     return true;
 }
 
@@ -354,6 +388,7 @@ bool VideoAdaptationSet::addRepresentation(std::string id, VideoRepresentation*
     }
 
     representations[id] = repr;
+    since[id] = published;
     return true;
 }
 
@@ -391,6 +426,10 @@ void VideoAdaptationSet::toMpd(tinyxml2::XMLDocument& doc, tinyxml2::XMLElement*
     adaptSet->InsertEndChild(segmentTemplate);
 
     for (auto r : representations) {
+        if (!isListed(r.first)) {
+            continue;
+        }
+
         repr = doc.NewElement("Representation");
         repr->SetAttribute("id", r.first.c_str());
         repr->SetAttribute("codecs", r.second->getCodec().c_str());
@@ -426,6 +465,7 @@ bool AudioAdaptationSet::removeRepresentation(std::string id)
 
     delete representations[id];
     representations.erase(id);
+    since.erase(id);
     return true;
 }
 
@@ -456,6 +496,7 @@ bool AudioAdaptationSet::addRepresentation(std::string id, AudioRepresentation*
     }
 
     representations[id] = repr;
+    since[id] = published;
     return true;
 }
 
@@ -498,6 +539,10 @@ void AudioAdaptationSet::toMpd(tinyxml2::XMLDocument& doc, tinyxml2::XMLElement*
     adaptSet->InsertEndChild(segmentTemplate);
 
     for (auto r : representations) {
+        if (!isListed(r.first)) {
+            continue;
+        }
+
         repr = doc.NewElement("Representation");
         repr->SetAttribute("id", r.first.c_str());
         repr->SetAttribute("codecs", r.second->getCodec().c_str());
diff --git a/src/modules/dasher/MpdManager.hh b/src/modules/dasher/MpdManager.hh
index 33a326a..b0d3651 100644
--- a/src/modules/dasher/MpdManager.hh
+++ b/src/modules/dasher/MpdManager.hh
@@ -146,6 +146,13 @@ public:
     */
     bool removeRepresentation(std::string adSetId, std::string reprId);
 
+    /**
+    * Drops the oldest timestamps of an adaptation set that no representation has a segment of
+    * @param id Adaptation Set Id
+    * @return the dropped timestamps
+    */
+    std::vector<uint64_t> trimAdaptationSetTimestamps(std::string id);
+
     /**
     * Flushes stored timestamps from an existing adaptation set 
     * @param adSetId Adaptation set Id
@@ -239,8 +246,23 @@ public:
     * @see MpdManager::getAdaptationSetTimestamps
     */
     std::vector<uint64_t> getTimestamps();
+
+    /**
+    * Drops the oldest timestamps that no representation has a segment of
+    * @param removed the dropped timestamps are added to it
+    */
+    void trimTimestamps(std::vector<uint64_t>& removed);
     
 protected:
+    /**
+    * Tells if a representation has the segments of all timestamps
+    * @param id the representation id
+    */
+    bool isListed(std::string id);
+
+    //NOTE: number of segments that were published before each representation joined
+    std::map<std::string, uint64_t> since;
+    uint64_t published;
 
     bool segmentAlignment;
     int startWithSAP;
-- 
2.43.0


From 16b173687070ba34f9e39c8152a24c530c361e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:51 +0000
Subject: [PATCH 29/78] fix: DASH segments overflow their buffers

---
 src/modules/dasher/i2context.h |  5 ++++-
 src/modules/dasher/i2libdash.c | 19 ++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/modules/dasher/i2context.h b/src/modules/dasher/i2context.h
index 56facfe..d822519 100644
--- a/src/modules/dasher/i2context.h
+++ b/src/modules/dasher/i2context.h
@@ -31,9 +31,12 @@ typedef unsigned char byte;
 #define VIDEO_TYPE_HEVC 2            //AVC1_VIDEO_TYPE  &   HEV1_VIDEO_TYPE
 #define AUDIO_TYPE 3
 #define MAX_MDAT_SAMPLE 65536   //H265 -> 119296
-#define MAX_DAT 10*1024*1024 
+#define MAX_DAT (10*1024*1024)
+#define SEGMENT_HEADERS_SIZE 512    //all but the sample entries
+#define SAMPLE_ENTRY_SIZE 16
 //TODO: error negative values
 #define I2ERROR_MAX 10
+#define I2ERROR_OVERFLOW 10
 #define I2ERROR_SPS_PPS 9
 #define I2ERROR_IS_INTRA 8
 #define I2ERROR_DURATION_ZERO 7
diff --git a/src/modules/dasher/i2libdash.c b/src/modules/dasher/i2libdash.c
index 9f891ff..e1fbc75 100644
--- a/src/modules/dasher/i2libdash.c
+++ b/src/modules/dasher/i2libdash.c
@@ -434,6 +434,15 @@ uint32_t force_generate_audio_segment(byte *output_data, i2ctx **context, uint64
     return segDataLength;
 }
 
+//NOTE: the generated segment has to fit in MAX_DAT, too
+static uint8_t fits_in_segment(i2ctx_sample *samples, uint32_t segment_data_size, uint32_t input_data_length)
+{
+    uint64_t headers = SEGMENT_HEADERS_SIZE + SAMPLE_ENTRY_SIZE*((uint64_t) samples->mdat_sample_length + 1);
+
+    return samples->mdat_sample_length < MAX_MDAT_SAMPLE &&
+        headers + segment_data_size + input_data_length <= MAX_DAT;
+}
+
 uint32_t add_video_sample(byte *input_data, uint32_t input_data_length, uint64_t pts, 
                            uint64_t dts, uint32_t seqNumber, uint8_t is_intra, i2ctx **context)
 {
@@ -463,6 +472,10 @@ uint32_t add_video_sample(byte *input_data, uint32_t input_data_length, uint64_t
         return I2ERROR_IS_INTRA;
     }
 
+    if (!fits_in_segment(ctxSample, (*context)->ctxvideo->segment_data_size, input_data_length)) {
+        return I2ERROR_OVERFLOW;
+    }
+
     // Add segment data
     memcpy((*context)->ctxvideo->segment_data + (*context)->ctxvideo->segment_data_size, input_data, input_data_length);
     (*context)->ctxvideo->segment_data_size += input_data_length;
@@ -509,7 +522,11 @@ uint32_t add_audio_sample(byte *input_data, uint32_t input_data_length, uint32_t
 
     // Add sample or Init new segmentation
     i2ctx_sample *ctxSample = (*context)->ctxaudio->ctxsample;
-    
+
+    if (!fits_in_segment(ctxSample, (*context)->ctxaudio->segment_data_size, input_data_length)) {
+        return I2ERROR_OVERFLOW;
+    }
+
     // Add segment data
     memcpy((*context)->ctxaudio->segment_data + (*context)->ctxaudio->segment_data_size, input_data, input_data_length);
     (*context)->ctxaudio->segment_data_size += input_data_length;
-- 
2.43.0


From 66f4e5c14422a6416a08784a08c656dc74041aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:33 +0000
Subject: [PATCH 30/78] fix: a suffix SEI hides that its HEVC frame is a key
 frame

---
 src/modules/dasher/DashVideoSegmenterHEVC.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/dasher/DashVideoSegmenterHEVC.cpp b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
index 2173ae3..cf4581a 100644
--- a/src/modules/dasher/DashVideoSegmenterHEVC.cpp
+++ b/src/modules/dasher/DashVideoSegmenterHEVC.cpp
@@ -101,9 +101,10 @@ VideoFrame* DashVideoSegmenterHEVC::parseNal(VideoFrame* nal)
             currentIntra = false;
             break;
         case PREFIX_SEI_NUT:
-        case SUFFIX_SEI_NUT:
             currentIntra = false;
             break;
+        case SUFFIX_SEI_NUT:
+            //NOTE: it belongs to the frame before it
         case AUD_HEVC:
             break;
         case IDR1:
-- 
2.43.0


From 2faafba2f30c84ff293f682ffedf017b8bd5cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 31/78] fix: a shared memory filter that cannot be created
 leaks itself and its segment

---
 src/modules/sharedMemory/SharedMemory.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index c04eb39..a18765b 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -33,6 +33,8 @@ SharedMemory* SharedMemory::createNew(size_t key_, VCodecType codec)
     if(shm->isEnabled()){
         return shm;
     }
+
+    delete shm;
     return NULL;
 }
 
@@ -48,11 +50,14 @@ SharedMemory* SharedMemory::createNew(VCodecType codec)
     if(shm->isEnabled()){
         return shm;
     }
+
+    delete shm;
     return NULL;
 }
 
 SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
-    OneToOneFilter(), enabled(true), newFrame(false), codec(codec_)
+    OneToOneFilter(), streamInfo(NULL), maxFrames(0), sharedMemoryKey(key_), sharedMemoryId(-1),
+    SharedMemoryOrigin(NULL), buffer(NULL), access(NULL), enabled(true), newFrame(false), codec(codec_)
 {
 
     if(!(codec == RAW || codec == H264)){
@@ -63,7 +68,7 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
         return;
     }
 
-    if ((sharedMemoryId = shmget(key_, SHMSIZE, (IPC_EXCL | IPC_CREAT ) | 0666)) == (size_t)-1) {
+    if ((sharedMemoryId = shmget(key_, SHMSIZE, (IPC_EXCL | IPC_CREAT ) | 0666)) == (unsigned)-1) {
         utils::errorMsg("SharedMemory::shmget error - filter not created - "
                 "might be already created (Key:" + std::to_string(key_) +
                 " Codec: " + utils::getVideoCodecAsString(codec_) + ")");
@@ -73,6 +78,7 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
 
     if ((SharedMemoryOrigin = (uint8_t*) shmat(sharedMemoryId, NULL, 0)) == (uint8_t *) -1) {
         utils::errorMsg("SharedMemory::shmat error - filter not created");
+        SharedMemoryOrigin = NULL;
         enabled = false;
         return;
     }
@@ -84,7 +90,6 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
 
         access = SharedMemoryOrigin;
         buffer = SharedMemoryOrigin + HEADER_SIZE;
-        sharedMemoryKey = key_;
 
         //init sync
         *access = CHAR_WRITING;
@@ -95,17 +100,14 @@ SharedMemory::SharedMemory(size_t key_, VCodecType codec_):
     
     fType = SHARED_MEMORY;
     initializeEventMap();
-
-    streamInfo = NULL;
-    maxFrames = 0;
 }
 
 SharedMemory::~SharedMemory()
 {
-    if(shmctl (sharedMemoryId , IPC_RMID , 0) != 0){
+    if(sharedMemoryId != (unsigned)-1 && shmctl (sharedMemoryId , IPC_RMID , 0) != 0){
         utils::errorMsg("SharedMemory::shmctl error - Could not set IPC_RMID flag to shared memory segment ID");
     }
-    if(shmdt(SharedMemoryOrigin) != 0){
+    if(SharedMemoryOrigin && shmdt(SharedMemoryOrigin) != 0){
         utils::errorMsg("SharedMemory::shmdt error - Could not detach memory segment");
     }
 }
-- 
2.43.0


From 61ea2411aebe8ae0a54f7aa36bc8ce3250aa0b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:10 +0000
Subject: [PATCH 32/78] fix: shared frames carry the header of the next one and
 overflow the segment

---
 src/modules/sharedMemory/SharedMemory.cpp | 56 +++++++++++++++++------
 src/modules/sharedMemory/SharedMemory.hh  |  3 ++
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/modules/sharedMemory/SharedMemory.cpp b/src/modules/sharedMemory/SharedMemory.cpp
index a18765b..62e1ad5 100644
--- a/src/modules/sharedMemory/SharedMemory.cpp
+++ b/src/modules/sharedMemory/SharedMemory.cpp
@@ -123,7 +123,7 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
                 seqNum = vframe->getSequenceNumber();
                 frameData.clear();
             }
-            parseNal(vframe, newFrame);
+            addToFrame(vframe);
         }
         return true;
     }
@@ -131,14 +131,17 @@ bool SharedMemory::doProcessFrame(Frame *org, Frame *dst)
     switch(vframe->getCodec()){
         case H264:
             if(vframe->getSequenceNumber() != seqNum && newFrame){
-                writeFramePayload(vframe);
                 writeSharedMemoryH264();
                 seqNum = vframe->getSequenceNumber();
                 frameData.clear();
             }
-            parseNal(vframe, newFrame);
+            addToFrame(vframe);
             break;
         case RAW:
+            if (vframe->getLength() > SHMSIZE - HEADER_SIZE) {
+                utils::errorMsg("SharedMemory::error - frame does not fit in the shared memory");
+                break;
+            }
             writeFramePayload(vframe);
             writeSharedMemoryRAW(vframe->getDataBuf(), vframe->getLength());
             break;
@@ -186,6 +189,20 @@ void SharedMemory::copyOrgToDstFrame(InterleavedVideoFrame*org, InterleavedVideo
     memcpy(dst->getDataBuf(), org->getDataBuf(),org->getLength());
 }
 
+void SharedMemory::addToFrame(InterleavedVideoFrame *nal)
+{
+    bool empty = frameData.empty();
+
+    if (!parseNal(nal, newFrame)) {
+        return;
+    }
+
+    if (empty && !frameData.empty()) {
+        // the frame is described by its first NAL, when it is written the next one has started
+        fillFramePayload(framePayload, nal);
+    }
+}
+
 void SharedMemory::writeSharedMemoryH264()
 {
     uint8_t* data;
@@ -195,12 +212,18 @@ void SharedMemory::writeSharedMemoryH264()
     dataLength = frameData.size();
     length = dataLength;
 
-    if (!data) {
+    if (!data || dataLength == 0) {
         utils::errorMsg("SharedMemory::error - no data from appended frame");
         return;
     }
 
+    if (dataLength > SHMSIZE - HEADER_SIZE) {
+        utils::errorMsg("SharedMemory::error - frame does not fit in the shared memory");
+        return;
+    }
+
     *access = CHAR_WRITING;
+    memcpy(access+2, framePayload+2, HEADER_SIZE-2);
     memcpy(access+20, &length, sizeof(uint32_t));
     memcpy(buffer, data, sizeof(uint8_t) * dataLength);
     *access = CHAR_READING;
@@ -223,7 +246,7 @@ bool SharedMemory::parseNal(VideoFrame* nal, bool &newFrame)
     nalData = nal->getDataBuf();
     nalDataLength = nal->getLength();
 
-    if (!nalData || nalDataLength <= 0) {
+    if (!nalData || nalDataLength <= startCodeOffset) {
         utils::errorMsg("Error parsing NAL: invalid data pointer or length");
         return false;
     }
@@ -280,7 +303,7 @@ bool SharedMemory::appendNalToFrame(unsigned char* nalData, unsigned nalDataLeng
             return false;
     }
 
-    if (nalType != AUD) {
+    if (nalType != AUD && frameData.size() <= SHMSIZE - HEADER_SIZE) {
         frameData.insert(frameData.end(), start_code, start_code + sizeof(start_code));
         frameData.insert(frameData.end(), nalData + startCodeOffset, nalData + nalDataLength);
     }
@@ -299,6 +322,11 @@ int SharedMemory::writeSharedMemoryRAW(uint8_t *buf, int buf_size)
 }
 
 void SharedMemory::writeFramePayload(InterleavedVideoFrame *frame) 
+{
+    fillFramePayload(access, frame);
+}
+
+void SharedMemory::fillFramePayload(uint8_t *payload, InterleavedVideoFrame *frame)
 {
     uint32_t tv_sec = frame->getPresentationTime().count()/std::micro::den;
     uint32_t tv_usec = frame->getPresentationTime().count()%std::micro::den;
@@ -309,14 +337,14 @@ void SharedMemory::writeFramePayload(InterleavedVideoFrame *frame)
     uint16_t pixFmt = getPixelFormatFromPixType(frame->getPixelFormat());
     uint16_t seqN = frame->getSequenceNumber();
 
-    memcpy(access+2, &seqN, sizeof(uint16_t));
-    memcpy(access+4, &pixFmt, sizeof(uint16_t));
-    memcpy(access+6, &codec, sizeof(uint16_t));
-    memcpy(access+8, &height, sizeof(uint16_t));
-    memcpy(access+10, &width, sizeof(uint16_t));
-    memcpy(access+12, &tv_sec, sizeof(uint32_t));
-    memcpy(access+16, &tv_usec, sizeof(uint32_t));
-    memcpy(access+20, &length, sizeof(uint32_t));
+    memcpy(payload+2, &seqN, sizeof(uint16_t));
+    memcpy(payload+4, &pixFmt, sizeof(uint16_t));
+    memcpy(payload+6, &codec, sizeof(uint16_t));
+    memcpy(payload+8, &height, sizeof(uint16_t));
+    memcpy(payload+10, &width, sizeof(uint16_t));
+    memcpy(payload+12, &tv_sec, sizeof(uint32_t));
+    memcpy(payload+16, &tv_usec, sizeof(uint32_t));
+    memcpy(payload+20, &length, sizeof(uint32_t));
 }
 
 bool SharedMemory::isWritable() {
diff --git a/src/modules/sharedMemory/SharedMemory.hh b/src/modules/sharedMemory/SharedMemory.hh
index cc6d783..ea1284f 100644
--- a/src/modules/sharedMemory/SharedMemory.hh
+++ b/src/modules/sharedMemory/SharedMemory.hh
@@ -108,6 +108,8 @@ private:
     void doGetState(Jzon::Object &filterNode);
     FrameQueue* allocQueue(ConnectionData cData);
 
+    void addToFrame(InterleavedVideoFrame *nal);
+    void fillFramePayload(uint8_t *payload, InterleavedVideoFrame *frame);
     void copyOrgToDstFrame(InterleavedVideoFrame *org, InterleavedVideoFrame *dst);
     
     //There is no need of specific reader configuration
@@ -137,6 +139,7 @@ private:
     bool        enabled;
     bool        newFrame;
     std::vector<unsigned char>    frameData;
+    uint8_t     framePayload[HEADER_SIZE];
     VCodecType const              codec;
     uint16_t                      seqNum;
 };
-- 
2.43.0


From ac8852d845dbdc58c00ce440970a2d726e889f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 33/78] fix: capture cannot be reconfigured while it captures,
 and zero fps crashes it

---
 src/modules/V4LCapture/V4LCapture.cpp | 48 +++++++++++++++------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index d5c2c2c..579694a 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -60,31 +60,32 @@ V4LCapture::~V4LCapture()
 
 bool V4LCapture::configure(std::string device, unsigned width, unsigned height, unsigned fps, std::string format, bool fFormat)
 {
+    if (fps == 0){
+        utils::errorMsg("Zero fps is no valid configuration");
+        return false;
+    }
+    
+    //NOTE: the format can only be set in a device without buffers, so it is always opened again
+    if (!releaseDevice()){
+        return false;
+    }
+    
     forceFormat = fFormat;
-    switch (status) {
-        case CLOSE:
-            if (!openDevice(device)){
-                return false;
-            }
-        case OPEN:
-            if (!initDevice(width, height, fps, format)){
-                releaseDevice();
-                return false;
-            }
-        case INIT:
-            if (!startCapturing()){
-                releaseDevice();
-                return false;
-            }
-            break;
-        case CAPTURE:
-            if (stopCapturing() && uninitDevice()){
-                return configure(device, width, height, fFormat);
-            }
-            break;
+    
+    if (!openDevice(device)){
+        return false;
     }
     
+    if (!initDevice(width, height, fps, format) || !startCapturing()){
+        releaseDevice();
+        return false;
+    }
+    
+    this->device = device;
     frameDuration = std::chrono::microseconds((int)(std::micro::den/fps));
+    frameCount = 0;
+    durationCount = std::chrono::microseconds(0);
+    lastTime = std::chrono::high_resolution_clock::now();
     
     return true;
 }
@@ -413,6 +414,7 @@ bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned& den, std::
         }
     }
     
+    oStreamInfo->video.codec = RAW;
     oStreamInfo->video.pixelFormat = pixelType(fmt.fmt.pix.pixelformat);
     if (oStreamInfo->video.pixelFormat == P_NONE){
         oStreamInfo->video.codec = codecType(fmt.fmt.pix.pixelformat);
@@ -552,6 +554,10 @@ void V4LCapture::doGetState(Jzon::Object &filterNode)
 bool V4LCapture::configureEvent(Jzon::Node* params)
 {
     utils::infoMsg("V4LCapture configure event");
+    if (!params){
+        return false;
+    }
+
     if (!params->Has("device") || !params->Has("width") ||
         !params->Has("height") || !params->Has("fps")) {
         return false;
-- 
2.43.0


From 2a1b448c1fba6570ba96c0f3f48991bbd53a1408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 34/78] fix: the fractional frame rate of capture devices is
 misread

---
 src/modules/V4LCapture/V4LCapture.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 579694a..4493c88 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -431,10 +431,17 @@ bool V4LCapture::initDevice(unsigned& xres, unsigned& yres, unsigned& den, std::
         return false;
     }
     
-    if (fps.parm.capture.timeperframe.denominator != den){
+    //NOTE: the time per frame is a fraction (e.g. 1001/30000), null if the driver does not know it
+    unsigned devFps = 0;
+    if (fps.parm.capture.timeperframe.numerator > 0){
+        devFps = (unsigned) (((uint64_t) fps.parm.capture.timeperframe.denominator + fps.parm.capture.timeperframe.numerator/2)/
+            fps.parm.capture.timeperframe.numerator);
+    }
+    
+    if (devFps > 0 && devFps != den){
         utils::warningMsg("Couldn't set fps to " + std::to_string(den) + ". Set to " 
-            + std::to_string(fps.parm.capture.timeperframe.denominator));
-        den = fps.parm.capture.timeperframe.denominator;
+            + std::to_string(devFps));
+        den = devFps;
     }
 
     if (!init_mmap()){
-- 
2.43.0


From 147c9042423c80759b974ffb780f2f0a471ff496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 35/78] fix: capture leaks descriptors, mappings and its stream
 info on errors

---
 src/modules/V4LCapture/V4LCapture.cpp | 29 ++++++++++++++++++---------
 src/modules/V4LCapture/V4LCapture.hh  |  1 +
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 4493c88..00b28f8 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -38,8 +38,8 @@ static VCodecType codecType(unsigned pixelFormat);
 static unsigned getFormatFromString(std::string format);
 static std::string getStatusAsString(DeviceStatus status);
 
-V4LCapture::V4LCapture() : HeadFilter(1, REGULAR, true), status(CLOSE), forceFormat(true), 
-    frameCount(0), durationCount(std::chrono::microseconds(0))
+V4LCapture::V4LCapture() : HeadFilter(1, REGULAR, true), status(CLOSE), fd(-1), buffers(NULL), n_buffers(0), 
+    forceFormat(true), frameCount(0), durationCount(std::chrono::microseconds(0))
 {
     oStreamInfo = new StreamInfo (VIDEO);
     oStreamInfo->video.codec = RAW;
@@ -56,6 +56,7 @@ V4LCapture::V4LCapture() : HeadFilter(1, REGULAR, true), status(CLOSE), forceFor
 V4LCapture::~V4LCapture()
 {
     releaseDevice();
+    delete oStreamInfo;
 }
 
 bool V4LCapture::configure(std::string device, unsigned width, unsigned height, unsigned fps, std::string format, bool fFormat)
@@ -106,12 +107,11 @@ bool V4LCapture::releaseDevice()
     switch (status) {
         case CAPTURE:
             if (!stopCapturing()){
-                return false;
+                //NOTE: closing the device stops it anyway
+                status = INIT;
             }
         case INIT:
-            if (!uninitDevice()){
-                return false;
-            }
+            uninitDevice();
         case OPEN:
             closeDevice();
         case CLOSE:
@@ -302,6 +302,7 @@ bool V4LCapture::init_mmap(void)
 
             if (xioctl(fd, VIDIOC_QUERYBUF, &buf) < 0){
                 utils::errorMsg("Failed requesting v4l buffers");
+                unmapBuffers();
                 return false;
             }
 
@@ -315,6 +316,7 @@ bool V4LCapture::init_mmap(void)
 
             if (MAP_FAILED == buffers[n_buffers].data){
                   utils::errorMsg("Mmap failed");
+                  unmapBuffers();
                   return false;
             }
       }
@@ -459,17 +461,24 @@ bool V4LCapture::uninitDevice(void)
         return false;
     }
 
+    unmapBuffers();
+
+    CLEAR(fmt);
+    status = OPEN;
+    return true;
+}
+
+void V4LCapture::unmapBuffers(void)
+{
     for (unsigned i = 0; i < n_buffers; ++i){
         if (munmap(buffers[i].data, buffers[i].size) < 0){
             utils::errorMsg("Failed unmapping buffers!");
-            return false;
         }
     }
 
-    CLEAR(fmt);
     free(buffers);
-    status = OPEN;
-    return true;
+    buffers = NULL;
+    n_buffers = 0;
 }
 
 bool V4LCapture::startCapturing(void)
diff --git a/src/modules/V4LCapture/V4LCapture.hh b/src/modules/V4LCapture/V4LCapture.hh
index e03a6a4..1fa1bb7 100644
--- a/src/modules/V4LCapture/V4LCapture.hh
+++ b/src/modules/V4LCapture/V4LCapture.hh
@@ -72,6 +72,7 @@ private:
 
     bool initDevice(unsigned& xres, unsigned& yres, unsigned &den, std::string &format);
     bool uninitDevice();
+    void unmapBuffers();
 
     bool startCapturing();
     bool stopCapturing();
-- 
2.43.0


From eeffd94f88dd6a5dcb4cc9a6f741f9b0dc64167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 36/78] fix: captured frames are truncated, have no length and
 may overflow

---
 src/modules/V4LCapture/V4LCapture.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 00b28f8..84bf20d 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -224,16 +224,22 @@ bool V4LCapture::readFrame(VideoFrame *dstFrame)
         return false;
     }
     
-    memcpy(dstFrame->getDataBuf(), buffers[buf.index].data, 
-               fmt.fmt.pix.height * fmt.fmt.pix.bytesperline);
-    dstFrame->setSize(fmt.fmt.pix.width, fmt.fmt.pix.height);
-    dstFrame->setPixelFormat(oStreamInfo->video.pixelFormat);
+    bool valid = buf.bytesused <= dstFrame->getMaxLength();
+    
+    if (valid){
+        memcpy(dstFrame->getDataBuf(), buffers[buf.index].data, buf.bytesused);
+        dstFrame->setLength(buf.bytesused);
+        dstFrame->setSize(fmt.fmt.pix.width, fmt.fmt.pix.height);
+        dstFrame->setPixelFormat(oStreamInfo->video.pixelFormat);
+    } else {
+        utils::warningMsg("The captured frame does not fit, it is discarded");
+    }
     
     if (xioctl(fd, VIDIOC_QBUF, &buf) < 0){
         return false;
     }
 
-    return true;
+    return valid;
 }
 
 bool V4LCapture::openDevice(std::string device)
-- 
2.43.0


From ecb42c03f309b813aea3eba685499b119eb88834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 37/78] fix: capture loses a buffer the driver does not take
 back at once

---
 src/modules/V4LCapture/V4LCapture.cpp | 47 +++++++++++++++++++--------
 src/modules/V4LCapture/V4LCapture.hh  |  2 ++
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 84bf20d..f7edc12 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -189,6 +189,9 @@ const bool V4LCapture::getFrame(std::chrono::microseconds timeout, VideoFrame *d
     struct timeval tv;
     int ret;
 
+    //NOTE: buffers the driver did not take back
+    queueBuffers();
+
     FD_ZERO(&fds);
     FD_SET(fd, &fds);
 
@@ -224,6 +227,8 @@ bool V4LCapture::readFrame(VideoFrame *dstFrame)
         return false;
     }
     
+    buffers[buf.index].queued = false;
+    
     bool valid = buf.bytesused <= dstFrame->getMaxLength();
     
     if (valid){
@@ -235,9 +240,7 @@ bool V4LCapture::readFrame(VideoFrame *dstFrame)
         utils::warningMsg("The captured frame does not fit, it is discarded");
     }
     
-    if (xioctl(fd, VIDIOC_QBUF, &buf) < 0){
-        return false;
-    }
+    queueBuffers();
 
     return valid;
 }
@@ -495,8 +498,31 @@ bool V4LCapture::startCapturing(void)
         return false;
     }
 
+    if (!queueBuffers()){
+        return false;
+    }
+    
+    type = V4L2_BUF_TYPE_VIDEO_CAPTURE;
+    if (xioctl(fd, VIDIOC_STREAMON, &type) < 0){
+        utils::errorMsg("VIDIOC_STREAMON error");
+        return false;
+    }
+    
+    status = CAPTURE;
+    
+    return true;
+}
+
+bool V4LCapture::queueBuffers(void)
+{
+    bool ret = true;
+    
     for (unsigned i = 0; i < n_buffers; ++i) {
         struct v4l2_buffer buf;
+        
+        if (buffers[i].queued){
+            continue;
+        }
 
         CLEAR(buf);
         buf.type = V4L2_BUF_TYPE_VIDEO_CAPTURE;
@@ -505,19 +531,14 @@ bool V4LCapture::startCapturing(void)
 
         if (xioctl(fd, VIDIOC_QBUF, &buf) < 0){
             utils::errorMsg("VIDIOC_QBUF error");
-            return false;
+            ret = false;
+            continue;
         }
+        
+        buffers[i].queued = true;
     }
     
-    type = V4L2_BUF_TYPE_VIDEO_CAPTURE;
-    if (xioctl(fd, VIDIOC_STREAMON, &type) < 0){
-        utils::errorMsg("VIDIOC_STREAMON error");
-        return false;
-    }
-    
-    status = CAPTURE;
-    
-    return true;
+    return ret;
 }
 
 bool V4LCapture::stopCapturing(void)
diff --git a/src/modules/V4LCapture/V4LCapture.hh b/src/modules/V4LCapture/V4LCapture.hh
index 1fa1bb7..078c498 100644
--- a/src/modules/V4LCapture/V4LCapture.hh
+++ b/src/modules/V4LCapture/V4LCapture.hh
@@ -39,6 +39,7 @@
 struct buffer {
       void   *data;
       size_t  size;
+      bool    queued;
 };
 
 enum DeviceStatus {OPEN, INIT, CAPTURE, CLOSE};
@@ -76,6 +77,7 @@ private:
 
     bool startCapturing();
     bool stopCapturing();
+    bool queueBuffers();
 
     bool readFrame(VideoFrame* dstFrame);
     
-- 
2.43.0


From 76c228ce241171b819561c3b483dc4d7f4a40e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 38/78] fix: capture stops when the system clock is set

---
 src/modules/V4LCapture/V4LCapture.cpp | 10 ++++++++++
 src/modules/V4LCapture/V4LCapture.hh  |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index f7edc12..747bbec 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -155,6 +155,11 @@ bool V4LCapture::doProcessFrame(std::map<int, Frame*> &dstFrames, int& ret)
     
     ret = (std::chrono::duration_cast<std::chrono::microseconds> (
             wallclock - currentTime)).count();
+    
+    //NOTE: the system clock may have been set meanwhile
+    if (ret > frameDuration.count()){
+        ret = frameDuration.count();
+    }
             
     if (!frame->getConsumed()){
         return false;
@@ -562,6 +567,11 @@ bool V4LCapture::stopCapturing(void)
 
 int V4LCapture::getAvgFrameDuration(std::chrono::microseconds duration)
 {
+    //NOTE: the system clock may have been set or the device may have stalled, this says nothing about its rate
+    if (duration.count() <= 0 || duration > frameDuration*OUTLIER_FACTOR){
+        return frameDuration.count();
+    }
+    
     if (frameCount <= FRAME_AVG_COUNT){
         if (frameCount > 0){
             durationCount += duration;
diff --git a/src/modules/V4LCapture/V4LCapture.hh b/src/modules/V4LCapture/V4LCapture.hh
index 078c498..ab7c8fa 100644
--- a/src/modules/V4LCapture/V4LCapture.hh
+++ b/src/modules/V4LCapture/V4LCapture.hh
@@ -35,6 +35,7 @@
 
 #define TOLERANCE_FACTOR 64
 #define FRAME_AVG_COUNT 128
+#define OUTLIER_FACTOR 8
 
 struct buffer {
       void   *data;
-- 
2.43.0


From bf8e601d7f2cf0b676b65c1280f12cc541ca0526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 39/78] fix: planar 4:2:2 capture is not recognised

---
 src/modules/V4LCapture/V4LCapture.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/V4LCapture/V4LCapture.cpp b/src/modules/V4LCapture/V4LCapture.cpp
index 747bbec..67ac895 100644
--- a/src/modules/V4LCapture/V4LCapture.cpp
+++ b/src/modules/V4LCapture/V4LCapture.cpp
@@ -655,6 +655,9 @@ static PixType pixelType(unsigned pixelFormat)
         case V4L2_PIX_FMT_YUV420:
             return YUV420P;
             break;
+        case V4L2_PIX_FMT_YUV422P:
+            return YUV422P;
+            break;
         case V4L2_PIX_FMT_RGB24:
             return RGB24;
             break;
-- 
2.43.0


From db45751557fd619ea2bee50d556652ece21ad003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:23 +0000
Subject: [PATCH 40/78] fix: a DASH timestamp that occurs twice is listed once

Representations that are not aligned can lead to the same segment name
twice. The manifest listed it twice, and when the first entry left the
window the file was removed although the second one still referred to it.
---
 src/modules/dasher/MpdManager.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/modules/dasher/MpdManager.cpp b/src/modules/dasher/MpdManager.cpp
index 90b7c31..06b1d86 100644
--- a/src/modules/dasher/MpdManager.cpp
+++ b/src/modules/dasher/MpdManager.cpp
@@ -268,6 +268,16 @@ uint64_t AdaptationSet::updateTimestamp(uint64_t ts, unsigned int duration, unsi
 {
     uint64_t removedTimestamp= 0;
 
+    //NOTE: representations that are not aligned may lead to the same timestamp twice, which means
+    //that the same file has been written again: it is still a single segment
+    for (auto it = timestamps.begin(); it != timestamps.end(); ++it) {
+        if (it->first == ts) {
+            timestamps.erase(it);
+            published--;
+            break;
+        }
+    }
+
     while (timestamps.size() >= maxSeg) {
         removedTimestamp = timestamps.front().first;
         if (removed) {
-- 
2.43.0


From 01e5c55d6caf6c6ed2543813d2abfe262f3094c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:16 +0000
Subject: [PATCH 41/78] fix: a JSON parser keeps leftovers of a failed parse

---
 src/Jzon.cpp | 2646 +++++++++++++++++++++++++-------------------------
 1 file changed, 1334 insertions(+), 1312 deletions(-)

diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index d6c888a..122edaa 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -1,1313 +1,1335 @@
-/*
-Copyright (c) 2013 Johannes Häggqvist
-
-Permission is hereby granted, free of charge, to any person obtaining a copy
-of this software and associated documentation files (the "Software"), to deal
-in the Software without restriction, including without limitation the rights
-to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
-copies of the Software, and to permit persons to whom the Software is
-furnished to do so, subject to the following conditions:
-
-The above copyright notice and this permission notice shall be included in
-all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
-IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
-FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
-AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
-LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
-OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
-THE SOFTWARE.
-*/
-#include "Jzon.h"
-
-#include <sstream>
-#include <fstream>
-#include <stack>
-#include <algorithm>
-
-namespace Jzon
-{
-	class FormatInterpreter
-	{
-	public:
-		FormatInterpreter()
-		{
-			SetFormat(NoFormat);
-		}
-		FormatInterpreter(const Format &format)
-		{
-			SetFormat(format);
-		}
-
-		void SetFormat(const Format &format)
-		{
-			this->format = format;
-			indentationChar = (format.useTabs ? '\t' : ' ');
-			spacing = (format.spacing ? " " : "");
-			newline = (format.newline ? "\n" : spacing);
-		}
-
-		std::string GetIndentation(unsigned int level) const
-		{
-			if (!format.newline)
-			{
-				return "";
-			}
-			else
-			{
-				return std::string(format.indentSize * level, indentationChar);
-			}
-		}
-		
-		inline const std::string &GetNewline() const
-		{
-			return newline;
-		}
-		inline const std::string &GetSpacing() const
-		{
-			return spacing;
-		}
-
-	private:
-		Format format;
-		char indentationChar;
-		std::string newline;
-		std::string spacing;
-	};
-
-	void RemoveWhitespace(const std::string &json, std::string &freshJson)
-	{
-		freshJson.clear();
-
-		bool comment = false;
-		int multicomment = 0;
-		bool inString = false;
-
-		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
-		{
-			char c0 = '\0';
-			char c1 = (*it);
-			char c2 = '\0';
-			if (it != json.begin())
-				c0 = (*(it-1));
-			if (it+1 != json.end())
-				c2 = (*(it+1));
-
-			if (c0 != '\\' && c1 == '"')
-			{
-				inString = !inString;
-			}
-
-			if (!inString)
-			{
-				if (c1 == '/' && c2 == '*')
-				{
-					++multicomment;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '*' && c2 == '/')
-				{
-					--multicomment;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '/' && c2 == '/')
-				{
-					comment = true;
-					if (it+1 != json.end())
-						++it;
-					continue;
-				}
-				else if (c1 == '\n')
-				{
-					comment = false;
-				}
-			}
-
-			if (comment || multicomment > 0)
-				continue;
-
-			if (inString)
-			{
-				freshJson += c1;
-			}
-			else
-			{
-				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
-					freshJson += c1;
-			}
-		}
-	}
-
-	Node::Node()
-	{
-	}
-	Node::~Node()
-	{
-	}
-
-	Object &Node::AsObject()
-	{
-		if (IsObject())
-			return static_cast<Object&>(*this);
-		else
-			throw TypeException();
-	}
-	const Object &Node::AsObject() const
-	{
-		if (IsObject())
-			return static_cast<const Object&>(*this);
-		else
-			throw TypeException();
-	}
-	Array &Node::AsArray()
-	{
-		if (IsArray())
-			return static_cast<Array&>(*this);
-		else
-			throw TypeException();
-	}
-	const Array &Node::AsArray() const
-	{
-		if (IsArray())
-			return static_cast<const Array&>(*this);
-		else
-			throw TypeException();
-	}
-	Value &Node::AsValue()
-	{
-		if (IsValue())
-			return static_cast<Value&>(*this);
-		else
-			throw TypeException();
-	}
-	const Value &Node::AsValue() const
-	{
-		if (IsValue())
-			return static_cast<const Value&>(*this);
-		else
-			throw TypeException();
-	}
-
-	Node::Type Node::DetermineType(const std::string &_json)
-	{
-		std::string json;
-		RemoveWhitespace(_json, json);
-
-		Node::Type type = T_VALUE;
-		if (!json.empty())
-		{
-			switch (json.at(0))
-			{
-			case '{' : type = T_OBJECT; break;
-			case '[' : type = T_ARRAY; break;
-			}
-		}
-
-		return type;
-	}
-
-
-	Value::Value()
-	{
-		SetNull();
-	}
-	Value::Value(const Value &rhs)
-	{
-		Set(rhs);
-	}
-	Value::Value(const Node &rhs)
-	{
-		const Value &value = rhs.AsValue();
-		Set(value);
-	}
-	Value::Value(ValueType type, const std::string &value)
-	{
-		Set(type, value);
-	}
-	Value::Value(const std::string &value)
-	{
-		Set(value);
-	}
-	Value::Value(const char *value)
-	{
-		Set(value);
-	}
-	Value::Value(const int value)
-	{
-		Set(value);
-	}
-	Value::Value(const float value)
-	{
-		Set(value);
-	}
-	Value::Value(const double value)
-	{
-		Set(value);
-	}
-	Value::Value(const bool value)
-	{
-		Set(value);
-	}
-	Value::~Value()
-	{
-	}
-
-	Node::Type Value::GetType() const
-	{
-		return T_VALUE;
-	}
-	Value::ValueType Value::GetValueType() const
-	{
-		return type;
-	}
-
-	std::string Value::ToString() const
-	{
-		if (IsNull())
-			return "null";
-		else
-			return valueStr;
-	}
-	int Value::ToInt() const
-	{
-		if (IsNull())
-			return 0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				int val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	float Value::ToFloat() const
-	{
-		if (IsNull())
-			return 0.0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				float val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	double Value::ToDouble() const
-	{
-		if (IsNull())
-			return 0.0;
-		else
-		{
-			if (IsNumber())
-			{
-				std::stringstream sstr(valueStr);
-				double val;
-				sstr >> val;
-				return val;
-			}
-			else
-				throw ValueException();
-		}
-	}
-	bool Value::ToBool() const
-	{
-		if (IsNull())
-			return false;
-		else
-			if (IsBool())
-				return (valueStr == "true");
-			else
-				throw ValueException();
-	}
-
-	void Value::SetNull()
-	{
-		valueStr = "";
-		type     = VT_NULL;
-	}
-	void Value::Set(const Value &value)
-	{
-		if (this != &value)
-		{
-			valueStr = value.valueStr;
-			type     = value.type;
-		}
-	}
-	void Value::Set(ValueType type, const std::string &value)
-	{
-		valueStr   = value;
-		this->type = type;
-	}
-	void Value::Set(const std::string &value)
-	{
-		valueStr = UnescapeString(value);
-		type     = VT_STRING;
-	}
-	void Value::Set(const char *value)
-	{
-		valueStr = UnescapeString(std::string(value));
-		type     = VT_STRING;
-	}
-	void Value::Set(const int value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const float value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const double value)
-	{
-		std::stringstream sstr;
-		sstr << value;
-		valueStr = sstr.str();
-		type     = VT_NUMBER;
-	}
-	void Value::Set(const bool value)
-	{
-		if (value)
-			valueStr = "true";
-		else
-			valueStr = "false";
-		type = VT_BOOL;
-	}
-
-	Value &Value::operator=(const Value &rhs)
-	{
-		if (this != &rhs)
-			Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const Node &rhs)
-	{
-		if (this != &rhs)
-			Set(rhs.AsValue());
-		return *this;
-	}
-	Value &Value::operator=(const std::string &rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const char *rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const int rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const float rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const double rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-	Value &Value::operator=(const bool rhs)
-	{
-		Set(rhs);
-		return *this;
-	}
-
-	bool Value::operator==(const Value &other) const
-	{
-		return ((type == other.type)&&(valueStr == other.valueStr));
-	}
-	bool Value::operator!=(const Value &other) const
-	{
-		return !(*this == other);
-	}
-
-	Node *Value::GetCopy() const
-	{
-		return new Value(*this);
-	}
-
-	// This is not the most beautiful place for these, but it'll do
-	static const char charsUnescaped[] = { '\\'  , '/'  , '\"'  , '\n' , '\t' , '\b' , '\f' , '\r' };
-	static const char *charsEscaped[]  = { "\\\\", "\\/", "\\\"", "\\n", "\\t", "\\b", "\\f", "\\r" };
-	static const unsigned int numEscapeChars = 8;
-	static const char nullUnescaped = '\0';
-	static const char *nullEscaped  = "\0\0";
-	const char *&getEscaped(const char &c)
-	{
-		for (unsigned int i = 0; i < numEscapeChars; ++i)
-		{
-			const char &ue = charsUnescaped[i];
-
-			if (c == ue)
-			{
-				const char *&e = charsEscaped[i];
-				return e;
-			}
-		}
-		return nullEscaped;
-	}
-	const char &getUnescaped(const char &c1, const char &c2)
-	{
-		for (unsigned int i = 0; i < numEscapeChars; ++i)
-		{
-			const char *&e = charsEscaped[i];
-
-			if (c1 == e[0] && c2 == e[1])
-			{
-				const char &ue = charsUnescaped[i];
-				return ue;
-			}
-		}
-		return nullUnescaped;
-	}
-
-	std::string Value::EscapeString(const std::string &value)
-	{
-		std::string escaped;
-
-		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-		{
-			const char &c = (*it);
-
-			const char *&a = getEscaped(c);
-			if (a[0] != '\0')
-			{
-				escaped += a[0];
-				escaped += a[1];
-			}
-			else
-			{
-				escaped += c;
-			}
-		}
-
-		return escaped;
-	}
-	std::string Value::UnescapeString(const std::string &value)
-	{
-		std::string unescaped;
-
-		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-		{
-			const char &c = (*it);
-			char c2 = '\0';
-			if (it+1 != value.end())
-				c2 = *(it+1);
-
-			const char &a = getUnescaped(c, c2);
-			if (a != '\0')
-			{
-				unescaped += a;
-				if (it+1 != value.end())
-					++it;
-			}
-			else
-			{
-				unescaped += c;
-			}
-		}
-
-		return unescaped;
-	}
-
-
-	Object::Object()
-	{
-	}
-	Object::Object(const Object &other)
-	{
-		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			Node &value = *(*it).second;
-
-			children.push_back(std::make_pair(name, value.GetCopy()));
-		}
-	}
-	Object::Object(const Node &other)
-	{
-		const Object &object = other.AsObject();
-
-		for (ChildList::const_iterator it = object.children.begin(); it != object.children.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			Node &value = *(*it).second;
-
-			children.push_back(std::make_pair(name, value.GetCopy()));
-		}
-	}
-	Object::~Object()
-	{
-		Clear();
-	}
-
-	Node::Type Object::GetType() const
-	{
-		return T_OBJECT;
-	}
-
-	void Object::Add(const std::string &name, Node &node)
-	{
-		children.push_back(std::make_pair(name, node.GetCopy()));
-	}
-	void Object::Add(const std::string &name, Value node)
-	{
-		children.push_back(std::make_pair(name, new Value(node)));
-	}
-	void Object::Remove(const std::string &name)
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				delete (*it).second;
-				children.erase(it);
-				break;
-			}
-		}
-	}
-	void Object::Clear()
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			delete (*it).second;
-			(*it).second = NULL;
-		}
-		children.clear();
-	}
-
-	Object::iterator Object::begin()
-	{
-		if (!children.empty())
-			return Object::iterator(&children.front());
-		else
-			return Object::iterator(NULL);
-	}
-	Object::const_iterator Object::begin() const
-	{
-		if (!children.empty())
-			return Object::const_iterator(&children.front());
-		else
-			return Object::const_iterator(NULL);
-	}
-	Object::iterator Object::end()
-	{
-		if (!children.empty())
-			return Object::iterator(&children.back()+1);
-		else
-			return Object::iterator(NULL);
-	}
-	Object::const_iterator Object::end() const
-	{
-		if (!children.empty())
-			return Object::const_iterator(&children.back()+1);
-		else
-			return Object::const_iterator(NULL);
-	}
-
-	bool Object::Has(const std::string &name) const
-	{
-		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				return true;
-			}
-		}
-		return false;
-	}
-	size_t Object::GetCount() const
-	{
-		return children.size();
-	}
-	Node &Object::Get(const std::string &name) const
-	{
-		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
-		{
-			if ((*it).first == name)
-			{
-				return *(*it).second;
-			}
-		}
-		
-		throw NotFoundException();
-	}
-
-	Node *Object::GetCopy() const
-	{
-		return new Object(*this);
-	}
-
-
-	Array::Array()
-	{
-	}
-	Array::Array(const Array &other)
-	{
-		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
-		{
-			const Node &value = *(*it);
-
-			children.push_back(value.GetCopy());
-		}
-	}
-	Array::Array(const Node &other)
-	{
-		const Array &array = other.AsArray();
-
-		for (ChildList::const_iterator it = array.children.begin(); it != array.children.end(); ++it)
-		{
-			const Node &value = *(*it);
-
-			children.push_back(value.GetCopy());
-		}
-	}
-	Array::~Array()
-	{
-		Clear();
-	}
-
-	Node::Type Array::GetType() const
-	{
-		return T_ARRAY;
-	}
-
-	void Array::Add(Node &node)
-	{
-		children.push_back(node.GetCopy());
-	}
-	void Array::Add(Value node)
-	{
-		children.push_back(new Value(node));
-	}
-	void Array::Remove(size_t index)
-	{
-		if (index < children.size())
-		{
-			ChildList::iterator it = children.begin()+index;
-			delete (*it);
-			children.erase(it);
-		}
-	}
-	void Array::Clear()
-	{
-		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
-		{
-			delete (*it);
-			(*it) = NULL;
-		}
-		children.clear();
-	}
-
-	Array::iterator Array::begin()
-	{
-		if (!children.empty())
-			return Array::iterator(&children.front());
-		else
-			return Array::iterator(NULL);
-	}
-	Array::const_iterator Array::begin() const
-	{
-		if (!children.empty())
-			return Array::const_iterator(&children.front());
-		else
-			return Array::const_iterator(NULL);
-	}
-	Array::iterator Array::end()
-	{
-		if (!children.empty())
-			return Array::iterator(&children.back()+1);
-		else
-			return Array::iterator(NULL);
-	}
-	Array::const_iterator Array::end() const
-	{
-		if (!children.empty())
-			return Array::const_iterator(&children.back()+1);
-		else
-			return Array::const_iterator(NULL);
-	}
-
-	size_t Array::GetCount() const
-	{
-		return children.size();
-	}
-	Node &Array::Get(size_t index) const
-	{
-		if (index < children.size())
-		{
-			return *children.at(index);
-		}
-
-		throw NotFoundException();
-	}
-
-	Node *Array::GetCopy() const
-	{
-		return new Array(*this);
-	}
-
-
-	FileWriter::FileWriter(const std::string &filename) : filename(filename)
-	{
-	}
-	FileWriter::~FileWriter()
-	{
-	}
-
-	void FileWriter::WriteFile(const std::string &filename, const Node &root, const Format &format)
-	{
-		FileWriter writer(filename);
-		writer.Write(root, format);
-	}
-
-	void FileWriter::Write(const Node &root, const Format &format)
-	{
-		Writer writer(root, format);
-		writer.Write();
-
-		std::fstream file(filename.c_str(), std::ios::out | std::ios::trunc);
-		file << writer.GetResult();
-		file.close();
-	}
-
-
-	FileReader::FileReader(const std::string &filename)
-	{
-		if (!loadFile(filename, json))
-		{
-			error = "Failed to load file";
-		}
-	}
-	FileReader::~FileReader()
-	{
-	}
-
-	bool FileReader::ReadFile(const std::string &filename, Node &node)
-	{
-		FileReader reader(filename);
-		return reader.Read(node);
-	}
-
-	bool FileReader::Read(Node &node)
-	{
-		if (!error.empty())
-			return false;
-
-		Parser parser(node, json);
-		if (!parser.Parse())
-		{
-			error = parser.GetError();
-			return false;
-		}
-		else
-		{
-			return true;
-		}
-	}
-
-	Node::Type FileReader::DetermineType()
-	{
-		return Node::DetermineType(json);
-	}
-
-	const std::string &FileReader::GetError() const
-	{
-		return error;
-	}
-
-	bool FileReader::loadFile(const std::string &filename, std::string &json)
-	{
-		std::fstream file(filename.c_str(), std::ios::in | std::ios::binary);
-
-		if (!file.is_open())
-		{
-			return false;
-		}
-
-		file.seekg(0, std::ios::end);
-		std::ios::pos_type size = file.tellg();
-		file.seekg(0, std::ios::beg);
-
-		json.resize(static_cast<std::string::size_type>(size), '\0');
-		file.read(&json[0], size);
-
-		return true;
-	}
-
-
-	Writer::Writer(const Node &root, const Format &format) : fi(new FormatInterpreter), root(root)
-	{
-		SetFormat(format);
-	}
-	Writer::~Writer()
-	{
-		delete fi;
-		fi = NULL;
-	}
-
-	void Writer::SetFormat(const Format &format)
-	{
-		fi->SetFormat(format);
-	}
-	void Writer::Write()
-	{
-		result.clear();
-		writeNode(root, 0);
-	}
-
-	const std::string &Writer::GetResult() const
-	{
-		return result;
-	}
-
-	void Writer::writeNode(const Node &node, unsigned int level)
-	{
-		switch (node.GetType())
-		{
-		case Node::T_OBJECT : writeObject(node.AsObject(), level); break;
-		case Node::T_ARRAY  : writeArray(node.AsArray(), level);   break;
-		case Node::T_VALUE  : writeValue(node.AsValue());          break;
-		}
-	}
-	void Writer::writeObject(const Object &node, unsigned int level)
-	{
-		result += "{" + fi->GetNewline();
-
-		for (Object::const_iterator it = node.begin(); it != node.end(); ++it)
-		{
-			const std::string &name = (*it).first;
-			const Node &value = (*it).second;
-
-			if (it != node.begin())
-				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
-			writeNode(value, level+1);
-		}
-
-		result += fi->GetNewline() + fi->GetIndentation(level) + "}";
-	}
-	void Writer::writeArray(const Array &node, unsigned int level)
-	{
-		result += "[" + fi->GetNewline();
-
-		for (Array::const_iterator it = node.begin(); it != node.end(); ++it)
-		{
-			const Node &value = (*it);
-
-			if (it != node.begin())
-				result += "," + fi->GetNewline();
-			result += fi->GetIndentation(level+1);
-			writeNode(value, level+1);
-		}
-
-		result += fi->GetNewline() + fi->GetIndentation(level) + "]";
-	}
-	void Writer::writeValue(const Value &node)
-	{
-		if (node.IsString())
-		{
-			result += "\""+Value::EscapeString(node.ToString())+"\"";
-		}
-		else
-		{
-			result += node.ToString();
-		}
-	}
-
-
-	Parser::Parser(Node &root) : root(root)
-	{
-	}
-	Parser::Parser(Node &root, const std::string &json) : root(root)
-	{
-		SetJson(json);
-	}
-	Parser::~Parser()
-	{
-	}
-
-	void Parser::SetJson(const std::string &json)
-	{
-		RemoveWhitespace(json, this->json);
-	}
-	bool Parser::Parse()
-	{
-		cursor = 0;
-
-		tokenize();
-		bool success = assemble();
-
-		return success;
-	}
-
-	const std::string &Parser::GetError() const
-	{
-		return error;
-	}
-
-	void Parser::tokenize()
-	{
-		Token token;
-		std::string valueBuffer;
-		bool saveBuffer;
-
-		for (; cursor < json.size(); ++cursor)
-		{
-			char c = json.at(cursor);
-
-			saveBuffer = true;
-
-			switch (c)
-			{
-			case '{' :
-				{
-					token = T_OBJ_BEGIN;
-					break;
-				}
-			case '}' :
-				{
-					token = T_OBJ_END;
-					break;
-				}
-			case '[' :
-				{
-					token = T_ARRAY_BEGIN;
-					break;
-				}
-			case ']' :
-				{
-					token = T_ARRAY_END;
-					break;
-				}
-			case ',' :
-				{
-					token = T_SEPARATOR_NODE;
-					break;
-				}
-			case ':' :
-				{
-					token = T_SEPARATOR_NAME;
-					break;
-				}
-			case '"' :
-				{
-					token = T_VALUE;
-					readString();
-					break;
-				}
-			default :
-				{
-					valueBuffer += c;
-					saveBuffer = false;
-					break;
-				}
-			}
-
-			if ((saveBuffer || cursor == json.size()-1) && (!valueBuffer.empty())) // Always save buffer on the last character
-			{
-				if (interpretValue(valueBuffer))
-				{
-					tokens.push(T_VALUE);
-				}
-				else
-				{
-					// Store the unknown token, so we can show it to the user
-					data.push(std::make_pair(Value::VT_STRING, valueBuffer));
-					tokens.push(T_UNKNOWN);
-				}
-
-				valueBuffer.clear();
-			}
-
-			// Push the token last so that any
-			// value token will get pushed first
-			// from above.
-			// If saveBuffer is false, it means that
-			// we are in the middle of a value, so we
-			// don't want to push any tokens now.
-			if (saveBuffer)
-			{
-				tokens.push(token);
-			}
-		}
-	}
-	bool Parser::assemble()
-	{
-		std::stack<std::pair<std::string, Node*> > nodeStack;
-
-		std::string name = "";
-
-		Token token;
-		while (!tokens.empty())
-		{
-			token = tokens.front();
-			tokens.pop();
-
-			switch (token)
-			{
-			case T_UNKNOWN :
-				{
-					const std::string &unknownToken = data.front().second;
-					error = "Unknown token: "+unknownToken;
-					data.pop();
-					return false;
-				}
-			case T_OBJ_BEGIN :
-				{
-					Node *node = NULL;
-					if (nodeStack.empty())
-					{
-						if (!root.IsObject())
-						{
-							error = "The given root node is not an object";
-							return false;
-						}
-
-						node = &root;
-					}
-					else
-					{
-						node = new Object;
-					}
-
-					nodeStack.push(std::make_pair(name, node));
-					name.clear();
-					break;
-				}
-			case T_ARRAY_BEGIN :
-				{
-					Node *node = NULL;
-					if (nodeStack.empty())
-					{
-						if (!root.IsArray())
-						{
-							error = "The given root node is not an array";
-							return false;
-						}
-
-						node = &root;
-					}
-					else
-					{
-						node = new Array;
-					}
-
-					nodeStack.push(std::make_pair(name, node));
-					name.clear();
-					break;
-				}
-			case T_OBJ_END :
-			case T_ARRAY_END :
-				{
-					if (nodeStack.empty())
-					{
-						error = "Found end of object or array without beginning";
-						return false;
-					}
-					if (token == T_OBJ_END && !nodeStack.top().second->IsObject())
-					{
-						error = "Mismatched end and beginning of object";
-						return false;
-					}
-					if (token == T_ARRAY_END && !nodeStack.top().second->IsArray())
-					{
-						error = "Mismatched end and beginning of array";
-						return false;
-					}
-
-					std::string name = nodeStack.top().first;
-					Node *node = nodeStack.top().second;
-					nodeStack.pop();
-
-					if (!nodeStack.empty())
-					{
-						if (nodeStack.top().second->IsObject())
-						{
-							nodeStack.top().second->AsObject().Add(name, *node);
-						}
-						else if (nodeStack.top().second->IsArray())
-						{
-							nodeStack.top().second->AsArray().Add(*node);
-						}
-						else
-						{
-							error = "Can only add elements to objects and arrays";
-							return false;
-						}
-
-						delete node;
-						node = NULL;
-					}
-					break;
-				}
-			case T_VALUE :
-				{
-					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
-					{
-						tokens.pop();
-						if (data.front().first != Value::VT_STRING)
-						{
-							error = "A name has to be a string";
-							return false;
-						}
-						else
-						{
-							name = data.front().second;
-							data.pop();
-						}
-					}
-					else
-					{
-						Node *node = NULL;
-						if (nodeStack.empty())
-						{
-							if (!root.IsValue())
-							{
-								error = "The given root node is not a value";
-								return false;
-							}
-
-							node = &root;
-						}
-						else
-						{
-							node = new Value;
-						}
-
-						if (data.front().first == Value::VT_STRING)
-						{
-							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
-						}
-						else
-						{
-							static_cast<Value*>(node)->Set(data.front().first, data.front().second);
-						}
-						data.pop();
-
-						if (!nodeStack.empty())
-						{
-							if (nodeStack.top().second->IsObject())
-								nodeStack.top().second->AsObject().Add(name, *node);
-							else if (nodeStack.top().second->IsArray())
-								nodeStack.top().second->AsArray().Add(*node);
-
-							delete node;
-							node = NULL;
-							name.clear();
-						}
-						else
-						{
-							nodeStack.push(std::make_pair(name, node));
-							name.clear();
-						}
-					}
-					break;
-				}
-			case T_SEPARATOR_NAME :
-			case T_SEPARATOR_NODE : break;
-			}
-		}
-
-		return true;
-	}
-
-	void Parser::readString()
-	{
-		if (json.at(cursor) != '"')
-			return;
-
-		std::string str;
-
-		++cursor;
-
-		char c1 = '\0';
-		for (; cursor < json.size(); ++cursor)
-		{
-			char c2 = json.at(cursor);
-
-			if (c1 != '\\' && c2 == '"')
-			{
-				break;
-			}
-
-			str += c2;
-
-			c1 = c2;
-		}
-
-		data.push(std::make_pair(Value::VT_STRING, str));
-	}
-
-	bool Parser::interpretValue(const std::string &value)
-	{
-		std::string upperValue(value.size(), '\0');
-
-		std::transform(value.begin(), value.end(), upperValue.begin(), toupper);
-
-		if (upperValue == "NULL")
-		{
-			data.push(std::make_pair(Value::VT_NULL, ""));
-		}
-		else if (upperValue == "TRUE")
-		{
-			data.push(std::make_pair(Value::VT_BOOL, "true"));
-		}
-		else if (upperValue == "FALSE")
-		{
-			data.push(std::make_pair(Value::VT_BOOL, "false"));
-		}
-		else
-		{
-			bool number = true;
-			for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
-			{
-				if (!isNumber(*it))
-				{
-					number = false;
-					break;
-				}
-			}
-
-			if (number)
-			{
-				data.push(std::make_pair(Value::VT_NUMBER, value));
-			}
-			else
-			{
-				return false;
-			}
-		}
-
-		return true;
-	}
-
-	bool Parser::isNumber(char c) const
-	{
-		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
-	}
+/*
+Copyright (c) 2013 Johannes Häggqvist
+
+Permission is hereby granted, free of charge, to any person obtaining a copy
+of this software and associated documentation files (the "Software"), to deal
+in the Software without restriction, including without limitation the rights
+to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
+copies of the Software, and to permit persons to whom the Software is
+furnished to do so, subject to the following conditions:
+
+The above copyright notice and this permission notice shall be included in
+all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
+IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
+FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
+AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
+LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
+OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
+THE SOFTWARE.
+*/
+#include "Jzon.h"
+
+#include <sstream>
+#include <fstream>
+#include <stack>
+#include <algorithm>
+
+namespace Jzon
+{
+	class FormatInterpreter
+	{
+	public:
+		FormatInterpreter()
+		{
+			SetFormat(NoFormat);
+		}
+		FormatInterpreter(const Format &format)
+		{
+			SetFormat(format);
+		}
+
+		void SetFormat(const Format &format)
+		{
+			this->format = format;
+			indentationChar = (format.useTabs ? '\t' : ' ');
+			spacing = (format.spacing ? " " : "");
+			newline = (format.newline ? "\n" : spacing);
+		}
+
+		std::string GetIndentation(unsigned int level) const
+		{
+			if (!format.newline)
+			{
+				return "";
+			}
+			else
+			{
+				return std::string(format.indentSize * level, indentationChar);
+			}
+		}
+		
+		inline const std::string &GetNewline() const
+		{
+			return newline;
+		}
+		inline const std::string &GetSpacing() const
+		{
+			return spacing;
+		}
+
+	private:
+		Format format;
+		char indentationChar;
+		std::string newline;
+		std::string spacing;
+	};
+
+	void RemoveWhitespace(const std::string &json, std::string &freshJson)
+	{
+		freshJson.clear();
+
+		bool comment = false;
+		int multicomment = 0;
+		bool inString = false;
+
+		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
+		{
+			char c0 = '\0';
+			char c1 = (*it);
+			char c2 = '\0';
+			if (it != json.begin())
+				c0 = (*(it-1));
+			if (it+1 != json.end())
+				c2 = (*(it+1));
+
+			if (c0 != '\\' && c1 == '"')
+			{
+				inString = !inString;
+			}
+
+			if (!inString)
+			{
+				if (c1 == '/' && c2 == '*')
+				{
+					++multicomment;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '*' && c2 == '/')
+				{
+					--multicomment;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '/' && c2 == '/')
+				{
+					comment = true;
+					if (it+1 != json.end())
+						++it;
+					continue;
+				}
+				else if (c1 == '\n')
+				{
+					comment = false;
+				}
+			}
+
+			if (comment || multicomment > 0)
+				continue;
+
+			if (inString)
+			{
+				freshJson += c1;
+			}
+			else
+			{
+				if ((c1 != '\n')&&(c1 != ' ')&&(c1 != '\t')&&(c1 != '\r')&&(c1 != '\f'))
+					freshJson += c1;
+			}
+		}
+	}
+
+	Node::Node()
+	{
+	}
+	Node::~Node()
+	{
+	}
+
+	Object &Node::AsObject()
+	{
+		if (IsObject())
+			return static_cast<Object&>(*this);
+		else
+			throw TypeException();
+	}
+	const Object &Node::AsObject() const
+	{
+		if (IsObject())
+			return static_cast<const Object&>(*this);
+		else
+			throw TypeException();
+	}
+	Array &Node::AsArray()
+	{
+		if (IsArray())
+			return static_cast<Array&>(*this);
+		else
+			throw TypeException();
+	}
+	const Array &Node::AsArray() const
+	{
+		if (IsArray())
+			return static_cast<const Array&>(*this);
+		else
+			throw TypeException();
+	}
+	Value &Node::AsValue()
+	{
+		if (IsValue())
+			return static_cast<Value&>(*this);
+		else
+			throw TypeException();
+	}
+	const Value &Node::AsValue() const
+	{
+		if (IsValue())
+			return static_cast<const Value&>(*this);
+		else
+			throw TypeException();
+	}
+
+	Node::Type Node::DetermineType(const std::string &_json)
+	{
+		std::string json;
+		RemoveWhitespace(_json, json);
+
+		Node::Type type = T_VALUE;
+		if (!json.empty())
+		{
+			switch (json.at(0))
+			{
+			case '{' : type = T_OBJECT; break;
+			case '[' : type = T_ARRAY; break;
+			}
+		}
+
+		return type;
+	}
+
+
+	Value::Value()
+	{
+		SetNull();
+	}
+	Value::Value(const Value &rhs)
+	{
+		Set(rhs);
+	}
+	Value::Value(const Node &rhs)
+	{
+		const Value &value = rhs.AsValue();
+		Set(value);
+	}
+	Value::Value(ValueType type, const std::string &value)
+	{
+		Set(type, value);
+	}
+	Value::Value(const std::string &value)
+	{
+		Set(value);
+	}
+	Value::Value(const char *value)
+	{
+		Set(value);
+	}
+	Value::Value(const int value)
+	{
+		Set(value);
+	}
+	Value::Value(const float value)
+	{
+		Set(value);
+	}
+	Value::Value(const double value)
+	{
+		Set(value);
+	}
+	Value::Value(const bool value)
+	{
+		Set(value);
+	}
+	Value::~Value()
+	{
+	}
+
+	Node::Type Value::GetType() const
+	{
+		return T_VALUE;
+	}
+	Value::ValueType Value::GetValueType() const
+	{
+		return type;
+	}
+
+	std::string Value::ToString() const
+	{
+		if (IsNull())
+			return "null";
+		else
+			return valueStr;
+	}
+	int Value::ToInt() const
+	{
+		if (IsNull())
+			return 0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				int val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	float Value::ToFloat() const
+	{
+		if (IsNull())
+			return 0.0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				float val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	double Value::ToDouble() const
+	{
+		if (IsNull())
+			return 0.0;
+		else
+		{
+			if (IsNumber())
+			{
+				std::stringstream sstr(valueStr);
+				double val;
+				sstr >> val;
+				return val;
+			}
+			else
+				throw ValueException();
+		}
+	}
+	bool Value::ToBool() const
+	{
+		if (IsNull())
+			return false;
+		else
+			if (IsBool())
+				return (valueStr == "true");
+			else
+				throw ValueException();
+	}
+
+	void Value::SetNull()
+	{
+		valueStr = "";
+		type     = VT_NULL;
+	}
+	void Value::Set(const Value &value)
+	{
+		if (this != &value)
+		{
+			valueStr = value.valueStr;
+			type     = value.type;
+		}
+	}
+	void Value::Set(ValueType type, const std::string &value)
+	{
+		valueStr   = value;
+		this->type = type;
+	}
+	void Value::Set(const std::string &value)
+	{
+		valueStr = UnescapeString(value);
+		type     = VT_STRING;
+	}
+	void Value::Set(const char *value)
+	{
+		valueStr = UnescapeString(std::string(value));
+		type     = VT_STRING;
+	}
+	void Value::Set(const int value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const float value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const double value)
+	{
+		std::stringstream sstr;
+		sstr << value;
+		valueStr = sstr.str();
+		type     = VT_NUMBER;
+	}
+	void Value::Set(const bool value)
+	{
+		if (value)
+			valueStr = "true";
+		else
+			valueStr = "false";
+		type = VT_BOOL;
+	}
+
+	Value &Value::operator=(const Value &rhs)
+	{
+		if (this != &rhs)
+			Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const Node &rhs)
+	{
+		if (this != &rhs)
+			Set(rhs.AsValue());
+		return *this;
+	}
+	Value &Value::operator=(const std::string &rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const char *rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const int rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const float rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const double rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+	Value &Value::operator=(const bool rhs)
+	{
+		Set(rhs);
+		return *this;
+	}
+
+	bool Value::operator==(const Value &other) const
+	{
+		return ((type == other.type)&&(valueStr == other.valueStr));
+	}
+	bool Value::operator!=(const Value &other) const
+	{
+		return !(*this == other);
+	}
+
+	Node *Value::GetCopy() const
+	{
+		return new Value(*this);
+	}
+
+	// This is not the most beautiful place for these, but it'll do
+	static const char charsUnescaped[] = { '\\'  , '/'  , '\"'  , '\n' , '\t' , '\b' , '\f' , '\r' };
+	static const char *charsEscaped[]  = { "\\\\", "\\/", "\\\"", "\\n", "\\t", "\\b", "\\f", "\\r" };
+	static const unsigned int numEscapeChars = 8;
+	static const char nullUnescaped = '\0';
+	static const char *nullEscaped  = "\0\0";
+	const char *&getEscaped(const char &c)
+	{
+		for (unsigned int i = 0; i < numEscapeChars; ++i)
+		{
+			const char &ue = charsUnescaped[i];
+
+			if (c == ue)
+			{
+				const char *&e = charsEscaped[i];
+				return e;
+			}
+		}
+		return nullEscaped;
+	}
+	const char &getUnescaped(const char &c1, const char &c2)
+	{
+		for (unsigned int i = 0; i < numEscapeChars; ++i)
+		{
+			const char *&e = charsEscaped[i];
+
+			if (c1 == e[0] && c2 == e[1])
+			{
+				const char &ue = charsUnescaped[i];
+				return ue;
+			}
+		}
+		return nullUnescaped;
+	}
+
+	std::string Value::EscapeString(const std::string &value)
+	{
+		std::string escaped;
+
+		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+		{
+			const char &c = (*it);
+
+			const char *&a = getEscaped(c);
+			if (a[0] != '\0')
+			{
+				escaped += a[0];
+				escaped += a[1];
+			}
+			else
+			{
+				escaped += c;
+			}
+		}
+
+		return escaped;
+	}
+	std::string Value::UnescapeString(const std::string &value)
+	{
+		std::string unescaped;
+
+		for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+		{
+			const char &c = (*it);
+			char c2 = '\0';
+			if (it+1 != value.end())
+				c2 = *(it+1);
+
+			const char &a = getUnescaped(c, c2);
+			if (a != '\0')
+			{
+				unescaped += a;
+				if (it+1 != value.end())
+					++it;
+			}
+			else
+			{
+				unescaped += c;
+			}
+		}
+
+		return unescaped;
+	}
+
+
+	Object::Object()
+	{
+	}
+	Object::Object(const Object &other)
+	{
+		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			Node &value = *(*it).second;
+
+			children.push_back(std::make_pair(name, value.GetCopy()));
+		}
+	}
+	Object::Object(const Node &other)
+	{
+		const Object &object = other.AsObject();
+
+		for (ChildList::const_iterator it = object.children.begin(); it != object.children.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			Node &value = *(*it).second;
+
+			children.push_back(std::make_pair(name, value.GetCopy()));
+		}
+	}
+	Object::~Object()
+	{
+		Clear();
+	}
+
+	Node::Type Object::GetType() const
+	{
+		return T_OBJECT;
+	}
+
+	void Object::Add(const std::string &name, Node &node)
+	{
+		children.push_back(std::make_pair(name, node.GetCopy()));
+	}
+	void Object::Add(const std::string &name, Value node)
+	{
+		children.push_back(std::make_pair(name, new Value(node)));
+	}
+	void Object::Remove(const std::string &name)
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				delete (*it).second;
+				children.erase(it);
+				break;
+			}
+		}
+	}
+	void Object::Clear()
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			delete (*it).second;
+			(*it).second = NULL;
+		}
+		children.clear();
+	}
+
+	Object::iterator Object::begin()
+	{
+		if (!children.empty())
+			return Object::iterator(&children.front());
+		else
+			return Object::iterator(NULL);
+	}
+	Object::const_iterator Object::begin() const
+	{
+		if (!children.empty())
+			return Object::const_iterator(&children.front());
+		else
+			return Object::const_iterator(NULL);
+	}
+	Object::iterator Object::end()
+	{
+		if (!children.empty())
+			return Object::iterator(&children.back()+1);
+		else
+			return Object::iterator(NULL);
+	}
+	Object::const_iterator Object::end() const
+	{
+		if (!children.empty())
+			return Object::const_iterator(&children.back()+1);
+		else
+			return Object::const_iterator(NULL);
+	}
+
+	bool Object::Has(const std::string &name) const
+	{
+		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				return true;
+			}
+		}
+		return false;
+	}
+	size_t Object::GetCount() const
+	{
+		return children.size();
+	}
+	Node &Object::Get(const std::string &name) const
+	{
+		for (ChildList::const_iterator it = children.begin(); it != children.end(); ++it)
+		{
+			if ((*it).first == name)
+			{
+				return *(*it).second;
+			}
+		}
+		
+		throw NotFoundException();
+	}
+
+	Node *Object::GetCopy() const
+	{
+		return new Object(*this);
+	}
+
+
+	Array::Array()
+	{
+	}
+	Array::Array(const Array &other)
+	{
+		for (ChildList::const_iterator it = other.children.begin(); it != other.children.end(); ++it)
+		{
+			const Node &value = *(*it);
+
+			children.push_back(value.GetCopy());
+		}
+	}
+	Array::Array(const Node &other)
+	{
+		const Array &array = other.AsArray();
+
+		for (ChildList::const_iterator it = array.children.begin(); it != array.children.end(); ++it)
+		{
+			const Node &value = *(*it);
+
+			children.push_back(value.GetCopy());
+		}
+	}
+	Array::~Array()
+	{
+		Clear();
+	}
+
+	Node::Type Array::GetType() const
+	{
+		return T_ARRAY;
+	}
+
+	void Array::Add(Node &node)
+	{
+		children.push_back(node.GetCopy());
+	}
+	void Array::Add(Value node)
+	{
+		children.push_back(new Value(node));
+	}
+	void Array::Remove(size_t index)
+	{
+		if (index < children.size())
+		{
+			ChildList::iterator it = children.begin()+index;
+			delete (*it);
+			children.erase(it);
+		}
+	}
+	void Array::Clear()
+	{
+		for (ChildList::iterator it = children.begin(); it != children.end(); ++it)
+		{
+			delete (*it);
+			(*it) = NULL;
+		}
+		children.clear();
+	}
+
+	Array::iterator Array::begin()
+	{
+		if (!children.empty())
+			return Array::iterator(&children.front());
+		else
+			return Array::iterator(NULL);
+	}
+	Array::const_iterator Array::begin() const
+	{
+		if (!children.empty())
+			return Array::const_iterator(&children.front());
+		else
+			return Array::const_iterator(NULL);
+	}
+	Array::iterator Array::end()
+	{
+		if (!children.empty())
+			return Array::iterator(&children.back()+1);
+		else
+			return Array::iterator(NULL);
+	}
+	Array::const_iterator Array::end() const
+	{
+		if (!children.empty())
+			return Array::const_iterator(&children.back()+1);
+		else
+			return Array::const_iterator(NULL);
+	}
+
+	size_t Array::GetCount() const
+	{
+		return children.size();
+	}
+	Node &Array::Get(size_t index) const
+	{
+		if (index < children.size())
+		{
+			return *children.at(index);
+		}
+
+		throw NotFoundException();
+	}
+
+	Node *Array::GetCopy() const
+	{
+		return new Array(*this);
+	}
+
+
+	FileWriter::FileWriter(const std::string &filename) : filename(filename)
+	{
+	}
+	FileWriter::~FileWriter()
+	{
+	}
+
+	void FileWriter::WriteFile(const std::string &filename, const Node &root, const Format &format)
+	{
+		FileWriter writer(filename);
+		writer.Write(root, format);
+	}
+
+	void FileWriter::Write(const Node &root, const Format &format)
+	{
+		Writer writer(root, format);
+		writer.Write();
+
+		std::fstream file(filename.c_str(), std::ios::out | std::ios::trunc);
+		file << writer.GetResult();
+		file.close();
+	}
+
+
+	FileReader::FileReader(const std::string &filename)
+	{
+		if (!loadFile(filename, json))
+		{
+			error = "Failed to load file";
+		}
+	}
+	FileReader::~FileReader()
+	{
+	}
+
+	bool FileReader::ReadFile(const std::string &filename, Node &node)
+	{
+		FileReader reader(filename);
+		return reader.Read(node);
+	}
+
+	bool FileReader::Read(Node &node)
+	{
+		if (!error.empty())
+			return false;
+
+		Parser parser(node, json);
+		if (!parser.Parse())
+		{
+			error = parser.GetError();
+			return false;
+		}
+		else
+		{
+			return true;
+		}
+	}
+
+	Node::Type FileReader::DetermineType()
+	{
+		return Node::DetermineType(json);
+	}
+
+	const std::string &FileReader::GetError() const
+	{
+		return error;
+	}
+
+	bool FileReader::loadFile(const std::string &filename, std::string &json)
+	{
+		std::fstream file(filename.c_str(), std::ios::in | std::ios::binary);
+
+		if (!file.is_open())
+		{
+			return false;
+		}
+
+		file.seekg(0, std::ios::end);
+		std::ios::pos_type size = file.tellg();
+		file.seekg(0, std::ios::beg);
+
+		json.resize(static_cast<std::string::size_type>(size), '\0');
+		file.read(&json[0], size);
+
+		return true;
+	}
+
+
+	Writer::Writer(const Node &root, const Format &format) : fi(new FormatInterpreter), root(root)
+	{
+		SetFormat(format);
+	}
+	Writer::~Writer()
+	{
+		delete fi;
+		fi = NULL;
+	}
+
+	void Writer::SetFormat(const Format &format)
+	{
+		fi->SetFormat(format);
+	}
+	void Writer::Write()
+	{
+		result.clear();
+		writeNode(root, 0);
+	}
+
+	const std::string &Writer::GetResult() const
+	{
+		return result;
+	}
+
+	void Writer::writeNode(const Node &node, unsigned int level)
+	{
+		switch (node.GetType())
+		{
+		case Node::T_OBJECT : writeObject(node.AsObject(), level); break;
+		case Node::T_ARRAY  : writeArray(node.AsArray(), level);   break;
+		case Node::T_VALUE  : writeValue(node.AsValue());          break;
+		}
+	}
+	void Writer::writeObject(const Object &node, unsigned int level)
+	{
+		result += "{" + fi->GetNewline();
+
+		for (Object::const_iterator it = node.begin(); it != node.end(); ++it)
+		{
+			const std::string &name = (*it).first;
+			const Node &value = (*it).second;
+
+			if (it != node.begin())
+				result += "," + fi->GetNewline();
+			result += fi->GetIndentation(level+1) + "\""+name+"\"" + ":" + fi->GetSpacing();
+			writeNode(value, level+1);
+		}
+
+		result += fi->GetNewline() + fi->GetIndentation(level) + "}";
+	}
+	void Writer::writeArray(const Array &node, unsigned int level)
+	{
+		result += "[" + fi->GetNewline();
+
+		for (Array::const_iterator it = node.begin(); it != node.end(); ++it)
+		{
+			const Node &value = (*it);
+
+			if (it != node.begin())
+				result += "," + fi->GetNewline();
+			result += fi->GetIndentation(level+1);
+			writeNode(value, level+1);
+		}
+
+		result += fi->GetNewline() + fi->GetIndentation(level) + "]";
+	}
+	void Writer::writeValue(const Value &node)
+	{
+		if (node.IsString())
+		{
+			result += "\""+Value::EscapeString(node.ToString())+"\"";
+		}
+		else
+		{
+			result += node.ToString();
+		}
+	}
+
+
+	Parser::Parser(Node &root) : root(root)
+	{
+	}
+	Parser::Parser(Node &root, const std::string &json) : root(root)
+	{
+		SetJson(json);
+	}
+	Parser::~Parser()
+	{
+	}
+
+	void Parser::SetJson(const std::string &json)
+	{
+		RemoveWhitespace(json, this->json);
+	}
+	bool Parser::Parse()
+	{
+		cursor = 0;
+
+		//NOTE: a previous failure may have left something
+		tokens = std::queue<Token>();
+		data = std::queue<std::pair<Value::ValueType, std::string> >();
+
+		tokenize();
+		bool success = assemble();
+
+		return success;
+	}
+
+	const std::string &Parser::GetError() const
+	{
+		return error;
+	}
+
+	void Parser::tokenize()
+	{
+		Token token;
+		std::string valueBuffer;
+		bool saveBuffer;
+
+		for (; cursor < json.size(); ++cursor)
+		{
+			char c = json.at(cursor);
+
+			saveBuffer = true;
+
+			switch (c)
+			{
+			case '{' :
+				{
+					token = T_OBJ_BEGIN;
+					break;
+				}
+			case '}' :
+				{
+					token = T_OBJ_END;
+					break;
+				}
+			case '[' :
+				{
+					token = T_ARRAY_BEGIN;
+					break;
+				}
+			case ']' :
+				{
+					token = T_ARRAY_END;
+					break;
+				}
+			case ',' :
+				{
+					token = T_SEPARATOR_NODE;
+					break;
+				}
+			case ':' :
+				{
+					token = T_SEPARATOR_NAME;
+					break;
+				}
+			case '"' :
+				{
+					token = T_VALUE;
+					readString();
+					break;
+				}
+			default :
+				{
+					valueBuffer += c;
+					saveBuffer = false;
+					break;
+				}
+			}
+
+			if ((saveBuffer || cursor == json.size()-1) && (!valueBuffer.empty())) // Always save buffer on the last character
+			{
+				if (interpretValue(valueBuffer))
+				{
+					tokens.push(T_VALUE);
+				}
+				else
+				{
+					// Store the unknown token, so we can show it to the user
+					data.push(std::make_pair(Value::VT_STRING, valueBuffer));
+					tokens.push(T_UNKNOWN);
+				}
+
+				valueBuffer.clear();
+			}
+
+			// Push the token last so that any
+			// value token will get pushed first
+			// from above.
+			// If saveBuffer is false, it means that
+			// we are in the middle of a value, so we
+			// don't want to push any tokens now.
+			if (saveBuffer)
+			{
+				tokens.push(token);
+			}
+		}
+	}
+	// The nodes that could not be added to their parent are deleted
+	class NodeStack : public std::stack<std::pair<std::string, Node*> >
+	{
+	public:
+		NodeStack(Node &root) : root(root) {}
+		~NodeStack()
+		{
+			for (; !empty(); pop())
+			{
+				if (top().second != &root)
+					delete top().second;
+			}
+		}
+
+	private:
+		Node &root;
+	};
+
+	bool Parser::assemble()
+	{
+		NodeStack nodeStack(root);
+
+		std::string name = "";
+
+		Token token;
+		while (!tokens.empty())
+		{
+			token = tokens.front();
+			tokens.pop();
+
+			switch (token)
+			{
+			case T_UNKNOWN :
+				{
+					const std::string &unknownToken = data.front().second;
+					error = "Unknown token: "+unknownToken;
+					data.pop();
+					return false;
+				}
+			case T_OBJ_BEGIN :
+				{
+					Node *node = NULL;
+					if (nodeStack.empty())
+					{
+						if (!root.IsObject())
+						{
+							error = "The given root node is not an object";
+							return false;
+						}
+
+						node = &root;
+					}
+					else
+					{
+						node = new Object;
+					}
+
+					nodeStack.push(std::make_pair(name, node));
+					name.clear();
+					break;
+				}
+			case T_ARRAY_BEGIN :
+				{
+					Node *node = NULL;
+					if (nodeStack.empty())
+					{
+						if (!root.IsArray())
+						{
+							error = "The given root node is not an array";
+							return false;
+						}
+
+						node = &root;
+					}
+					else
+					{
+						node = new Array;
+					}
+
+					nodeStack.push(std::make_pair(name, node));
+					name.clear();
+					break;
+				}
+			case T_OBJ_END :
+			case T_ARRAY_END :
+				{
+					if (nodeStack.empty())
+					{
+						error = "Found end of object or array without beginning";
+						return false;
+					}
+					if (token == T_OBJ_END && !nodeStack.top().second->IsObject())
+					{
+						error = "Mismatched end and beginning of object";
+						return false;
+					}
+					if (token == T_ARRAY_END && !nodeStack.top().second->IsArray())
+					{
+						error = "Mismatched end and beginning of array";
+						return false;
+					}
+
+					std::string name = nodeStack.top().first;
+					Node *node = nodeStack.top().second;
+					nodeStack.pop();
+
+					if (!nodeStack.empty())
+					{
+						if (nodeStack.top().second->IsObject())
+						{
+							nodeStack.top().second->AsObject().Add(name, *node);
+						}
+						else if (nodeStack.top().second->IsArray())
+						{
+							nodeStack.top().second->AsArray().Add(*node);
+						}
+						else
+						{
+							error = "Can only add elements to objects and arrays";
+							return false;
+						}
+
+						delete node;
+						node = NULL;
+					}
+					break;
+				}
+			case T_VALUE :
+				{
+					if (!tokens.empty() && tokens.front() == T_SEPARATOR_NAME)
+					{
+						tokens.pop();
+						if (data.front().first != Value::VT_STRING)
+						{
+							error = "A name has to be a string";
+							return false;
+						}
+						else
+						{
+							name = data.front().second;
+							data.pop();
+						}
+					}
+					else
+					{
+						Node *node = NULL;
+						if (nodeStack.empty())
+						{
+							if (!root.IsValue())
+							{
+								error = "The given root node is not a value";
+								return false;
+							}
+
+							node = &root;
+						}
+						else
+						{
+							node = new Value;
+						}
+
+						if (data.front().first == Value::VT_STRING)
+						{
+							static_cast<Value*>(node)->Set(data.front().second); // This method calls UnescapeString()
+						}
+						else
+						{
+							static_cast<Value*>(node)->Set(data.front().first, data.front().second);
+						}
+						data.pop();
+
+						if (!nodeStack.empty())
+						{
+							if (nodeStack.top().second->IsObject())
+								nodeStack.top().second->AsObject().Add(name, *node);
+							else if (nodeStack.top().second->IsArray())
+								nodeStack.top().second->AsArray().Add(*node);
+
+							delete node;
+							node = NULL;
+							name.clear();
+						}
+						else
+						{
+							nodeStack.push(std::make_pair(name, node));
+							name.clear();
+						}
+					}
+					break;
+				}
+			case T_SEPARATOR_NAME :
+			case T_SEPARATOR_NODE : break;
+			}
+		}
+
+		return true;
+	}
+
+	void Parser::readString()
+	{
+		if (json.at(cursor) != '"')
+			return;
+
+		std::string str;
+
+		++cursor;
+
+		char c1 = '\0';
+		for (; cursor < json.size(); ++cursor)
+		{
+			char c2 = json.at(cursor);
+
+			if (c1 != '\\' && c2 == '"')
+			{
+				break;
+			}
+
+			str += c2;
+
+			c1 = c2;
+		}
+
+		data.push(std::make_pair(Value::VT_STRING, str));
+	}
+
+	bool Parser::interpretValue(const std::string &value)
+	{
+		std::string upperValue(value.size(), '\0');
+
+		std::transform(value.begin(), value.end(), upperValue.begin(), toupper);
+
+		if (upperValue == "NULL")
+		{
+			data.push(std::make_pair(Value::VT_NULL, ""));
+		}
+		else if (upperValue == "TRUE")
+		{
+			data.push(std::make_pair(Value::VT_BOOL, "true"));
+		}
+		else if (upperValue == "FALSE")
+		{
+			data.push(std::make_pair(Value::VT_BOOL, "false"));
+		}
+		else
+		{
+			bool number = true;
+			for (std::string::const_iterator it = value.begin(); it != value.end(); ++it)
+			{
+				if (!isNumber(*it))
+				{
+					number = false;
+					break;
+				}
+			}
+
+			if (number)
+			{
+				data.push(std::make_pair(Value::VT_NUMBER, value));
+			}
+			else
+			{
+				return false;
+			}
+		}
+
+		return true;
+	}
+
+	bool Parser::isNumber(char c) const
+	{
+		return ((c >= '0' && c <= '9') || c == '.' || c == '-');
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 4d5786e3457dbe2e50a8127dcc3fb3f0e149027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:16 +0000
Subject: [PATCH 42/78] fix: control requests that arrive in several pieces are
 lost

---
 src/Controller.cpp | 77 +++++++++++++++++++++++++++++++++++++++++++++-
 src/Controller.hh  |  2 ++
 2 files changed, 78 insertions(+), 1 deletion(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 0480566..fc6d1c4 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -30,6 +30,7 @@
 #include <unistd.h>
 #include <stdio.h>
 #include <string.h>
+#include <errno.h>
 
 Controller* Controller::ctrlInstance = NULL;
 PipelineManager* PipelineManager::pipeMngrInstance = NULL;
@@ -140,11 +141,15 @@ void Controller::stopAndCloseSocket()
 
 bool Controller::readAndParse()
 {
+    Jzon::Object outputNode;
+
     bzero(inBuffer, MSG_BUFFER_MAX_LENGTH);
     inputRootNode->Clear();
     
-    if (read(connectionSocket, inBuffer, MSG_BUFFER_MAX_LENGTH - 1) < 0) {
+    if (!readRequest()) {
         utils::errorMsg("Reading from socket");
+        outputNode.Add("error", "Incomplete or too long request");
+        sendAndClose(outputNode, connectionSocket);
         return false;
     }
 
@@ -152,12 +157,82 @@ bool Controller::readAndParse()
 
     if (!parser->Parse()) {
         utils::errorMsg("Error parsing JSON");
+        outputNode.Add("error", "Invalid JSON");
+        sendAndClose(outputNode, connectionSocket);
         return false;
     }
 
     return true;
 }
 
+bool Controller::readRequest()
+{
+    size_t length = 0;
+    ssize_t ret;
+
+    //NOTE: a request may arrive in several pieces
+    while (!isComplete(inBuffer, length)) {
+        if (length >= MSG_BUFFER_MAX_LENGTH - 1) {
+            return false;
+        }
+
+        ret = read(connectionSocket, inBuffer + length, MSG_BUFFER_MAX_LENGTH - 1 - length);
+
+        if (ret < 0 && errno == EINTR) {
+            continue;
+        }
+
+        if (ret <= 0) {
+            return false;
+        }
+
+        length += ret;
+    }
+
+    return true;
+}
+
+bool Controller::isComplete(const char* request, size_t length)
+{
+    int level = 0;
+    bool inString = false;
+
+    for (size_t i = 0; i < length; i++) {
+        if (inString) {
+            if (request[i] == '"' && request[i - 1] != '\\') {
+                inString = false;
+            }
+            continue;
+        }
+
+        switch (request[i]) {
+            case '"':
+                inString = true;
+                break;
+            case '{':
+            case '[':
+                level++;
+                break;
+            case '}':
+            case ']':
+                level--;
+                break;
+            case ' ':
+            case '\t':
+            case '\r':
+            case '\n':
+                continue;
+        }
+
+        //NOTE: what is not an object is not going to be a request, whatever follows
+        if (level <= 0) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 void Controller::processRequest()
 {
     Jzon::Object outputNode;
diff --git a/src/Controller.hh b/src/Controller.hh
index efc5e54..05164ef 100644
--- a/src/Controller.hh
+++ b/src/Controller.hh
@@ -93,6 +93,8 @@ public:
 private:
     Controller();
     bool processEvent(Jzon::Object event);
+    bool readRequest();
+    static bool isComplete(const char* request, size_t length);
     void sendAndClose(Jzon::Object outputNode, int socket);
 
     int listeningSocket, connectionSocket;
-- 
2.43.0


From c35ac3761a7d8f4a501c09f4944d4c343ee4594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:16 +0000
Subject: [PATCH 43/78] fix: a slow or gone control client stops the server

---
 src/Controller.cpp | 40 +++++++++++++++++++++++++++++++++++++---
 src/Controller.hh  |  3 +++
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index fc6d1c4..2159fa6 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -170,9 +170,11 @@ bool Controller::readRequest()
     size_t length = 0;
     ssize_t ret;
 
+    std::chrono::steady_clock::time_point limit = std::chrono::steady_clock::now() + std::chrono::microseconds(CLIENT_TIMEOUT);
+
     //NOTE: a request may arrive in several pieces
     while (!isComplete(inBuffer, length)) {
-        if (length >= MSG_BUFFER_MAX_LENGTH - 1) {
+        if (length >= MSG_BUFFER_MAX_LENGTH - 1 || !setTimeout(connectionSocket, SO_RCVTIMEO, limit)) {
             return false;
         }
 
@@ -192,6 +194,21 @@ bool Controller::readRequest()
     return true;
 }
 
+bool Controller::setTimeout(int socket, int option, std::chrono::steady_clock::time_point limit)
+{
+    std::chrono::microseconds left = std::chrono::duration_cast<std::chrono::microseconds>(limit - std::chrono::steady_clock::now());
+    struct timeval tv;
+
+    if (left.count() <= 0) {
+        return false;
+    }
+
+    tv.tv_sec = left.count()/std::micro::den;
+    tv.tv_usec = left.count()%std::micro::den;
+
+    return setsockopt(socket, SOL_SOCKET, option, &tv, sizeof(tv)) == 0;
+}
+
 bool Controller::isComplete(const char* request, size_t length)
 {
     int level = 0;
@@ -259,9 +276,26 @@ void Controller::sendAndClose(Jzon::Object outputNode, int socket)
     writer.Write();
     std::string result = writer.GetResult();
     const char* res = result.c_str();
-    int ret = write(socket, res, result.size());
+    size_t sent = 0;
+
+    std::chrono::steady_clock::time_point limit = std::chrono::steady_clock::now() + std::chrono::microseconds(CLIENT_TIMEOUT);
+
+    while (sent < result.size() && setTimeout(socket, SO_SNDTIMEO, limit)) {
+        //NOTE: the client may have gone, this is no reason to get a SIGPIPE
+        ssize_t ret = send(socket, res + sent, result.size() - sent, MSG_NOSIGNAL);
+
+        if (ret < 0 && errno == EINTR) {
+            continue;
+        }
+
+        if (ret <= 0) {
+            break;
+        }
+
+        sent += ret;
+    }
 
-    if (ret < 0) {
+    if (sent < result.size()) {
         utils::errorMsg("Error writting socket");
     }
 
diff --git a/src/Controller.hh b/src/Controller.hh
index 05164ef..069fc7c 100644
--- a/src/Controller.hh
+++ b/src/Controller.hh
@@ -27,11 +27,13 @@
 #include <vector>
 #include <map>
 #include <functional>
+#include <chrono>
 
 #include "PipelineManager.hh"
 
 #define MSG_BUFFER_MAX_LENGTH 4096*4
 #define TIMEOUT 100000 //usec
+#define CLIENT_TIMEOUT 2000000 //usec, for a request to arrive and for its answer to be sent
 
 /*! Controller class is a singleton class defines the control protocol
     by events and through sockets
@@ -94,6 +96,7 @@ private:
     Controller();
     bool processEvent(Jzon::Object event);
     bool readRequest();
+    static bool setTimeout(int socket, int option, std::chrono::steady_clock::time_point limit);
     static bool isComplete(const char* request, size_t length);
     void sendAndClose(Jzon::Object outputNode, int socket);
 
-- 
2.43.0


From ce85e20e451c5de57cfe47bcd63adc43d11884dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:16 +0000
Subject: [PATCH 44/78] fix: control events of an unexpected type end the
 server

---
 src/Controller.cpp |  7 ++++++-
 src/Event.cpp      |  2 +-
 src/Filter.cpp     | 16 ++++++++++++++--
 src/Filter.hh      |  1 +
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 2159fa6..3573a6b 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -264,7 +264,12 @@ void Controller::processRequest()
     const Jzon::Array &events = inputRootNode->Get("events").AsArray();
 
     for (Jzon::Array::const_iterator it = events.begin(); it != events.end(); ++it) {
-        pipeMngrInstance->processEvent(*it, outputNode);
+        try {
+            pipeMngrInstance->processEvent(*it, outputNode);
+        } catch (const std::exception &e) {
+            utils::errorMsg(std::string("Invalid event: ") + e.what());
+            outputNode.Add("error", "Error processing event. Invalid JSON format...");
+        }
     }
 
     sendAndClose(outputNode, connectionSocket);
diff --git a/src/Event.cpp b/src/Event.cpp
index 8cfd3e6..1248d69 100644
--- a/src/Event.cpp
+++ b/src/Event.cpp
@@ -52,7 +52,7 @@ std::string Event::getAction()
 {
     std::string action;
 
-    if (inputRootNode->Has("action")) {
+    if (inputRootNode->Has("action") && inputRootNode->Get("action").IsValue()) {
         action = inputRootNode->Get("action").ToString();
     }
 
diff --git a/src/Filter.cpp b/src/Filter.cpp
index 0973f76..80605a2 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -483,7 +483,7 @@ void BaseFilter::processEvent()
             continue;
         }
 
-        if (!eventMap[action](params)) {
+        if (!runEvent(action, params)) {
             utils::errorMsg("Error executing filter event");
         }
         
@@ -491,6 +491,18 @@ void BaseFilter::processEvent()
     }
 }
 
+bool BaseFilter::runEvent(const std::string &action, Jzon::Node* params)
+{
+    //NOTE: Jzon throws when a parameter is not of the expected type
+    try {
+        return eventMap[action](params);
+    } catch (const std::exception &e) {
+        utils::errorMsg(std::string("Invalid event parameters: ") + e.what());
+    }
+
+    return false;
+}
+
 bool BaseFilter::newEvent()
 {
     if (eventQueue.empty()) {
@@ -525,7 +537,7 @@ void BaseFilter::executeEvent(Event e)
 
     std::lock_guard<std::mutex> processGuard(processMtx);
 
-    if (!eventMap[action](e.getParams())) {
+    if (!runEvent(action, e.getParams())) {
         utils::errorMsg("Error executing filter event");
     }
 }
diff --git a/src/Filter.hh b/src/Filter.hh
index 5b3a12b..1614965 100644
--- a/src/Filter.hh
+++ b/src/Filter.hh
@@ -223,6 +223,7 @@ protected:
     bool demandDestinationFrames(std::map<int, Frame*> &dFrames);
 
     bool newEvent();
+    bool runEvent(const std::string &action, Jzon::Node* params);
     void processEvent();
     virtual void doGetState(Jzon::Object &filterNode) = 0;
 
-- 
2.43.0


From 80061d33cde5deec9e3428d4c899297620f5ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:16 +0000
Subject: [PATCH 45/78] fix: Controller leaves sockets and a dangling instance
 behind

---
 src/Controller.cpp | 9 ++++++++-
 src/Controller.hh  | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index 3573a6b..f231854 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -44,6 +44,12 @@ Controller::Controller()
     runFlag = true;
 }
 
+Controller::~Controller()
+{
+    delete parser;
+    delete inputRootNode;
+}
+
 Controller* Controller::getInstance()
 {
     if (ctrlInstance != NULL){
@@ -55,7 +61,6 @@ Controller* Controller::getInstance()
 
 void Controller::destroyInstance()
 {
-    Controller * ctrlInstance = Controller::getInstance();
     if (ctrlInstance != NULL) {
         delete ctrlInstance;
         ctrlInstance = NULL;
@@ -82,6 +87,7 @@ bool Controller::createSocket(int port)
 
     if (setsockopt(listeningSocket, SOL_SOCKET, SO_REUSEADDR, &yes, sizeof(int)) == -1 ) {
         utils::errorMsg("Setting socket options");
+        stopAndCloseSocket();
         return false;
     }
 
@@ -92,6 +98,7 @@ bool Controller::createSocket(int port)
 
     if (bind(listeningSocket, (struct sockaddr *) &serv_addr, sizeof(serv_addr)) < 0) {
         utils::errorMsg("On binding");
+        stopAndCloseSocket();
         return false;
     }
 
diff --git a/src/Controller.hh b/src/Controller.hh
index 069fc7c..09182d5 100644
--- a/src/Controller.hh
+++ b/src/Controller.hh
@@ -94,6 +94,7 @@ public:
 
 private:
     Controller();
+    ~Controller();
     bool processEvent(Jzon::Object event);
     bool readRequest();
     static bool setTimeout(int socket, int option, std::chrono::steady_clock::time_point limit);
-- 
2.43.0


From d2ffe84841431416d0efc1ccc4c0c7e72e40622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 46/78] fix: stopping a pipeline with paths uses deleted paths

---
 src/PipelineManager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index d31b288..155facb 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -79,14 +79,14 @@ bool PipelineManager::stop()
     pool->stop();
     utils::infoMsg("All threads stopped");
     
-    for (auto it : paths) {
-        if (!deletePath(it.first)) {
-            utils::errorMsg("Failed deleting path " + std::to_string(it.first));
+    while (!paths.empty()) {
+        int id = paths.begin()->first;
+        if (!removePath(id)) {
+            utils::errorMsg("Failed deleting path " + std::to_string(id));
             return false;
         }
     }
 
-    paths.clear();
     utils::infoMsg("Paths deleted");
 
     for (auto it : filters) {
-- 
2.43.0


From f3e65df7b57ff14bf8a5ac8dc962cd7a10d56d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 47/78] fix: a path that cannot be connected is left half
 connected

---
 src/PipelineManager.cpp | 61 +++++++++++++++++++++++++----------------
 src/PipelineManager.hh  | 10 +++++++
 2 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 155facb..b35451e 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -303,35 +303,48 @@ bool PipelineManager::connectPath(int id)
         }
     }
 
-    if (pathFilters.empty()) {
-        if (filters[orgFilterId]->connectManyToMany(filters[dstFilterId], path->getDstReaderID(), path->getOrgWriterID()) ||
-            handleGrouping(orgFilterId, dstFilterId, path->getOrgWriterID(), path->getDstReaderID())) {
-            return true;
-        } else {
-            utils::errorMsg("Connecting head to tail!");
-            return false;
+    std::vector<Hop> hops;
+    int wFilterId = orgFilterId;
+
+    pathFilters.push_back(dstFilterId);
+
+    for (auto rFilterId : pathFilters) {
+        Hop hop;
+        bool last = rFilterId == dstFilterId;
+
+        hop.wFilterId = wFilterId;
+        hop.rFilterId = rFilterId;
+        hop.writerId = hops.empty() ? path->getOrgWriterID() : filters[wFilterId]->generateWriterID();
+        hop.readerId = last ? path->getDstReaderID() : filters[rFilterId]->generateReaderID();
+        hop.shared = false;
+
+        if (!filters[wFilterId]->connectManyToMany(filters[rFilterId], hop.readerId, hop.writerId)) {
+            hop.shared = true;
+            hop.readerId = last ? hop.readerId : DEFAULT_ID;
+
+            //NOTE: only the origin of the path can be shared with other paths
+            if (!hops.empty() || !handleGrouping(wFilterId, rFilterId, hop.writerId, hop.readerId)) {
+                utils::errorMsg("Connecting filters " + std::to_string(wFilterId) + " and " + std::to_string(rFilterId));
+                undoHops(hops);
+                return false;
+            }
         }
-    }
 
-    if (!filters[orgFilterId]->connectManyToOne(filters[pathFilters.front()], path->getOrgWriterID()) &&
-        !handleGrouping(orgFilterId, pathFilters.front(), path->getOrgWriterID(), DEFAULT_ID)) {
-        utils::errorMsg("Connecting path head to first filter!");
-        return false;
+        hops.push_back(hop);
+        wFilterId = rFilterId;
     }
 
-    for (unsigned i = 0; i < pathFilters.size() - 1; i++) {
-        if (!filters[pathFilters[i]]->connectOneToOne(filters[pathFilters[i+1]])) {
-            utils::errorMsg("Connecting path filters!");
-            return false;
-        }
-    }
+    return true;
+}
 
-    if (!filters[pathFilters.back()]->connectOneToMany(filters[dstFilterId], path->getDstReaderID())) {
-        utils::errorMsg("Connecting path last filter to path tail!");
-        return false;
+void PipelineManager::undoHops(const std::vector<Hop> &hops)
+{
+    for (auto hop = hops.rbegin(); hop != hops.rend(); ++hop) {
+        filters[hop->rFilterId]->disconnectReader(hop->readerId);
+        if (!hop->shared) {
+            filters[hop->wFilterId]->disconnectWriter(hop->writerId);
+        }
     }
-
-    return true;
 }
 
 bool PipelineManager::handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId)
@@ -607,6 +620,8 @@ void PipelineManager::createPathEvent(Jzon::Node* params, Jzon::Object &outputNo
     }
 
     if (!connectPath(id)) {
+        delete paths[id];
+        paths.erase(id);
         outputNode.Add("error", "Error connecting path. Better pray Jesus...");
         return;
     }
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index 5276943..f6789e3 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -188,6 +188,16 @@ private:
     bool deletePath(int id);
     bool createFilter(int id, FilterType type);
     
+    //A connection between two consecutive filters of a path
+    struct Hop {
+        int wFilterId;
+        int writerId;
+        int rFilterId;
+        int readerId;
+        bool shared;
+    };
+
+    void undoHops(const std::vector<Hop> &hops);
     bool handleGrouping(int orgFId, int dstFId, int orgWId, int dstRId);
     bool validCData(ConnectionData cData, int orgFId, int dstFId);
 
-- 
2.43.0


From 45bf42bd5ef6c6533dfa8c2afb57e70679bd3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 48/78] fix: a path from a filter to itself blocks the server

---
 src/PipelineManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index b35451e..80512cd 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -251,6 +251,11 @@ bool PipelineManager::createPath(int id, int orgFilter, int dstFilter, int orgWr
         return false;
     }
 
+    if (orgFilter == dstFilter) {
+        utils::errorMsg("[PipelineManager::createPath] Origin and destination filters are the same");
+        return false;
+    }
+
     for (auto it : midFilters) {
         if (filters.count(it) <= 0 || it == orgFilter || it == dstFilter) {
             utils::errorMsg("[PipelineManager::createPath] Error creating path: invalid mid filters");
-- 
2.43.0


From b92f484c5a978674d708b64320efc1a584978b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 49/78] fix: events sent by filters race with the removal of
 filters

---
 src/PipelineManager.cpp | 59 ++++++++++++++++++++++++++++++-----------
 src/PipelineManager.hh  |  7 +++++
 2 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 80512cd..96c3192 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -199,7 +199,10 @@ bool PipelineManager::addFilter(int id, BaseFilter* filter)
         return false;
     }
     
-    filters[id] = filter;
+    {
+        std::lock_guard<std::mutex> guard(filtersMtx);
+        filters[id] = filter;
+    }
 
     if (!pool){
         utils::warningMsg("Creating new thread pool!");
@@ -424,13 +427,26 @@ bool PipelineManager::removeFilter(int id)
         }
     }
     
-    pool->removeTask(id);
-    filters.erase(id);
-    delete filter;
+    deleteFilter(id);
 
     return true;
 }
 
+void PipelineManager::deleteFilter(int id)
+{
+    BaseFilter* filter = filters[id];
+
+    pool->removeTask(id);
+
+    {
+        std::unique_lock<std::mutex> guard(filtersMtx);
+        filters.erase(id);
+        filtersCheck.wait(guard, [this, filter]{return filtersInUse.count(filter) == 0;});
+    }
+
+    delete filter;
+}
+
 bool PipelineManager::deletePath(int id)
 {
     Path* path = getPath(id);
@@ -462,9 +478,7 @@ bool PipelineManager::deletePath(int id)
     std::vector<int>::reverse_iterator rit = pathFilters.rbegin();
     for (; rit!= pathFilters.rend(); ++rit){
         filters[*rit]->disconnectReader(DEFAULT_ID);
-        pool->removeTask(*rit);
-        delete filters[*rit];
-        filters.erase(*rit);
+        deleteFilter(*rit);
     }
     
     bool deleteOrig = true;
@@ -483,15 +497,11 @@ bool PipelineManager::deletePath(int id)
     }
     
     if (deleteDst){
-        pool->removeTask(dstFilterId);
-        delete filters[dstFilterId];
-        filters.erase(dstFilterId);
+        deleteFilter(dstFilterId);
     }
     
     if (deleteOrig){
-        pool->removeTask(orgFilterId);
-        delete filters[orgFilterId];
-        filters.erase(orgFilterId);
+        deleteFilter(orgFilterId);
     }
 
     delete path;
@@ -740,10 +750,27 @@ void PipelineManager::processEvent(Jzon::Object event, Jzon::Object &outputNode)
 
 bool PipelineManager::processFilterEvent(Event event, int filterId)
 {
-    if (filters.count(filterId) <= 0){
-        return false;
+    BaseFilter* filter;
+
+    //NOTE: filters send events too, while others are being added or deleted
+    {
+        std::lock_guard<std::mutex> guard(filtersMtx);
+
+        if (filters.count(filterId) <= 0){
+            return false;
+        }
+
+        filter = filters[filterId];
+        filtersInUse.insert(filter);
+    }
+
+    filter->pushEvent(event);
+
+    {
+        std::lock_guard<std::mutex> guard(filtersMtx);
+        filtersInUse.erase(filtersInUse.find(filter));
     }
 
-    filters[filterId]->pushEvent(event);
+    filtersCheck.notify_all();
     return true;
 }
diff --git a/src/PipelineManager.hh b/src/PipelineManager.hh
index f6789e3..fe6a7cf 100644
--- a/src/PipelineManager.hh
+++ b/src/PipelineManager.hh
@@ -30,6 +30,9 @@
 #include "WorkersPool.hh"
 
 #include <map>
+#include <set>
+#include <mutex>
+#include <condition_variable>
 
 /*! PipelineManager class is a singleton class that presents the relation
     between the data flow, control and execution layers. It has all related
@@ -186,6 +189,7 @@ private:
     PipelineManager(unsigned threads = 0);
     ~PipelineManager();
     bool deletePath(int id);
+    void deleteFilter(int id);
     bool createFilter(int id, FilterType type);
     
     //A connection between two consecutive filters of a path
@@ -206,6 +210,9 @@ private:
 
     std::map<int, Path*> paths;
     std::map<int, BaseFilter*> filters;
+    std::multiset<BaseFilter*> filtersInUse;
+    std::mutex filtersMtx;
+    std::condition_variable filtersCheck;
     WorkersPool *pool;
 };
 
-- 
2.43.0


From 1d1a4ee4183a099f744275d8234d4fb13c439550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 50/78] fix: removing a path removes middle filters of other
 paths

---
 src/Path.hh             | 16 ++++++++++++++++
 src/PipelineManager.cpp | 21 ++++++++++++++++++---
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/Path.hh b/src/Path.hh
index a7f4777..9a0c330 100644
--- a/src/Path.hh
+++ b/src/Path.hh
@@ -25,6 +25,7 @@
 #define _PATH_HH
 
 #include <vector>
+#include <map>
 
 /*! Path class determines the pipeline configuration, filters interconnections
     and data paths.
@@ -79,6 +80,20 @@ public:
     */
     std::vector<int> getFilters(){return filterIDs;};
     
+    /**
+    * Sets the reader Id a middle filter is connected with
+    * @param middle filter Id
+    * @param reader Id
+    */
+    void setMidReaderID(int filterID, int readerID) {midReaderIDs[filterID] = readerID;};
+
+    /**
+    * Gets the reader Id a middle filter is connected with
+    * @param middle filter Id
+    * @return reader Id, -1 if it is not connected
+    */
+    int getMidReaderID(int filterID) {return midReaderIDs.count(filterID) > 0 ? midReaderIDs[filterID] : -1;};
+    
     /**
     * Test if the path contains the given filter ID
     * @return true if the filter is present in path, false otherwise
@@ -94,6 +109,7 @@ private:
     int orgWriterID;
     int dstReaderID;
     std::vector<int> filterIDs;
+    std::map<int, int> midReaderIDs;
 };
 
 
diff --git a/src/PipelineManager.cpp b/src/PipelineManager.cpp
index 96c3192..ac28166 100644
--- a/src/PipelineManager.cpp
+++ b/src/PipelineManager.cpp
@@ -338,6 +338,10 @@ bool PipelineManager::connectPath(int id)
             }
         }
 
+        if (!last) {
+            path->setMidReaderID(rFilterId, hop.readerId);
+        }
+
         hops.push_back(hop);
         wFilterId = rFilterId;
     }
@@ -477,8 +481,19 @@ bool PipelineManager::deletePath(int id)
     
     std::vector<int>::reverse_iterator rit = pathFilters.rbegin();
     for (; rit!= pathFilters.rend(); ++rit){
-        filters[*rit]->disconnectReader(DEFAULT_ID);
-        deleteFilter(*rit);
+        bool deleteMid = true;
+
+        filters[*rit]->disconnectReader(path->getMidReaderID(*rit));
+
+        for (auto it : paths){
+            if (it.first != id && it.second->hasFilter(*rit)){
+                deleteMid = false;
+            }
+        }
+
+        if (deleteMid){
+            deleteFilter(*rit);
+        }
     }
     
     bool deleteOrig = true;
@@ -543,7 +558,7 @@ void PipelineManager::getStateEvent(Jzon::Node* params, Jzon::Object &outputNode
             for (auto itt : pFilters) {
                 f = getFilter(itt);
                 if (f){
-                    totalPathLostBlocs += f->getLostBlocs(DEFAULT_ID);
+                    totalPathLostBlocs += f->getLostBlocs(it.second->getMidReaderID(itt));
                 }
             }
             path.Add("lostBlocs", (int)totalPathLostBlocs);
-- 
2.43.0


From 0a2af2794a68f8fd91d8f0bb3372e98e5d8f42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 51/78] fix: a writer cannot be connected again right after its
 reader leaves

---
 src/Filter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index 80605a2..f244ad8 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -322,6 +322,16 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
 
 bool BaseFilter::setWriter(int writerID)
 {
+    //NOTE: the writers whose readers have gone are not needed anymore
+    for (auto it = writers.begin(); it != writers.end(); ) {
+        int wId = it->first;
+        bool connected = it->second->isConnected();
+        ++it;
+        if (!connected) {
+            deleteWriter(wId);
+        }
+    }
+
     if (writers.size() >= maxWriters) {
         utils::warningMsg("Too many writers");
         return false;
-- 
2.43.0


From a2bae87c7698af74dcc86d89d260b09fbce979eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:15 +0000
Subject: [PATCH 52/78] fix: a shared reader can exceed the readers of a filter

---
 src/Filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index f244ad8..b343e2c 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -305,6 +305,11 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
+    if (shared->readers.count(sharedRId) == 0 && shared->readers.size() >= shared->getMaxReaders()){
+        utils::errorMsg("The shared filter cannot have more readers!");
+        return false;
+    }
+    
     if (!readers[orgRId]->addReader(shared->getId(), sharedRId)){
         utils::errorMsg("The shared filter could not be added to the reader!");
         return false;
-- 
2.43.0


From 58fa144066514040db0f03c4c74fd390b77436f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 53/78] fix: video mixer channels on the top layer are never
 shown

---
 src/modules/videoMixer/VideoMixer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 22a45db..36beaa3 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -114,7 +114,7 @@ bool VideoMixer::doProcessFrame(std::map<int, Frame*> &orgFrames, Frame *dst, st
 
     layoutImg = cv::Scalar(0, 0, 0);
 
-    for (int lay=0; lay < maxChannels; lay++) {
+    for (int lay=0; lay <= maxChannels; lay++) {
 
         for (auto it : orgFrames) {
 
-- 
2.43.0


From e7efb1dfa28057d37c9162236493a9cca1846082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 54/78] fix: out of range video mixer channels end the server

---
 src/modules/videoMixer/VideoMixer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 36beaa3..41571ab 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -165,7 +165,8 @@ bool VideoMixer::configChannel0(int id, float width, float height, float x, floa
         return false;
     }
 
-    if (x < 0 || y < 0 || width <= 0 || height <= 0 || opacity < 0 || opacity > 1.0) {
+    if (x < 0 || x > 1 || y < 0 || y > 1 || width <= 0 || width > 1 || height <= 0 || height > 1 ||
+            opacity < 0 || opacity > 1.0) {
         utils::errorMsg("[VideoMixer] Error configuring channel. Incoherent values");
         return false;
     }
@@ -216,6 +217,11 @@ void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
     int x = chConfig->getX()*outputWidth;
     int y = chConfig->getY()*outputHeight;
 
+    //NOTE: channels may be smaller than a pixel or lie at the very edge of the layout
+    if (sz.width <= 0 || sz.height <= 0 || x >= outputWidth || y >= outputHeight) {
+        return;
+    }
+
     if (vFrame->getHeight() != sz.height || vFrame->getWidth() != sz.width) {
         cv::Mat resized(sz, img.type());
         cv::resize(img, resized,sz);
-- 
2.43.0


From 18e9e7f120cca44ae7e61fb528475653567c766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 55/78] fix: configuring a crop overwrites the last picture of
 the video splitter

---
 src/modules/videoSplitter/VideoSplitter.cpp |  7 ++-----
 src/modules/videoSplitter/VideoSplitter.hh  | 17 -----------------
 2 files changed, 2 insertions(+), 22 deletions(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index 808311b..ee79f76 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -41,9 +41,6 @@ void CropConfig::config(int width, int height, int x, int y, int degree)
     this->x = x;
     this->y = y;
     this->degree = degree;
-    cv::Mat img(height, width, CV_8UC3);
-    img.copyTo(this->crop);
-
 }
 
 ///////////////////////////////////////////////////
@@ -144,10 +141,10 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 
 		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI+widthROI <= vFrame->getWidth() && yROI+heightROI <= vFrame->getHeight()){
 			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
-			cropsConfig[it.first]->getCrop()->data = vFrameDst->getDataBuf();
+			cv::Mat crop(heightROI, widthROI, CV_8UC3, vFrameDst->getDataBuf());
 			vFrameDst->setLength(widthROI * heightROI);
     		vFrameDst->setSize(widthROI, heightROI);
-    		orgFrame(cv::Rect(xROI, yROI, widthROI, heightROI)).copyTo(cropsConfig[it.first]->getCropRect(0, 0, widthROI, heightROI));
+    		orgFrame(cv::Rect(xROI, yROI, widthROI, heightROI)).copyTo(crop);
 			it.second->setConsumed(true);
 			it.second->setPresentationTime(org->getPresentationTime());
             it.second->setDecodeTime(org->getDecodeTime());
diff --git a/src/modules/videoSplitter/VideoSplitter.hh b/src/modules/videoSplitter/VideoSplitter.hh
index 69238a0..c998a07 100644
--- a/src/modules/videoSplitter/VideoSplitter.hh
+++ b/src/modules/videoSplitter/VideoSplitter.hh
@@ -76,29 +76,12 @@ class CropConfig {
 	    * @return degree of Crop
 	    */
 	    int getDegree() {return degree;};
-
-	    /**
-	    * Class constructor.
-	    * @return Crop
-	    */
-	    cv::Mat *getCrop() {return &crop;};
-
-	    /**
-	    * Class constructor.
-	    * @param x Upper left corner X position
-	    * @param y Upper left corner Y position
-	    * @param w width Channel
-	    * @param h height Channel 
-	    * @return Crop based on params
-	    */
-	    cv::Mat getCropRect(int x, int y, int w, int h) { return crop(cv::Rect(x,y,w,h)); };
 	private:
 		int width;
 	    int height;
 	    int x;
 	    int y;
 	    int degree;
-	    cv::Mat crop;
 };
 
 /*
-- 
2.43.0


From 66587769cb24da55436f54708ba324a39bd98ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 56/78] fix: huge crops end the server

---
 src/modules/videoSplitter/VideoSplitter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index ee79f76..cd49f96 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -139,7 +139,7 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 		widthROI = cropsConfig[it.first]->getWidth();
 		heightROI = cropsConfig[it.first]->getHeight();
 
-		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI+widthROI <= vFrame->getWidth() && yROI+heightROI <= vFrame->getHeight()){
+		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI <= vFrame->getWidth() - widthROI && yROI <= vFrame->getHeight() - heightROI){
 			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
 			cv::Mat crop(heightROI, widthROI, CV_8UC3, vFrameDst->getDataBuf());
 			vFrameDst->setLength(widthROI * heightROI);
-- 
2.43.0


From 039949c53ba80792ab48e55cc299e0e7c47014a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:43 +0000
Subject: [PATCH 57/78] fix: video mixer channels race with leaving and joining
 readers

---
 src/modules/videoMixer/VideoMixer.cpp | 40 +++++++++++++++++++--------
 src/modules/videoMixer/VideoMixer.hh  |  5 +++-
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/modules/videoMixer/VideoMixer.cpp b/src/modules/videoMixer/VideoMixer.cpp
index 41571ab..81cb4b5 100644
--- a/src/modules/videoMixer/VideoMixer.cpp
+++ b/src/modules/videoMixer/VideoMixer.cpp
@@ -100,6 +100,15 @@ bool VideoMixer::doProcessFrame(std::map<int, Frame*> &orgFrames, Frame *dst, st
     int frameNumber = orgFrames.size();
     std::chrono::microseconds outTs = std::chrono::microseconds(0);
     VideoFrame *vFrame;
+    std::map<int, ChannelConfig> channels;
+
+    {
+        //NOTE: readers can be added and removed while mixing
+        std::lock_guard<std::mutex> guard(channelsMtx);
+        for (auto it : channelsConfig) {
+            channels[it.first] = *it.second;
+        }
+    }
 
     vFrame = dynamic_cast<VideoFrame*>(dst);
 
@@ -118,12 +127,12 @@ bool VideoMixer::doProcessFrame(std::map<int, Frame*> &orgFrames, Frame *dst, st
 
         for (auto it : orgFrames) {
 
-            if (channelsConfig.count(it.first) <= 0 || 
-                channelsConfig[it.first]->getLayer() != lay) {
+            if (channels.count(it.first) <= 0 || 
+                channels[it.first].getLayer() != lay) {
                 continue;
             }
 
-            if (!it.second || !channelsConfig[it.first]->isEnabled()) {
+            if (!it.second || !channels[it.first].isEnabled()) {
                 frameNumber--;
                 continue;
             }
@@ -135,7 +144,7 @@ bool VideoMixer::doProcessFrame(std::map<int, Frame*> &orgFrames, Frame *dst, st
                 return false;
             }
 
-            pasteToLayout(it.first, vFrame);
+            pasteToLayout(channels[it.first], vFrame);
             outTs = std::max(vFrame->getPresentationTime(), outTs);
             frameNumber--;
         }
@@ -161,6 +170,8 @@ bool VideoMixer::doProcessFrame(std::map<int, Frame*> &orgFrames, Frame *dst, st
 
 bool VideoMixer::configChannel0(int id, float width, float height, float x, float y, int layer, bool enabled, float opacity)
 {
+    std::lock_guard<std::mutex> guard(channelsMtx);
+
     if (channelsConfig.count(id) <= 0) {
         return false;
     }
@@ -207,15 +218,14 @@ bool VideoMixer::configure0(int width, int height, int fps)
     return true;
 }
 
-void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
+void VideoMixer::pasteToLayout(ChannelConfig &chConfig, VideoFrame* vFrame)
 {
-    ChannelConfig* chConfig = channelsConfig[frameID];
     cv::Mat img(vFrame->getHeight(), vFrame->getWidth(), CV_8UC3, vFrame->getDataBuf());
 
-    cv::Size sz(chConfig->getWidth()*outputWidth, chConfig->getHeight()*outputHeight);
+    cv::Size sz(chConfig.getWidth()*outputWidth, chConfig.getHeight()*outputHeight);
 
-    int x = chConfig->getX()*outputWidth;
-    int y = chConfig->getY()*outputHeight;
+    int x = chConfig.getX()*outputWidth;
+    int y = chConfig.getY()*outputHeight;
 
     //NOTE: channels may be smaller than a pixel or lie at the very edge of the layout
     if (sz.width <= 0 || sz.height <= 0 || x >= outputWidth || y >= outputHeight) {
@@ -237,14 +247,14 @@ void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
         sz.height = outputHeight - y;
     }
     
-    if (chConfig->getOpacity() == 1) {
+    if (chConfig.getOpacity() == 1) {
         img(cv::Rect(0, 0, sz.width, sz.height)).copyTo(layoutImg(cv::Rect(x, y, sz.width, sz.height)));
     } else {
         addWeighted(
             img(cv::Rect(0, 0, sz.width, sz.height)),
-            chConfig->getOpacity(),
+            chConfig.getOpacity(),
             layoutImg(cv::Rect(x, y, sz.width, sz.height)),
-            1 - chConfig->getOpacity(),
+            1 - chConfig.getOpacity(),
             0.0,
             layoutImg(cv::Rect(x, y, sz.width, sz.height))
         );
@@ -253,6 +263,8 @@ void VideoMixer::pasteToLayout(int frameID, VideoFrame* vFrame)
 
 bool VideoMixer::specificReaderConfig(int readerId, FrameQueue* /*queue*/)
 {
+    std::lock_guard<std::mutex> guard(channelsMtx);
+
     if (channelsConfig.count(readerId) <= 0) {
         channelsConfig[readerId] = new ChannelConfig();
         return true;
@@ -264,6 +276,8 @@ bool VideoMixer::specificReaderConfig(int readerId, FrameQueue* /*queue*/)
 
 bool VideoMixer::specificReaderDelete(int readerID)
 {
+    std::lock_guard<std::mutex> guard(channelsMtx);
+
     if (channelsConfig.count(readerID) <= 0) {
         utils::errorMsg("[VideoMixer::specificReaderDelete] Error configuring. This readerId doesn't exist " + std::to_string(readerID));
         return false;
@@ -340,6 +354,8 @@ void VideoMixer::doGetState(Jzon::Object &filterNode)
     filterNode.Add("height", outputHeight);
     filterNode.Add("maxChannels", maxChannels);
 
+    std::lock_guard<std::mutex> guard(channelsMtx);
+
     for (auto it : channelsConfig) {
         Jzon::Object chConfig;
         chConfig.Add("id", it.first);
diff --git a/src/modules/videoMixer/VideoMixer.hh b/src/modules/videoMixer/VideoMixer.hh
index ceef800..a8d7910 100644
--- a/src/modules/videoMixer/VideoMixer.hh
+++ b/src/modules/videoMixer/VideoMixer.hh
@@ -23,6 +23,8 @@
 #ifndef _VIDEO_MIXER_HH
 #define _VIDEO_MIXER_HH
 
+#include <mutex>
+
 #include "../../VideoFrame.hh"
 #include "../../Filter.hh"
 #include "../../StreamInfo.hh"
@@ -133,7 +135,7 @@ class VideoMixer : public ManyToOneFilter {
 
     private:
         void initializeEventMap();
-        void pasteToLayout(int frameID, VideoFrame* vFrame);
+        void pasteToLayout(ChannelConfig &chConfig, VideoFrame* vFrame);
         bool configChannelEvent(Jzon::Node* params);
         
         bool configure0(int width, int height, int fps);
@@ -147,6 +149,7 @@ class VideoMixer : public ManyToOneFilter {
 
         StreamInfo *outputStreamInfo;
         std::map<int, ChannelConfig*> channelsConfig;
+        std::mutex channelsMtx;
         int outputWidth;
         int outputHeight;
         cv::Mat layoutImg;
-- 
2.43.0


From b42e3b7628e202b4f8c21a744bab50f8f51e5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:43 +0000
Subject: [PATCH 58/78] fix: video splitter crops race with leaving and joining
 writers

---
 src/modules/videoSplitter/VideoSplitter.cpp | 25 +++++++++++++++++----
 src/modules/videoSplitter/VideoSplitter.hh  |  3 +++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/modules/videoSplitter/VideoSplitter.cpp b/src/modules/videoSplitter/VideoSplitter.cpp
index cd49f96..01c8582 100644
--- a/src/modules/videoSplitter/VideoSplitter.cpp
+++ b/src/modules/videoSplitter/VideoSplitter.cpp
@@ -123,6 +123,15 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 	int heightROI = 0;
 	VideoFrame *vFrame;
 	VideoFrame *vFrameDst;
+	std::map<int, CropConfig> crops;
+
+	{
+		//NOTE: writers can be added and removed while splitting
+		std::lock_guard<std::mutex> guard(cropsMtx);
+		for (auto it : cropsConfig){
+			crops[it.first] = *it.second;
+		}
+	}
 
 	vFrame = dynamic_cast<VideoFrame*>(org);
 	
@@ -134,10 +143,10 @@ bool VideoSplitter::doProcessFrame(Frame *org, std::map<int, Frame *> &dstFrames
 	cv::Mat orgFrame(vFrame->getHeight(), vFrame->getWidth(), CV_8UC3, vFrame->getDataBuf());
 	
 	for (auto it : dstFrames){
-		xROI = cropsConfig[it.first]->getX();
-		yROI = cropsConfig[it.first]->getY();
-		widthROI = cropsConfig[it.first]->getWidth();
-		heightROI = cropsConfig[it.first]->getHeight();
+		xROI = crops[it.first].getX();
+		yROI = crops[it.first].getY();
+		widthROI = crops[it.first].getWidth();
+		heightROI = crops[it.first].getHeight();
 
 		if((xROI >= 0 || yROI >= 0 || widthROI > 0 || heightROI > 0) && xROI <= vFrame->getWidth() - widthROI && yROI <= vFrame->getHeight() - heightROI){
 			vFrameDst = dynamic_cast<VideoFrame*>(it.second);
@@ -166,6 +175,8 @@ void VideoSplitter::doGetState(Jzon::Object &filterNode)
 {
 	Jzon::Array jsonCropsConfigs;
 
+	std::lock_guard<std::mutex> guard(cropsMtx);
+
 	for(auto it : cropsConfig){
 		Jzon::Object crConfig;
 		crConfig.Add("id", it.first);
@@ -182,6 +193,8 @@ void VideoSplitter::doGetState(Jzon::Object &filterNode)
 
 bool VideoSplitter::configCrop0(int id, int width, int height, int x, int y, int degree)
 {
+	std::lock_guard<std::mutex> guard(cropsMtx);
+
 	if (cropsConfig.count(id) <= 0) {
         utils::errorMsg("[VideoSplitter] Error configuring crop. Incorrect Id " + std::to_string(id));
         return false;
@@ -263,6 +276,8 @@ bool VideoSplitter::configureEvent(Jzon::Node* params)
         
 bool VideoSplitter::specificWriterConfig(int writerID)
 {
+	std::lock_guard<std::mutex> guard(cropsMtx);
+
 	if (cropsConfig.count(writerID) <= 0) {
         cropsConfig[writerID] = new CropConfig();
 		return true;
@@ -274,6 +289,8 @@ bool VideoSplitter::specificWriterConfig(int writerID)
 
 bool VideoSplitter::specificWriterDelete(int writerID)
 {
+	std::lock_guard<std::mutex> guard(cropsMtx);
+
 	if (cropsConfig.count(writerID) <= 0) {
         utils::errorMsg("[VideoSplitter::specificWriterDelete] Error configuring. This WriterID doesn't exist " + std::to_string(writerID));
         return false;
diff --git a/src/modules/videoSplitter/VideoSplitter.hh b/src/modules/videoSplitter/VideoSplitter.hh
index c998a07..a0e90e0 100644
--- a/src/modules/videoSplitter/VideoSplitter.hh
+++ b/src/modules/videoSplitter/VideoSplitter.hh
@@ -23,6 +23,8 @@
 #ifndef _VIDEO_SPLITTER_HH
 #define _VIDEO_SPLITTER_HH
 
+#include <mutex>
+
 #include "../../VideoFrame.hh"
 #include "../../Filter.hh"
 #include "../../StreamInfo.hh"
@@ -145,6 +147,7 @@ class VideoSplitter : public OneToManyFilter {
 
         StreamInfo *outputStreamInfo;
         std::map<int, CropConfig*> cropsConfig;
+        std::mutex cropsMtx;
 };
 
 #endif
\ No newline at end of file
-- 
2.43.0


From 224ddb21fe8d50b1569c2db843bfeb2bc1bbb368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:43 +0000
Subject: [PATCH 59/78] fix: video resampler converts to an undefined pixel
 format until configured

---
 src/modules/videoResampler/VideoResampler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index e43f949..a2e3ae4 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -38,6 +38,8 @@ VideoResampler::VideoResampler() : OneToOneFilter()
 
     outputWidth = 0;
     outputHeight = 0;
+    inPixFmt = P_NONE;
+    outPixFmt = RGB24;
     libavOutPixFmt = getLibavPixFmt(outPixFmt);
 
     needsConfig = false;
-- 
2.43.0


From 5d08cadfd3ef475b00fd87044435d68a6ff14369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:43 +0000
Subject: [PATCH 60/78] fix: video resampler leaks its context at each
 reconfiguration

---
 src/modules/videoResampler/VideoResampler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index a2e3ae4..bdc8c91 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -92,6 +92,7 @@ bool VideoResampler::reconfigure(VideoFrame* orgFrame)
             outHeight = outputHeight;
         }
         
+        sws_freeContext(imgConvertCtx);
         imgConvertCtx = sws_getContext(orgFrame->getWidth(), orgFrame->getHeight(), 
                                        libavInPixFmt, outWidth, outHeight,
                                        libavOutPixFmt, SWS_FAST_BILINEAR, 0, 0, 0);
-- 
2.43.0


From c959591fa53259842c76a0a83c873430dfb37578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:43 +0000
Subject: [PATCH 61/78] fix: video resampler applies the configuration it
 refuses

---
 src/modules/videoResampler/VideoResampler.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index bdc8c91..b38f7b1 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -163,11 +163,18 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
 
 bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFormat) 
 {
+    AVPixelFormat libavPixFmt = getLibavPixFmt(pixelFormat);
+
+    if (libavPixFmt == AV_PIX_FMT_NONE || width < 0 || height < 0){
+        utils::errorMsg("[Resampler] Error configuring. Not valid output");
+        return false;
+    }
+
     outputWidth = width;
     outputHeight = height;
     outPixFmt = pixelFormat;
     
-    libavOutPixFmt = getLibavPixFmt(outPixFmt);
+    libavOutPixFmt = libavPixFmt;
     needsConfig = true;
     
     if (fps <= 0) {
@@ -176,10 +183,6 @@ bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFor
         setFrameTime(std::chrono::microseconds(std::micro::den/fps));
     }
     
-    if (libavOutPixFmt == AV_PIX_FMT_NONE){
-        return false;
-    }
-    
     return true;
 }
 
-- 
2.43.0


From 1ebefc02f08d02a795363a660f689d8901799fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:43 +0000
Subject: [PATCH 62/78] fix: video resampler writes pictures larger than the
 frame

---
 src/modules/videoResampler/VideoResampler.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoResampler/VideoResampler.cpp b/src/modules/videoResampler/VideoResampler.cpp
index b38f7b1..1690e73 100644
--- a/src/modules/videoResampler/VideoResampler.cpp
+++ b/src/modules/videoResampler/VideoResampler.cpp
@@ -135,7 +135,14 @@ bool VideoResampler::doProcessFrame(Frame *org, Frame *dst)
         outHeight = outputHeight;
     }
     
-    dstFrame->setLength(av_image_get_buffer_size(libavOutPixFmt, outWidth, outHeight, 1));
+    int outLength = av_image_get_buffer_size(libavOutPixFmt, outWidth, outHeight, 1);
+
+    if (outLength <= 0 || (unsigned int)outLength > dstFrame->getMaxLength()){
+        utils::errorMsg("[Resampler] Output picture does not fit in the frame");
+        return false;
+    }
+
+    dstFrame->setLength(outLength);
     dstFrame->setSize(outWidth, outHeight);
     dstFrame->setPixelFormat(outPixFmt);
 
@@ -165,7 +172,7 @@ bool VideoResampler::configure0(int width, int height, int fps, PixType pixelFor
 {
     AVPixelFormat libavPixFmt = getLibavPixFmt(pixelFormat);
 
-    if (libavPixFmt == AV_PIX_FMT_NONE || width < 0 || height < 0){
+    if (libavPixFmt == AV_PIX_FMT_NONE || width < 0 || width > DEFAULT_WIDTH || height < 0 || height > DEFAULT_HEIGHT){
         utils::errorMsg("[Resampler] Error configuring. Not valid output");
         return false;
     }
-- 
2.43.0


From ef025263fdea1c71f79bf48191b4c475bf00626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:44 +0000
Subject: [PATCH 63/78] fix: the configured number of B-frames is not given to
 x264

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 2 +-
 src/modules/videoEncoder/VideoEncoderX265.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index cae7b1b..1e3a88b 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -165,7 +165,7 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     x264_param_parse(&xparams, "threads", std::to_string(threads).c_str());
     x264_param_parse(&xparams, "aud", std::to_string(1).c_str());
     x264_param_parse(&xparams, "bitrate", std::to_string(bitrate).c_str());
-    if (bFrames < 0){
+    if (bFrames >= 0){
         x264_param_parse(&xparams, "bframes", std::to_string(bFrames).c_str());
     }
     x264_param_parse(&xparams, "open-gop", std::to_string(0).c_str());
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 6d88508..7d64a35 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -177,7 +177,9 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     x265_param_parse(xparams, "frame-threads", std::to_string(threads).c_str());
     x265_param_parse(xparams, "aud", std::to_string(1).c_str());
     x265_param_parse(xparams, "bitrate", std::to_string(bitrate).c_str());
-    x265_param_parse(xparams, "bframes", std::to_string(bFrames).c_str());
+    if (bFrames >= 0) {
+        x265_param_parse(xparams, "bframes", std::to_string(bFrames).c_str());
+    }
     x265_param_parse(xparams, "repeat-headers", std::to_string(0).c_str());
     x265_param_parse(xparams, "vbv-maxrate", std::to_string(bitrate*1.05).c_str());
     x265_param_parse(xparams, "vbv-bufsize", std::to_string(bitrate*2).c_str());
-- 
2.43.0


From 40c58c96d249c048ff5529f4b8b80e21df911a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:44 +0000
Subject: [PATCH 64/78] fix: coded frames have decode time zero while the
 encoder starts to reorder

---
 .../videoEncoder/VideoEncoderX264or5.cpp      | 27 ++++++++++++++++---
 .../videoEncoder/VideoEncoderX264or5.hh       |  2 ++
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 67985a4..3814cad 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -26,7 +26,7 @@
 VideoEncoderX264or5::VideoEncoderX264or5() :
 OneToOneFilter(), inPixFmt(P_NONE), forceIntra(false), fps(0), bitrate(0), gop(0), 
     gopTime(0), refTime(std::chrono::microseconds(0)), threads(0), bFrames(-1),
-    needsConfig(false), inPts(0), outPts(0), dts(0)
+    needsConfig(false), inPts(0), outPts(0), dts(0), lastDecodeTime(std::chrono::microseconds(0))
 {
     fType = VIDEO_ENCODER;
     midFrame = av_frame_alloc();
@@ -100,15 +100,36 @@ bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
     
     dst->setConsumed(true);
     dst->setPresentationTime(qFTP[outPts].pTime);
-    dst->setDecodeTime(qFTP[dts].pTime);
+    dst->setDecodeTime(getDecodeTime(qFTP[outPts].pTime));
     dst->setOriginTime(qFTP[outPts].oTime);
     dst->setSequenceNumber(qFTP[outPts].seqNum);
     
-    qFTP.erase(dts);
+    qFTP.erase(qFTP.begin(), qFTP.upper_bound(dts));
     
     return true;
 }
 
+std::chrono::microseconds VideoEncoderX264or5::getDecodeTime(std::chrono::microseconds pTime)
+{
+    std::chrono::microseconds dTime;
+    auto it = qFTP.find(dts);
+
+    if (it != qFTP.end()) {
+        dTime = it->second.pTime;
+    } else {
+        //An encoder that reorders frames starts with decode times before its first frame
+        it = qFTP.begin();
+        dTime = it->second.pTime - std::chrono::microseconds((it->first - dts)*std::micro::den/fps);
+
+        if (dTime <= lastDecodeTime && lastDecodeTime < pTime) {
+            dTime = lastDecodeTime + std::chrono::microseconds(1);
+        }
+    }
+
+    lastDecodeTime = dTime;
+    return dTime;
+}
+
 //TODO: this should be done without libav
 bool VideoEncoderX264or5::fill_x264or5_picture(VideoFrame* videoFrame)
 {
diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.hh b/src/modules/videoEncoder/VideoEncoderX264or5.hh
index e6bd6ba..22b3a38 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.hh
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.hh
@@ -85,10 +85,12 @@ protected:
     int64_t inPts;
     int64_t outPts;
     int64_t dts;
+    std::chrono::microseconds lastDecodeTime;
 
     StreamInfo *outputStreamInfo;
     
     bool doProcessFrame(Frame *org, Frame *dst);
+    std::chrono::microseconds getDecodeTime(std::chrono::microseconds pTime);
     void initializeEventMap();      
     virtual bool fillPicturePlanes(unsigned char** data, int* linesize) = 0;
     virtual bool encodeFrame(VideoFrame* codedFrame) = 0;
-- 
2.43.0


From afe61d3d9ae368feb0c5a3c360639d103676e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 65/78] fix: 4:2:2 and 4:4:4 pictures are not encoded or
 encoded as 4:2:0

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 4 +++-
 src/modules/videoEncoder/VideoEncoderX265.cpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index 1e3a88b..6ab5801 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -158,7 +158,9 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
 
     picIn.img.i_csp = colorspace;
     x264_param_default_preset(&xparams, preset.c_str(), NULL);
-    x264_param_apply_profile(&xparams, "high");
+    xparams.i_csp = colorspace;
+    x264_param_apply_profile(&xparams, colorspace == X264_CSP_I444 ? "high444" :
+                                       colorspace == X264_CSP_I422 ? "high422" : "high");
 
     x264_param_parse(&xparams, "keyint", std::to_string(gop).c_str());
     x264_param_parse(&xparams, "fps", std::to_string(fps).c_str());
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 7d64a35..9facee3 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -165,7 +165,8 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     picIn->colorSpace = colorspace;
     x265_param_default_preset(xparams, preset.c_str(), NULL);
     /*TODO check with NULL profile*/
-    x265_param_apply_profile(xparams, "main");
+    xparams->internalCsp = colorspace;
+    x265_param_apply_profile(xparams, colorspace == X265_CSP_I444 ? "main444-8" : "main");
 
     x265_param_parse(xparams, "keyint", std::to_string(gop).c_str());
     x265_param_parse(xparams, "fps", std::to_string(fps).c_str());
-- 
2.43.0


From 38a0f0dedd13e35b1a6bf38ad84572c84c35a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 66/78] fix: video encoder accepts negative configuration
 values

---
 .../videoEncoder/VideoEncoderX264or5.cpp      | 20 +++++++++----------
 .../videoEncoder/VideoEncoderX264or5.hh       |  6 +++---
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 3814cad..a874b9f 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -148,9 +148,9 @@ bool VideoEncoderX264or5::fill_x264or5_picture(VideoFrame* videoFrame)
     return true;
 }
 
-bool VideoEncoderX264or5::configure0(unsigned bitrate_, unsigned fps_, unsigned gop_, 
-                                     unsigned lookahead_, int bFrames_, unsigned threads_, 
-                                     bool annexB_, std::string preset_, unsigned gopTime_)
+bool VideoEncoderX264or5::configure0(int bitrate_, int fps_, int gop_, 
+                                     int lookahead_, int bFrames_, int threads_, 
+                                     bool annexB_, std::string preset_, int gopTime_)
 {
     if (bitrate_ <= 0 || gop_ <= 0 || lookahead_ < 0 || threads_ <= 0 || preset_.empty()) {
         utils::errorMsg("Error configuring VideoEncoderX264or5: invalid configuration values");
@@ -190,13 +190,13 @@ bool VideoEncoderX264or5::configure0(unsigned bitrate_, unsigned fps_, unsigned
 
 bool VideoEncoderX264or5::configEvent(Jzon::Node* params)
 {
-    unsigned tmpBitrate;
-    unsigned tmpFps;
-    unsigned tmpGop;
-    unsigned tmpGopTime;
-    unsigned tmpLookahead;
-    unsigned tmpThreads;
-    unsigned tmpBFrames;
+    int tmpBitrate;
+    int tmpFps;
+    int tmpGop;
+    int tmpGopTime;
+    int tmpLookahead;
+    int tmpThreads;
+    int tmpBFrames;
     bool tmpAnnexB;
     std::string tmpPreset;
 
diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.hh b/src/modules/videoEncoder/VideoEncoderX264or5.hh
index 22b3a38..7f6081d 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.hh
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.hh
@@ -98,9 +98,9 @@ protected:
     void setIntra(){forceIntra = true;};
     bool fill_x264or5_picture(VideoFrame* videoFrame);
 
-    bool configure0(unsigned bitrate_, unsigned fps_, unsigned gop_, 
-                    unsigned lookahead_, int bFrames_, unsigned threads_,
-                    bool annexB_, std::string preset_, unsigned gopTime);
+    bool configure0(int bitrate_, int fps_, int gop_, 
+                    int lookahead_, int bFrames_, int threads_,
+                    bool annexB_, std::string preset_, int gopTime_);
     
 private:
     bool setGopReferenceTimeEvent(Jzon::Node* params);
-- 
2.43.0


From a2719cbe2bf42a657cbcdbcbbf3fd09c85ec9f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 67/78] fix: GOP reference time event without parameters or
 with a malformed time crashes

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index a874b9f..2a9ed82 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -262,9 +262,20 @@ bool VideoEncoderX264or5::forceIntraEvent(Jzon::Node*)
 
 bool VideoEncoderX264or5::setGopReferenceTimeEvent(Jzon::Node* params)
 {
+    if (!params) {
+        return false;
+    }
+
     if (params->Has("referenceTime") && params->Get("referenceTime").IsString()) {
         std::string refTime_str = params->Get("referenceTime").ToString();
-        refTime = std::chrono::microseconds(std::stoull(refTime_str));
+
+        try {
+            refTime = std::chrono::microseconds(std::stoull(refTime_str));
+        } catch (const std::exception& e) {
+            utils::errorMsg("Error configuring GOP reference time: invalid value");
+            return false;
+        }
+
         return true;
     }
     return false;
-- 
2.43.0


From 92094516a85349ac9b7df948476d529609fe877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 68/78] fix: all frames are intra coded until the GOP reference
 time has caught up

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 2a9ed82..0a475f8 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -82,7 +82,7 @@ bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
             
         if (diff.count() <= 0){
             forceIntra = true;
-            refTime += std::chrono::microseconds(gopTime);
+            refTime += std::chrono::microseconds(gopTime)*(1 - diff.count()/gopTime);
         }
     }
     
-- 
2.43.0


From 8ed9ad91097106651ec0effb08f7ec8f9c54741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:19 +0000
Subject: [PATCH 69/78] fix: video encoders leak their stream description,
 parameters and pictures

---
 src/modules/videoEncoder/VideoEncoderX264or5.cpp | 2 ++
 src/modules/videoEncoder/VideoEncoderX265.cpp    | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264or5.cpp b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
index 0a475f8..3f674df 100644
--- a/src/modules/videoEncoder/VideoEncoderX264or5.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264or5.cpp
@@ -42,6 +42,8 @@ VideoEncoderX264or5::~VideoEncoderX264or5()
     if (midFrame){
         av_frame_free(&midFrame);
     }
+
+    delete outputStreamInfo;
 }
 
 bool VideoEncoderX264or5::doProcessFrame(Frame *org, Frame *dst)
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 9facee3..1257918 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -43,8 +43,11 @@ VideoEncoderX265::~VideoEncoderX265()
         x265_encoder_close(encoder);
         encoder = NULL;
     }
+
+    x265_picture_free(picIn);
+    x265_picture_free(picOut);
+    x265_param_free(xparams);
     //TODO check for x265_cleanup()?
-    //TODO add x265_picture_clean(&x265pic) or x265_picture_free(&x265pic)?
 }
 
 bool VideoEncoderX265::fillPicturePlanes(unsigned char** data, int* linesize)
-- 
2.43.0


From 8c269d3114199a281ec34fb5a3884ff2ce7ba8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:19 +0000
Subject: [PATCH 70/78] fix: video encoder that could not be opened or did not
 give its headers is not tried again

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 10 ++++++++--
 src/modules/videoEncoder/VideoEncoderX265.cpp |  9 ++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index 6ab5801..b1614a0 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -134,6 +134,9 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
         return true;
     }
 
+    //If something fails from here on, it is tried again with the next frame
+    needsConfig = true;
+
     inPixFmt = orgFrame->getPixelFormat();
     switch (inPixFmt) {
         case YUV420P:
@@ -204,8 +207,11 @@ bool VideoEncoderX264::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
         return false;
     }
 
+    if (!encodeHeadersFrame()) {
+        return false;
+    }
+
     needsConfig = false;
-   
-    return encodeHeadersFrame();
 
+    return true;
 }
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index 1257918..f980ee8 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -141,6 +141,9 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
         return true;
     }
 
+    //If something fails from here on, it is tried again with the next frame
+    needsConfig = true;
+
     inPixFmt = orgFrame->getPixelFormat();
     switch (inPixFmt) {
         case YUV420P:
@@ -211,7 +214,11 @@ bool VideoEncoderX265::reconfigure(VideoFrame* orgFrame, VideoFrame* dstFrame)
     x265_picture_init(xparams, picIn);
     x265_picture_init(xparams, picOut);
 
+    if (!encodeHeadersFrame()) {
+        return false;
+    }
+
     needsConfig = false;
 
-    return encodeHeadersFrame();
+    return true;
 }
-- 
2.43.0


From 72db6a23e6416e30510d9bdb885da0e491c1239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:19 +0000
Subject: [PATCH 71/78] fix: request of an intra frame is lost when the encoder
 fails

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 2 +-
 src/modules/videoEncoder/VideoEncoderX265.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index b1614a0..b59a4ac 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -69,7 +69,6 @@ bool VideoEncoderX264::encodeFrame(VideoFrame* codedFrame)
 
     if (forceIntra) {
         picIn.i_type = X264_TYPE_IDR;
-        forceIntra = false;
     } else {
         picIn.i_type = X264_TYPE_AUTO;
     }
@@ -83,6 +82,7 @@ bool VideoEncoderX264::encodeFrame(VideoFrame* codedFrame)
     }
     
     inPts++;
+    forceIntra = false;
     
     if (success == 0) {
         return false;
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index f980ee8..ac9211a 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -76,7 +76,6 @@ bool VideoEncoderX265::encodeFrame(VideoFrame* codedFrame)
 
     if (forceIntra) {
         picIn->sliceType = X265_TYPE_IDR;
-        forceIntra = false;
     } else {
         picIn->sliceType = X265_TYPE_AUTO;
     }
@@ -90,6 +89,7 @@ bool VideoEncoderX265::encodeFrame(VideoFrame* codedFrame)
     } 
     
     inPts++;
+    forceIntra = false;
     
     if (success == 0) {
         utils::debugMsg("X265 Encoder: NAL not retrieved after encoding");
-- 
2.43.0


From c7e13d774159558894b046a4d4eb62708e58ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:19 +0000
Subject: [PATCH 72/78] fix: video encoder delivers nothing any more after a
 frame with too many NAL units

---
 src/modules/videoEncoder/VideoEncoderX264.cpp | 3 +++
 src/modules/videoEncoder/VideoEncoderX265.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/modules/videoEncoder/VideoEncoderX264.cpp b/src/modules/videoEncoder/VideoEncoderX264.cpp
index b59a4ac..c45a11e 100644
--- a/src/modules/videoEncoder/VideoEncoderX264.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX264.cpp
@@ -67,6 +67,9 @@ bool VideoEncoderX264::encodeFrame(VideoFrame* codedFrame)
         return false;
     }
 
+    //Slices of a frame that could not be completed
+    slicedFrame->clear();
+
     if (forceIntra) {
         picIn.i_type = X264_TYPE_IDR;
     } else {
diff --git a/src/modules/videoEncoder/VideoEncoderX265.cpp b/src/modules/videoEncoder/VideoEncoderX265.cpp
index ac9211a..4f4fc24 100644
--- a/src/modules/videoEncoder/VideoEncoderX265.cpp
+++ b/src/modules/videoEncoder/VideoEncoderX265.cpp
@@ -74,6 +74,9 @@ bool VideoEncoderX265::encodeFrame(VideoFrame* codedFrame)
         return false;
     }
 
+    //Slices of a frame that could not be completed
+    slicedFrame->clear();
+
     if (forceIntra) {
         picIn->sliceType = X265_TYPE_IDR;
     } else {
-- 
2.43.0


From 600cf6f1710dd5110b63967e9e314d6cb8546971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:19 +0000
Subject: [PATCH 73/78] fix: slices larger than the frames of their queue are
 written beyond them

---
 src/SlicedVideoFrameQueue.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SlicedVideoFrameQueue.cpp b/src/SlicedVideoFrameQueue.cpp
index f4ef3c9..4949386 100644
--- a/src/SlicedVideoFrameQueue.cpp
+++ b/src/SlicedVideoFrameQueue.cpp
@@ -140,6 +140,12 @@ void SlicedVideoFrameQueue::pushBackSliceGroup(Slice* slices, int sliceNum)
         }
 
         vFrame = dynamic_cast<VideoFrame*>(frame);
+
+        if (slices[i].getDataSize() > vFrame->getMaxLength()) {
+            utils::errorMsg("Slice discarted: it is larger than the frames of the queue");
+            continue;
+        }
+
         vFrame->setSequenceNumber(inputFrame->getSequenceNumber());
 
         memcpy(vFrame->getDataBuf(), slices[i].getData(), slices[i].getDataSize());
-- 
2.43.0


From 4541680896c81e6078344b0cb8aacca0a4759bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:56 +0000
Subject: [PATCH 74/78] fix: filters that share a reader with each other at the
 same time wait for each other forever

---
 src/Filter.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Filter.cpp b/src/Filter.cpp
index b343e2c..a8be9f8 100644
--- a/src/Filter.cpp
+++ b/src/Filter.cpp
@@ -281,13 +281,16 @@ bool BaseFilter::pendingJobs()
 
 bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
 {
-    std::lock_guard<std::mutex> guard(mtx);  
-    
     if (getId() == shared->getId()){
         utils::errorMsg("Shared filter and base filter are the same!!");
         return false;
     }
     
+    //NOTE: both at once, the other filter may be sharing a reader with this one
+    std::lock(mtx, shared->mtx);
+    std::lock_guard<std::mutex> guard(mtx, std::adopt_lock);
+    std::lock_guard<std::mutex> sharedGuard(shared->mtx, std::adopt_lock);
+    
     if (!(readers.count(orgRId) > 0)) {
         utils::errorMsg("The reader to share is not there");
         return false;
@@ -298,8 +301,6 @@ bool BaseFilter::shareReader(BaseFilter *shared, int sharedRId, int orgRId)
         return false;
     }
     
-    std::lock_guard<std::mutex> sharedGuard(shared->mtx);
-
     if (shared->readers.count(sharedRId) > 0 && shared->readers[sharedRId]->isConnected()){
         utils::errorMsg("The shared filter has the reader already connected!");
         return false;
-- 
2.43.0


From 0dae2563a3ef63388f7c730003155f2c3f83073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:54 +0000
Subject: [PATCH 75/78] fix: an audio queue whose frames cannot be created is
 handed out and its producer hangs

---
 src/AVFramedQueue.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/AVFramedQueue.cpp b/src/AVFramedQueue.cpp
index 84882ac..6ab3409 100644
--- a/src/AVFramedQueue.cpp
+++ b/src/AVFramedQueue.cpp
@@ -263,6 +263,13 @@ bool AudioFrameQueue::setup()
             return false;
     }
 
+    for (unsigned i=0; i<max; i++) {
+        if (!frames[i]) {
+            utils::errorMsg("[Audio Frame Queue] Sample format not supported by this codec!");
+            return false;
+        }
+    }
+
     return true;
 
 }
-- 
2.43.0


From 488cc6ed8f6ff7e985c72cb38436cd0b321348c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:07 +0000
Subject: [PATCH 76/78] fix: the queue of an MP3 encoder cannot hold its frames

---
 src/modules/audioEncoder/AudioEncoderLibav.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/audioEncoder/AudioEncoderLibav.cpp b/src/modules/audioEncoder/AudioEncoderLibav.cpp
index 0864ff2..b05c3ca 100644
--- a/src/modules/audioEncoder/AudioEncoderLibav.cpp
+++ b/src/modules/audioEncoder/AudioEncoderLibav.cpp
@@ -188,7 +188,7 @@ bool AudioEncoderLibav::configure0(ACodecType codec, int codedAudioChannels, int
         case MP3:
             codecId = AV_CODEC_ID_MP3;
             internalLibavSampleFmt = AV_SAMPLE_FMT_S16P;
-            outputStreamInfo->audio.sampleFormat = S16P;
+            outputStreamInfo->audio.sampleFormat = S16;
             break;
         default:
             codecId = AV_CODEC_ID_NONE;
-- 
2.43.0


From 4997e2ed0859eb41fdbc070417261b0dc9d0f121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:12 +0000
Subject: [PATCH 77/78] fix: filling an interleaved audio frame with a value
 writes beyond it

---
 src/AudioFrame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AudioFrame.cpp b/src/AudioFrame.cpp
index 006f687..481308d 100644
--- a/src/AudioFrame.cpp
+++ b/src/AudioFrame.cpp
@@ -78,7 +78,7 @@ InterleavedAudioFrame::~InterleavedAudioFrame()
 
 void InterleavedAudioFrame::fillWithValue(int value)
 {
-    memset(frameBuff, value, bufferMaxLen*channels);
+    memset(frameBuff, value, bufferMaxLen);
 }    
 
 
-- 
2.43.0


From ddfc62afab02253b32deb354c7f2c7e07ab4bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:01 +0000
Subject: [PATCH 78/78] fix: strings that end with a backslash break JSON
 requests

The quote after an escaped backslash was taken for an escaped one, both by the
JSON parser and by the check that a control request is complete, so such a
request was answered with an error (after waiting for the rest of it).
---
 src/Controller.cpp |  5 ++++-
 src/Jzon.cpp       | 20 +++++++++++---------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/Controller.cpp b/src/Controller.cpp
index f231854..ae7599f 100644
--- a/src/Controller.cpp
+++ b/src/Controller.cpp
@@ -223,7 +223,10 @@ bool Controller::isComplete(const char* request, size_t length)
 
     for (size_t i = 0; i < length; i++) {
         if (inString) {
-            if (request[i] == '"' && request[i - 1] != '\\') {
+            if (request[i] == '\\') {
+                //NOTE: whatever follows is escaped, even another backslash
+                i++;
+            } else if (request[i] == '"') {
                 inString = false;
             }
             continue;
diff --git a/src/Jzon.cpp b/src/Jzon.cpp
index 122edaa..62f5231 100644
--- a/src/Jzon.cpp
+++ b/src/Jzon.cpp
@@ -83,22 +83,23 @@ namespace Jzon
 		bool comment = false;
 		int multicomment = 0;
 		bool inString = false;
+		bool escaped = false;
 
 		for (std::string::const_iterator it = json.begin(); it != json.end(); ++it)
 		{
-			char c0 = '\0';
 			char c1 = (*it);
 			char c2 = '\0';
-			if (it != json.begin())
-				c0 = (*(it-1));
 			if (it+1 != json.end())
 				c2 = (*(it+1));
 
-			if (c0 != '\\' && c1 == '"')
+			if (!escaped && c1 == '"')
 			{
 				inString = !inString;
 			}
 
+			// A backslash that is escaped itself does not escape what follows
+			escaped = (c1 == '\\' && !escaped);
+
 			if (!inString)
 			{
 				if (c1 == '/' && c2 == '*')
@@ -1267,19 +1268,20 @@ namespace Jzon
 
 		++cursor;
 
-		char c1 = '\0';
+		bool escaped = false;
 		for (; cursor < json.size(); ++cursor)
 		{
-			char c2 = json.at(cursor);
+			char c = json.at(cursor);
 
-			if (c1 != '\\' && c2 == '"')
+			if (!escaped && c == '"')
 			{
 				break;
 			}
 
-			str += c2;
+			str += c;
 
-			c1 = c2;
+			// A backslash that is escaped itself does not escape what follows
+			escaped = (c == '\\' && !escaped);
 		}
 
 		data.push(std::make_pair(Value::VT_STRING, str));
-- 
2.43.0

