From d1a0f0422cdfa1c6a0587cdb8e6d54bd9fdb74d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 01/51] fix: JobQueue::stop sets its flag under the lock and
 wakes the workers

join() set the stop flag and notified without holding the mutex: a worker that
had just seen the flag clear went to sleep after the notification and join()
never returned.
---
 sm_boost/src/JobQueue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 76572db..4cc21bb 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -30,7 +30,9 @@ namespace sm {
     }
 
     void JobQueue::stop() {
+        boost::mutex::scoped_lock lck(mutex_);
         killWorkers_ = true;
+        condition_.notify_all(); // wake idle worker threads
     }
 
     void JobQueue::join()
-- 
2.43.0


From 48c4f76c1bd7bb811294871e33c2e90f14d7a788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 02/51] fix: JobQueue counts a worker before its thread starts

The worker counted itself, so a queue destroyed right after start() saw no
workers and was destroyed before they entered their loop.
---
 sm_boost/src/JobQueue.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 4cc21bb..25749a5 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -24,7 +24,20 @@ namespace sm {
             work_.reset(new boost::thread_group);
             for(int i = 0; i < nThreads; ++i)
             {
-                work_->create_thread(boost::bind(&JobQueue::exec_loop,this));
+                {
+                    boost::mutex::scoped_lock lck(mutex_);
+                    ++threadsInPool_; // the destructor waits for this thread from now on
+                }
+                try
+                {
+                    work_->create_thread(boost::bind(&JobQueue::exec_loop,this));
+                }
+                catch(...)
+                {
+                    boost::mutex::scoped_lock lck(mutex_);
+                    --threadsInPool_;
+                    throw;
+                }
             }
         }
     }
@@ -59,7 +72,6 @@ namespace sm {
 
     void JobQueue::exec_loop() {
         boost::mutex::scoped_lock lck(mutex_);
-        ++threadsInPool_;
         while (true) {
             while ((q_.empty()) && !killWorkers_)
                 condition_.wait(lck); // wait for a job to be added to queue
-- 
2.43.0


From 4e7aad409aff3e0987dd0a04aec63626e2a972c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 03/51] fix: lock the timing registry in every operation that
 reads it

Only getHandle, addTime and reset took the lock; the other queries, print and
the Timer constructor read the tables while another thread could grow them.
---
 sm_timing/include/sm/timing/Timer.hpp |  2 ++
 sm_timing/src/Timer.cpp               | 29 +++++++++++++++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/sm_timing/include/sm/timing/Timer.hpp b/sm_timing/include/sm/timing/Timer.hpp
index 61790eb..3bec40f 100755
--- a/sm_timing/include/sm/timing/Timer.hpp
+++ b/sm_timing/include/sm/timing/Timer.hpp
@@ -104,6 +104,8 @@ namespace timing {
     
     typedef std::unordered_map<std::string,size_t> map_t;
     typedef std::vector<TimerMapValue> list_t;
+
+    static map_t copyTagMap();
     
     // Static members
     list_t m_timers;
diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 6104584..ed2595a 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -73,6 +73,7 @@ namespace timing {
   
   
   std::string Timing::getTag(size_t handle){
+    boost::mutex::scoped_lock lock(m_mutex);
     std::string tag;
     bool found = false;
     
@@ -97,7 +98,10 @@ namespace timing {
     m_handle(handle)
     
   {
-    SM_ASSERT_LT(TimerException,handle, Timing::instance().m_timers.size(),"The handle is invalid. Handle: " << handle << ", number of timers: " << Timing::instance().m_timers.size());
+    {
+      boost::mutex::scoped_lock lock(Timing::m_mutex);
+      SM_ASSERT_LT(TimerException,handle, Timing::instance().m_timers.size(),"The handle is invalid. Handle: " << handle << ", number of timers: " << Timing::instance().m_timers.size());
+    }
     if(!constructStopped)
       start();
   }
@@ -154,6 +158,7 @@ namespace timing {
   }
   
   double Timing::getTotalSeconds(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::sum(instance().m_timers[handle].m_acc);
   }
@@ -161,6 +166,7 @@ namespace timing {
     return getTotalSeconds(getHandle(tag));
   }
   double Timing::getMeanSeconds(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::mean(instance().m_timers[handle].m_acc);
   }
@@ -168,6 +174,7 @@ namespace timing {
     return getMeanSeconds(getHandle(tag));
   }
   size_t Timing::getNumSamples(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle , instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::count(instance().m_timers[handle].m_acc);
   }
@@ -175,6 +182,7 @@ namespace timing {
     return getNumSamples(getHandle(tag));
   }
   double Timing::getVarianceSeconds(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::variance(instance().m_timers[handle].m_acc);
   }
@@ -182,6 +190,7 @@ namespace timing {
     return getVarianceSeconds(getHandle(tag));
   }
   double Timing::getMinSeconds(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::min(instance().m_timers[handle].m_acc);
   }
@@ -189,6 +198,7 @@ namespace timing {
     return getMinSeconds(getHandle(tag));
   }
   double Timing::getMaxSeconds(size_t handle) {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::max(instance().m_timers[handle].m_acc);		
   }
@@ -198,6 +208,7 @@ namespace timing {
   
   double Timing::getHz(size_t handle)
   {
+    boost::mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return 1.0/boost::accumulators::extract::rolling_mean(instance().m_timers[handle].m_acc);		
   }
@@ -234,13 +245,23 @@ namespace timing {
     return buffer;
   }
   
+  Timing::map_t Timing::copyTagMap() {
+    boost::mutex::scoped_lock lock(m_mutex);
+    return instance().m_tagMap;
+  }
+
   template <typename TMap, typename Accessor>
   void Timing::print(const TMap & tagMap, const Accessor & accessor, std::ostream & out) {
+    size_t maxTagLength;
+    {
+      boost::mutex::scoped_lock lock(m_mutex);
+      maxTagLength = instance().m_maxTagLength;
+    }
     out << "SM Timing\n";
     out << "-----------\n";
     for(typename TMap::const_iterator t = tagMap.begin(); t != tagMap.end(); t++) {
       size_t i = accessor.getIndex(t);
-      out.width((std::streamsize)instance().m_maxTagLength);
+      out.width((std::streamsize)maxTagLength);
       out.setf(std::ios::left,std::ios::adjustfield);
       out << accessor.getTag(t) << "\t";
       out.width(7);
@@ -276,11 +297,11 @@ namespace timing {
       }
     };
 
-    print(instance().m_tagMap, Accessor(), out);
+    print(copyTagMap(), Accessor(), out);
   }
 
   void Timing::print(std::ostream & out, const SortType sort) {
-    map_t & tagMap = instance().m_tagMap;
+    map_t tagMap = copyTagMap();
 
     typedef std::multimap<double, std::string, std::greater<double> > SortMap_t;
     SortMap_t sorted;
-- 
2.43.0


From 4c9f7e28c4d9216b2280e8bc2a4bafcd4ce5a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 04/51] fix: do not hold the stream lock while taking the log
 location lock

enableNamedStream/disableNamedStream took _named_stream_mutex then
_locations_mutex; registering or updating a log location takes them in the
opposite order, so the two could deadlock.
---
 sm_logging/src/LoggingGlobals.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index a9ab08e..2bcddf9 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -105,19 +105,24 @@ namespace sm {
         }
 
         void LoggingGlobals::enableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            _namedStreamsEnabled.insert(name);
-            notifyLoggerLevelsChanged();
+            {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                _namedStreamsEnabled.insert(name);
+            }
+            notifyLoggerLevelsChanged(); // takes _locations_mutex, which comes before _named_stream_mutex
         }
 
         void LoggingGlobals::disableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
-            if(it != _namedStreamsEnabled.end())
             {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
+                if(it == _namedStreamsEnabled.end())
+                {
+                    return;
+                }
                 _namedStreamsEnabled.erase(it);
-                notifyLoggerLevelsChanged();
             }
+            notifyLoggerLevelsChanged(); // takes _locations_mutex, which comes before _named_stream_mutex
         }
 
 
-- 
2.43.0


From 5259ab4e4726a81f3ecbfa6718aa29ba828ce079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 05/51] fix: clear the printing mark when a logger or the
 formatting throws

Only std::exception from the logger was caught, so any other exception left
the thread marked as printing and all its later messages were dropped.
---
 sm_logging/src/LoggingGlobals.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index 2bcddf9..90f6e3c 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -6,6 +6,15 @@ namespace sm {
 
         LoggingGlobals g_logging_globals;
 
+        namespace {
+            // marks the calling thread as printing for the lifetime of this object
+            struct PrintingMark {
+                explicit PrintingMark(boost::thread::id & id) : _id(id) { _id = boost::this_thread::get_id(); }
+                ~PrintingMark() { _id = boost::thread::id(); }
+                boost::thread::id & _id;
+            };
+        } // namespace
+
 
 
         LoggingGlobals::LoggingGlobals()
@@ -180,7 +189,7 @@ namespace sm {
 
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            PrintingMark mark(_printing_thread_id);
 
             va_list args;
             va_start(args, fmt);
@@ -197,9 +206,6 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
-                    
-
-            _printing_thread_id = boost::thread::id();
         }
 
         void LoggingGlobals::print(const char * streamName,  Level level, 
@@ -221,7 +227,7 @@ namespace sm {
             
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            PrintingMark mark(_printing_thread_id);
             try
             {
                 _logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );
@@ -230,8 +236,6 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
-                    
-            _printing_thread_id = boost::thread::id();
         }
 
 
-- 
2.43.0


From 0c17e5d9d60281595b484c9bcbd36f87e7618ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 06/51] fix: PrefixedValueStore reports an added prefix as
 always possible

---
 sm_value_store/src/PrefixedValueStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index bb8a85f..4a49d90 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -45,6 +45,9 @@ std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
 std::string PrefixedValueStore::applyPrefix(const std::string& path, bool* isPossiblePtr) const {
   switch(mode_){
     case PrefixMode::ADD:
+      if(isPossiblePtr) {
+        *isPossiblePtr = true;
+      }
       return prefix_ + path;
     case PrefixMode::REMOVE:
       if (path.size() >= prefix_.size() && path.substr(0, prefix_.size()) == prefix_) {
-- 
2.43.0


From d2328ca0ea16e8201041d1c0230bb164af9aa57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 07/51] fix: ValueStoreRef::get never treats a deprecation
 message as a path, refuses empty lists

---
 sm_value_store/src/ValueStore.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index cb496ca..4d05e54 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -124,12 +124,15 @@ ValueStoreRef::ValueStoreRef(ValueStore::SharedPtr spVs) : _vs(spVs) {
 }
 
 std::string ValueStoreRef::findPathAndAlert(const std::vector<std::string> & pathsAndDeprecationWarnings, PathAlertHandler alertHandler) const {
+  if(pathsAndDeprecationWarnings.empty()){
+    throw std::runtime_error("ValueStoreRef was given an empty list of paths!");
+  }
   for(size_t i = 0; i < pathsAndDeprecationWarnings.size(); i++){
     const std::string & p = pathsAndDeprecationWarnings[i];
     if(!p.empty() && p[0] == '!') {
       std::string pp = p.substr(1);
+      i++; // skip deprecation message in the input
       if (hasKey(pp)) {
-        i++; // skip deprecation message in the input
         std::string message = i < pathsAndDeprecationWarnings.size() ?
             pathsAndDeprecationWarnings[i] :
             "Property name '" + pp + "' is deprecated! Use "
-- 
2.43.0


From 21507a1294a6245adb6cee695ae30670103676c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 08/51] fix: LayeredValueStore without layers answers with the
 default or an error

---
 sm_value_store/src/ValueStore.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index 4d05e54..1270813 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -59,7 +59,11 @@ ValueHandle<V> LayeredValueStore::getFromLayers(const std::string & path, boost:
      return ((&(*vs))->*Func)(path, def);
    }
  }
- return V(); // dummy, will never happen
+ // there is no layer
+ if(def) {
+   return *def;
+ }
+ SM_THROW(std::runtime_error, "Value at path '" << path << "' is not available: there are no layers");
 }
 
 bool LayeredValueStore::isChildSupported() const {
-- 
2.43.0


From c599e909de9266b15cc5cef891e8f56e61842a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 09/51] fix: PropertyTree::getChildren raises the library's
 error without an implementation

---
 sm_property_tree/src/PropertyTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_property_tree/src/PropertyTree.cpp b/sm_property_tree/src/PropertyTree.cpp
index 56def5b..d2dc9a4 100644
--- a/sm_property_tree/src/PropertyTree.cpp
+++ b/sm_property_tree/src/PropertyTree.cpp
@@ -162,6 +162,7 @@ namespace sm {
   }
 
   std::vector<ConstKeyPropertyTreePair> ConstPropertyTree::getChildren() const {
+      SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
     std::vector<ConstKeyPropertyTreePair> cchildren;
     auto children = _imp->getChildren(_namespace);
     cchildren.reserve(children.size());
@@ -172,6 +173,7 @@ namespace sm {
   }
 
   std::vector<KeyPropertyTreePair> PropertyTree::getChildren() const {
+      SM_ASSERT_TRUE(Exception, _imp, "The implementation is NULL");
     return _imp->getChildren(_namespace);
   }
   
-- 
2.43.0


From a76b9c55dbb66cf58ec28736d0508b4050f93999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 10/51] fix: BoostPropertyTreeImplementation::getChildren finds
 keys that contain a dot

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 7ff500b..4810f95 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -268,8 +268,7 @@ namespace sm {
       }
     }
     if (!k.empty()){
-      std::replace(k.begin(), k.end(), '/', '.');
-      pt = & _ptree.get_child(k);
+      pt = & _ptree.get_child(ptree::path_type(k, '/'));
     }
     for(auto& p : *pt){
       ret.push_back({p.first, PropertyTree(boost::make_shared<BoostPropertyTreeImplementation>(p.second), "")});
-- 
2.43.0


From 63fc97b5528514e08db37c4694fd1fdb45a35b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 11/51] fix: SM_ASSERT_NOTNULL and SM_ASSERT_NULL treat their
 argument as a unit

---
 sm_common/include/sm/assert_macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_common/include/sm/assert_macros.hpp b/sm_common/include/sm/assert_macros.hpp
index 8453af2..1d4df29 100755
--- a/sm_common/include/sm/assert_macros.hpp
+++ b/sm_common/include/sm/assert_macros.hpp
@@ -201,7 +201,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NOTNULL(exceptionType, value, message)     \
-  if(value == nullptr)                       \
+  if((value) == nullptr)                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " != NULL) failed: " <<  message; \
@@ -209,7 +209,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NULL(exceptionType, value, message)     \
-  if(value != nullptr)                       \
+  if((value) != nullptr)                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " == NULL) failed: " <<  message; \
-- 
2.43.0


From a8958caeb69fa1c40e08e2d7edee6c520d80aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 12/51] fix: SM_ASSERT_MAT_IS_FINITE treats its argument as a
 unit

---
 sm_eigen/include/sm/eigen/assert_macros.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/assert_macros.hpp b/sm_eigen/include/sm/eigen/assert_macros.hpp
index b7bc507..4752327 100755
--- a/sm_eigen/include/sm/eigen/assert_macros.hpp
+++ b/sm_eigen/include/sm/eigen/assert_macros.hpp
@@ -18,14 +18,14 @@
 
 #define SM_ASSERT_MAT_IS_FINITE(exceptionType, matrix, message)		\
   {									\
-  for(int r = 0; r < matrix.rows(); ++r)				\
+  for(int r = 0; r < (matrix).rows(); ++r)				\
     {									\
-      for(int c = 0; c < matrix.cols(); ++c)				\
+      for(int c = 0; c < (matrix).cols(); ++c)				\
 	{								\
-	  if(!std::isfinite(matrix(r,c)))				\
+	  if(!std::isfinite((matrix)(r,c)))				\
 	    {								\
 	      std::stringstream sm_assert_stringstream;		\
-	      sm_assert_stringstream << "debug assert( isfinite(" << #matrix << "(" << r << ", " << c << ") ) failed. [ isfinite(" << matrix(r,c) << " ) ]" << message << std::endl << matrix; \
+	      sm_assert_stringstream << "debug assert( isfinite(" << #matrix << "(" << r << ", " << c << ") ) failed. [ isfinite(" << (matrix)(r,c) << " ) ]" << message << std::endl << (matrix); \
 	      sm::detail::sm_throw_exception<exceptionType>("[" #exceptionType "] ", __FUNCTION__,__FILE__,__LINE__,sm_assert_stringstream.str()); \
 	    }								\
 	}								\
@@ -37,14 +37,14 @@
 
 #define SM_ASSERT_MAT_IS_FINITE_DBG(exceptionType, matrix, message)		\
   {									\
-  for(int r = 0; r < matrix.rows(); ++r)				\
+  for(int r = 0; r < (matrix).rows(); ++r)				\
     {									\
-      for(int c = 0; c < matrix.cols(); ++c)				\
+      for(int c = 0; c < (matrix).cols(); ++c)				\
 	{								\
-	  if(!std::isfinite(matrix(r,c)))				\
+	  if(!std::isfinite((matrix)(r,c)))				\
 	    {								\
 	      std::stringstream sm_assert_stringstream;		\
-	      sm_assert_stringstream << "assert( isfinite(" << #matrix << "(" << r << ", " << c << ") ) failed. [ isfinite(" << matrix(r,c) << " ) ]" << message << std::endl << matrix; \
+	      sm_assert_stringstream << "assert( isfinite(" << #matrix << "(" << r << ", " << c << ") ) failed. [ isfinite(" << (matrix)(r,c) << " ) ]" << message << std::endl << (matrix); \
 	      sm::detail::sm_throw_exception<exceptionType>("[" #exceptionType "] ", __FUNCTION__,__FILE__,__LINE__,sm_assert_stringstream.str()); \
 	    }								\
 	}								\
-- 
2.43.0


From 0ad2b249797344ed65bf9cb7fc57079eeda3b01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 13/51] fix: SM_ASSERT_MAT_IS_FINITE_DBG honours
 SM_ALWAYS_ASSERT

---
 sm_eigen/include/sm/eigen/assert_macros.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_eigen/include/sm/eigen/assert_macros.hpp b/sm_eigen/include/sm/eigen/assert_macros.hpp
index 4752327..a165d7d 100755
--- a/sm_eigen/include/sm/eigen/assert_macros.hpp
+++ b/sm_eigen/include/sm/eigen/assert_macros.hpp
@@ -33,7 +33,7 @@
 }
 
 
-#ifndef NDEBUG
+#if !defined(NDEBUG) || defined(SM_ALWAYS_ASSERT)
 
 #define SM_ASSERT_MAT_IS_FINITE_DBG(exceptionType, matrix, message)		\
   {									\
-- 
2.43.0


From dba5d90252f7dabfeba873f6e2c58505f0daa5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:35 +0000
Subject: [PATCH 14/51] fix: confine the arguments of asin and acos when
 extracting rotation parameters

Rounding takes matrix and quaternion entries slightly outside [-1,1], which turned the extracted angles into NaN.
---
 sm_kinematics/src/EulerAnglesYawPitchRoll.cpp | 3 ++-
 sm_kinematics/src/EulerAnglesZXY.cpp          | 4 +++-
 sm_kinematics/src/EulerAnglesZYX.cpp          | 3 ++-
 sm_kinematics/src/EulerRodriguez.cpp          | 3 ++-
 sm_kinematics/src/quaternion_algebra.cpp      | 5 +++--
 sm_kinematics/src/rotations.cpp               | 7 ++++---
 6 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp b/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
index 15ef6b5..d61cbdf 100755
--- a/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
+++ b/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
+#include <algorithm>
 
 namespace sm { namespace kinematics {
 
@@ -36,7 +37,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesYawPitchRoll::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(-rotationMatrix(2,0));
+      double phi = asin(std::max(-1.0, std::min(-rotationMatrix(2,0), 1.0)));
       double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
       double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
     
diff --git a/sm_kinematics/src/EulerAnglesZXY.cpp b/sm_kinematics/src/EulerAnglesZXY.cpp
index 577c3b6..1fc07c2 100644
--- a/sm_kinematics/src/EulerAnglesZXY.cpp
+++ b/sm_kinematics/src/EulerAnglesZXY.cpp
@@ -18,6 +18,8 @@
 
 #include "sm/kinematics/EulerAnglesZXY.h"
 
+#include <algorithm>
+
 #include <sm/assert_macros.hpp>
 
 namespace sm {
@@ -66,7 +68,7 @@ namespace sm {
 
     Eigen::Vector3d EulerAnglesZXY::rotationMatrixToParameters(
         const Eigen::Matrix3d& rotationMatrix) const {
-      const double sx = rotationMatrix(2, 1);
+      const double sx = std::max(-1.0, std::min(rotationMatrix(2, 1), 1.0));
       const double r_x = asin(sx);
       const double r_y = atan2(-rotationMatrix(2, 0), rotationMatrix(2, 2));
       const double r_z = atan2(-rotationMatrix(0, 1), rotationMatrix(1, 1));
diff --git a/sm_kinematics/src/EulerAnglesZYX.cpp b/sm_kinematics/src/EulerAnglesZYX.cpp
index b56c9ec..2862bc5 100755
--- a/sm_kinematics/src/EulerAnglesZYX.cpp
+++ b/sm_kinematics/src/EulerAnglesZYX.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/EulerAnglesZYX.hpp>
+#include <algorithm>
 
 namespace sm { namespace kinematics {
 
@@ -36,7 +37,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesZYX::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(rotationMatrix(2,0));
+      double phi = asin(std::max(-1.0, std::min(rotationMatrix(2,0), 1.0)));
       double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
       double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
     
diff --git a/sm_kinematics/src/EulerRodriguez.cpp b/sm_kinematics/src/EulerRodriguez.cpp
index ad19ee1..115faed 100755
--- a/sm_kinematics/src/EulerRodriguez.cpp
+++ b/sm_kinematics/src/EulerRodriguez.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/EulerRodriguez.hpp>
+#include <algorithm>
 
 namespace sm { namespace kinematics {
 
@@ -27,7 +28,7 @@ namespace sm { namespace kinematics {
     Eigen::Vector3d EulerRodriguez::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
     {
       Eigen::Vector3d p;
-      double a = acos( (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5));
+      double a = acos( std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5), 1.0)));
 
       if(fabs(a) < 1e-14){
 	return Eigen::Vector3d::Zero();
diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 8985046..b5a769a 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -3,6 +3,7 @@
 #include <sm/assert_macros.hpp>
 #include <Eigen/Geometry>
 #include <limits>
+#include <algorithm>
 #include <cmath>
 
 namespace sm { namespace kinematics {
@@ -436,8 +437,8 @@ namespace sm { namespace kinematics {
           double u12 = p(1)*p(1) + p(2)*p(2);//pow(p(1), 2) + pow(p(2), 2);
           double u02 = p(0)*p(0) + p(2)*p(2);//pow(p(0), 2) + pow(p(2), 2);
           double u01 = p(0)*p(0) + p(1)*p(1);//pow(p(0), 2) + pow(p(1), 2);
-          double a = acos(p(3));
-          double uw = sqrt(-(p(3)*p(3) - 1)*n*n);
+          double a = acos(std::max(-1.0, std::min(p(3), 1.0)));
+          double uw = n*n; // p is a unit quaternion: sqrt(1 - p(3)^2) is n
 
           J(0,0) = 2*a*u12 / de;
           J(0,1) = -2*a*p(1)*p(0) / de;
diff --git a/sm_kinematics/src/rotations.cpp b/sm_kinematics/src/rotations.cpp
index 26ee3f6..85e7364 100644
--- a/sm_kinematics/src/rotations.cpp
+++ b/sm_kinematics/src/rotations.cpp
@@ -1,5 +1,6 @@
 #include <sm/kinematics/rotations.hpp>
 
+#include <algorithm>
 #include <Eigen/Geometry>
 #include <sm/assert_macros.hpp>
 #include <boost/math/special_functions/fpclassify.hpp>
@@ -62,7 +63,7 @@ namespace sm { namespace kinematics {
   }
 
   Eigen::Vector3d R2rph(Eigen::Matrix3d const & C){
-    double phi = asin(C(2,0));
+    double phi = asin(std::max(-1.0, std::min(C(2,0), 1.0)));
     double theta = atan2(C(2,1),C(2,2));
     double psi = atan2(C(1,0), C(0,0));
     
@@ -194,7 +195,7 @@ namespace sm { namespace kinematics {
 
      Eigen::Vector3d rph;
 
-     rph[1] = asin(C(2,0));
+     rph[1] = asin(std::max(-1.0, std::min(C(2,0), 1.0)));
      rph[2] = atan2(-C(1,0),C(0,0));
      rph[0] = atan2(-C(2,1),C(2,2));
 
@@ -205,7 +206,7 @@ namespace sm { namespace kinematics {
    {
      Eigen::Vector3d rph;
 
-     rph[1] = asin(C(2,0));
+     rph[1] = asin(std::max(-1.0, std::min(C(2,0), 1.0)));
      rph[2] = atan2(-C(1,0),C(0,0));
      rph[0] = atan2(-C(2,1),C(2,2));
 
-- 
2.43.0


From 48d64de31513c8ae9e1627de4ad48a222cb52455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 15/51] fix: sign of the second-order term of
 sin(theta/2)/theta in axisAngle2quat

---
 sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index b5a769a..afd2085 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -210,7 +210,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
-- 
2.43.0


From 1e0c0aaab2c359828aaf655806a6f4f130a202c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 16/51] fix: arcSinXOverX used an integer division for its
 second-order coefficient

---
 sm_kinematics/src/quaternion_algebra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index afd2085..b893ec4 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -229,7 +229,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x * (Scalar_(1) / Scalar_(6));
           }
           return asin(x) / x;
         }
-- 
2.43.0


From ad50a54c13a99389f8431fd64a0cb619f22f0f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 17/51] fix: axisAngle2R(angle, axis) returned the identity for
 every negative angle

---
 sm_kinematics/src/rotations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/rotations.cpp b/sm_kinematics/src/rotations.cpp
index 85e7364..b03c02e 100644
--- a/sm_kinematics/src/rotations.cpp
+++ b/sm_kinematics/src/rotations.cpp
@@ -99,7 +99,7 @@ namespace sm { namespace kinematics {
 	
     SM_ASSERT_LT_DBG(std::runtime_error,fabs(sqrt(ax*ax + ay*ay + az*az) - 1.0), 1e-4, "The axis is not a unit vector. ||a|| = " << (sqrt(ax*ax + ay*ay + az*az)));
 		
-    if(a < 1e-12)
+    if(fabs(a) < 1e-12)
       return Eigen::Matrix3d::Identity();
     // e = [ax ay az]
     // e*(e') + (eye(3) - e*(e'))*cos(a) - crossMx(e) * sin(a) = 
-- 
2.43.0


From 1cf15a2649c278044eaecc8131c42ebd2f05aa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 18/51] fix: Jacobian of the angular velocity of a rotation
 vector was NaN at zero rotation

---
 sm_kinematics/src/RotationVector.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index c48e9e9..955afea 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -120,6 +120,15 @@ namespace sm { namespace kinematics {
 
                 //Jacobian->block(0,0,3,3) = Eigen::Matrix3d::Zero();
                 Jacobian->block(0,3,3,3) = S;
+
+                // The general formula below has a removable singularity at p = 0.
+                // Differentiate S(p) = I - p^x/2 + p^x p^x/6 - ... instead when p is small.
+                if(p.norm() < 1e-5)
+                {
+                    Jacobian->block(0,0,3,3) = 0.5 * crossMx(pdot)
+                        + (1.0/6.0) * (p.dot(pdot) * Eigen::Matrix3d::Identity() + p * pdot.transpose() - 2.0 * pdot * p.transpose());
+                    return omega;
+                }
     
                 // LAZY
                 // \todo...redo when there is time and not so lazy.
-- 
2.43.0


From b1ce8d233b8c43da615819aff0fca8025a82cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 19/51] fix: covariances of sums and differences of homogeneous
 points follow the derivative of the operation

---
 sm_kinematics/src/HomogeneousPoint.cpp         | 15 +++++++++++----
 .../src/UncertainHomogeneousPoint.cpp          | 18 ++++++++++++------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/sm_kinematics/src/HomogeneousPoint.cpp b/sm_kinematics/src/HomogeneousPoint.cpp
index babf6a3..52d51b5 100755
--- a/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/sm_kinematics/src/HomogeneousPoint.cpp
@@ -1,5 +1,6 @@
 #include <sm/kinematics/HomogeneousPoint.hpp>
 #include <sm/kinematics/quaternion_algebra.hpp>
+#include <sm/kinematics/homogeneous_coordinates.hpp>
 #include <sm/kinematics/UncertainHomogeneousPoint.hpp>
 #include <sm/serialization_macros.hpp>
 
@@ -50,8 +51,10 @@ namespace sm {
       Eigen::Vector4d rval;
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
-      
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+
+      Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
 
     }
       
@@ -64,8 +67,12 @@ namespace sm {
       Eigen::Vector4d rval;
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
-      
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+
+      // The derivative of the difference with respect to the right hand side
+      Eigen::Matrix4d PL = -toHomogeneousMinus(_ph);
+      PL(3,3) = _ph[3];
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PL * rhs.U4() * PL.transpose()));
     }
 
 
diff --git a/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index f839f94..ecdee5a 100755
--- a/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -160,8 +160,10 @@ namespace sm {
       const Eigen::Vector4d & pr = rhs.toHomogeneous();
       rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
       rval[3] = _ph[3] * pr[3];
-      
-      return UncertainHomogeneousPoint(rval, U4());
+
+      Eigen::Matrix4d PR = toHomogeneousPlus(pr);
+
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
     }
     
@@ -174,8 +176,10 @@ namespace sm {
 	const Eigen::Vector4d & pr = rhs.toHomogeneous();
 	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
 	rval[3] = _ph[3] * pr[3];
-	
-	return UncertainHomogeneousPoint(rval, U4());
+
+	Eigen::Matrix4d PR = toHomogeneousMinus(pr);
+
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));
 
       }
 
@@ -203,8 +207,10 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
-	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	// The derivative of the difference with respect to the right hand side
+	Eigen::Matrix4d PL = -toHomogeneousMinus(_ph);
+	PL(3,3) = _ph[3];
+	Eigen::Matrix4d PR = toHomogeneousMinus(rhs._ph);
 	
 	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
 	
-- 
2.43.0


From 730d88138240d015ccd4c7d4e659a8f881a6a95e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:43:15 +0000
Subject: [PATCH 20/51] fix: isValid reported valid times as invalid, and the
 invalid time could not be used outside its source file

---
 sm_timing/include/sm/timing/NsecTimeUtilities.hpp | 5 ++++-
 sm_timing/src/NsecTimeUtilities.cpp               | 6 +-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
index 7a7d859..c63c9fa 100644
--- a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
+++ b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
@@ -11,6 +11,7 @@
 #define SM_NSEC_TIME_UTILITIES
 
 #include <chrono>
+#include <limits>
 #include <boost/cstdint.hpp>
 
 namespace sm {
@@ -35,7 +36,9 @@ double nsecToSec( const NsecTime & time );
 NsecTime secToNsec( const double & time );
 
 /// \brief return a magic number representing an invalid timestamp
-constexpr NsecTime getInvalidTime();
+constexpr NsecTime getInvalidTime() {
+  return std::numeric_limits<NsecTime>::min();
+}
 
 /// \brief Is the time valid? This uses a magic number
 ///        std::numeric_limits<NsecTime>::min() to represent an invalid time
diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index b4d870c..817e8d6 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -35,12 +35,8 @@ NsecTime secToNsec( const double & time ) {
   return boost::int64_t( time * 1e9 );
 }
 
-constexpr NsecTime getInvalidTime() {
-  return std::numeric_limits<NsecTime>::min();
-}
-
 bool isValid(const NsecTime& time) {
-   return getInvalidTime() == time;
+   return getInvalidTime() != time;
 }
 
 } // namespace timing
-- 
2.43.0


From 44fc26577efb9db8e86406742bea263ad59921c9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:43:15 +0000
Subject: [PATCH 21/51] fix: ptimeToTimeval returned nothing and was defined in
 every including file

---
 sm_boost/include/sm/boost/ptime.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sm_boost/include/sm/boost/ptime.hpp b/sm_boost/include/sm/boost/ptime.hpp
index 3831f58..fc7fa52 100644
--- a/sm_boost/include/sm/boost/ptime.hpp
+++ b/sm_boost/include/sm/boost/ptime.hpp
@@ -5,7 +5,7 @@
 
 namespace sm {
     
-    timeval ptimeToTimeval(const boost::posix_time::ptime time)
+    inline timeval ptimeToTimeval(const boost::posix_time::ptime time)
     {
         static const boost::posix_time::ptime UNIX_EPOCH(boost::gregorian::date(1970,1,1));
         
@@ -14,9 +14,7 @@ namespace sm {
         timeval tv;
         tv.tv_sec = duration.total_seconds();
         tv.tv_usec = duration.fractional_seconds();
-        
-        
-        
+        return tv;
     }
 
     
-- 
2.43.0


From 26579713d4b7dc2ea0a1ba6d52e96aef164c1fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 22/51] fix: the clock correction read beyond its points after
 they had shrunk to two

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index a2604b0..76b8d3b 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -52,6 +52,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
   }
   else {
     // and if there aren't enough data points, just return the sampled local time.
+    _midpointSegmentIndex = 0u;
     return localTime;
   }
 
-- 
2.43.0


From d3ff9abf8cb151473fd3c8f427938f198cb90b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 23/51] fix: resetting the clock correction kept its pending
 correction with the old samples

---
 sm_timing/include/sm/timing/TimestampCorrector.hpp         | 7 +++++--
 .../sm/timing/implementation/TimestampCorrector.hpp        | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sm_timing/include/sm/timing/TimestampCorrector.hpp b/sm_timing/include/sm/timing/TimestampCorrector.hpp
index 6572044..83899e5 100755
--- a/sm_timing/include/sm/timing/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/TimestampCorrector.hpp
@@ -92,9 +92,9 @@ namespace sm {
       time_t span() const;
 
       /**
-       * Clear the points of the convex hull
+       * Forget all samples
        */
-      void reset() { _convexHull.clear(); _midpointSegmentIndex = 0; }
+      void reset() { clearHull(); _pendingCorrector.reset(); }
 
       double getSlope() const;
       double getOffset() const;
@@ -146,6 +146,9 @@ namespace sm {
        */
       bool isAboveLine(const Point& l1, const Point& l2, const Point& p) const;
 
+      /// Clear the points of the convex hull
+      void clearHull() { _convexHull.clear(); _midpointSegmentIndex = 0; }
+
       typedef std::vector< Point > convex_hull_t;
       convex_hull_t _convexHull;
       std::shared_ptr<TimestampCorrector<time_t>> _pendingCorrector;
diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 76b8d3b..217c7ea 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -75,7 +75,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
 
   if (this->span() > switchingPeriod)
   {
-    reset();
+    clearHull();
     _pendingCorrector->_pendingCorrector = _pendingCorrector;
     std::swap(*_pendingCorrector, *this);
     _pendingCorrector->_pendingCorrector.reset();
-- 
2.43.0


From b8b6d45058ca768c2a297a4d1d7954d700100f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:02 +0000
Subject: [PATCH 24/51] fix: the member comparison macros ended every && they
 were used in

SM_CHECKMEMBERSSAME(rhs, a) && SM_CHECKMEMBERSSAME(rhs, b) expanded to an
unparenthesised conditional expression, so b was never compared when a was
the same: two Transformations with equal rotations and different
translations were binary equal. The variants with the VERBOSE argument lacked
the same parentheses, and the member one a closing one as well.
---
 sm_common/include/sm/serialization_macros.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sm_common/include/sm/serialization_macros.hpp b/sm_common/include/sm/serialization_macros.hpp
index c0f1385..d16b8d6 100644
--- a/sm_common/include/sm/serialization_macros.hpp
+++ b/sm_common/include/sm/serialization_macros.hpp
@@ -320,11 +320,11 @@ struct VerboseChecker {
     SET_CHECKSAME_VERBOSITY(false)
 
 #define SM_SERIALIZATION_CHECKSAME_VERBOSE(THIS, OTHER, VERBOSE) \
-    SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-    SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
+    (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
+        SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER))
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
+        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From 5c428ade7753d09065e16794b1837a61af7ff358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 25/51] fix: loading an empty matrix with dynamic columns read
 data that is never saved

save() leaves the coefficients out when the matrix is empty; the overload of
load() for dynamic columns read them unconditionally and took the address of
a coefficient that does not exist.
---
 sm_eigen/include/sm/eigen/serialization.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/serialization.hpp b/sm_eigen/include/sm/eigen/serialization.hpp
index a41e059..57986c4 100755
--- a/sm_eigen/include/sm/eigen/serialization.hpp
+++ b/sm_eigen/include/sm/eigen/serialization.hpp
@@ -142,8 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
-
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
     }
 
     /// 
-- 
2.43.0


From 64b05b2089b6c70024bf5c61e31f8613b9af93d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 26/51] fix: a name in a matrix archive could denote a matrix
 and a string at once

setScalar, setVector, createMatrix and load left an entry of the other kind
behind, so saving the archive wrote two blocks of the same name; clear(name)
erased the matrix twice and never the string; createMatrix let in names that
the check on names refuses, which made the archive impossible to save.
---
 sm_matrix_archive/include/sm/MatrixArchive.hpp | 1 +
 sm_matrix_archive/src/MatrixArchive.cpp        | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sm_matrix_archive/include/sm/MatrixArchive.hpp b/sm_matrix_archive/include/sm/MatrixArchive.hpp
index ab42f84..64c2ad4 100644
--- a/sm_matrix_archive/include/sm/MatrixArchive.hpp
+++ b/sm_matrix_archive/include/sm/MatrixArchive.hpp
@@ -134,6 +134,7 @@ namespace sm {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
       m_values[vectorName] = vector;
+      m_strings.erase(vectorName);
     }
 
   } // end namespace sm
diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 2f6950d..3ba9e48 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -31,7 +31,7 @@ namespace sm
   // clears a specific value from the archive.
   void MatrixArchive::clear(std::string const & entryName)
   {
-    m_values.erase(entryName);
+    m_strings.erase(entryName);
     m_values.erase(entryName);
   }
 
@@ -41,6 +41,7 @@ namespace sm
     Eigen::MatrixXd & M = m_values[scalarName];
     M.resize(1,1);
     M(0,0) = scalar;
+    m_strings.erase(scalarName);
   }
   
   void MatrixArchive::setString(std::string const & stringName, std::string const & value)
@@ -73,8 +74,10 @@ namespace sm
       }
     }
 
+    validateName(matrixName, SM_SOURCE_FILE_POS);
     Eigen::MatrixXd & val = m_values[matrixName];
     val.resize(rows, cols);
+    m_strings.erase(matrixName);
     return val;
   }
 
@@ -425,9 +428,11 @@ namespace sm
         switch(blockType){
           case MATRIX:
             m_values[name] = matrix;
+            m_strings.erase(name);
             break;
           case STRING:
             m_strings[name] = valueString;
+            m_values.erase(name);
             break;
         }
       }
-- 
2.43.0


From 955de77e95760364514ebbeaa30f68e6bc3fa08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:08 +0000
Subject: [PATCH 27/51] fix: the check on names passed negative values to
 isalpha and isalnum

A char outside of ASCII is negative here; the behaviour of the character
classification functions is undefined for those.
---
 sm_matrix_archive/src/MatrixArchive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 3ba9e48..f81d58c 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -152,11 +152,11 @@ namespace sm
       SM_THROW(MatrixArchiveException, "The name \"" << name << "\" is an incorrect size. Names length must be between 1 and " << s_fixedNameSize);
     }
 
-    SM_ASSERT_TRUE(MatrixArchiveException, isalpha(name[0]), "The name \"" << name << "\" is invalid. The first character of the name must be a letter");
+    SM_ASSERT_TRUE(MatrixArchiveException, isalpha((unsigned char)name[0]), "The name \"" << name << "\" is invalid. The first character of the name must be a letter");
 
     for(unsigned i = 1; i < name.size(); i++)
     {
-      SM_ASSERT_TRUE(MatrixArchiveException, isalnum(name[i]) || name[i] == '_', "The name \"" << name << "\" is invalid. The characters of the name must be alphanumeric or an underscore. (failed at character " << i << ")");
+      SM_ASSERT_TRUE(MatrixArchiveException, isalnum((unsigned char)name[i]) || name[i] == '_', "The name \"" << name << "\" is invalid. The characters of the name must be alphanumeric or an underscore. (failed at character " << i << ")");
     }
   }
 
-- 
2.43.0


From 54aca28757d57e728cad9e342ab91f67ec624263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:08 +0000
Subject: [PATCH 28/51] fix: the size of a matrix's data was computed in 32
 bits

A matrix of 4 GB or more was saved with part of its data missing.
---
 sm_matrix_archive/src/MatrixArchive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index f81d58c..fe95461 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -221,7 +221,7 @@ namespace sm
     fout.write(reinterpret_cast<const char *>(&cols), 4);
 
     // data
-    boost::uint32_t dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = (std::streamsize)rows * cols * sizeof(double);
     fout.write(reinterpret_cast<const char *>(matrix.data()),dataSize);
 
     // std::cout << "Writing matrix " << name << ", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl;
@@ -247,7 +247,7 @@ namespace sm
     // data
 
     matrix.resize(rows,cols);
-    std::streamsize dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = (std::streamsize)rows * cols * sizeof(double);
     //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
     fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
   }
-- 
2.43.0


From 7d88fd370a9912db44140331dbf5690fc1976f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:08 +0000
Subject: [PATCH 29/51] fix: a matrix archive did not notice that its file was
 truncated or not fully written

Reading used sizes, names, data and block markers without looking at the
stream: a truncated file set the dimensions of a matrix from uninitialised
variables, and passed when the last marker happened to remain from another
block. Saving did not look at the outcome of closing the file, which is when
most of the data is written.
---
 sm_matrix_archive/src/MatrixArchive.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index fe95461..79651b2 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -243,6 +243,7 @@ namespace sm
     // 4 byte columns
     boost::uint32_t cols;
     fin.read(reinterpret_cast<char *>(&cols),4);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "Error while reading the size of a matrix");
     
     // data
 
@@ -250,6 +251,7 @@ namespace sm
     std::streamsize dataSize = (std::streamsize)rows * cols * sizeof(double);
     //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
     fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "Error while reading the data of a matrix");
   }
 
   void MatrixArchive::writeStringBlock(std::ostream & fout, std::string const & name, std::string const & stringValue) const
@@ -274,10 +276,12 @@ namespace sm
     // 4 byte rows
     boost::uint32_t stringSize;
     fin.read(reinterpret_cast<char *>(&stringSize),4);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "Error while reading the size of a string");
 
     // data
     stringValue.resize(stringSize);
     fin.read(&stringValue[0], stringSize);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "Error while reading the data of a string");
   }
 
   MatrixArchive::BlockType MatrixArchive::readBlock(std::istream & fin, std::string & name, Eigen::MatrixXd & matrix, std::string & stringValue) const
@@ -285,6 +289,7 @@ namespace sm
     char start, end;
     // start character
     fin.read(&start,1);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "Error while reading the start of a block");
     BlockType blockType;
     if(start == s_magicCharStartAStringBlock){
       blockType = STRING;
@@ -298,6 +303,7 @@ namespace sm
     char nameBuffer[s_fixedNameSize + 1];
     nameBuffer[s_fixedNameSize] = '\0';
     fin.read(nameBuffer,(std::streamsize)s_fixedNameSize);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "Error while reading the name of a block");
     name = nameBuffer;
     boost::trim(name);
 
@@ -312,6 +318,7 @@ namespace sm
 
     // end character
     fin.read(&end,1);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "Error while reading the end of a block");
     SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn't end with the expected character");
     return blockType;
   }
@@ -369,6 +376,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   void MatrixArchive::save(std::ostream & fout, std::set<std::string> const & validNames) const
-- 
2.43.0


From 863a87ecd563b101605358fc888e5b86edc03195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:08 +0000
Subject: [PATCH 30/51] fix: appending a matrix archive to a file wrote nothing

append() opened the file and returned.
---
 sm_matrix_archive/src/MatrixArchive.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 79651b2..c32a75f 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -449,10 +449,15 @@ namespace sm
 
   }
 
-  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & /* validNames */) const
+  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & validNames) const
   {
     std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary | std::ios::app);
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
+
+    save(fout, validNames);
+
+    fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From d5edb53d3e9b644ce77b9db54c7e7749425490e8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:00:55 +0000
Subject: [PATCH 31/51] fix: sm::random::randLUi returned values outside
 intervals wider than INT_MAX

---
 sm_random/src/random.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_random/src/random.cpp b/sm_random/src/random.cpp
index 6b9a5d2..8040a26 100755
--- a/sm_random/src/random.cpp
+++ b/sm_random/src/random.cpp
@@ -82,7 +82,8 @@ double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
 {
-  return (int)floor(Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive;
+  // In double: the width of an interval of ints does not fit an int.
+  return (int)(floor(Random::instance().uniform() * ((double)upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive);
 }
 
 void seed(boost::uint64_t s)
-- 
2.43.0


From 45e0f503c68a95155860c74cf791c0b05d88a92d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:05:40 +0000
Subject: [PATCH 32/51] fix: sm/round.hpp did not include what it uses

---
 sm_common/include/sm/round.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_common/include/sm/round.hpp b/sm_common/include/sm/round.hpp
index 6e8860e..42c94fe 100644
--- a/sm_common/include/sm/round.hpp
+++ b/sm_common/include/sm/round.hpp
@@ -1,6 +1,8 @@
 #ifndef SM_ROUND_HPP
 #define SM_ROUND_HPP
 
+#include <cmath>
+
 namespace sm {
     
     inline double round (double number)
-- 
2.43.0


From 7758ab26e096e67aef0d6e1ebe6f2d7c4559c883 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:05:40 +0000
Subject: [PATCH 33/51] fix: sm/logging/LogLocation.hpp did not include what it
 uses

---
 sm_logging/include/sm/logging/LogLocation.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_logging/include/sm/logging/LogLocation.hpp b/sm_logging/include/sm/logging/LogLocation.hpp
index 6ebb9f3..056b7e6 100644
--- a/sm_logging/include/sm/logging/LogLocation.hpp
+++ b/sm_logging/include/sm/logging/LogLocation.hpp
@@ -1,6 +1,9 @@
 #ifndef SM_LOGGING_LOG_LOCATION_HPP
 #define SM_LOGGING_LOG_LOCATION_HPP
 
+#include <string>
+#include <sm/logging/Levels.hpp>
+
 namespace sm {
     namespace logging {
         struct LogLocation
-- 
2.43.0


From 49cbc8be436ee005fdb27526f4f13f8253a65368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 34/51] fix: SM_ASSERT_CMD negates its whole condition

---
 sm_logging/include/sm/logging/assert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_logging/include/sm/logging/assert.h b/sm_logging/include/sm/logging/assert.h
index 46c2c68..a4766d0 100644
--- a/sm_logging/include/sm/logging/assert.h
+++ b/sm_logging/include/sm/logging/assert.h
@@ -134,7 +134,7 @@
 
 #define SM_ASSERT_CMD(cond, cmd) \
   do { \
-    if (!cond) { \
+    if (!(cond)) { \
       cmd; \
     } \
   } while (0)
-- 
2.43.0


From 6f1981e1dd9bc8af4e41f33310db5e0bc05c0f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:39 +0000
Subject: [PATCH 35/51] fix: log macros take any expression as severity and
 rate

---
 sm_logging/include/sm/logging/console.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index a3ee496..9d06bd2 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -70,7 +70,7 @@ namespace sm
     {                                                                   \
         ::sm::logging::g_logging_globals.initializeLogLocation(&loc, name, level); \
     }                                                                   \
-    if (SM_UNLIKELY(loc._level != level))                               \
+    if (SM_UNLIKELY(loc._level != (level)))                             \
     {                                                                   \
         ::sm::logging::g_logging_globals.setLogLocationLevel(&loc, level);             \
         ::sm::logging::g_logging_globals.checkLogLocationEnabled(&loc);                \
@@ -178,7 +178,7 @@ namespace sm
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
         double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + (rate) <= now)) \
         {                                                               \
             last_hit = now;                                             \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);                   \
@@ -198,7 +198,7 @@ namespace sm
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
         double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + (rate) <= now)) \
         {                                                               \
             last_hit = now;                                             \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);                   \
-- 
2.43.0


From a07ad955d645e6b5a8d6d574572c3b5fa5cb1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:51 +0000
Subject: [PATCH 36/51] fix: log macros do not capture the caller's variables

---
 sm_logging/include/sm/logging/console.hpp | 52 +++++++++++------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index 9d06bd2..35f1ab2 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -65,20 +65,20 @@ namespace sm
 
 
 #define SMCONSOLE_DEFINE_LOCATION(cond, level, name)                    \
-    static ::sm::logging::LogLocation loc;                              \
-    if (SM_UNLIKELY(!loc._initialized))                                 \
+    static ::sm::logging::LogLocation sm_log_loc___;                    \
+    if (SM_UNLIKELY(!sm_log_loc___._initialized))                       \
     {                                                                   \
-        ::sm::logging::g_logging_globals.initializeLogLocation(&loc, name, level); \
+        ::sm::logging::g_logging_globals.initializeLogLocation(&sm_log_loc___, name, level); \
     }                                                                   \
-    if (SM_UNLIKELY(loc._level != (level)))                             \
+    if (SM_UNLIKELY(sm_log_loc___._level != (level)))                   \
     {                                                                   \
-        ::sm::logging::g_logging_globals.setLogLocationLevel(&loc, level);             \
-        ::sm::logging::g_logging_globals.checkLogLocationEnabled(&loc);                \
+        ::sm::logging::g_logging_globals.setLogLocationLevel(&sm_log_loc___, level);   \
+        ::sm::logging::g_logging_globals.checkLogLocationEnabled(&sm_log_loc___);      \
     }                                                                   \
-    bool enabled = loc._loggerEnabled && (cond);
+    bool sm_log_enabled___ = sm_log_loc___._loggerEnabled && (cond);
 
 #define SMCONSOLE_PRINT_AT_LOCATION(...)                      \
-    ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), loc._level, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__, __VA_ARGS__)
+    ::sm::logging::g_logging_globals.print(sm_log_loc___._streamName.c_str(), sm_log_loc___._level, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__, __VA_ARGS__)
 
 
 #define SMCONSOLE_PRINT_STREAM_AT_LOCATION(args)                        \
@@ -86,7 +86,7 @@ namespace sm
     {                                                                   \
         ::sm::logging::vectorstream ss___;                              \
          ss___ << args;                                                 \
-        ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), loc._level, ss___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__); \
+        ::sm::logging::g_logging_globals.print(sm_log_loc___._streamName.c_str(), sm_log_loc___._level, ss___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__); \
     } while (0)
 
 
@@ -104,7 +104,7 @@ namespace sm
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(cond, level, name);   \
                                                         \
-        if (SM_UNLIKELY(enabled))                       \
+        if (SM_UNLIKELY(sm_log_enabled___))             \
         {                                               \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);   \
         }                                               \
@@ -123,7 +123,7 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(cond, level, name);   \
-        if (SM_UNLIKELY(enabled))                       \
+        if (SM_UNLIKELY(sm_log_enabled___))             \
         {                                               \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                               \
@@ -139,10 +139,10 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static bool hit = false;                        \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit))  \
+        static bool sm_log_hit___ = false;              \
+        if (SM_UNLIKELY(sm_log_enabled___) && SM_UNLIKELY(!sm_log_hit___)) \
         {                                               \
-            hit = true;                                 \
+            sm_log_hit___ = true;                       \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);   \
         }                                               \
     } while(0)
@@ -157,10 +157,10 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static bool hit = false;                        \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit))  \
+        static bool sm_log_hit___ = false;              \
+        if (SM_UNLIKELY(sm_log_enabled___) && SM_UNLIKELY(!sm_log_hit___)) \
         {                                               \
-            hit = true;                                 \
+            sm_log_hit___ = true;                       \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                               \
     } while(0)
@@ -176,11 +176,11 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + (rate) <= now)) \
+        static double sm_log_last_hit___ = 0.0;                         \
+        double sm_log_now___ = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        if (SM_UNLIKELY(sm_log_enabled___) && SM_UNLIKELY(sm_log_last_hit___ + (rate) <= sm_log_now___)) \
         {                                                               \
-            last_hit = now;                                             \
+            sm_log_last_hit___ = sm_log_now___;                         \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);                   \
         }                                                               \
     } while(0)
@@ -196,11 +196,11 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + (rate) <= now)) \
+        static double sm_log_last_hit___ = 0.0;                         \
+        double sm_log_now___ = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        if (SM_UNLIKELY(sm_log_enabled___) && SM_UNLIKELY(sm_log_last_hit___ + (rate) <= sm_log_now___)) \
         {                                                               \
-            last_hit = now;                                             \
+            sm_log_last_hit___ = sm_log_now___;                         \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);                   \
         }                                                               \
     } while(0)
@@ -217,7 +217,7 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        if (SM_UNLIKELY(enabled) )                                      \
+        if (SM_UNLIKELY(sm_log_enabled___) )                            \
         {                                                               \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                                               \
-- 
2.43.0


From 3a950d254de254328c36e44f6cdb4de372f85294 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:45:33 +0000
Subject: [PATCH 37/51] fix: HashId::fromHexString refuses text that is not
 hexadecimal

---
 sm_common/include/sm/hash_id.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_common/include/sm/hash_id.hpp b/sm_common/include/sm/hash_id.hpp
index a0f08b9..c65499f 100644
--- a/sm_common/include/sm/hash_id.hpp
+++ b/sm_common/include/sm/hash_id.hpp
@@ -77,6 +77,9 @@ class HashId {
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    if (hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos){
+      return false;
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       val_.c[i] = static_cast<unsigned char>(
           stoul(std::string(hexString, 2*i, 2), 0, 16));
-- 
2.43.0


From 1f6cf51911c1ced80f3dcc520c7b77d305c1e9e6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:07:27 +0000
Subject: [PATCH 38/51] fix: character replacement ends for every text and
 skips only what it should

---
 sm_common/include/sm/string_routines.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_common/include/sm/string_routines.hpp b/sm_common/include/sm/string_routines.hpp
index ef65196..1763db7 100755
--- a/sm_common/include/sm/string_routines.hpp
+++ b/sm_common/include/sm/string_routines.hpp
@@ -17,10 +17,10 @@ namespace sm
             if(skip)
             {
                 skip--;
-                pos++;
             }
             else
                 str[pos] = replacement;
+            pos++;
         }
         return str;
     }
@@ -35,10 +35,12 @@ namespace sm
             if(skip)
             {
                 skip--;
-                pos--;
             }
             else
                 str[pos] = replacement;
+            if(pos == 0)
+                break;
+            pos--;
         }
         return str;
     }
-- 
2.43.0


From d16c64b32f9f7d749cb269eae1ec4483756fb2f8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 04:57:50 +0000
Subject: [PATCH 39/51] fix: timers measure on a clock that time zone and
 daylight saving changes do not move

---
 sm_timing/src/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index ed2595a..6d304a8 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -125,7 +125,7 @@ namespace timing {
 #ifdef SM_USE_HIGH_PERF_TIMER
     QueryPerformanceCounter(&m_time);
 #else
-    m_time = boost::posix_time::microsec_clock::local_time();
+    m_time = boost::posix_time::microsec_clock::universal_time();
 #endif
   }
   
@@ -138,7 +138,7 @@ namespace timing {
     QueryPerformanceCounter(&end);
     dt = (double)(end.QuadPart - m_time.QuadPart)*Timing::instance().m_clockPeriod;	
 #else
-    boost::posix_time::ptime now = boost::posix_time::microsec_clock::local_time();
+    boost::posix_time::ptime now = boost::posix_time::microsec_clock::universal_time();
     boost::posix_time::time_duration t = now - m_time;
     dt = ((double)t.total_nanoseconds() * 1e-9);
 #endif
-- 
2.43.0


From 01dc2d4db7f7cb720e53fd78d19a9c375b03b712 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 40/51] fix: solveQuadratic returns the double root zero
 instead of NaN

---
 sm_common/include/sm/maths.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_common/include/sm/maths.hpp b/sm_common/include/sm/maths.hpp
index 9eea956..1efc9ab 100755
--- a/sm_common/include/sm/maths.hpp
+++ b/sm_common/include/sm/maths.hpp
@@ -34,7 +34,8 @@ namespace sm {
 	n = -sqrt(bb_m_4ac) - b;
       }
 
-    return std::make_pair(n/(2*a),(2*c)/n);
+    // n is zero only if both solutions are
+    return std::make_pair(n/(2*a),n == 0.0 ? 0.0 : (2*c)/n);
 
   }
   
-- 
2.43.0


From 1e104d6eac5602c1861c7ade1d77392d78477ea2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 41/51] fix: lrint rounds doubles beyond the range of int

---
 sm_common/include/sm/round.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_common/include/sm/round.hpp b/sm_common/include/sm/round.hpp
index 42c94fe..e5d27f8 100644
--- a/sm_common/include/sm/round.hpp
+++ b/sm_common/include/sm/round.hpp
@@ -27,7 +27,7 @@ namespace sm {
 
     inline long int lrint(double number)
     {
-        return static_cast<int>( round(number) );
+        return static_cast<long int>( round(number) );
     }
 
     inline long int lrint(float number)
-- 
2.43.0


From b6d5109defe4bf2d9caaad625440a2e99bc159dd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 05:45:42 +0000
Subject: [PATCH 42/51] fix: square root of a singular covariance

computeMatrixSqrt took the square root of every pivot of the LDLT
decomposition. For a singular positive semidefinite matrix rounding leaves
the zero pivots slightly negative about as often as not, and the result was
full of NaN.
---
 sm_eigen/include/sm/eigen/matrix_sqrt.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sm_eigen/include/sm/eigen/matrix_sqrt.hpp b/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
index 01048fa..1cf70ae 100755
--- a/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
+++ b/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
@@ -33,7 +33,9 @@ namespace sm {
             Eigen::LDLT< DERIVED2 > ldlt(inMatrix.derived());
             result = ldlt.matrixL();
             result = ldlt.transpositionsP().transpose() * result;
-            result *= ldlt.vectorD().array().sqrt().matrix().asDiagonal();
+            // Rounding can leave the zero pivots of a singular matrix slightly negative.
+            typedef typename DERIVED2::Scalar scalar_t;
+            result *= ldlt.vectorD().cwiseMax(scalar_t(0)).cwiseSqrt().asDiagonal();
             
             //return ldlt.info();
             
-- 
2.43.0


From 56dd1bc97c7334746ca0ed751d2aea48551b9936 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 05:57:25 +0000
Subject: [PATCH 43/51] fix: an incomplete file of a serialised object is an
 error

save, save_txt and save_xml left what the archive and the file stream still
held to their destructors, so that on a full disk they returned normally and
left an empty or truncated file behind.
---
 sm_boost/include/sm/boost/serialization.hpp | 28 +++++++++++++--------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/sm_boost/include/sm/boost/serialization.hpp b/sm_boost/include/sm/boost/serialization.hpp
index 9eeecd0..b236ee3 100755
--- a/sm_boost/include/sm/boost/serialization.hpp
+++ b/sm_boost/include/sm/boost/serialization.hpp
@@ -21,9 +21,12 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::binary_oarchive oa(ofs);
-    
-            oa << object;
+            {
+                ::boost::archive::binary_oarchive oa(ofs);
+                oa << object;
+            }
+            ofs.flush();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
         }
 
         template<typename T>
@@ -44,9 +47,12 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::text_oarchive oa(ofs);
-    
-            oa << object;
+            {
+                ::boost::archive::text_oarchive oa(ofs);
+                oa << object;
+            }
+            ofs.flush();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
         }
 
         template<typename T>
@@ -67,14 +73,16 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str());
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::xml_oarchive oa(ofs);
             if(topLevelXmlTag.size() == 0)
             {
                 topLevelXmlTag = "object";
             }
-
-            oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
-
+            {
+                ::boost::archive::xml_oarchive oa(ofs);
+                oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
+            }
+            ofs.flush();
+            SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write file " << filename);
         }
 
         template<typename T>
-- 
2.43.0


From 3757fbe01336a8409fb9763c1c1360e2e3309d28 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:34:07 +0000
Subject: [PATCH 44/51] fix: overloads of * in Python prefer the uncertain
 argument

---
 sm_python/src/exportTransformation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index 5fe95ec..ef643c2 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -47,10 +47,10 @@ void exportTransformation()
       // the list in reverse order looking for a match. If the
       // Eigen export is first, the others are disabled.
       //.def(self * Eigen::Vector4d())
-    .def(self * UncertainTransformation())
     .def(self * self)
-    .def(self * UncertainHomogeneousPoint())
+    .def(self * UncertainTransformation())
     .def(self * HomogeneousPoint())
+    .def(self * UncertainHomogeneousPoint())
       .def(self * Eigen::Vector3d())
       //.def(self * Eigen::Vector4d())
       .def("checkTransformationIsValid", &Transformation::checkTransformationIsValid)
@@ -72,10 +72,10 @@ void exportTransformation()
     .def(init<const Eigen::Vector4d &, const Eigen::Vector3d>())
       .def("save", &saveobj<UncertainTransformation>)
       .def("load", &loadobj<UncertainTransformation>)
+    .def(self * Transformation())
     .def(self * self)
-    .def(self * UncertainHomogeneousPoint())
     .def(self * HomogeneousPoint())
-    .def(self * Transformation())
+    .def(self * UncertainHomogeneousPoint())
     //.def(self * Eigen::Vector3d())
     //.def(self * Eigen::Vector4d())
     .def("inverse",&UncertainTransformation::inverse)
-- 
2.43.0


From 54c7f4294380cb59b08c2483c7dae7d53f1a8e82 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:34:07 +0000
Subject: [PATCH 45/51] fix: inverse of an uncertain transformation in Python
 keeps its uncertainty

---
 sm_python/src/exportTransformation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index ef643c2..2bdb59f 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -87,7 +87,6 @@ void exportTransformation()
     .def("t", &Transformation::t, return_value_policy<copy_const_reference>())
     .def("q", &Transformation::q, return_value_policy<copy_const_reference>())
     .def("T3x4", &Transformation::T3x4)
-    .def("inverse", &Transformation::inverse)
     .def("setIdentity", &Transformation::setIdentity)
     .def("setRandom", setRandom1)
     .def("setRandom", setRandom2)
-- 
2.43.0


From a0f44582080d41215f19c6f6e9f3a7a619e6ef71 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:34:07 +0000
Subject: [PATCH 46/51] fix: logVerbose in Python uses the level Verbose

---
 sm_python/python/sm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/python/sm/__init__.py b/sm_python/python/sm/__init__.py
index 8841ffa..64efc28 100755
--- a/sm_python/python/sm/__init__.py
+++ b/sm_python/python/sm/__init__.py
@@ -29,7 +29,7 @@ def logFinest(message):
     log(LoggingLevel.Finest, message, stackdepth=2)
     
 def logVerbose(message):
-    log(LoggingLevel.FineVerbose, message, stackdepth=2)
+    log(LoggingLevel.Verbose, message, stackdepth=2)
     
 def logFiner(message):
     log(LoggingLevel.Finer, message, stackdepth=2)
-- 
2.43.0


From 0e98c709c62a22aceb296f2caa2334351820e3b5 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:34:15 +0000
Subject: [PATCH 47/51] fix: ConstPropertyTree.getChild in Python takes a
 ConstPropertyTree

---
 sm_python/src/exportPropertyTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/src/exportPropertyTree.cpp b/sm_python/src/exportPropertyTree.cpp
index d769dad..4924bd5 100755
--- a/sm_python/src/exportPropertyTree.cpp
+++ b/sm_python/src/exportPropertyTree.cpp
@@ -39,7 +39,7 @@ void exportPropertyTree() {
   using namespace sm;
 
   class_<ConstPropertyTree>("ConstPropertyTree", init<const ConstPropertyTree &, const std::string &>("ConstPropertyTree(ConstPropertyTree parent, string childNamespace)"))
-      .def("getChild", &PropertyTree::getChild)
+      .def("getChild", &ConstPropertyTree::getChild)
       .def("getInt", &getInt).def("getIntDefault", &getIntDefault)
       .def("getString", &getString)
       .def("getStringDefault", &getStringDefault)
-- 
2.43.0


From 5882fce9684c5a06a9797784ca0164b4074e99b8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:35:39 +0000
Subject: [PATCH 48/51] fix: pickling an uncertain transformation keeps its
 uncertainty

---
 sm_python/src/exportTransformation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index 2bdb59f..090669a 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -91,7 +91,7 @@ void exportTransformation()
     .def("setRandom", setRandom1)
     .def("setRandom", setRandom2)
     .def("S", &Transformation::S)
-
+    .def_pickle( sm::python::pickle_suite<UncertainTransformation>() )
     ;
 
 }
-- 
2.43.0


From 357a07327297ba9129d5c33c71187e145d0987b9 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 07:15:08 +0000
Subject: [PATCH 49/51] fix: an image that is one row of a larger one is saved
 without the bytes beside it

A single row counts as continuous although step is the distance between the rows of
the larger image: step*rows bytes were saved, more than load reads and possibly more
than the image holds.
---
 sm_opencv/include/sm/opencv/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_opencv/include/sm/opencv/serialization.hpp b/sm_opencv/include/sm/opencv/serialization.hpp
index 9134e96..52d4f62 100755
--- a/sm_opencv/include/sm/opencv/serialization.hpp
+++ b/sm_opencv/include/sm/opencv/serialization.hpp
@@ -123,7 +123,7 @@ namespace boost
       ar & make_nvp("rows",mat_.rows);
       ar & make_nvp("cols",mat_.cols);
       ar & make_nvp("type",type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.step*mat_.rows));
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.total()*mat_.elemSize()));
     }
  
     template<class Archive>
-- 
2.43.0


From 683c21de84c032d5f400db82d2fe706ac2e37dae Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 07:15:08 +0000
Subject: [PATCH 50/51] fix: an image is loaded into storage of its own

create keeps the storage of an image that already has the size and type. If that is a
part of a larger image, its rows are not adjacent, and reading step*rows bytes in one
block overwrote the surroundings (and memory behind the end).
---
 sm_opencv/include/sm/opencv/serialization.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_opencv/include/sm/opencv/serialization.hpp b/sm_opencv/include/sm/opencv/serialization.hpp
index 52d4f62..829b8a0 100755
--- a/sm_opencv/include/sm/opencv/serialization.hpp
+++ b/sm_opencv/include/sm/opencv/serialization.hpp
@@ -133,6 +133,7 @@ namespace boost
       ar & make_nvp("rows",rows);
       ar & make_nvp("cols",cols);
       ar & make_nvp("type",type);
+      mat.release();  // create would keep the storage of a part of another image, whose rows are not adjacent
       mat.create(rows, cols, type);
       ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.step*mat.rows));
     }
-- 
2.43.0


From 328faf8f8967b7a98b812ef1a443e0b552e33204 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 08:16:00 +0000
Subject: [PATCH 51/51] fix: compareRelative accepted a NaN or a single
 infinity as equal to any number

---
 sm_eigen/include/sm/eigen/gtest.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/gtest.hpp b/sm_eigen/include/sm/eigen/gtest.hpp
index 9c13b4e..e8de381 100755
--- a/sm_eigen/include/sm/eigen/gtest.hpp
+++ b/sm_eigen/include/sm/eigen/gtest.hpp
@@ -108,13 +108,15 @@ namespace sm { namespace eigen {
 	  // \todo: does anyone have a better idea?
       double fa = fabs(a);
       double fb = fabs(b);
-      if( (fa < 1e-15 && fb < 1e-15) ||  // Both zero.
+      if( a == b ||                      // Covers equal infinities.
+		  (fa < 1e-15 && fb < 1e-15) ||  // Both zero.
 		  (fa == 0.0  && fb < 1e-6)  ||  // One exactly zero and the other small
 		  (fb == 0.0  && fa < 1e-6) )    // ditto
 		return true;
       
       double diff = fabs(a - b)/std::max(fa,fb);
-      if(diff > percentTolerance * 1e-2)
+      // Negated, so that a NaN (an operand that is NaN or a single infinity) does not compare as equal.
+      if(!(diff <= percentTolerance * 1e-2))
 		{
 		  if(percentError)
 			*percentError = diff * 100.0;
-- 
2.43.0

