J = "sm_boost/src/JobQueue.cpp"
I = "sm_boost/include/sm/boost/implementation/JobQueue.hpp"
F = "            boost::function<void ()> f = q_.front();\n            q_.pop_front();\n"
CALL = "            f(); \n            lck.lock();"
CASES = [
 ("J04", "bug", J, F, "            boost::function<void ()> f = q_.back();\n            q_.pop_back();\n"),
 ("J04", "bug", J, F, "            boost::function<void ()> f = q_.back();\n            q_.pop_front();\n"),
 ("J04", "bug", J, F, "            boost::function<void ()> f = q_.front();\n            if(q_.size() > 1) q_.pop_front(); else q_.clear();\n            if(q_.size() > 7) q_.pop_front();\n"),
 ("J04", "bug", J, F, "            boost::function<void ()> f = q_.front();\n            q_.clear();\n"),
 ("J04", "bug", J, F, "            boost::function<void ()> f = q_.front();\n            lck.unlock(); lck.lock();\n            q_.pop_front();\n"),
 ("J04", "bug", J, F, "            boost::function<void ()> f = q_.front();\n            if(activeThreads_) q_.pop_front();\n"),
 ("J04", "bug", J, CALL, "            f(); f();\n            lck.lock();"),
 ("J04", "bug", J, CALL, "            if(!killWorkers_) f();\n            lck.lock();"),
 ("J04", "bug", J, CALL, "            lck.lock();"),
 ("J04", "bug", J, "q_.push_back(fn);", "q_.push_front(fn);"),
 ("J04", "bug", J, "q_.push_back(fn);", "if(q_.size() < 1000) q_.push_back(fn);"),
 ("J04", "bug", J, "q_.push_back(fn);", "q_.push_back(fn); if(!threadsInPool_) q_.push_back(fn);"),
 ("J04", "bug", J, "q_.push_back(fn);", "if(!killWorkers_) q_.push_back(fn);"),
 ("J04", "bug", J, "        killWorkers_ = true;\n        condition_.notify_all(); // wake idle", "        killWorkers_ = true;\n        q_.clear();\n        condition_.notify_all(); // wake idle"),
 ("J04", "bug", J, "        while( activeThreads_ || !q_.empty() )\n", "        if(!threadsInPool_) q_.clear();\n        while( activeThreads_ || !q_.empty() )\n"),
 ("J04", "bug", J, "            while ((q_.empty()) && !killWorkers_)\n", "            if ((q_.empty()) && !killWorkers_)\n"),
 # holds
 ("J04", "quiet", J, F, "            boost::function<void ()> f;\n            f.swap(q_.front());\n            q_.pop_front();\n"),
 ("J04", "quiet", J, F, "            boost::function<void ()> f(std::move(q_.front()));\n            q_.pop_front();\n"),
 ("J04", "quiet", J, F, "            boost::function<void ()> f = *q_.begin();\n            q_.erase(q_.begin());\n"),
 ("J04", "quiet", J, F, "            boost::function<void ()> f = q_[0];\n            ++activeThreads_;\n            --activeThreads_;\n            q_.pop_front();\n"),
 ("J04", "quiet", J, "            while ((q_.empty()) && !killWorkers_)\n                condition_.wait(lck);", "            condition_.wait(lck, [this]{ return killWorkers_ || !q_.empty(); });"),
 ("J04", "quiet", J, "            while ((q_.empty()) && !killWorkers_)\n                condition_.wait(lck);", "            for(;;) { if(killWorkers_ || q_.size() > 0) break;\n                condition_.wait(lck); }"),
 ("J04", "quiet", J, "            while ((q_.empty()) && !killWorkers_)\n                condition_.wait(lck);", "            while (!killWorkers_) { if(!q_.empty()) break;\n                condition_.wait(lck); }"),
 ("J04", "quiet", J, ["    void JobQueue::exec_loop() {", F], ["    static boost::function<void ()> takeJob(std::deque<boost::function<void ()> >& q) { boost::function<void ()> r = q.front(); q.pop_front(); return r; }\n    void JobQueue::exec_loop() {", "            boost::function<void ()> f = takeJob(q_);\n"]),
 ("J04", "quiet", J, ["    void JobQueue::exec_loop() {", CALL], ["    static void runJob(boost::function<void ()> const & g) { g(); }\n    void JobQueue::exec_loop() {", "            runJob(f); \n            lck.lock();"]),
 ("J04", "quiet", J, CALL, "            try { f(); } catch(...) { lck.lock(); --activeThreads_; workCondition_.notify_all(); lck.unlock(); throw; } \n            lck.lock();"),
 ("J04", "quiet", J, "q_.push_back(fn);", "q_.insert(q_.end(), fn);"),
 ("J04", "quiet", J, "q_.push_back(fn);", "q_.emplace_back(fn);"),
 ("J04", "quiet", J, "q_.push_back(fn);", "boost::function<void(void)> copy(fn); q_.push_back(copy);"),
 ("J04", "quiet", J, "            if (killWorkers_) {\n                --threadsInPool_;\n                condition_.notify_all();\n                return;\n            }\n", "            const bool quit = killWorkers_;\n            if (quit) {\n                --threadsInPool_;\n                condition_.notify_all();\n                break;\n            }\n"),
 ("J04", "quiet", J, "            if (killWorkers_) {\n                --threadsInPool_;\n                condition_.notify_all();\n                return;\n            }\n", "            if (killWorkers_ || q_.empty()) {\n                if(!killWorkers_) continue;\n                --threadsInPool_;\n                condition_.notify_all();\n                break;\n            }\n"),
]
