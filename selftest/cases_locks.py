J = "sm_boost/src/JobQueue.cpp"
L = "sm_logging/src/LoggingGlobals.cpp"
T = "sm_timing/src/Timer.cpp"
CASES = [
 ("J01", "bug", J, "        boost::mutex::scoped_lock lck(mutex_);\n        return q_.empty();", "        return q_.empty();"),
 ("J01", "bug", J, "            lck.unlock(); \n", ""),
 ("J01", "bug", J, "            f(); \n            lck.lock();\n            --activeThreads_;", "            f(); \n            --activeThreads_;\n            lck.lock();"),
 ("J01", "bug", J, "        boost::mutex::scoped_lock lck(mutex_);\n        q_.push_back(fn);", "        boost::mutex::scoped_lock(mutex_);\n        q_.push_back(fn);"),
 ("J01", "quiet", J, "            lck.unlock(); \n            // call the work function\n            f(); \n            lck.lock();\n", "            mutex_.unlock();\n            f();\n            mutex_.lock();\n"),
 ("J02", "bug", J, "            while ((q_.empty()) && !killWorkers_)\n", "            if ((q_.empty()) && !killWorkers_)\n"),
 ("J02", "bug", J, "        while( activeThreads_ || !q_.empty() )\n", "        if( activeThreads_ || !q_.empty() )\n"),
 ("J02", "bug", J, "        condition_.notify_all(); // wake worker thread(s)", ""),
 ("J02", "bug", J, "                condition_.notify_all();\n                return;", "                return;"),
 ("J02", "bug", J, "            --activeThreads_;\n            workCondition_.notify_all();", "            workCondition_.notify_all();\n            --activeThreads_;"),
 ("J02", "bug", J, "            workCondition_.notify_all();", "            if(q_.empty()) workCondition_.notify_one();"),
 ("J02", "bug", J, "            workCondition_.notify_all();", "            if(activeThreads_ == 3) workCondition_.notify_all();"),
 ("J02", "quiet", J, ["            while ((q_.empty()) && !killWorkers_)\n                condition_.wait(lck);"], ["            for(;;) { if(killWorkers_ || q_.size() > 0) break;\n                condition_.wait(lck); }"]),
 ("J02", "quiet", J, ["            while ((q_.empty()) && !killWorkers_)\n                condition_.wait(lck);"], ["            condition_.wait(lck, [this]{ return killWorkers_ || !q_.empty(); });"]),
 ("J03", "bug", J, "                --threadsInPool_;\n                condition_.notify_all();\n                return;", "                condition_.notify_all();\n                return;"),
 ("J03", "bug", J, "                    ++threadsInPool_;", ""),
 ("J03", "bug", J, "            ++activeThreads_;\n            // unlock the queue while we exec the job\n            lck.unlock(); \n", "            lck.unlock(); \n            ++activeThreads_;\n"),
 ("J03", "bug", J, "        while (threadsInPool_) // all threads must exit\n            condition_.wait(lck);", ""),
 ("J03", "bug", J, "                --threadsInPool_;\n                condition_.notify_all();\n                return;", "                --threadsInPool_;\n                lck.unlock();\n                condition_.notify_all();\n                return;"),
 ("J03", "bug", J, "            f(); \n            lck.lock();\n            --activeThreads_;", "            try { f(); } catch(...) { lck.lock(); continue; } \n            lck.lock();\n            --activeThreads_;"),
 ("J03", "quiet", J, "            f(); \n            lck.lock();\n            --activeThreads_;", "            try { f(); } catch(...) { } \n            lck.lock();\n            --activeThreads_;"),
 ("L01", "bug", L, "            boost::mutex::scoped_lock lock(_locations_mutex);\n            loc->_level = level;", "            boost::mutex::scoped_lock lock(_locations_mutex);\n            loc->_level = level;\n            checkLogLocationEnabled(loc);"),
 ("L01", "bug", L, "                _namedStreamsEnabled.insert(name);\n            }\n            notify", "                _namedStreamsEnabled.insert(name);\n            notifyLoggerLevelsChanged(); }\n            notify"),
 ("L02", "bug", L, "            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);\n            std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);\n            return", "            std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);\n            return"),
 ("L02", "bug", L, "            boost::mutex::scoped_lock lock(_locations_mutex);\n            _log_locations.push_back(loc);", "            _log_locations.push_back(loc);"),
 ("L02", "bug", L, "            boost::mutex::scoped_lock lock(_locations_mutex);\n                    \n", ""),
 ("L02", "bug", L, "            boost::mutex::scoped_lock lock(_locations_mutex);\n            _log_locations.push_back(loc);", "            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);\n            _log_locations.push_back(loc);"),
 ("L05", "bug", L, "            if (_printing_thread_id == boost::this_thread::get_id())\n            {", "            if (_printing_thread_id == boost::this_thread::get_id() && level > 3)\n            {"),
 ("L05", "bug", L, "            PrintingMark mark(_printing_thread_id);", "            _printing_thread_id = boost::this_thread::get_id();"),
 ("L05", "bug", L, "            PrintingMark mark(_printing_thread_id);", ""),
 ("T02", "bug", T, "    boost::mutex::scoped_lock lock(m_mutex);\n    m_timers[handle].m_acc(seconds);", "    m_timers[handle].m_acc(seconds);"),
 ("T02", "bug", T, "    boost::mutex::scoped_lock lock(m_mutex);\n    SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), \"Handle is out of range: \" << handle << \", number of timers: \" << instance().m_timers.size());\n    instance().m_timers[handle] = ", "    boost::mutex::scoped_lock lock(m_mutex);\n    instance().m_timers[handle] = "),
 ("T02", "bug", T, "    boost::mutex::scoped_lock lock(m_mutex);\n    map_t::iterator i", "    map_t::iterator i"),
 ("T02", "bug", T, "    SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), \"Handle", "    SM_ASSERT_LE(TimerException, handle, instance().m_timers.size(), \"Handle"),
]
