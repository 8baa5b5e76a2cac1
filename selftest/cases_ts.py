F = "sm_timing/src/Timer.cpp"
GH = """    map_t::iterator i = instance().m_tagMap.find(tag);
    if(i == instance().m_tagMap.end()) {
      // If it is not there, create a tag.
      size_t handle =  instance().m_timers.size();
      instance().m_tagMap[tag] = handle;
      instance().m_timers.push_back(TimerMapValue());
      // Track the maximum tag length to help printing a table of timing values later.
      instance().m_maxTagLength = std::max(instance().m_maxTagLength,tag.size());
      return handle;
    } else {
      return i->second;
    }
"""
GT = """    bool found = false;
    
    // Perform a linear search for the tag
    map_t::iterator i = instance().m_tagMap.begin();
    for( ; i != instance().m_tagMap.end(); i++) {
      if(i->second == handle){
	found = true;
	tag = i->first;
	break;
      }
    }
"""
ST = """    boost::posix_time::ptime now = boost::posix_time::microsec_clock::universal_time();
    boost::posix_time::time_duration t = now - m_time;
    dt = ((double)t.total_nanoseconds() * 1e-9);
#endif
    Timing::instance().addTime(m_handle,dt);
    m_timing = false;
"""
HMS = """    double secs = fmod(seconds,60);
    int minutes = (long)(seconds/60);
    int hours = (long)(seconds/3600);
    minutes = minutes - (hours*60);
"""
SW = """        switch (sort) {
          case SORT_BY_TOTAL:
            sv = getTotalSeconds(i);
            break;
          case SORT_BY_MEAN:
            sv = getMeanSeconds(i);
            break;
          case SORT_BY_STD:
            sv = sqrt(getVarianceSeconds(i));
            break;
          case SORT_BY_MAX:
            sv = getMaxSeconds(i);
            break;
          case SORT_BY_MIN:
            sv = getMinSeconds(i);
            break;
          case SORT_BY_NUM_SAMPLES:
            sv = getNumSamples(i);
            break;
        }
"""
CASES = [
 ("T04", "bug", F, GH, GH.replace("m_timers.size();\n", "m_tagMap.size() + 1;\n")),
 ("T04", "bug", F, GH, GH.replace("      instance().m_timers.push_back(TimerMapValue());\n", "")),
 ("T04", "bug", F, GH, GH.replace("      instance().m_tagMap[tag] = handle;\n", "")),
 ("T04", "bug", F, GT, GT.replace("i->second == handle", "i->second >= handle")),
 ("T04", "bug", F, GT, GT.replace("found = true;", "found = i->second != 0;")),
 ("T04", "bug", F, "extract::min(instance()", "extract::max(instance()"),
 ("T04", "bug", F, "extract::variance(instance()", "extract::mean(instance()"),
 ("T04", "bug", F, "1.0/boost::accumulators::extract::rolling_mean", "1.0/boost::accumulators::extract::mean"),
 ("T04", "bug", F, "return getMinSeconds(getHandle(tag));", "return getMaxSeconds(getHandle(tag));"),
 ("T04", "bug", F, "instance().m_timers[handle] = TimerMapValue();", "instance().m_timers[handle].m_acc(0.0);"),
 ("T04", "bug", F, "return reset(getHandle(tag));", "if(getNumSamples(tag) > 1) reset(getHandle(tag));"),
 ("T04", "bug", F, "if(isTiming())\n      stop();", "m_timing = false;"),
 ("T04", "bug", F, "if(isTiming())\n      stop();", "stop();"),
 ("T04", "bug", F, 'SM_ASSERT_TRUE(TimerException,!m_timing,"The timer "', 'SM_ASSERT_TRUE_DBG(TimerException,true,"The timer "'),
 ("T04", "bug", F, ST, ST.replace("    m_timing = false;\n", "")),
 ("T04", "bug", F, ST, ST.replace("1e-9", "1e-6")),
 ("T04", "bug", F, ST, ST.replace("total_nanoseconds() * 1e-9", "fractional_seconds() * 1e-6")),
 ("T04", "bug", F, "    m_timers[handle].m_acc(seconds);", "    if(seconds > 0) m_timers[handle].m_acc(seconds);"),
 ("T04", "bug", F, "SM_ASSERT_LT(TimerException,handle, Timing::instance().m_timers.size()", "SM_ASSERT_LE(TimerException,handle, Timing::instance().m_timers.size()"),
 ("T04", "bug", F, HMS, HMS.replace("hours*60", "hours*24")),
 ("T04", "bug", F, HMS, HMS.replace("(long)(seconds/3600)", "(long)(seconds/3600) % 24")),
 ("T04", "bug", F, SW, SW.replace("SORT_BY_MAX:\n            sv = getMaxSeconds(i);", "SORT_BY_MAX:\n            sv = getMinSeconds(i);")),
 ("T04", "bug", F, SW, SW.replace("getMeanSeconds(i);\n            break;", "getMeanSeconds(i);")),
 ("T04", "bug", F, "if(getNumSamples(i) > 0)\n        switch", "if(getNumSamples(i) > 1)\n        switch"),
 ("T04", "bug", F, "window_size = 50", "window_size = 1") if False else ("T04", "bug", F, "if(!constructStopped)\n      start();\n  }\n  \n  Timer::Timer(std", "start();\n  }\n  \n  Timer::Timer(std"),
 # holds
 ("T04", "quiet", F, GH, """    map_t & tags = instance().m_tagMap;
    const map_t::const_iterator i = tags.find(tag);
    if(i != tags.end())
      return i->second;
    const size_t handle = instance().m_timers.size();
    tags[tag] = handle;
    instance().m_timers.push_back(TimerMapValue());
    if(tag.size() > instance().m_maxTagLength)
      instance().m_maxTagLength = tag.size();
    return handle;
"""),
 ("T04", "quiet", F, GH, GH.replace("instance().m_tagMap[tag] = handle;", "instance().m_tagMap.insert(std::make_pair(tag, handle));")),
 ("T04", "quiet", F, GH, GH.replace("      size_t handle =  instance().m_timers.size();\n      instance().m_tagMap[tag] = handle;\n      instance().m_timers.push_back(TimerMapValue());\n", "      instance().m_timers.push_back(TimerMapValue());\n      size_t handle =  instance().m_timers.size() - 1;\n      instance().m_tagMap[tag] = handle;\n")),
 ("T04", "quiet", F, GH, GH.replace("    if(i == instance().m_tagMap.end()) {", "    if(instance().m_tagMap.count(tag) == 0) {")),
 ("T04", "quiet", F, GT, """    bool found = false;
    for(map_t::const_iterator i = instance().m_tagMap.begin(); !found && i != instance().m_tagMap.end(); ++i) {
      if(i->second == handle){
        found = true;
        tag = i->first;
      }
    }
""") if False else ("T04", "quiet", F, GT, """    bool found = false;
    for(const auto & entry : instance().m_tagMap) {
      if(entry.second != handle) continue;
      tag = entry.first;
      found = true;
      break;
    }
"""),
 ("T04", "quiet", F, [GT, "    return tag;\n"], ["    for(map_t::const_iterator i = instance().m_tagMap.begin(); i != instance().m_tagMap.end(); ++i)\n      if(i->second == handle)\n        return i->first;\n    const bool found = false;\n", "    return tag;\n"]),
 ("T04", "quiet", F, [GT, "    return tag;\n"], ["    map_t::const_iterator i = instance().m_tagMap.begin();\n    while(i != instance().m_tagMap.end() && i->second != handle)\n      ++i;\n    const bool found = i != instance().m_tagMap.end();\n    if(found) tag = i->first;\n", "    return tag;\n"]),
 ("T04", "quiet", F, ST, ST.replace("    boost::posix_time::time_duration t = now - m_time;\n    dt = ((double)t.total_nanoseconds() * 1e-9);\n", "    dt = 1e-9 * static_cast<double>((now - m_time).total_nanoseconds());\n")),
 ("T04", "quiet", F, ST, ST.replace("    Timing::instance().addTime(m_handle,dt);\n    m_timing = false;\n", "    m_timing = false;\n    Timing::instance().addTime(m_handle,dt);\n")),
 ("T04", "quiet", F, HMS, "    int hours = (long)(seconds/3600);\n    int minutes = (long)(seconds/60) - hours*60;\n    double secs = fmod(seconds,60);\n"),
 ("T04", "quiet", F, 'sprintf(buffer,"', 'snprintf(buffer,sizeof(buffer),"'),
 ("T04", "quiet", F, "    return buffer;", "    return std::string(buffer);"),
 ("T04", "quiet", F, SW, """        {
        if(sort == SORT_BY_TOTAL) sv = getTotalSeconds(i);
        else if(sort == SORT_BY_MEAN) sv = getMeanSeconds(i);
        else if(sort == SORT_BY_STD) sv = sqrt(getVarianceSeconds(i));
        else if(sort == SORT_BY_MIN) sv = getMinSeconds(i);
        else if(sort == SORT_BY_MAX) sv = getMaxSeconds(i);
        else if(sort == SORT_BY_NUM_SAMPLES) sv = getNumSamples(i);
        }
"""),
 ("T04", "quiet", F, SW, SW.replace("          case SORT_BY_MIN:\n            sv = getMinSeconds(i);\n            break;\n", "").replace("          case SORT_BY_TOTAL:", "          case SORT_BY_MIN:\n            sv = getMinSeconds(i);\n            break;\n          case SORT_BY_TOTAL:")),
 ("T04", "quiet", F, "return 1.0/boost::accumulators::extract::rolling_mean(instance().m_timers[handle].m_acc);", "const double mean = boost::accumulators::rolling_mean(instance().m_timers.at(handle).m_acc);\n    return 1.0/mean;"),
 ("T04", "quiet", F, "return boost::accumulators::extract::sum(instance().m_timers[handle].m_acc);", "const TimerMapValue & record = instance().m_timers[handle];\n    return boost::accumulators::sum(record.m_acc);"),
 ("T04", "quiet", F, "if(isTiming())\n      stop();", "if(!m_timing) return;\n    stop();"),
 ("T04", "quiet", F, "instance().m_timers[handle] = TimerMapValue();", "TimerMapValue fresh;\n    instance().m_timers.at(handle) = fresh;"),
]
