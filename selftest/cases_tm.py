N = "sm_timing/src/NsecTimeUtilities.cpp"
TC = "sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp"
TH = "sm_timing/include/sm/timing/TimestampCorrector.hpp"
TI = "sm_timing/src/Timer.cpp"
PT = "sm_boost/include/sm/boost/ptime.hpp"
CASES = [
    ("T01", "bug", N, "time * 1e-9", "time * 1e-6"),
    ("T01", "bug", N, "time * 1e9", "time * 1e6"),
    ("T01", "bug", N, "getInvalidTime() != time", "getInvalidTime() == time"),
    ("T01", "bug", N, "return std::chrono::duration_cast<std::chrono::nanoseconds>( time.time", "return std::chrono::duration_cast<std::chrono::microseconds>( time.time"),
    ("T01", "bug", N, "std::chrono::nanoseconds tt(time);", "std::chrono::microseconds tt(time / 1000);"),
    ("T01", "bug", TI, "t.total_nanoseconds() * 1e-9", "t.total_microseconds() * 1e-9"),
    ("T01", "bug", TI, "t.total_nanoseconds() * 1e-9", "t.total_seconds()"),
    ("T01", "bug", PT, "duration.total_seconds()", "duration.seconds()"),
    ("T01", "quiet", N, "(double) time * 1e-9", "static_cast<double>(time) / 1e9"),
    ("T01", "quiet", N, "boost::int64_t( time * 1e9 )", "static_cast<NsecTime>( 1e9 * time )"),
    ("T01", "quiet", N, "return getInvalidTime() != time", "return !(time == getInvalidTime())"),
    ("T01", "quiet", N, "std::chrono::system_clock::now().time_since_epoch() ).count();", "std::chrono::system_clock::now().time_since_epoch() ).count() + 0;"),
    ("T01", "quiet", N, "return std::chrono::duration_cast<std::chrono::nanoseconds>( std::chrono::system_clock::now().time_since_epoch() ).count();", "return chronoToNsec(std::chrono::system_clock::now());"),
    ("T01", "quiet", N, "  std::chrono::nanoseconds tt(time);\n  std::chrono::system_clock::time_point tp(std::chrono::duration_cast<std::chrono::system_clock::duration>(tt));\n  return tp;",
     "  return std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::nanoseconds(time)));"),
    ("T01", "quiet", TI, "dt = ((double)t.total_nanoseconds() * 1e-9);", "dt = static_cast<double>((now - m_time).total_nanoseconds()) / 1e9;"),
    ("T03", "bug", TC, "_midpointSegmentIndex = 0u;\n", ";\n"),
    ("T03", "bug", TC, "lbit - _convexHull.begin() - 1u", "lbit - _convexHull.begin()"),
    ("T03", "bug", TC, "_convexHull.size() >= 3u", "_convexHull.size() > 3u"),
    ("T03", "bug", TC, "    clearHull();\n", ""),
    ("T03", "bug", TC, "SM_ASSERT_GT(TimeWentBackwardsException", "SM_ASSERT_GE(TimeWentBackwardsException"),
    ("T03", "bug", TC, "getSlope() const {\n  SM_ASSERT_GE(NotInitializedException, _convexHull.size(), 2u", "getSlope() const {\n  SM_ASSERT_GE(NotInitializedException, _convexHull.size(), 1u"),
    ("T03", "bug", TC, "    _pendingCorrector->_pendingCorrector.reset();\n", ""),
    ("T03", "bug", TH, "clearHull(); _pendingCorrector.reset();", "clearHull();"),
    ("T03", "bug", TH, "_convexHull.clear(); _midpointSegmentIndex = 0;", "_convexHull.clear();"),
    ("T03", "bug", TH, "return x < t;", "return x <= t;"),
    ("T03", "quiet", TC, "  while(_convexHull.size() >= 2u &&\n        isAboveLine(_convexHull[_convexHull.size() - 2u], p, _convexHull[_convexHull.size() - 1u]) ) {\n      _convexHull.pop_back();\n    }",
     "  for(; _convexHull.size() > 1u; ) {\n      if(!isAboveLine(_convexHull[_convexHull.size() - 2u], p, _convexHull.back())) break;\n      _convexHull.pop_back();\n    }"),
    ("T03", "quiet", TC, "const Point p(remoteTime, localTime);", "Point p(remoteTime, localTime);"),
    ("T03", "quiet", TC, "if(_convexHull.size() >= 3u)", "if(!(_convexHull.size() < 3u))"),
    ("T03", "quiet", TC, "_convexHull[0u].x + remoteTime) / 2.0", "_convexHull.front().x + _convexHull.back().x) / 2.0"),
    ("T03", "quiet", TC, "lbit - _convexHull.begin() - 1u", "std::distance(_convexHull.begin(), lbit) - 1"),
    ("T03", "quiet", TC, "  return  double(l2.y - l1.y) / double(l2.x - l1.x);\n", "  const double dy = double(l2.y - l1.y);\n  return dy / double(l2.x - l1.x);\n"),
    ("T03", "quiet", TC, "  return getLocalTime(remoteTime);\n", "  const time_t estimate = getLocalTime(remoteTime);\n  return estimate;\n"),
]
