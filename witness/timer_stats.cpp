// T04: timers, their handles and their statistics.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unordered_map>
#include <boost/thread/mutex.hpp>
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#define private public
#include <sm/timing/../../../src/Timer.cpp>
using namespace sm::timing;
typedef std::string S;
namespace ex = boost::accumulators::extract;
static Timing& T() { return Timing::instance(); }
static TimerMapValue& rec(size_t h) { if(!(h < T().m_timers.size())) throw TimerException(""); return T().m_timers[h]; }

size_t lhs_handle(const S& tag) { return Timing::getHandle(tag); }
size_t rhs_handle(const S& tag) {
  Timing::map_t::iterator i = T().m_tagMap.find(tag);
  if(i != T().m_tagMap.end()) return i->second;
  size_t h = T().m_timers.size();
  T().m_tagMap[tag] = h;
  T().m_timers.push_back(TimerMapValue());
  T().m_maxTagLength = std::max(T().m_maxTagLength, tag.size());
  return h;
}
S lhs_tag(size_t h) { return Timing::getTag(h); }
S rhs_tag(size_t h) {
  for(Timing::map_t::iterator i = T().m_tagMap.begin(); i != T().m_tagMap.end(); ++i)
    if(i->second == h) return i->first;
  throw TimerException("");
}
double lhs_total(size_t h) { return Timing::getTotalSeconds(h); }
double rhs_total(size_t h) { return ex::sum(rec(h).m_acc); }
double lhs_mean(size_t h) { return Timing::getMeanSeconds(h); }
double rhs_mean(size_t h) { return ex::mean(rec(h).m_acc); }
size_t lhs_samples(size_t h) { return Timing::getNumSamples(h); }
size_t rhs_samples(size_t h) { return ex::count(rec(h).m_acc); }
double lhs_variance(size_t h) { return Timing::getVarianceSeconds(h); }
double rhs_variance(size_t h) { return ex::variance(rec(h).m_acc); }
double lhs_min(size_t h) { return Timing::getMinSeconds(h); }
double rhs_min(size_t h) { return ex::min(rec(h).m_acc); }
double lhs_max(size_t h) { return Timing::getMaxSeconds(h); }
double rhs_max(size_t h) { return ex::max(rec(h).m_acc); }
double lhs_hz(size_t h) { return Timing::getHz(h); }
double rhs_hz(size_t h) { return 1.0 / ex::rolling_mean(rec(h).m_acc); }
void lhs_reset(size_t h) { Timing::reset(h); }
void rhs_reset(size_t h) { rec(h) = TimerMapValue(); }

double lhs_totalTag(const S& t) { return Timing::getTotalSeconds(t); }
double rhs_totalTag(const S& t) { return ex::sum(rec(Timing::getHandle(t)).m_acc); }
double lhs_meanTag(const S& t) { return Timing::getMeanSeconds(t); }
double rhs_meanTag(const S& t) { return ex::mean(rec(Timing::getHandle(t)).m_acc); }
size_t lhs_samplesTag(const S& t) { return Timing::getNumSamples(t); }
size_t rhs_samplesTag(const S& t) { return ex::count(rec(Timing::getHandle(t)).m_acc); }
double lhs_varianceTag(const S& t) { return Timing::getVarianceSeconds(t); }
double rhs_varianceTag(const S& t) { return ex::variance(rec(Timing::getHandle(t)).m_acc); }
double lhs_minTag(const S& t) { return Timing::getMinSeconds(t); }
double rhs_minTag(const S& t) { return ex::min(rec(Timing::getHandle(t)).m_acc); }
double lhs_maxTag(const S& t) { return Timing::getMaxSeconds(t); }
double rhs_maxTag(const S& t) { return ex::max(rec(Timing::getHandle(t)).m_acc); }
double lhs_hzTag(const S& t) { return Timing::getHz(t); }
double rhs_hzTag(const S& t) { return 1.0 / ex::rolling_mean(rec(Timing::getHandle(t)).m_acc); }
void lhs_resetTag(const S& t) { Timing::reset(t); }
void rhs_resetTag(const S& t) { rec(Timing::getHandle(t)) = TimerMapValue(); }

void lhs_add(size_t h, double s) { T().addTime(h, s); }
void rhs_add(size_t h, double s) { T().m_timers[h].m_acc(s); }

// the timer itself
struct Raw { bool timing; size_t handle; };
void lhs_byHandle(size_t h, bool stopped, bool& on, size_t& of) { Timer t(h, stopped); on = t.m_timing; of = t.m_handle; t.m_timing = false; }
void rhs_byHandle(size_t h, bool stopped, bool& on, size_t& of) { rec(h); if(!stopped) boost::posix_time::microsec_clock::universal_time(); on = !stopped; of = h; }
void lhs_byTag(const S& t0, bool stopped, bool& on, size_t& of) { Timer t(t0, stopped); on = t.m_timing; of = t.m_handle; t.m_timing = false; }
void rhs_byTag(const S& t0, bool stopped, bool& on, size_t& of) { size_t h = Timing::getHandle(t0); if(!stopped) boost::posix_time::microsec_clock::universal_time(); on = !stopped; of = h; }
void lhs_start(Timer& t) { t.start(); }
void rhs_start(Timer& t) { if(t.m_timing) throw TimerException(""); t.m_timing = true; t.m_time = boost::posix_time::microsec_clock::universal_time(); }
void lhs_stop(Timer& t) { t.stop(); }
void rhs_stop(Timer& t) {
  if(!t.m_timing) throw TimerException("");
  T().addTime(t.m_handle, (boost::posix_time::microsec_clock::universal_time() - t.m_time).total_nanoseconds() / 1e9);
  t.m_timing = false;
}
bool lhs_isTiming(Timer& t) { return t.isTiming(); }
bool rhs_isTiming(Timer& t) { return t.m_timing; }
void lhs_scope(Timer& t) { t.~Timer(); }
void rhs_scope(Timer& t) { if(t.m_timing) t.stop(); }
S lhs_text(double s) { return Timing::secondsToTimeString(s); }
S rhs_text(double s) {
  int h = (long)(s / 3600), m = (long)(s / 60);
  char text[256];
  sprintf(text, "%02d:%02d:%09.6f", h, m - h * 60, fmod(s, 60));
  return text;
}

// the table, in the order of the statistic asked for
void lhs_sorted(std::ostream& out, SortType sort) { Timing::print(out, sort); }
void rhs_sorted(std::ostream& out, SortType sort) {
  Timing::map_t tags = Timing::copyTagMap();
  std::multimap<double, S, std::greater<double> > sorted;
  for(Timing::map_t::const_iterator t = tags.begin(); t != tags.end(); ++t) {
    double v;
    size_t i = t->second;
    if(Timing::getNumSamples(i) > 0) {
      switch(sort) {
        case SORT_BY_TOTAL: v = Timing::getTotalSeconds(i); break;
        case SORT_BY_MEAN: v = Timing::getMeanSeconds(i); break;
        case SORT_BY_STD: v = sqrt(Timing::getVarianceSeconds(i)); break;
        case SORT_BY_MIN: v = Timing::getMinSeconds(i); break;
        case SORT_BY_MAX: v = Timing::getMaxSeconds(i); break;
        case SORT_BY_NUM_SAMPLES: v = Timing::getNumSamples(i); break;
      }
    } else v = std::numeric_limits<double>::max();
    sorted.insert(std::pair<const double, S>(v, t->first));
  }
  struct A {
    Timing::map_t& tags;
    A(Timing::map_t& t) : tags(t) {}
    size_t getIndex(std::multimap<double, S, std::greater<double> >::const_iterator t) const { return tags[t->second]; }
    const S& getTag(std::multimap<double, S, std::greater<double> >::const_iterator t) const { return t->second; }
  };
  Timing::print(sorted, A(tags), out);
}
