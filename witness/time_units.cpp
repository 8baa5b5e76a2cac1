// T01: conversions of time.  Times and spans are compared by their value in seconds.
#include <chrono>
#include <limits>
#include <string>
#include <vector>
#include <unordered_map>
#include <boost/thread/mutex.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/boost/ptime.hpp>
#define private public
#include <sm/timing/Timer.hpp>
#undef private

using namespace sm::timing;
typedef std::chrono::system_clock sysclock;

sysclock::time_point lhs_nsecToChrono(long t) { return nsecToChrono(t); }
sysclock::time_point rhs_nsecToChrono(long t) { return sysclock::time_point(std::chrono::nanoseconds(t)); }

long lhs_chronoToNsec(sysclock::time_point t) { return chronoToNsec(t); }
long rhs_chronoToNsec(sysclock::time_point t) { return std::chrono::nanoseconds(t.time_since_epoch()).count(); }

long lhs_roundTripChrono(long t) { return chronoToNsec(nsecToChrono(t)); }
long rhs_roundTripChrono(long t) { return t; }

sysclock::time_point lhs_roundTripNsec(sysclock::time_point t) { return nsecToChrono(chronoToNsec(t)); }
sysclock::time_point rhs_roundTripNsec(sysclock::time_point t) { return t; }

long lhs_nsecNow() { return nsecNow(); }
long rhs_nsecNow() { return std::chrono::nanoseconds(sysclock::now().time_since_epoch()).count(); }

double lhs_nsecToSec(long t) { return nsecToSec(t); }
double rhs_nsecToSec(long t) { return std::chrono::duration<double>(std::chrono::nanoseconds(t)).count(); }

long lhs_secToNsec(double s) { return secToNsec(s); }
long rhs_secToNsec(double s) { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration<double>(s)).count(); }

bool lhs_isValid(long t) { return isValid(t); }
bool rhs_isValid(long t) { return t != std::numeric_limits<long>::min(); }

long lhs_invalidTime() { return getInvalidTime(); }
long rhs_invalidTime() { return std::numeric_limits<long>::min(); }

long lhs_timevalSeconds(boost::posix_time::ptime t) { return sm::ptimeToTimeval(t).tv_sec; }
long rhs_timevalSeconds(boost::posix_time::ptime t) { return (t - boost::posix_time::ptime(boost::gregorian::date(1970, 1, 1))).total_seconds(); }

long lhs_timevalMicroseconds(boost::posix_time::ptime t) { return sm::ptimeToTimeval(t).tv_usec; }
long rhs_timevalMicroseconds(boost::posix_time::ptime t)
{
  boost::posix_time::time_duration d = t - boost::posix_time::ptime(boost::gregorian::date(1970, 1, 1));
  return d.total_microseconds() - (long)d.total_seconds() * 1000000;
}

// the interval that a timer reports, in seconds
double seconds(boost::posix_time::time_duration t) { return t.total_nanoseconds() / 1e9; }

void lhs_timerStop(Timer& t) { t.stop(); }
void rhs_timerStop(Timer& t)
{
  if (!t.isTiming())
    throw TimerException("not running");
  boost::posix_time::ptime now = boost::posix_time::microsec_clock::universal_time();
  Timing::instance().addTime(t.m_handle, seconds(now - t.m_time));
  t.m_timing = false;
}

void lhs_timerStart(Timer& t) { t.start(); }
void rhs_timerStart(Timer& t)
{
  if (t.isTiming())
    throw TimerException("running");
  t.m_timing = true;
  t.m_time = boost::posix_time::microsec_clock::universal_time();
}
