// T03: the clock correction reads its estimate from a segment inside its support points.
#include <algorithm>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include <sm/assert_macros.hpp>
#define private public
#include <sm/timing/TimestampCorrector.hpp>
#undef private

template class sm::timing::TimestampCorrector<double>;
template class sm::timing::TimestampCorrector<long>;
typedef sm::timing::TimestampCorrector<double> D;
typedef sm::timing::TimestampCorrector<long> L;
template <typename C, typename T> bool backwards(const C& c, T x) { return !c._convexHull.empty() && !(x > c._convexHull.back().x); }

// refused_: only the exception for a time that is not later is compared, with the state it leaves behind
void lhs_refused_Double(D& c, double x, double y) { c.correctTimestamp(x, y); }
void rhs_refused_Double(D& c, double x, double y) { if (backwards(c, x)) throw D::TimeWentBackwardsException("backwards"); }
void lhs_refused_Long(L& c, long x, long y) { c.correctTimestamp(x, y); }
void rhs_refused_Long(L& c, long x, long y) { if (backwards(c, x)) throw L::TimeWentBackwardsException("backwards"); }

double lhs_slopeDouble(const D& c) { return c.getSlope(); }
double rhs_slopeDouble(const D& c)
{
  if (c._convexHull.size() < 2) throw D::NotInitializedException("two points");
  const auto& a = c._convexHull[c._midpointSegmentIndex];
  const auto& b = c._convexHull[c._midpointSegmentIndex + 1];
  return (b.y - a.y) / (b.x - a.x);
}
double lhs_slopeLong(const L& c) { return c.getSlope(); }
double rhs_slopeLong(const L& c)
{
  if (c._convexHull.size() < 2) throw L::NotInitializedException("two points");
  const auto& a = c._convexHull[c._midpointSegmentIndex];
  const auto& b = c._convexHull[c._midpointSegmentIndex + 1];
  return double(b.y - a.y) / double(b.x - a.x);
}
double lhs_offsetDouble(const D& c) { return c.getOffset(); }
double rhs_offsetDouble(const D& c)
{
  if (c._convexHull.size() < 2) throw D::NotInitializedException("two points");
  const auto& a = c._convexHull[c._midpointSegmentIndex];
  const auto& b = c._convexHull[c._midpointSegmentIndex + 1];
  return a.y - a.x * (b.y - a.y) / (b.x - a.x);
}
double lhs_offsetLong(const L& c) { return c.getOffset(); }
double rhs_offsetLong(const L& c)
{
  if (c._convexHull.size() < 2) throw L::NotInitializedException("two points");
  const auto& a = c._convexHull[c._midpointSegmentIndex];
  const auto& b = c._convexHull[c._midpointSegmentIndex + 1];
  return double(a.y) - double(a.x) * (double(b.y - a.y) / double(b.x - a.x));
}
double lhs_localDouble(const D& c, double t) { return c.getLocalTime(t); }
double rhs_localDouble(const D& c, double t)
{
  if (c._convexHull.size() < 2) throw D::NotInitializedException("two points");
  const auto& a = c._convexHull[c._midpointSegmentIndex];
  const auto& b = c._convexHull[c._midpointSegmentIndex + 1];
  return a.y + (b.y - a.y) / (b.x - a.x) * (t - a.x);
}
long lhs_localLong(const L& c, long t) { return c.getLocalTime(t); }
long rhs_localLong(const L& c, long t)
{
  if (c._convexHull.size() < 2) throw L::NotInitializedException("two points");
  const auto& a = c._convexHull[c._midpointSegmentIndex];
  const auto& b = c._convexHull[c._midpointSegmentIndex + 1];
  return (long)(double(a.y) + double(b.y - a.y) / double(b.x - a.x) * double(t - a.x));
}

void lhs_resetDouble(D& c) { c.reset(); }
void rhs_resetDouble(D& c) { c._convexHull.clear(); c._midpointSegmentIndex = 0; c._pendingCorrector.reset(); }
void lhs_resetLong(L& c) { c.reset(); }
void rhs_resetLong(L& c) { c._convexHull.clear(); c._midpointSegmentIndex = 0; c._pendingCorrector.reset(); }

template <typename C, typename T> size_t segment(const C& c, T last)
{
  if (c._convexHull.size() < 3) return 0;
  T middle = static_cast<T>((c._convexHull[0].x + last) / 2.0);
  return std::lower_bound(c._convexHull.begin(), c._convexHull.end(), middle) - c._convexHull.begin() - 1;
}
size_t lhs_segmentDouble(D& c, double x, double y) { c.correctTimestamp(x, y); return c._midpointSegmentIndex; }
size_t rhs_segmentDouble(D& c, double x, double y) { c.correctTimestamp(x, y); return segment(c, x); }
size_t lhs_segmentLong(L& c, long x, long y) { c.correctTimestamp(x, y); return c._midpointSegmentIndex; }
size_t rhs_segmentLong(L& c, long x, long y) { c.correctTimestamp(x, y); return segment(c, x); }

template <typename C, typename T> T switching(C& c, T x, T y, T period)
{
  T r = c.correctTimestamp(x, y);
  if (!c._pendingCorrector && c.span() > period / 2) c._pendingCorrector.reset(new C());
  if (c._pendingCorrector) c._pendingCorrector->correctTimestamp(x, y);
  if (c.span() > period) {
    c._convexHull.clear();
    c._midpointSegmentIndex = 0;
    std::swap(c._convexHull, c._pendingCorrector->_convexHull);
    std::swap(c._midpointSegmentIndex, c._pendingCorrector->_midpointSegmentIndex);
    c._pendingCorrector->_pendingCorrector.reset();
  }
  return r;
}
double lhs_switchingDouble(D& c, double x, double y, double p) { return c.correctTimestamp(x, y, p); }
double rhs_switchingDouble(D& c, double x, double y, double p) { return switching(c, x, y, p); }

bool lhs_earlierDouble(const D::Point& p, const double& t) { return p < t; }
bool rhs_earlierDouble(const D::Point& p, const double& t) { return p.x < t; }
bool lhs_earlierLong(const L::Point& p, const long& t) { return p < t; }
bool rhs_earlierLong(const L::Point& p, const long& t) { return p.x < t; }
