// N02: one sample more: the points kept are the lower hull, and the segment is the one over the middle of the span.
#include <algorithm>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include <sm/assert_macros.hpp>
#define private public
#include <sm/timing/TimestampCorrector.hpp>
#undef private

template class sm::timing::TimestampCorrector<double>;
template class sm::timing::TimestampCorrector<long>;
typedef sm::timing::TimestampCorrector<double> D;
typedef sm::timing::TimestampCorrector<long> L;
typedef D::Point P;

typedef std::vector<P> H;

bool before_D(const P& p, double m) { return p < m; }
bool before_L(const L::Point& p, long m) { return p < m; }
bool middle_D(double x0, double nx) { const double m = static_cast<double>((x0 + nx) / 2.0); return x0 < m && m <= nx; }
bool middle_L(long x0, long nx) { const long m = static_cast<long>((x0 + nx) / 2.0); return x0 < m && m <= nx; }
double x_of(const P& p) { return p.x; }
double y_of(const P& p) { return p.y; }
H hull_0(double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c.correctTimestamp(nx, ny); return c._convexHull; }
double local_0(double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; return c.correctTimestamp(nx, ny); }
H hull_1(double x0, double y0, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(P(x0, y0)); c.correctTimestamp(nx, ny); return c._convexHull; }
double local_1(double x0, double y0, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(P(x0, y0)); return c.correctTimestamp(nx, ny); }
H hull_2(double x0, double y0, double x1, double y1, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(P(x0, y0)); c._convexHull.push_back(P(x1, y1)); c.correctTimestamp(nx, ny); return c._convexHull; }
double local_2(double x0, double y0, double x1, double y1, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(P(x0, y0)); c._convexHull.push_back(P(x1, y1)); return c.correctTimestamp(nx, ny); }
H hull_3(double x0, double y0, double x1, double y1, double x2, double y2, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(P(x0, y0)); c._convexHull.push_back(P(x1, y1)); c._convexHull.push_back(P(x2, y2)); c.correctTimestamp(nx, ny); return c._convexHull; }
double local_3(double x0, double y0, double x1, double y1, double x2, double y2, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(P(x0, y0)); c._convexHull.push_back(P(x1, y1)); c._convexHull.push_back(P(x2, y2)); return c.correctTimestamp(nx, ny); }
H hull_4(double x0, double y0, double x1, double y1, double x2, double y2, double x3, double y3, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(P(x0, y0)); c._convexHull.push_back(P(x1, y1)); c._convexHull.push_back(P(x2, y2)); c._convexHull.push_back(P(x3, y3)); c.correctTimestamp(nx, ny); return c._convexHull; }
double local_4(double x0, double y0, double x1, double y1, double x2, double y2, double x3, double y3, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(P(x0, y0)); c._convexHull.push_back(P(x1, y1)); c._convexHull.push_back(P(x2, y2)); c._convexHull.push_back(P(x3, y3)); return c.correctTimestamp(nx, ny); }

// the segment remembered, and the search it stands for
template <typename C, typename T> size_t segment(const C& c, T last)
{
  if (c._convexHull.size() < 3) return 0;
  T middle = static_cast<T>((c._convexHull[0].x + last) / 2.0);
  return std::lower_bound(c._convexHull.begin(), c._convexHull.end(), middle) - c._convexHull.begin() - 1;
}
size_t got_D_0(double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c.correctTimestamp(nx, ny); return c._midpointSegmentIndex; }
size_t ref_D_0(double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c.correctTimestamp(nx, ny); return segment(c, nx); }
size_t got_D_1(double x0, double y0, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(D::Point(x0, y0)); c.correctTimestamp(nx, ny); return c._midpointSegmentIndex; }
size_t ref_D_1(double x0, double y0, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(D::Point(x0, y0)); c.correctTimestamp(nx, ny); return segment(c, nx); }
size_t got_D_2(double x0, double y0, double x1, double y1, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(D::Point(x0, y0)); c._convexHull.push_back(D::Point(x1, y1)); c.correctTimestamp(nx, ny); return c._midpointSegmentIndex; }
size_t ref_D_2(double x0, double y0, double x1, double y1, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(D::Point(x0, y0)); c._convexHull.push_back(D::Point(x1, y1)); c.correctTimestamp(nx, ny); return segment(c, nx); }
size_t got_D_3(double x0, double y0, double x1, double y1, double x2, double y2, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(D::Point(x0, y0)); c._convexHull.push_back(D::Point(x1, y1)); c._convexHull.push_back(D::Point(x2, y2)); c.correctTimestamp(nx, ny); return c._midpointSegmentIndex; }
size_t ref_D_3(double x0, double y0, double x1, double y1, double x2, double y2, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(D::Point(x0, y0)); c._convexHull.push_back(D::Point(x1, y1)); c._convexHull.push_back(D::Point(x2, y2)); c.correctTimestamp(nx, ny); return segment(c, nx); }
size_t got_D_4(double x0, double y0, double x1, double y1, double x2, double y2, double x3, double y3, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(D::Point(x0, y0)); c._convexHull.push_back(D::Point(x1, y1)); c._convexHull.push_back(D::Point(x2, y2)); c._convexHull.push_back(D::Point(x3, y3)); c.correctTimestamp(nx, ny); return c._midpointSegmentIndex; }
size_t ref_D_4(double x0, double y0, double x1, double y1, double x2, double y2, double x3, double y3, double nx, double ny, size_t seg) { D c; c._midpointSegmentIndex = seg; c._convexHull.push_back(D::Point(x0, y0)); c._convexHull.push_back(D::Point(x1, y1)); c._convexHull.push_back(D::Point(x2, y2)); c._convexHull.push_back(D::Point(x3, y3)); c.correctTimestamp(nx, ny); return segment(c, nx); }
size_t got_L_0(long nx, long ny, size_t seg) { L c; c._midpointSegmentIndex = seg; c.correctTimestamp(nx, ny); return c._midpointSegmentIndex; }
size_t ref_L_0(long nx, long ny, size_t seg) { L c; c._midpointSegmentIndex = seg; c.correctTimestamp(nx, ny); return segment(c, nx); }
size_t got_L_1(long x0, long y0, long nx, long ny, size_t seg) { L c; c._midpointSegmentIndex = seg; c._convexHull.push_back(L::Point(x0, y0)); c.correctTimestamp(nx, ny); return c._midpointSegmentIndex; }
size_t ref_L_1(long x0, long y0, long nx, long ny, size_t seg) { L c; c._midpointSegmentIndex = seg; c._convexHull.push_back(L::Point(x0, y0)); c.correctTimestamp(nx, ny); return segment(c, nx); }
size_t got_L_2(long x0, long y0, long x1, long y1, long nx, long ny, size_t seg) { L c; c._midpointSegmentIndex = seg; c._convexHull.push_back(L::Point(x0, y0)); c._convexHull.push_back(L::Point(x1, y1)); c.correctTimestamp(nx, ny); return c._midpointSegmentIndex; }
size_t ref_L_2(long x0, long y0, long x1, long y1, long nx, long ny, size_t seg) { L c; c._midpointSegmentIndex = seg; c._convexHull.push_back(L::Point(x0, y0)); c._convexHull.push_back(L::Point(x1, y1)); c.correctTimestamp(nx, ny); return segment(c, nx); }
size_t got_L_3(long x0, long y0, long x1, long y1, long x2, long y2, long nx, long ny, size_t seg) { L c; c._midpointSegmentIndex = seg; c._convexHull.push_back(L::Point(x0, y0)); c._convexHull.push_back(L::Point(x1, y1)); c._convexHull.push_back(L::Point(x2, y2)); c.correctTimestamp(nx, ny); return c._midpointSegmentIndex; }
size_t ref_L_3(long x0, long y0, long x1, long y1, long x2, long y2, long nx, long ny, size_t seg) { L c; c._midpointSegmentIndex = seg; c._convexHull.push_back(L::Point(x0, y0)); c._convexHull.push_back(L::Point(x1, y1)); c._convexHull.push_back(L::Point(x2, y2)); c.correctTimestamp(nx, ny); return segment(c, nx); }
size_t got_L_4(long x0, long y0, long x1, long y1, long x2, long y2, long x3, long y3, long nx, long ny, size_t seg) { L c; c._midpointSegmentIndex = seg; c._convexHull.push_back(L::Point(x0, y0)); c._convexHull.push_back(L::Point(x1, y1)); c._convexHull.push_back(L::Point(x2, y2)); c._convexHull.push_back(L::Point(x3, y3)); c.correctTimestamp(nx, ny); return c._midpointSegmentIndex; }
size_t ref_L_4(long x0, long y0, long x1, long y1, long x2, long y2, long x3, long y3, long nx, long ny, size_t seg) { L c; c._midpointSegmentIndex = seg; c._convexHull.push_back(L::Point(x0, y0)); c._convexHull.push_back(L::Point(x1, y1)); c._convexHull.push_back(L::Point(x2, y2)); c._convexHull.push_back(L::Point(x3, y3)); c.correctTimestamp(nx, ny); return segment(c, nx); }
