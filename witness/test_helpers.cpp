// A03: the comparison helpers offered to tests, over any matrix type.
#include <cmath>
#include <ostream>
#include <sm/eigen/gtest.hpp>
using std::string;

template <int R, int C> struct Mx {
  double d[R * C];
  int rows() const { return R; }
  int cols() const { return C; }
  double operator()(int r, int c) const { return d[r * C + c]; }
};
template <int R, int C> std::ostream& operator<<(std::ostream& o, const Mx<R, C>&) { return o; }
typedef Mx<2, 3> A23;
typedef Mx<3, 2> A32;
typedef Mx<2, 2> A22;
typedef Mx<3, 3> A33;
typedef sm::source_file_pos At;

#define PASSES(stmt) { testing::failed = false; stmt; return !testing::failed; }
#define EVERY(holds) { bool ok = true; for (int r = 0; r < 2; r++) for (int c = 0; c < 3; c++) if (!(holds)) ok = false; return ok; }

#define HELPER(name, CALL, holds) \
  bool lhs_##name(const A23& a, const A23& b, double tol, const At& at) PASSES(CALL) \
  bool rhs_##name(const A23& a, const A23& b, double tol, const At& at) EVERY(holds) \
  bool lhs_##name##_transposed(const A23& a, const A32& b, double tol, const At& at) PASSES(CALL) \
  bool rhs_##name##_transposed(const A23& a, const A32& b, double tol, const At& at) { return false; } \
  bool lhs_##name##_rows(const A33& a, const A23& b, double tol, const At& at) PASSES(CALL) \
  bool rhs_##name##_rows(const A33& a, const A23& b, double tol, const At& at) { return false; } \
  bool lhs_##name##_more_rows(const A23& a, const A33& b, double tol, const At& at) PASSES(CALL) \
  bool rhs_##name##_more_rows(const A23& a, const A33& b, double tol, const At& at) { return false; } \
  bool lhs_##name##_more_columns(const A22& a, const A23& b, double tol, const At& at) PASSES(CALL) \
  bool rhs_##name##_more_columns(const A22& a, const A23& b, double tol, const At& at) { return false; } \
  bool lhs_##name##_columns(const A23& a, const A22& b, double tol, const At& at) PASSES(CALL) \
  bool rhs_##name##_columns(const A23& a, const A22& b, double tol, const At& at) { return false; }
HELPER(equal, sm::eigen::assertEqual(a, b, at), a(r, c) == b(r, c))
HELPER(equal_said, sm::eigen::assertEqual(a, b, at, "why"), a(r, c) == b(r, c))
HELPER(near, sm::eigen::assertNear(a, b, tol, at), std::fabs(a(r, c) - b(r, c)) <= tol)
HELPER(near_said, sm::eigen::assertNear(a, b, tol, at, "why"), std::fabs(a(r, c) - b(r, c)) <= tol)
HELPER(expected, sm::eigen::expectNear(a, b, tol, at), std::fabs(a(r, c) - b(r, c)) <= tol)
HELPER(expected_said, sm::eigen::expectNear(a, b, tol, at, "why"), std::fabs(a(r, c) - b(r, c)) <= tol)
bool lhs_finite(const A23& a, const At& at) PASSES(sm::eigen::assertFinite(a, at))
bool rhs_finite(const A23& a, const At& at) EVERY(std::isfinite(a(r, c)))

// the definition; the larger magnitude, and the comparison with it, in each of the ways they may be written
struct Max { static double of(double x, double y) { return std::max(x, y); } };
struct Larger { static double of(double x, double y) { return x > y ? x : y; } };
struct Quotient { static bool within(double d, double m, double p) { return d / m <= p * 1e-2; } };
struct Product { static bool within(double d, double m, double p) { return d <= p * 1e-2 * m; } };
template <typename M, typename W> static bool agree(double a, double b, double percent) {
  double fa = std::fabs(a), fb = std::fabs(b);
  if ((fa < 1e-15 && fb < 1e-15) || (fa == 0.0 && fb < 1e-6) || (fb == 0.0 && fa < 1e-6)) return true;
  if (a == b) return true;
  return W::within(std::fabs(a - b), M::of(fa, fb), percent);
}
template <typename M, typename W> static double error(double a, double b, double percent) {
  return agree<M, W>(a, b, percent) ? 0 : std::fabs(a - b) / M::of(std::fabs(a), std::fabs(b)) * 100.0;
}
bool lhs_relative(double a, double b, double percent) { return sm::eigen::compareRelative(a, b, percent); }
bool lhs_relative_error(double a, double b, double percent) { double e = -1; return sm::eigen::compareRelative(a, b, percent, &e); }
double lhs_error(double a, double b, double percent) { double e = -1; return sm::eigen::compareRelative(a, b, percent, &e) ? 0 : e; }
#define WAY(pre, M, W) \
  bool pre##_relative(double a, double b, double percent) { return agree<M, W>(a, b, percent); } \
  bool pre##_relative_error(double a, double b, double percent) { return agree<M, W>(a, b, percent); } \
  double pre##_error(double a, double b, double percent) { return error<M, W>(a, b, percent); }
WAY(rhs, Max, Quotient)
WAY(alt1, Larger, Quotient)
WAY(alt2, Max, Product)
WAY(alt3, Larger, Product)

static bool agree(double a, double b, double tol) { return sm::eigen::compareRelative(a, b, tol); }
static void all(const A23& a, const A23& b, double tol) { ASSERT_DOUBLE_MX_EQ(a, b, tol, "why") }
template <typename X, typename Y> static void sized(const X& a, const Y& b, double tol) { ASSERT_DOUBLE_MX_EQ(a, b, tol, "why") }
bool lhs_all(const A23& a, const A23& b, double tol) PASSES(all(a, b, tol))
bool rhs_all(const A23& a, const A23& b, double tol) EVERY(agree(a(r, c), b(r, c), tol))
bool lhs_all_transposed(const A23& a, const A32& b, double tol) PASSES(sized(a, b, tol))
bool rhs_all_transposed(const A23& a, const A32& b, double tol) { return false; }
bool lhs_all_rows(const A33& a, const A23& b, double tol) PASSES(sized(a, b, tol))
bool rhs_all_rows(const A33& a, const A23& b, double tol) { return false; }
bool lhs_all_columns(const A23& a, const A22& b, double tol) PASSES(sized(a, b, tol))
bool rhs_all_columns(const A23& a, const A22& b, double tol) { return false; }
bool lhs_all_more_rows(const A23& a, const A33& b, double tol) PASSES(sized(a, b, tol))
bool rhs_all_more_rows(const A23& a, const A33& b, double tol) { return false; }
bool lhs_all_more_columns(const A22& a, const A23& b, double tol) PASSES(sized(a, b, tol))
bool rhs_all_more_columns(const A22& a, const A23& b, double tol) { return false; }
