// The matrix assertion: throws exactly when some coefficient is not finite.
#include <sm/eigen/assert_macros.hpp>
#include <vector>
SM_DEFINE_EXCEPTION(Fault, std::runtime_error);
struct Mat {
  int nr, nc;
  std::vector<double> d;
  int rows() const { return nr; }
  int cols() const { return nc; }
  double operator()(int r, int c) const { return d[r * nc + c]; }
};
struct Count { int n; Count operator-() const { Count c; c.n = -n; return c; } };
// a view whose negation has the same size: an argument that is not treated as a unit has a negative one
struct View { const Mat & m; int s;
  int rows() const { return m.nr; }
  int cols() const { return m.nc; }
  double operator()(int r, int c) const { return s * m(r, c); }
  View operator-() const { return View{m, -s}; }
};
std::ostream & operator<<(std::ostream &, const Mat &);
std::ostream & operator<<(std::ostream &, const View &);
#ifdef DBG
#define M SM_ASSERT_MAT_IS_FINITE_DBG
#else
#define M SM_ASSERT_MAT_IS_FINITE
#endif
void lhs_mat(const Mat & m) { M(Fault, m, "m"); }
void rhs_mat(const Mat & m) { for(int r = 0; r < m.nr; ++r) for(int c = 0; c < m.nc; ++c) if(!std::isfinite(m(r, c))) throw Fault("x"); }
void lhs_view(const View & m) { M(Fault, -m, "m"); }
void rhs_view(const View & m) { View v = -m; for(int r = 0; r < v.rows(); ++r) for(int c = 0; c < v.cols(); ++c) if(!std::isfinite(v(r, c))) throw Fault("x"); }
