// The square root of a covariance and the central-difference Jacobian.
#include <limits>
#include <functional>
#include <cmath>
#include <Eigen/Core>
#include <Eigen/Cholesky>
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/NumericalDiff.hpp>
#include <sm/eigen/random.hpp>
#include <sm/random.hpp>

// ---- square root: S S' is the matrix the factorisation describes, with what rounding made negative counted as zero
template <typename M> M rebuilt(const M& A) {
  Eigen::LDLT<M> f(A);
  M L = f.matrixL();
  M D = M::Zero();
  for (int k = 0; k < A.rows(); k++) D(k, k) = f.vectorD()(k) > 0.0 ? f.vectorD()(k) : 0.0;
  M P = M::Identity();
  P = f.transpositionsP() * P;
  M R = P.transpose() * L * D * L.transpose() * P;
  return R;
}
template <typename M> M squared(const M& A) {
  M S;
  sm::eigen::computeMatrixSqrt(A, S);
  M R = S * S.transpose();
  return R;
}
Eigen::Matrix2d lhs_sqrt2(const Eigen::Matrix2d& A) { return squared(A); }
Eigen::Matrix2d rhs_sqrt2(const Eigen::Matrix2d& A) { return rebuilt(A); }
Eigen::Matrix3d lhs_sqrt3(const Eigen::Matrix3d& A) { return squared(A); }
Eigen::Matrix3d rhs_sqrt3(const Eigen::Matrix3d& A) { return rebuilt(A); }

// ---- central differences
typedef Eigen::Matrix<double, 2, 1> R2;
typedef Eigen::Matrix<double, 3, 1> R3;
typedef Eigen::Matrix<double, 2, 3> J23;
R2 function(const R3& x);
struct Fn {
  typedef R2 value_t;
  typedef double scalar_t;
  typedef R3 input_t;
  typedef J23 jacobian_t;
  value_t operator()(const input_t& x) { return function(x); }
  input_t update(const input_t& x, int c, scalar_t d) { input_t y = x; y[c] += d; return y; }
};
double step(double x, double eps) { double h = std::fabs(x) * eps; return h < eps ? eps : h; }

J23 lhs_jacobian(const R3& x, double pos_eps) { sm::eigen::NumericalDiff<Fn> d(Fn(), pos_eps); return d.estimateJacobian(x); }
J23 rhs_jacobian(const R3& x, double pos_eps) {
  J23 J;
  for (int c = 0; c < 3; c++) {
    double h = step(x[c], pos_eps);
    R3 a = x, b = x;
    a[c] += h;
    b[c] -= h;
    R2 p = function(a), m = function(b);
    for (int r = 0; r < 2; r++) J(r, c) = (p[r] - m[r]) / (2.0 * h);
  }
  return J;
}

// the functor that wraps a function, and the convenience function
typedef sm::eigen::NumericalDiffFunctor<R2, R3, J23> Wrapped;
R3 lhs_update(const R3& x, double d) { Wrapped w(&function); R3 y = w.update(x, 1, d); return y; }
R3 rhs_update(const R3& x, double d) { R3 y(x[0], x[1] + d, x[2]); return y; }
R2 lhs_value(const R3& x) { Wrapped w(&function); R2 y = w(x); return y; }
R2 rhs_value(const R3& x) { R2 y = function(x); return y; }
J23 lhs_wrapped(const R3& x, double pos_eps) { sm::eigen::NumericalDiff<Wrapped> d(Wrapped(&function), pos_eps); return d.estimateJacobian(x); }
J23 rhs_wrapped(const R3& x, double pos_eps) { return rhs_jacobian(x, pos_eps); }
J23 lhs_convenience(const R3& x, double pos_eps) {
  std::function<R2(const R3&)> f = &function;
  J23 J = sm::eigen::numericalDiff<R2, R3>(f, x, pos_eps);
  return J;
}
J23 rhs_convenience(const R3& x, double pos_eps) { return rhs_jacobian(x, pos_eps); }
J23 lhs_default_step(const R3& x) {
  std::function<R2(const R3&)> f = &function;
  J23 J = sm::eigen::numericalDiff<R2, R3>(f, x);
  return J;
}
J23 rhs_default_step(const R3& x) { return rhs_jacobian(x, std::sqrt(std::numeric_limits<double>::epsilon())); }

// ---- a vector of normal samples: one draw per entry
R3 lhs_randn(double) { R3 v = sm::eigen::randn(3); return v; }
R3 rhs_randn(double) {
  double a = sm::random::randn(), b = sm::random::randn(), c = sm::random::randn();
  return R3(a, b, c);
}
