// C04: small numeric helpers.
#include <algorithm>
#include <cmath>
#include <stdexcept>
#include <utility>
#include <sm/maths.hpp>
#include <sm/round.hpp>
#include <sm/numerical_comparisons.hpp>
using std::invalid_argument;

double lhs_round(double x) { return sm::round(x); }
double rhs_round(double x) { return x < 0 ? std::ceil(x - 0.5) : std::floor(x + 0.5); }
double alt1_round(double x) { return std::round(x); }
float lhs_roundf(float x) { return sm::round(x); }
float rhs_roundf(float x) { return x < 0 ? std::ceil(x - 0.5f) : std::floor(x + 0.5f); }
float alt1_roundf(float x) { return std::round(x); }
int lhs_rint(double x) { return sm::rint(x); }
int rhs_rint(double x) { return (int)sm::round(x); }
int lhs_rintf(float x) { return sm::rint(x); }
int rhs_rintf(float x) { return (int)sm::round(x); }
long lhs_lrint(double x) { return sm::lrint(x); }
long rhs_lrint(double x) { return (long)sm::round(x); }
long lhs_lrintf(float x) { return sm::lrint(x); }
long rhs_lrintf(float x) { return (long)sm::round(x); }

template<typename T> static T bound(T a, T b, T e) { if(!(e > 0)) throw invalid_argument(""); return std::max(std::abs(a), std::abs(b)) * e; }
bool lhs_equal(double a, double b, double e) { return sm::approximatelyEqual(a, b, e); }
bool rhs_equal(double a, double b, double e) { double t = bound(a, b, e); return std::abs(a - b) <= t; }
bool lhs_greater(double a, double b, double e) { return sm::definitelyGreaterThan(a, b, e); }
bool rhs_greater(double a, double b, double e) { double t = bound(a, b, e); return a - b > t; }
bool lhs_less(double a, double b, double e) { return sm::definitelyLessThan(a, b, e); }
bool rhs_less(double a, double b, double e) { double t = bound(a, b, e); return b - a > t; }
bool lhs_equalf(float a, float b, float e) { return sm::approximatelyEqual(a, b, e); }
bool rhs_equalf(float a, float b, float e) { float t = bound(a, b, e); return std::abs(a - b) <= t; }
bool lhs_equalDefault(double a, double b) { return sm::approximatelyEqual(a, b); }
bool rhs_equalDefault(double a, double b) { return sm::approximatelyEqual(a, b, std::numeric_limits<double>::epsilon()); }
bool lhs_greaterDefault(float a, float b) { return sm::definitelyGreaterThan(a, b); }
bool rhs_greaterDefault(float a, float b) { return sm::definitelyGreaterThan(a, b, std::numeric_limits<float>::epsilon()); }
bool lhs_lessDefault(double a, double b) { return sm::definitelyLessThan(a, b); }
bool rhs_lessDefault(double a, double b) { return sm::definitelyLessThan(a, b, std::numeric_limits<double>::epsilon()); }

int lhs_signum(double x) { return sm::sgn(x); }
int rhs_signum(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
int lhs_signumInt(int x) { return sm::sgn(x); }
int rhs_signumInt(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }

std::pair<double, double> lhs_roots(double a, double b, double c) { return sm::solveQuadratic(a, b, c); }
std::pair<double, double> rhs_roots(double a, double b, double c) {
  double d = b * b - 4 * a * c;
  if(d < 0) throw std::runtime_error("");
  double n = b < 0 ? std::sqrt(d) - b : -std::sqrt(d) - b;
  return std::make_pair(n / (2 * a), n == 0 ? 0.0 : 2 * c / n);
}
std::pair<double, double> alt1_roots(double a, double b, double c) {
  double d = b * b - 4 * a * c;
  if(d < 0) throw std::runtime_error("");
  double n = b < 0 ? std::sqrt(d) - b : -std::sqrt(d) - b;
  return n == 0 ? std::make_pair(0.0, 0.0) : std::make_pair(n / (2 * a), 2 * c / n);
}
