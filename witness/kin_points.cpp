// Homogeneous points stand for points of Euclidean space: every operation is the Euclidean one on the points they stand for.
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>

using namespace sm::kinematics;
typedef Eigen::Matrix3d M;
typedef Eigen::Matrix4d M4;
typedef Eigen::Matrix<double, 2, 3> M23;
typedef Eigen::Matrix<double, 3, 3> M33;
typedef Eigen::Vector3d V;
typedef Eigen::Vector4d Q;
typedef HomogeneousPoint HP;
typedef UncertainHomogeneousPoint UHP;

#define PAIR(T, NAME, ARGS, L, R) \
  T lhs_##NAME ARGS { T A = L; return A; } \
  T rhs_##NAME ARGS { T A = R; return A; }

// the column that stands for p, w times
static Q at(const V& p, double w) { return Q(p[0] * w, p[1] * w, p[2] * w, w); }

// p, given as a point by the column of that weight
static V point(const V& p, double w) { HP h(at(p, w)); return p; }

// what is put in
PAIR(Q, origin, (), HP().toHomogeneous(), Q(0, 0, 0, 1))
PAIR(Q, from_euclidean, (const V& p), HP(p).toHomogeneous(), Q(p[0], p[1], p[2], 1))
PAIR(Q, from_column, (const Q& nonzero_p), HP(nonzero_p).toHomogeneous(), nonzero_p)
Q lhs_assign_column(const Q& nonzero_p) { HP h; h = nonzero_p; Q r = h.toHomogeneous(); return r; }
Q rhs_assign_column(const Q& nonzero_p) { Q r = nonzero_p; return r; }
Q lhs_assign_euclidean(const Q& nonzero_q, const V& p) { HP h(nonzero_q); h = p; Q r = h.toHomogeneous(); return r; }
Q rhs_assign_euclidean(const Q& nonzero_q, const V& p) { Q r(p[0], p[1], p[2], 1); return r; }
Q lhs_set_column(const Q& nonzero_q, const Q& p) { HP h(nonzero_q); h.set(p); Q r = h.toHomogeneous(); return r; }
Q rhs_set_column(const Q& nonzero_q, const Q& p) { Q r = p; return r; }
Q lhs_set_euclidean(const Q& nonzero_q, const V& p) { HP h(nonzero_q); h.set(p); Q r = h.toHomogeneous(); return r; }
Q rhs_set_euclidean(const Q& nonzero_q, const V& p) { Q r(p[0], p[1], p[2], 1); return r; }
Q lhs_set_zero(const Q& nonzero_q) { HP h(nonzero_q); h.setZero(); Q r = h.toHomogeneous(); return r; }
Q rhs_set_zero(const Q& nonzero_q) { Q r(0, 0, 0, 1); return r; }
PAIR(Q, toHomogeneous, (const V& p), toHomogeneous(p), Q(p[0], p[1], p[2], 1))

// what comes out
PAIR(V, stands_for, (const V& p, double nonzero_w), HP(at(p, nonzero_w)).toEuclidean(), p)
PAIR(V, stands_for_fromHomogeneous, (const V& p, double nonzero_w), fromHomogeneous(at(p, nonzero_w)), p)
V lhs_stands_for_with_jacobian(const V& p, double nonzero_w) { M J; V r = HP(at(p, nonzero_w)).toEuclideanAndJacobian(J); return r; }
V rhs_stands_for_with_jacobian(const V& p, double nonzero_w) { V r = p; return r; }
PAIR(V, round, (const V& p), fromHomogeneous(toHomogeneous(p)), p)
Q lhs_column_with_jacobian(const Q& nonzero_p) { HP::homogeneous_jacobian_t J; Q r = HP(nonzero_p).toHomogeneousAndJacobian(J); return r; }
Q rhs_column_with_jacobian(const Q& nonzero_p) { Q r = nonzero_p; return r; }

// arithmetic
#define BOTH(L, R, SUFFIX)                                                                                                            \
  PAIR(V, sum##SUFFIX, (const V& a, double nonzero_v, const V& b, double nonzero_w), fromHomogeneous((L(at(a, nonzero_v)) + R(at(b, nonzero_w))).toHomogeneous()), point(a + b, nonzero_v * nonzero_w)) \
  PAIR(V, difference##SUFFIX, (const V& a, double nonzero_v, const V& b, double nonzero_w), fromHomogeneous((L(at(a, nonzero_v)) - R(at(b, nonzero_w))).toHomogeneous()), point(a - b, nonzero_v * nonzero_w))
BOTH(HP, HP, )
BOTH(HP, UHP, _uncertain_right)
BOTH(UHP, HP, _uncertain_left)
BOTH(UHP, UHP, _uncertain)
V lhs_scale(const V& p, double nonzero_w, double s) { HP h(at(p, nonzero_w)); h.scale(s); V r = h.toEuclidean(); return r; }
V rhs_scale(const V& p, double nonzero_w, double s) { V r = p * s; return r; }
V lhs_normalize_point(const V& p, double nonzero_w) { HP h(at(p, nonzero_w)); h.normalize(); V r = fromHomogeneous(h.toHomogeneous()); return r; }
V rhs_normalize_point(const V& p, double nonzero_w) { V r = p; return r; }
V lhs_normalize_uncertain_point(const V& p, double nonzero_w) { UHP h(at(p, nonzero_w)); h.normalize(); V r = fromHomogeneous(h.toHomogeneous()); return r; }
V rhs_normalize_uncertain_point(const V& p, double nonzero_w) { V r = p; return r; }
double lhs_normalize_length(const Q& nonzero_p) { HP h(nonzero_p); h.normalize(); double r = h.toHomogeneous().squaredNorm(); return r; }
double rhs_normalize_length(const Q& nonzero_p) { return 1; }
double lhs_normalize_uncertain_length(const Q& nonzero_p) { UHP h(nonzero_p); h.normalize(); double r = h.toHomogeneous().squaredNorm(); return r; }
double rhs_normalize_uncertain_length(const Q& nonzero_p) { return 1; }
Q lhs_oplus(const Q& unit_p, const V& d) { HP h(unit_p); h.oplus(d); Q r = h.toHomogeneous(); return r; }
Q rhs_oplus(const Q& unit_p, const V& d) { Q r = qplus(axisAngle2quat(d), unit_p); return r; }

// points at infinity
Q lhs_to_vector(const Q& nonzero_p) { HP h(nonzero_p); h.convertToVector(); Q r = h.toHomogeneous(); return r; }
Q rhs_to_vector(const Q& nonzero_p) { Q r(nonzero_p[0], nonzero_p[1], nonzero_p[2], 0); return r; }
V lhs_to_point(const V& nonzero_p) { HP h(Q(nonzero_p[0], nonzero_p[1], nonzero_p[2], 0)); h.convertToPoint(); V r = h.toEuclidean(); return r; }
V rhs_to_point(const V& nonzero_p) { V r = nonzero_p / nonzero_p.norm(); return r; }
bool lhs_at_infinity(const Q& nonzero_p) { return HP(nonzero_p).atInfinity(); }
bool rhs_at_infinity(const Q& nonzero_p) { return nonzero_p[3] == 0; }
bool lhs_is_vector(const Q& nonzero_p) { return HP(nonzero_p).isVector(); }
bool rhs_is_vector(const Q& nonzero_p) { return nonzero_p[3] == 0; }

Q lhs_scale_vector(const V& nonzero_p, double s) { HP h(Q(nonzero_p[0], nonzero_p[1], nonzero_p[2], 0)); h.scale(s); Q r = h.toHomogeneous(); return r; }
Q rhs_scale_vector(const V& nonzero_p, double s) { Q r(nonzero_p[0] * s, nonzero_p[1] * s, nonzero_p[2] * s, 0); return r; }
PAIR(Q, sum_of_point_and_vector, (const V& a, double nonzero_v, const V& nonzero_p), (HP(at(a, nonzero_v)) + HP(Q(nonzero_p[0], nonzero_p[1], nonzero_p[2], 0))).toHomogeneous(), HP(Q(nonzero_p[0] * nonzero_v, nonzero_p[1] * nonzero_v, nonzero_p[2] * nonzero_v, 0)).toHomogeneous())

// several points, one to a column
PAIR(M33, columns_to, (const M23& C), toHomogeneousColumns(C), (M33() << C, 1, 1, 1).finished())
PAIR(M23, columns_from, (const M23& C, double nonzero_u, double nonzero_v, double nonzero_w), fromHomogeneousColumns((M33() << C.col(0) * nonzero_u, C.col(1) * nonzero_v, C.col(2) * nonzero_w, nonzero_u, nonzero_v, nonzero_w).finished()), C)

// an uncertain point: what it is made of is what it tells
PAIR(Q, uncertain_column, (const Q& nonzero_p, const M4& U), UHP(nonzero_p, U).toHomogeneous(), nonzero_p)
PAIR(Q, uncertain_of_point, (const Q& nonzero_p, const M4& U), UHP(HP(nonzero_p), U).toHomogeneous(), nonzero_p)
PAIR(Q, uncertain_euclidean, (const V& p, const M& U), UHP(p, U).toHomogeneous(), Q(p[0], p[1], p[2], 1))
PAIR(M4, uncertain_given, (const Q& nonzero_p, const M4& U), UHP(nonzero_p, U).U4(), U)
PAIR(M4, uncertain_given_point, (const Q& nonzero_p, const M4& U), UHP(HP(nonzero_p), U).U4(), U)
PAIR(M4, certain_default, (), UHP().U4(), M4::Zero())
PAIR(M4, certain_euclidean, (const V& p), UHP(p).U4(), M4::Zero())
PAIR(M4, certain_column, (const Q& nonzero_p), UHP(nonzero_p).U4(), M4::Zero())
PAIR(M4, certain_point, (const Q& nonzero_p), UHP(HP(nonzero_p)).U4(), M4::Zero())
M4 lhs_set_U(const Q& nonzero_p, const M4& U, const M4& W) { UHP h(nonzero_p, U); h.setU(W); M4 r = h.U4(); return r; }
M4 rhs_set_U(const Q& nonzero_p, const M4& U, const M4& W) { M4 r = W; return r; }
PAIR(M, oplus_form, (const Q& unit_p, const M& U), UHP(unit_p, U).U_av_form(), U)
PAIR(M, oplus_form_point, (const Q& unit_p, const M& U), UHP(HP(unit_p), U).U_av_form(), U)

// what is no point
void refused_longer(const Eigen::Matrix<double, 5, 1>& p) { HP h; h.set(p); }
void refused_shorter(const Eigen::Matrix<double, 2, 1>& p) { HP h; h.set(p); }
