// Uncertainty: every operation's covariance against J P J^T, with J the derivative of the operation's mean (val_/jac_ pairs).
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainVector.hpp>

using namespace sm::kinematics;
typedef Eigen::Matrix3d M;
typedef Eigen::Matrix4d M4;
typedef Eigen::Matrix<double, 3, 4> M34;
typedef Eigen::Matrix<double, 4, 3> M43;
typedef Eigen::Matrix<double, 6, 6> M6;
typedef Eigen::Matrix<double, 4, 6> M46;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 1, 3> R3;
typedef Eigen::Vector3d V;
typedef Eigen::Vector4d Q;
typedef UncertainVector<3> UV;
typedef UncertainVector<1> US;
typedef UncertainHomogeneousPoint UHP;
typedef HomogeneousPoint HP;
typedef UncertainTransformation UT;

#define PAIR(T, NAME, ARGS, L, R) \
  T lhs_##NAME ARGS { T A = L; return A; } \
  T rhs_##NAME ARGS { T A = R; return A; }

static M4 left(const Q& b, double s) { M4 J = M4::Zero(); J(0, 0) = J(1, 1) = J(2, 2) = J(3, 3) = b[3]; J(0, 3) = s * b[0]; J(1, 3) = s * b[1]; J(2, 3) = s * b[2]; return J; }
static M4 right(const Q& a, double s) { M4 J = M4::Zero(); J(0, 0) = J(1, 1) = J(2, 2) = s * a[3]; J(3, 3) = a[3]; J(0, 3) = a[0]; J(1, 3) = a[1]; J(2, 3) = a[2]; return J; }
static M4 matrix(const M& C, const V& t) { M4 T = M4::Identity(); T.topLeftCorner<3, 3>() = C; T.topRightCorner<3, 1>() = t; return T; }

// ---- homogeneous points
Q val_add_left(const Q& b, const Q& d_a) { UHP s = UHP(d_a) + UHP(b); Q r = s.toHomogeneous(); return r; }
M4 jac_add_left(const Q& b, const Q& d_a) { M4 J = left(b, 1.0); return J; }
Q val_add_right(const Q& a, const Q& d_b) { UHP s = UHP(a) + UHP(d_b); Q r = s.toHomogeneous(); return r; }
M4 jac_add_right(const Q& a, const Q& d_b) { M4 J = right(a, 1.0); return J; }
Q val_sub_left(const Q& b, const Q& d_a) { UHP s = UHP(d_a) - UHP(b); Q r = s.toHomogeneous(); return r; }
M4 jac_sub_left(const Q& b, const Q& d_a) { M4 J = left(b, -1.0); return J; }
Q val_sub_right(const Q& a, const Q& d_b) { UHP s = UHP(a) - UHP(d_b); Q r = s.toHomogeneous(); return r; }
M4 jac_sub_right(const Q& a, const Q& d_b) { M4 J = right(a, -1.0); return J; }
#define POINTS(NAME, OP, S) \
  M4 lhs_value_UHP_##NAME##_U(const Q& a, const Q& b, const M4& U, const M4& W) { UHP s = UHP(a, U) OP UHP(b, W); M4 r = s.U4(); return r; } \
  M4 rhs_value_UHP_##NAME##_U(const Q& a, const Q& b, const M4& U, const M4& W) { M4 r = left(b, S) * U * left(b, S).transpose() + right(a, S) * W * right(a, S).transpose(); return r; } \
  M4 lhs_value_UHP_##NAME##_certain_U(const Q& a, const Q& b, const M4& U) { UHP s = UHP(a, U) OP HP(b); M4 r = s.U4(); return r; } \
  M4 rhs_value_UHP_##NAME##_certain_U(const Q& a, const Q& b, const M4& U) { UHP s = UHP(a, U) OP UHP(b); M4 r = s.U4(); return r; } \
  M4 lhs_value_HP_##NAME##_uncertain_U(const Q& a, const Q& b, const M4& U) { UHP s = HP(a) OP UHP(b, U); M4 r = s.U4(); return r; } \
  M4 rhs_value_HP_##NAME##_uncertain_U(const Q& a, const Q& b, const M4& U) { UHP s = UHP(a) OP UHP(b, U); M4 r = s.U4(); return r; } \
  Q lhs_value_UHP_##NAME##_mean(const Q& a, const Q& b, const M4& U, const M4& W) { UHP s = UHP(a, U) OP UHP(b, W); Q r = s.toHomogeneous(); return r; } \
  Q rhs_value_UHP_##NAME##_mean(const Q& a, const Q& b, const M4& U, const M4& W) { HP s = HP(a) OP HP(b); Q r = s.toHomogeneous(); return r; } \
  Q lhs_value_UHP_##NAME##_certain_mean(const Q& a, const Q& b, const M4& U) { UHP s = UHP(a, U) OP HP(b); Q r = s.toHomogeneous(); return r; } \
  Q rhs_value_UHP_##NAME##_certain_mean(const Q& a, const Q& b, const M4& U) { HP s = HP(a) OP HP(b); Q r = s.toHomogeneous(); return r; } \
  Q lhs_value_HP_##NAME##_uncertain_mean(const Q& a, const Q& b, const M4& U) { UHP s = HP(a) OP UHP(b, U); Q r = s.toHomogeneous(); return r; } \
  Q rhs_value_HP_##NAME##_uncertain_mean(const Q& a, const Q& b, const M4& U) { HP s = HP(a) OP HP(b); Q r = s.toHomogeneous(); return r; }
POINTS(add, +, 1.0)
POINTS(sub, -, -1.0)

M lhs_value_UHP_U3(const Q& p, const M4& U) { M r = UHP(p, U).U3(); return r; }
M rhs_value_UHP_U3(const Q& p, const M4& U) { M34 J; V e = fromHomogeneous(p, &J); M r = J * U * J.transpose(); return r; }
M4 lhs_value_UHP_from_euclidean(const V& p, const M& U) { M4 r = UHP(p, U).U4(); return r; }
M4 rhs_value_UHP_from_euclidean(const V& p, const M& U) { M43 J = toHomogeneousJacobian(p); M4 r = J * U * J.transpose(); return r; }
M4 lhs_value_UHP_normalize_U(const Q& p, const M4& U) { UHP h(p, U); h.normalize(); M4 r = h.U4(); return r; }
M4 rhs_value_UHP_normalize_U(const Q& p, const M4& U) { M4 J; Q n = normalizeAndJacobian<4>(p, J); M4 r = J * U * J.transpose(); return r; }
Q lhs_value_UHP_normalize_mean(const Q& p, const M4& U) { UHP h(p, U); h.normalize(); Q r = h.toHomogeneous(); return r; }
Q rhs_value_UHP_normalize_mean(const Q& p, const M4& U) { HP h(p); h.normalize(); Q r = h.toHomogeneous(); return r; }
M4 lhs_UHP_setUOplus(const Q& unit_p, const M& U) { UHP h(unit_p); h.setUOplus(U); M4 r = h.U4(); return r; }
M4 rhs_UHP_setUOplus(const Q& unit_p, const M& U) { M43 J = quatJacobian(unit_p); M4 r = J * U * J.transpose(); return r; }
M4 lhs_UHP_from_oplus(const Q& unit_p, const M& U) { M4 r = UHP(unit_p, U).U4(); return r; }
M4 rhs_UHP_from_oplus(const Q& unit_p, const M& U) { M43 J = quatJacobian(unit_p); M4 r = J * U * J.transpose(); return r; }
M4 lhs_UHP_point_from_oplus(const Q& unit_p, const M& U) { M4 r = UHP(HP(unit_p), U).U4(); return r; }
M4 rhs_UHP_point_from_oplus(const Q& unit_p, const M& U) { M43 J = quatJacobian(unit_p); M4 r = J * U * J.transpose(); return r; }
M lhs_UHP_av_back(const Q& unit_p, const M& U) { UHP h(unit_p); h.setUOplus(U); M r = h.U_av_form(); return r; }
M rhs_UHP_av_back(const Q& unit_p, const M& U) { M r = U; return r; }
M lhs_UHP_av_form(const Q& unit_p, const M4& U) { M r = UHP(unit_p, U).U_av_form(); return r; }
M rhs_UHP_av_form(const Q& unit_p, const M4& U) { M43 J = quatJacobian(unit_p); M r = 16.0 * (J.transpose() * U * J); return r; }
PAIR(M4, UHP_certain, (const Q& nonzero_p), UHP(nonzero_p).U4(), M4::Zero())
PAIR(M4, UHP_certain_point, (const Q& nonzero_p), UHP(HP(nonzero_p)).U4(), M4::Zero())
PAIR(M4, UHP_certain_euclidean, (const V& p), UHP(p).U4(), M4::Zero())
PAIR(M4, UHP_certain_default, (int), UHP().U4(), M4::Zero())
M4 lhs_UHP_setU(const Q& nonzero_p, const M4& U) { UHP h(nonzero_p); h.setU(U); M4 r = h.U4(); return r; }
M4 rhs_UHP_setU(const Q& nonzero_p, const M4& U) { M4 r = U; return r; }

// ---- transformations: perturbed as (I - boxPlus(d)) T, so that J of T*p is boxMinus(T p) and J of the right factor is boxTimes(T)
Q val_move_T(const M4& T, const Q& p, const V6& d_d) { Q r = (M4::Identity() - boxPlus(d_d)) * T * p; return r; }
M46 jac_move_T(const M4& T, const Q& p, const V6& d_d) { M46 J = boxMinus(T * p); return J; }
PAIR(M4, adjoint, (const Q& unit_q, const V& t, const V6& d), boxPlus(boxTimes(matrix(quat2r(unit_q), t)) * d) * matrix(quat2r(unit_q), t), matrix(quat2r(unit_q), t) * boxPlus(d))
M6 lhs_UT_times_UT_U(const Q& unit_q, const V& t, const M6& U, const Q& unit_p, const V& x, const M6& W) { M6 r = (UT(unit_q, t, U) * UT(unit_p, x, W)).U(); return r; }
M6 rhs_UT_times_UT_U(const Q& unit_q, const V& t, const M6& U, const Q& unit_p, const V& x, const M6& W) { M6 J = boxTimes(matrix(quat2r(unit_q), t)); M6 r = U + J * W * J.transpose(); return r; }
M6 lhs_UT_times_T_U(const Q& unit_q, const V& t, const M6& U, const Q& unit_p, const V& x) { M6 r = (UT(unit_q, t, U) * Transformation(unit_p, x)).U(); return r; }
M6 rhs_UT_times_T_U(const Q& unit_q, const V& t, const M6& U, const Q& unit_p, const V& x) { M6 r = U; return r; }
M6 lhs_T_times_UT_U(const Q& unit_q, const V& t, const Q& unit_p, const V& x, const M6& W) { M6 r = (Transformation(unit_q, t) * UT(unit_p, x, W)).U(); return r; }
M6 rhs_T_times_UT_U(const Q& unit_q, const V& t, const Q& unit_p, const V& x, const M6& W) { M6 J = boxTimes(matrix(quat2r(unit_q), t)); M6 r = J * W * J.transpose(); return r; }
M4 lhs_UT_times_UT_mean(const Q& unit_q, const V& t, const M6& U, const Q& unit_p, const V& x, const M6& W) { M4 r = (UT(unit_q, t, U) * UT(unit_p, x, W)).T(); return r; }
M4 rhs_UT_times_UT_mean(const Q& unit_q, const V& t, const M6& U, const Q& unit_p, const V& x, const M6& W) { M4 r = (Transformation(unit_q, t) * Transformation(unit_p, x)).T(); return r; }
M4 lhs_UT_times_T_mean(const Q& unit_q, const V& t, const M6& U, const Q& unit_p, const V& x) { M4 r = (UT(unit_q, t, U) * Transformation(unit_p, x)).T(); return r; }
M4 rhs_UT_times_T_mean(const Q& unit_q, const V& t, const M6& U, const Q& unit_p, const V& x) { M4 r = (Transformation(unit_q, t) * Transformation(unit_p, x)).T(); return r; }
M4 lhs_T_times_UT_mean(const Q& unit_q, const V& t, const Q& unit_p, const V& x, const M6& W) { M4 r = (Transformation(unit_q, t) * UT(unit_p, x, W)).T(); return r; }
M4 rhs_T_times_UT_mean(const Q& unit_q, const V& t, const Q& unit_p, const V& x, const M6& W) { M4 r = (Transformation(unit_q, t) * Transformation(unit_p, x)).T(); return r; }
M6 lhs_UT_inverse_U(const Q& unit_q, const V& t, const M6& U) { M6 r = UT(unit_q, t, U).inverse().U(); return r; }
M6 rhs_UT_inverse_U(const Q& unit_q, const V& t, const M6& U) { M6 J = boxTimes(matrix(quat2r(unit_q).transpose(), -quat2r(unit_q).transpose() * t)); M6 r = J * U * J.transpose(); return r; }
M4 lhs_UT_inverse_mean(const Q& unit_q, const V& t, const M6& U) { M4 r = UT(unit_q, t, U).inverse().T(); return r; }
M4 rhs_UT_inverse_mean(const Q& unit_q, const V& t, const M6& U) { M4 r = Transformation(unit_q, t).inverse().T(); return r; }
M4 lhs_value_UT_times_UHP_U(const Q& unit_q, const V& t, const M6& U, const Q& p, const M4& W) { M4 r = (UT(unit_q, t, U) * UHP(p, W)).U4(); return r; }
M4 rhs_value_UT_times_UHP_U(const Q& unit_q, const V& t, const M6& U, const Q& p, const M4& W) { M4 T = matrix(quat2r(unit_q), t); M46 J = boxMinus(T * p); M4 r = J * U * J.transpose() + T * W * T.transpose(); return r; }
M4 lhs_value_UT_times_HP_U(const Q& unit_q, const V& t, const M6& U, const Q& p) { M4 r = (UT(unit_q, t, U) * HP(p)).U4(); return r; }
M4 rhs_value_UT_times_HP_U(const Q& unit_q, const V& t, const M6& U, const Q& p) { M4 T = matrix(quat2r(unit_q), t); M46 J = boxMinus(T * p); M4 r = J * U * J.transpose(); return r; }
M4 lhs_value_T_times_UHP_U(const Q& unit_q, const V& t, const Q& p, const M4& W) { M4 r = (Transformation(unit_q, t) * UHP(p, W)).U4(); return r; }
M4 rhs_value_T_times_UHP_U(const Q& unit_q, const V& t, const Q& p, const M4& W) { M4 T = matrix(quat2r(unit_q), t); M4 r = T * W * T.transpose(); return r; }
Q lhs_value_UT_times_UHP_mean(const Q& unit_q, const V& t, const M6& U, const Q& p, const M4& W) { Q r = (UT(unit_q, t, U) * UHP(p, W)).toHomogeneous(); return r; }
Q rhs_value_UT_times_UHP_mean(const Q& unit_q, const V& t, const M6& U, const Q& p, const M4& W) { Q r = (Transformation(unit_q, t) * HP(p)).toHomogeneous(); return r; }
Q lhs_value_UT_times_HP_mean(const Q& unit_q, const V& t, const M6& U, const Q& p) { Q r = (UT(unit_q, t, U) * HP(p)).toHomogeneous(); return r; }
Q rhs_value_UT_times_HP_mean(const Q& unit_q, const V& t, const M6& U, const Q& p) { Q r = (Transformation(unit_q, t) * HP(p)).toHomogeneous(); return r; }
Q lhs_value_T_times_UHP_mean(const Q& unit_q, const V& t, const Q& p, const M4& W) { Q r = (Transformation(unit_q, t) * UHP(p, W)).toHomogeneous(); return r; }
Q rhs_value_T_times_UHP_mean(const Q& unit_q, const V& t, const Q& p, const M4& W) { Q r = (Transformation(unit_q, t) * HP(p)).toHomogeneous(); return r; }
M6 lhs_UT_setUOplus(const Q& unit_q, const V& t, const M6& U) { UT T(unit_q, t); T.setUOplus(U); M6 r = T.U(); return r; }
M6 rhs_UT_setUOplus(const Q& unit_q, const V& t, const M6& U) { M6 S = Transformation(unit_q, t).S(); M6 r = S * U * S.transpose(); return r; }
M6 lhs_UT_UOplus(const Q& unit_q, const V& t, const M6& U) { UT T(unit_q, t); T.setUOplus(U); M6 r = T.UOplus(); return r; }
M6 rhs_UT_UOplus(const Q& unit_q, const V& t, const M6& U) { M6 r = U; return r; }
M6 lhs_UT_setU(const Q& unit_q, const V& t, const M6& U) { UT T(unit_q, t); T.setU(U); M6 r = T.U(); return r; }
M6 rhs_UT_setU(const Q& unit_q, const V& t, const M6& U) { M6 r = U; return r; }
static M6 diag(double a, double b) { M6 D = M6::Zero(); D(0, 0) = D(1, 1) = D(2, 2) = a; D(3, 3) = D(4, 4) = D(5, 5) = b; return D; }
PAIR(M6, UT_certain_default, (int), UT().U(), M6::Zero())
PAIR(M6, UT_certain_T, (const Q& unit_q, const V& t), UT(Transformation(unit_q, t)).U(), M6::Zero())
PAIR(M6, UT_certain_parts, (const Q& unit_q, const V& t), UT(unit_q, t).U(), M6::Zero())
PAIR(M6, UT_diagonal_T, (const Q& unit_q, const V& t, double a, double b), UT(Transformation(unit_q, t), a, b).U(), diag(a, b))
PAIR(M6, UT_diagonal_parts, (const Q& unit_q, const V& t, double a, double b), UT(unit_q, t, a, b).U(), diag(a, b))
PAIR(M6, UT_given_T, (const Q& unit_q, const V& t, const M6& U), UT(Transformation(unit_q, t), U).U(), U)
PAIR(M6, UT_given_parts, (const Q& unit_q, const V& t, const M6& U), UT(unit_q, t, U).U(), U)

// ---- vectors
#define UV2(NAME, OP) \
  V lhs_UV_##NAME(const V& a, const M& U, const V& b, const M& W) { V r = (UV(a, U) OP UV(b, W)).mean(); return r; } \
  V rhs_UV_##NAME(const V& a, const M& U, const V& b, const M& W) { V r = a OP b; return r; } \
  M lhs_UV_##NAME##_U(const V& a, const M& U, const V& b, const M& W) { M r = (UV(a, U) OP UV(b, W)).covariance(); return r; } \
  M rhs_UV_##NAME##_U(const V& a, const M& U, const V& b, const M& W) { M r = U + W; return r; } \
  V lhs_UV_##NAME##_certain(const V& a, const M& U, const V& b) { V r = (UV(a, U) OP b).mean(); return r; } \
  V rhs_UV_##NAME##_certain(const V& a, const M& U, const V& b) { V r = a OP b; return r; } \
  M lhs_UV_##NAME##_certain_U(const V& a, const M& U, const V& b) { M r = (UV(a, U) OP b).covariance(); return r; } \
  M rhs_UV_##NAME##_certain_U(const V& a, const M& U, const V& b) { M r = U; return r; }
UV2(add, +)
UV2(sub, -)
V val_UV_scaled(const V& a, const M& U, double w, double d_s) { V r = (UV(a, U) * US(d_s, w)).mean(); return r; }
V jac_UV_scaled(const V& a, const M& U, double w, double d_s) { V r = a; return r; }
V val_UV_scaled_v(const V& d_a, double s) { V r = (UV(d_a) * s).mean(); return r; }
M jac_UV_scaled_v(const V& d_a, double s) { M r = s * M::Identity(); return r; }
PAIR(V, UV_scaled_mean, (const V& a, const M& U, double s, double w), (UV(a, U) * US(s, w)).mean(), s * a)
PAIR(M, UV_scaled_U, (const V& a, const M& U, double s, double w), (UV(a, U) * US(s, w)).covariance(), s * s * U + w * (a * a.transpose()))
PAIR(V, UV_scaled_certain_mean, (const V& a, const M& U, double s), (UV(a, U) * s).mean(), s * a)
PAIR(M, UV_scaled_certain_U, (const V& a, const M& U, double s), (UV(a, U) * s).covariance(), s * s * U)
PAIR(V, US_times_UV_mean, (const V& a, const M& U, double s, double w), (US(s, w) * UV(a, U)).mean(), s * a)
PAIR(M, US_times_UV_U, (const V& a, const M& U, double s, double w), (US(s, w) * UV(a, U)).covariance(), s * s * U + w * (a * a.transpose()))
PAIR(V, US_times_vector_mean, (const V& a, double s, double w), (US(s, w) * a).mean(), s * a)
PAIR(M, US_times_vector_U, (const V& a, double s, double w), (US(s, w) * a).covariance(), w * (a * a.transpose()))
M lhs_UV_normalized_U(const V& a, const M& U) { M r = UV(a, U).normalized().covariance(); return r; }
M rhs_UV_normalized_U(const V& a, const M& U) { M J; V n = normalizeAndJacobian<3>(a, J); M r = J * U * J.transpose(); return r; }
M lhs_UV_normalize_U(const V& a, const M& U) { UV u(a, U); u.normalize(); M r = u.covariance(); return r; }
M rhs_UV_normalize_U(const V& a, const M& U) { M J; V n = normalizeAndJacobian<3>(a, J); M r = J * U * J.transpose(); return r; }
PAIR(V, UV_normalized_mean, (const V& nonzero_a, const M& U), UV(nonzero_a, U).normalized().mean(), nonzero_a / nonzero_a.norm())
V lhs_UV_normalize_mean(const V& nonzero_a, const M& U) { UV u(nonzero_a, U); u.normalize(); V r = u.mean(); return r; }
V rhs_UV_normalize_mean(const V& nonzero_a, const M& U) { V r = nonzero_a / nonzero_a.norm(); return r; }
PAIR(double, UV_dot_mean, (const V& a, const M& U, const V& b, const M& W), UV(a, U).dot(UV(b, W)).mean(), a.dot(b))
PAIR(double, UV_dot_U, (const V& a, const M& U, const V& b, const M& W), UV(a, U).dot(UV(b, W)).covariance(), b.dot(U * b) + a.dot(W * a))
PAIR(double, UV_dot_certain_mean, (const V& a, const M& U, const V& b), UV(a, U).dot(b).mean(), a.dot(b))
PAIR(double, UV_dot_certain_U, (const V& a, const M& U, const V& b), UV(a, U).dot(b).covariance(), b.dot(U * b))
PAIR(V, UV_linear_mean, (const V& a, const M& U, const M& L), operator*<3>(L, UV(a, U)).mean(), L * a)
PAIR(M, UV_linear_U, (const V& a, const M& U, const M& L), operator*<3>(L, UV(a, U)).covariance(), L * U * L.transpose())
PAIR(V, UV_rotate_mean, (const Q& unit_q, const V& t, const V& a, const M& U), Transformation(unit_q, t).rotate(UV(a, U)).mean(), quat2r(unit_q) * a)
PAIR(M, UV_rotate_U, (const Q& unit_q, const V& t, const V& a, const M& U), Transformation(unit_q, t).rotate(UV(a, U)).covariance(), quat2r(unit_q) * U * quat2r(unit_q).transpose())
PAIR(M, UV_certain, (const V& a), UV(a).covariance(), M::Zero())
PAIR(M, UV_default, (int), UV().covariance(), M::Zero())
PAIR(M, UV_E, (const V& a, const M& U), UV(a, U).E(), U)

// ---- scalars
#define US2(NAME, EXPR, CERT, MEAN, DA, DB) \
  PAIR(double, US_##NAME##_mean, (double a, double u, double nz_b, double w), (EXPR).mean(), MEAN) \
  PAIR(double, US_##NAME##_U, (double a, double u, double nz_b, double w), (EXPR).covariance(), (DA) * (DA) * u + (DB) * (DB) * w) \
  PAIR(double, US_##NAME##_certain_mean, (double a, double u, double nz_b), (CERT).mean(), MEAN) \
  PAIR(double, US_##NAME##_certain_U, (double a, double u, double nz_b), (CERT).covariance(), (DA) * (DA) * u)
US2(add, US(a, u) + US(nz_b, w), US(a, u) + nz_b, a + nz_b, 1.0, 1.0)
US2(sub, US(a, u) - US(nz_b, w), US(a, u) - nz_b, a - nz_b, 1.0, -1.0)
US2(mul, US(a, u) * US(nz_b, w), US(a, u) * nz_b, a * nz_b, nz_b, a)
US2(dot, US(a, u).dot(US(nz_b, w)), US(a, u).dot(nz_b), a * nz_b, nz_b, a)
US2(div, US(a, u) / US(nz_b, w), US(a, u) / nz_b, a / nz_b, 1.0 / nz_b, -a / (nz_b * nz_b))
PAIR(double, US_certain, (double a), US(a).covariance(), 0.0)
PAIR(double, US_default, (int), US().covariance(), 0.0)

// ---- what an uncertain value was made or set with
PAIR(M6, UT_certain_matrix, (const Q& unit_q, const V& t), UT(matrix(quat2r(unit_q), t)).U(), M6::Zero())
PAIR(M6, UT_diagonal_matrix, (const Q& unit_q, const V& t, double a, double b), UT(matrix(quat2r(unit_q), t), a, b).U(), diag(a, b))
PAIR(M6, UT_given_matrix, (const Q& unit_q, const V& t, const M6& U), UT(matrix(quat2r(unit_q), t), U).U(), U)
PAIR(V, UT_mean_certain_matrix, (const Q& unit_q, const V& t), UT(matrix(quat2r(unit_q), t)).t(), t)
PAIR(V, UT_mean_diagonal_matrix, (const Q& unit_q, const V& t, double a, double b), UT(matrix(quat2r(unit_q), t), a, b).t(), t)
PAIR(V, UT_mean_given_matrix, (const Q& unit_q, const V& t, const M6& U), UT(matrix(quat2r(unit_q), t), U).t(), t)
PAIR(M4, UT_mean_diagonal_T, (const Q& unit_q, const V& t, double a, double b), UT(Transformation(unit_q, t), a, b).T(), matrix(quat2r(unit_q), t))
PAIR(M4, UT_mean_diagonal_parts, (const Q& unit_q, const V& t, double a, double b), UT(unit_q, t, a, b).T(), matrix(quat2r(unit_q), t))
PAIR(M4, UT_mean_given_T, (const Q& unit_q, const V& t, const M6& U), UT(Transformation(unit_q, t), U).T(), matrix(quat2r(unit_q), t))
PAIR(M4, UT_mean_given_parts, (const Q& unit_q, const V& t, const M6& U), UT(unit_q, t, U).T(), matrix(quat2r(unit_q), t))
PAIR(M4, UT_toTransformation, (const Q& unit_q, const V& t, const M6& U), UT(unit_q, t, U).toTransformation().T(), matrix(quat2r(unit_q), t))
V lhs_UV_setMean(const V& a, const M& U, const V& b) { UV u(a, U); u.setMean(b); V r = u.mean(); return r; }
V rhs_UV_setMean(const V& a, const M& U, const V& b) { V r = b; return r; }
M lhs_UV_setMean_U(const V& a, const M& U, const V& b) { UV u(a, U); u.setMean(b); M r = u.covariance(); return r; }
M rhs_UV_setMean_U(const V& a, const M& U, const V& b) { M r = U; return r; }
M lhs_UV_setCovariance(const V& a, const M& U, const M& W) { UV u(a, U); u.setCovariance(W); M r = u.covariance(); return r; }
M rhs_UV_setCovariance(const V& a, const M& U, const M& W) { M r = W; return r; }
V lhs_UV_setCovariance_mean(const V& a, const M& U, const M& W) { UV u(a, U); u.setCovariance(W); V r = u.mean(); return r; }
V rhs_UV_setCovariance_mean(const V& a, const M& U, const M& W) { V r = a; return r; }
V lhs_UV_setZero(const V& a, const M& U) { UV u(a, U); u.setZero(); V r = u.v(); return r; }
V rhs_UV_setZero(const V& a, const M& U) { V r = V::Zero(); return r; }
M lhs_UV_setZero_U(const V& a, const M& U) { UV u(a, U); u.setZero(); M r = u.E(); return r; }
M rhs_UV_setZero_U(const V& a, const M& U) { M r = M::Zero(); return r; }
