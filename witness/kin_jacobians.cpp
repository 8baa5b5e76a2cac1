// Jacobians: jac_X returns the matrix of derivatives of val_X with respect to its d_ parameters;
// names starting with at0_ differentiate at d_ = 0 (d_t: along a direction given by the other parameters).
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>

namespace sm { namespace kinematics {
template <typename S> const Eigen::Matrix<S, 4, 3>& quatV();
template <typename S> Eigen::Matrix<S, 3, 3> expDiffMat(const Eigen::Matrix<S, 3, 1>& vec);
template <typename S> Eigen::Matrix<S, 3, 3> logDiffMat(const Eigen::Matrix<S, 3, 1>& vec);
}}
using namespace sm::kinematics;
typedef Eigen::Matrix3d M;
typedef Eigen::Matrix4d M4;
typedef Eigen::Matrix<double, 3, 4> M34;
typedef Eigen::Matrix<double, 4, 3> M43;
typedef Eigen::Matrix<double, 3, 6> M36;
typedef Eigen::Matrix<double, 4, 6> M46;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Vector3d V;
typedef Eigen::Vector4d Q;

#define PAIR(T, NAME, ARGS, L, R) \
  T lhs_##NAME ARGS { T A = L; return A; } \
  T rhs_##NAME ARGS { T A = R; return A; }

// ---- rates of rotation parameters
#define RATES(CLASS) \
  V val_##CLASS##_rates(const V& d_p, const V& d_pdot) { V w = CLASS().angularVelocityAndJacobian(d_p, d_pdot, NULL); return w; } \
  M36 jac_##CLASS##_rates(const V& d_p, const V& d_pdot) { M36 J; CLASS().angularVelocityAndJacobian(d_p, d_pdot, &J); return J; } \
  PAIR(V, general_##CLASS##_velocity, (const V& p, const V& pdot), CLASS().angularVelocityAndJacobian(p, pdot, NULL), CLASS().parametersToSMatrix(p) * pdot) \
  V lhs_general_##CLASS##_velocity_same(const V& p, const V& pdot) { M36 J; V w = CLASS().angularVelocityAndJacobian(p, pdot, &J); return w; } \
  V rhs_general_##CLASS##_velocity_same(const V& p, const V& pdot) { V w = CLASS().angularVelocityAndJacobian(p, pdot, NULL); return w; } \
  M lhs_general_##CLASS##_S_filled(const V& p) { M S; CLASS().parametersToRotationMatrix(p, &S); return S; } \
  M rhs_general_##CLASS##_S_filled(const V& p) { M S = CLASS().parametersToSMatrix(p); return S; } \
  M lhs_general_##CLASS##_C_filled(const V& p) { M S; M C = CLASS().parametersToRotationMatrix(p, &S); return C; } \
  M rhs_general_##CLASS##_C_filled(const V& p) { M C = CLASS().parametersToRotationMatrix(p); return C; }
RATES(RotationVector)
RATES(EulerRodriguez)
RATES(EulerAnglesZXY)
RATES(EulerAnglesZYX)
RATES(EulerAnglesYawPitchRoll)

// ---- the angular velocity is that of the rotation matrix
#define KINEMATICS(CLASS) \
  M val_at0_##CLASS##_omega(const V& p, const V& pdot, double d_t) { M C = CLASS().parametersToRotationMatrix(p + d_t * pdot); return C; } \
  M jac_at0_##CLASS##_omega(const V& p, const V& pdot, double d_t) { M D = -crossMx(V(CLASS().parametersToSMatrix(p) * pdot)) * CLASS().parametersToRotationMatrix(p); return D; }
KINEMATICS(RotationVector)
KINEMATICS(EulerRodriguez)
KINEMATICS(EulerAnglesZXY)
KINEMATICS(EulerAnglesZYX)
KINEMATICS(EulerAnglesYawPitchRoll)

PAIR(M, general_RotationVector_inverse_S, (const V& p), RotationVector().parametersToSMatrix(p) * RotationVector().parametersToInverseSMatrix(p), M::Identity())

// ---- homogeneous coordinates
Q val_toHomogeneous(const V& d_v) { Q h = toHomogeneous(d_v); return h; }
M43 jac_toHomogeneous(const V& d_v) { M43 J; toHomogeneous(d_v, &J); return J; }
Q val_toHomogeneousJacobian(const V& d_v) { Q h = toHomogeneous(d_v); return h; }
M43 jac_toHomogeneousJacobian(const V& d_v) { M43 J = toHomogeneousJacobian(d_v); return J; }
V val_fromHomogeneous(const Q& d_v) { V h = fromHomogeneous(d_v); return h; }
M34 jac_fromHomogeneous(const Q& d_v) { M34 J; fromHomogeneous(d_v, &J); return J; }
V val_fromHomogeneousJacobian(const Q& d_v) { V h = fromHomogeneous(d_v); return h; }
M34 jac_fromHomogeneousJacobian(const Q& d_v) { M34 J = fromHomogeneousJacobian(d_v); return J; }
PAIR(V, fromHomogeneous_value, (const Q& v), fromHomogeneous(v), V(v[0] / v[3], v[1] / v[3], v[2] / v[3]))
V val_normalizeAndJacobian3(const V& d_v) { M J; V n = normalizeAndJacobian<3>(d_v, J); return n; }
M jac_normalizeAndJacobian3(const V& d_v) { M J; normalizeAndJacobian<3>(d_v, J); return J; }
Q val_normalizeAndJacobian4(const Q& d_v) { M4 J; Q n = normalizeAndJacobian<4>(d_v, J); return n; }
M4 jac_normalizeAndJacobian4(const Q& d_v) { M4 J; normalizeAndJacobian<4>(d_v, J); return J; }
Q val_toHomogeneousPlus(const Q& a, const Q& d_b) { HomogeneousPoint s = HomogeneousPoint(a) + HomogeneousPoint(d_b); Q r = s.toHomogeneous(); return r; }
M4 jac_toHomogeneousPlus(const Q& a, const Q& d_b) { M4 J = toHomogeneousPlus(a); return J; }
Q val_toHomogeneousMinus(const Q& b, const Q& d_a) { HomogeneousPoint s = HomogeneousPoint(d_a) - HomogeneousPoint(b); Q r = s.toHomogeneous(); return r; }
M4 jac_toHomogeneousMinus(const Q& b, const Q& d_a) { M4 J = toHomogeneousMinus(b); return J; }

// ---- homogeneous points
Q val_at0_HomogeneousPoint_oplus(const Q& p, const V& unit_w, double d_t) { HomogeneousPoint h(p); h.oplus(V(d_t * unit_w)); Q r = h.toHomogeneous(); return r; }
Q jac_at0_HomogeneousPoint_oplus(const Q& p, const V& unit_w, double d_t) { M43 J; HomogeneousPoint(p).toHomogeneousAndJacobian(J); Q r = J * unit_w; return r; }
V val_at0_HomogeneousPoint_euclidean(const Q& p, const V& unit_w, double d_t) { HomogeneousPoint h(p); h.oplus(V(d_t * unit_w)); M J; V r = h.toEuclideanAndJacobian(J); return r; }
V jac_at0_HomogeneousPoint_euclidean(const Q& p, const V& unit_w, double d_t) { M J; HomogeneousPoint(p).toEuclideanAndJacobian(J); V r = J * unit_w; return r; }
V lhs_toEuclideanAndJacobian_value(const Q& nonzero_p) { M J; V r = HomogeneousPoint(nonzero_p).toEuclideanAndJacobian(J); return r; }
V rhs_toEuclideanAndJacobian_value(const Q& nonzero_p) { const Q& p = nonzero_p; V r(p[0] / p[3], p[1] / p[3], p[2] / p[3]); return r; }

// ---- quaternions
Q val_at0_quatJacobian(const Q& q, const V& unit_w, double d_t) { Q r = updateQuat(q, V(d_t * unit_w)); return r; }
Q jac_at0_quatJacobian(const Q& q, const V& unit_w, double d_t) { Q r = quatJacobian(q) * unit_w; return r; }
V val_quatLogJacobian(const Q& d_unit_q) { V e = d_unit_q.head<3>(); V r = 2.0 * acos(d_unit_q[3]) / e.norm() * e; return r; }
M34 jac_quatLogJacobian(const Q& d_unit_q) { M34 J = quatLogJacobian(d_unit_q); return J; }
Q val_quatExpJacobian(const V& d_a) { Q r = axisAngle2quat(d_a); return r; }
M43 jac_quatExpJacobian(const V& d_a) { M43 J = quatExpJacobian<double>(d_a); return J; }
PAIR(M43, quatV, (int), quatV<double>(), 0.5 * M43::Identity())
M val_at0_expDiffMat(const V& a, const V& w, double d_t) { M r = axisAngle2R(a + d_t * w) * axisAngle2R(a).transpose(); return r; }
M jac_at0_expDiffMat(const V& a, const V& w, double d_t) { M r = -crossMx(V(expDiffMat<double>(a) * w)); return r; }
PAIR(M, general_logDiffMat, (const V& a), logDiffMat<double>(a) * expDiffMat<double>(a), M::Identity())
PAIR(M34, quatLogJacobian2, (const Q& unit_q), quatLogJacobian2<double>(unit_q), logDiffMat<double>(quat2AxisAngle<double>(unit_q)) * 2.0 * quatOPlus(quatInv(unit_q)).topRows<3>())

// ---- perturbations of transformations
M4 val_at0_Transformation_S(const Q& unit_q, const V& x, const V& r, const V& unit_w, double d_t) { Transformation T(unit_q, x); V6 d; d << d_t * r, d_t * unit_w; T.oplus(d); M4 m = T.T(); return m; }
M4 jac_at0_Transformation_S(const Q& unit_q, const V& x, const V& r, const V& unit_w, double d_t) { Transformation T(unit_q, x); V6 d; d << r, unit_w; M4 m = -boxPlus(T.S() * d) * T.T(); return m; }
Q val_transformationAndJacobian(const M4& T, const Q& v, const V6& d_d) { Q r = (M4::Identity() - boxPlus(d_d)) * T * v; return r; }
M46 jac_transformationAndJacobian(const M4& T, const Q& v, const V6& d_d) { Q r; M46 B; transformationAndJacobian(T, v, r, B); return B; }
Q lhs_transformationAndJacobian_value(const M4& T, const Q& v) { Q r; M46 B; transformationAndJacobian(T, v, r, B); return r; }
Q rhs_transformationAndJacobian_value(const M4& T, const Q& v) { Q r = T * v; return r; }
static M4 matrix(const M& C, const V& t)
{
  M4 T = M4::Identity();
  T.topLeftCorner<3, 3>() = C;
  T.topRightCorner<3, 1>() = t;
  return T;
}
// T_ab perturbed as T_ab (I + d): the inverse of (I - d) T_ba to first order
Q val_inverseTransformationAndJacobian(const Q& unit_q, const V& t, const Q& v, const V6& d_d) { M4 T = matrix(quat2r(unit_q), t); Q r = inverseTransform(T) * (M4::Identity() + boxPlus(d_d)) * v; return r; }
M46 jac_inverseTransformationAndJacobian(const Q& unit_q, const V& t, const Q& v, const V6& d_d) { M4 T = matrix(quat2r(unit_q), t); Q r; M46 B; inverseTransformationAndJacobian(T, v, r, B); return B; }
Q lhs_inverseTransformationAndJacobian_value(const Q& unit_q, const V& t, const Q& v) { M4 T = matrix(quat2r(unit_q), t); Q r; M46 B; inverseTransformationAndJacobian(T, v, r, B); return r; }
Q rhs_inverseTransformationAndJacobian_value(const Q& unit_q, const V& t, const Q& v) { M4 T = matrix(quat2r(unit_q), t); Q r = inverseTransform(T) * v; return r; }
Q val_boxMinus(const Q& p, const V6& d_d) { Q r = -(boxPlus(d_d) * p); return r; }
M46 jac_boxMinus(const Q& p, const V6& d_d) { M46 J = boxMinus(p); return J; }
PAIR(M4, boxTimes, (const Q& unit_q, const V& t, const V6& d), boxPlus(boxTimes(matrix(quat2r(unit_q), t)) * d) * matrix(quat2r(unit_q), t), matrix(quat2r(unit_q), t) * boxPlus(d))
M36 lhs_RotationVector_rates_at_zero(const V& pdot) { M36 J; RotationVector().angularVelocityAndJacobian(V::Zero(), pdot, &J); return J; }
M36 rhs_RotationVector_rates_at_zero(const V& pdot) { M36 J; J << 0.5 * crossMx(pdot), M::Identity(); return J; }
