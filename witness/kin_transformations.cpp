// Transformations: the class against 4x4 matrices.
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>

using namespace sm::kinematics;
typedef Eigen::Matrix3d M;
typedef Eigen::Matrix4d M4;
typedef Eigen::Matrix<double, 3, 4> M34;
typedef Eigen::Matrix<double, 1, 4> Row;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Vector3d V;
typedef Eigen::Vector4d Q;


#define PAIR(T, NAME, ARGS, L, R) \
  T lhs_##NAME ARGS { T A = L; return A; } \
  T rhs_##NAME ARGS { T A = R; return A; }

static M4 matrix(const M& C, const V& t)
{
  M4 T = M4::Identity();
  T.topLeftCorner<3, 3>() = C;
  T.topRightCorner<3, 1>() = t;
  return T;
}
static Row last() { Row r; r << 0.0, 0.0, 0.0, 1.0; return r; }
#define TF(q, t) Transformation(q, t)

PAIR(M4, T_of_parts, (const Q& unit_q, const V& t), TF(unit_q, t).T(), matrix(quat2r(unit_q), t))
PAIR(M, C_of_parts, (const Q& unit_q, const V& t), TF(unit_q, t).C(), quat2r(unit_q))
PAIR(V, t_of_parts, (const Q& unit_q, const V& t), TF(unit_q, t).t(), t)
PAIR(Q, q_of_parts, (const Q& unit_q, const V& t), TF(unit_q, t).q(), unit_q)
PAIR(Q, q_normalised, (const Q& nonzero_q, const V& t), TF(nonzero_q, t).q(), nonzero_q / nonzero_q.norm())
PAIR(M34, T3x4_is_top, (const Q& unit_q, const V& t), TF(unit_q, t).T3x4(), (TF(unit_q, t).T().topLeftCorner<3, 4>()))
PAIR(M4, default_is_identity, (), Transformation().T(), M4::Identity())
PAIR(M4, composition, (const Q& unit_a, const V& s, const Q& unit_b, const V& t), (TF(unit_a, s) * TF(unit_b, t)).T(), TF(unit_a, s).T() * TF(unit_b, t).T())
PAIR(M4, inverse_left, (const Q& unit_q, const V& t), TF(unit_q, t).inverse().T() * TF(unit_q, t).T(), M4::Identity())
PAIR(M4, inverse_right, (const Q& unit_q, const V& t), TF(unit_q, t).T() * TF(unit_q, t).inverse().T(), M4::Identity())
PAIR(V, apply_point, (const Q& unit_q, const V& t, const V& p), TF(unit_q, t) * p, quat2r(unit_q) * p + t)
PAIR(Q, apply_homogeneous_vector, (const Q& unit_q, const V& t, const Q& p), TF(unit_q, t) * p, TF(unit_q, t).T() * p)
PAIR(Q, apply_homogeneous_point, (const Q& unit_q, const V& t, const Q& unit_p), (TF(unit_q, t) * HomogeneousPoint(unit_p)).toHomogeneous(), HomogeneousPoint(Q(TF(unit_q, t).T() * unit_p)).toHomogeneous())
PAIR(V, rotate_point, (const Q& unit_q, const V& t, const V& p), TF(unit_q, t).rotate(p), quat2r(unit_q) * p)
PAIR(V, rotate_homogeneous, (const Q& unit_q, const V& t, const Q& p), TF(unit_q, t).rotate(p).head<3>(), quat2r(unit_q) * p.head<3>())
PAIR(double, rotate_homogeneous_scale, (const Q& unit_q, const V& t, const Q& p), TF(unit_q, t).rotate(p)[3], p[3])
PAIR(Row, last_row_T, (const Q& unit_q, const V& t), (TF(unit_q, t).T().bottomLeftCorner<1, 4>()), last())
PAIR(Row, last_row_rt2Transform, (const M& C, const V& t), (rt2Transform(C, t).bottomLeftCorner<1, 4>()), last())
PAIR(Row, last_row_inverseTransform, (const M4& T), (inverseTransform(T).bottomLeftCorner<1, 4>()), last())
PAIR(Row, last_row_toTEuler, (const V6& x), (toTEuler(x).bottomLeftCorner<1, 4>()), last())
PAIR(Row, last_row_toTEuler6, (double x, double y, double z, double r, double p, double h), (toTEuler(x, y, z, r, p, h).bottomLeftCorner<1, 4>()), last())
PAIR(M4, rt2Transform_parts, (const M& C, const V& t), rt2Transform(C, t), matrix(C, t))
PAIR(M, transform2C_part, (const M& C, const V& t), transform2C(matrix(C, t)), C)
PAIR(V, transform2rho_part, (const M& C, const V& t), transform2rho(matrix(C, t)), t)
PAIR(Q, transform2rhoHomogeneous_part, (const M& C, const V& t), transform2rhoHomogeneous(matrix(C, t)), Q(t[0], t[1], t[2], 1.0))
PAIR(M4, inverseTransform_inverts, (const Q& unit_q, const V& t), inverseTransform(matrix(quat2r(unit_q), t)) * matrix(quat2r(unit_q), t), M4::Identity())
PAIR(M4, toTEuler_parts, (const V6& x), toTEuler(x), matrix(rph2R(-x[3], -x[4], -x[5]), V(x[0], x[1], x[2])))
PAIR(M4, toTEuler6_parts, (double x, double y, double z, double r, double p, double h), toTEuler(x, y, z, r, p, h), matrix(rph2R(-r, -p, -h), V(x, y, z)))
M4 lhs_setIdentity(const Q& unit_q, const V& t) { Transformation T(unit_q, t); T.setIdentity(); return T.T(); }
M4 rhs_setIdentity(const Q& unit_q, const V& t) { M4 I = M4::Identity(); return I; }
M4 lhs_oplus(const Q& unit_q, const V& t, const V6& d) { Transformation T(unit_q, t); T.oplus(d); M4 R = M4::Zero(); R.topLeftCorner<4, 1>() = T.q(); R.topRightCorner<3, 1>() = T.t(); return R; }
M4 rhs_oplus(const Q& unit_q, const V& t, const V6& d) { M4 R = M4::Zero(); R.topLeftCorner<4, 1>() = qplus(axisAngle2quat(V(d[3], d[4], d[5])), unit_q); R.topRightCorner<3, 1>() = t + V(d[0], d[1], d[2]); return R; }
V lhs_set_translation(const Q& unit_q, const V& t, const M4& N) { Transformation T(unit_q, t); T.set(N); return T.t(); }
V rhs_set_translation(const Q& unit_q, const V& t, const M4& N) { V r(N(0, 3), N(1, 3), N(2, 3)); return r; }
Q lhs_set_rotation(const Q& unit_q, const V& t, const M4& N) { Transformation T(unit_q, t); T.set(N); return T.q(); }
Q rhs_set_rotation(const Q& unit_q, const V& t, const M4& N) { Q r = r2quat(N.topLeftCorner<3, 3>()); return r; }
PAIR(V, from_matrix_translation, (const M4& N), Transformation(N).t(), V(N(0, 3), N(1, 3), N(2, 3)))
PAIR(Q, from_matrix_rotation, (const M4& N), Transformation(N).q(), (r2quat(N.topLeftCorner<3, 3>())))
PAIR(M4, uncertain_matches_certain, (const Q& unit_a, const V& s, const Q& unit_b, const V& t), (UncertainTransformation(unit_a, s) * UncertainTransformation(unit_b, t)).T(), (TF(unit_a, s) * TF(unit_b, t)).T())
PAIR(M4, uncertain_inverse_matches, (const Q& unit_q, const V& t), UncertainTransformation(unit_q, t).inverse().T(), TF(unit_q, t).inverse().T())
PAIR(M4, slerp_start, (const Q& unit_a, const V& s, const Q& unit_b, const V& t), slerpTransformations(TF(unit_a, s), TF(unit_b, t), 0.0).T(), TF(unit_a, s).T())
PAIR(M4, slerp_end, (const Q& unit_a, const V& s, const Q& unit_b, const V& t), slerpTransformations(TF(unit_a, s), TF(unit_b, t), 1.0).T(), TF(unit_b, t).T())
PAIR(M4, via_slerp_between, (const Q& unit_a, const V& s, const Q& unit_b, const V& t), slerpTransformations(TF(unit_a, s), TF(unit_b, t), 0.25).T(), TF(qslerp(TF(unit_a, s).q(), TF(unit_b, t).q(), 0.25), V(s * 0.75 + t * 0.25)).T())
PAIR(M4, via_interpolate_is_slerp, (const Q& unit_a, const V& s, const Q& unit_b, const V& t), interpolateTransformations(TF(unit_a, s), 3.0, TF(unit_b, t), 5.0, 3.5).T(), slerpTransformations(TF(unit_a, s), TF(unit_b, t), 0.25).T())
PAIR(M4, via_interpolate_either_way, (const Q& unit_a, const V& s, const Q& unit_b, const V& t), interpolateTransformations(TF(unit_b, t), 5.0, TF(unit_a, s), 3.0, 3.5).T(), slerpTransformations(TF(unit_a, s), TF(unit_b, t), 0.25).T())
