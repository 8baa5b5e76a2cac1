// Quaternion algebra: the products, their matrices, inverse, rotation, minimal update, interpolation end points.
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>

using namespace sm::kinematics;
typedef Eigen::Matrix3d M;
typedef Eigen::Matrix4d M4;
typedef Eigen::Vector3d V;
typedef Eigen::Vector4d Q;

#define PAIR(T, NAME, ARGS, L, R) \
  T lhs_##NAME ARGS { T A = L; return A; } \
  T rhs_##NAME ARGS { T A = R; return A; }

// the product, written out from Hamilton's rule in the library's order of components and factors
static Q product(const Q& q, const Q& p)
{
  Q r;
  r.head<3>() = q[3] * p.head<3>() + p[3] * q.head<3>() - q.head<3>().cross(p.head<3>());
  r[3] = q[3] * p[3] - q.head<3>().dot(p.head<3>());
  return r;
}

PAIR(Q, qplus_is_product, (const Q& q, const Q& p), qplus(q, p), product(q, p))
PAIR(Q, qoplus_is_reversed_product, (const Q& q, const Q& p), qoplus(q, p), product(p, q))
PAIR(Q, quatPlus_is_product, (const Q& q, const Q& p), quatPlus(q) * p, product(q, p))
PAIR(Q, quatOPlus_is_reversed_product, (const Q& q, const Q& p), quatOPlus(q) * p, product(p, q))
PAIR(Q, qplus_associates, (const Q& a, const Q& b, const Q& c), qplus(qplus(a, b), c), qplus(a, qplus(b, c)))
PAIR(Q, qplus_identity_left, (const Q& q), qplus(quatIdentity(), q), q)
PAIR(Q, qplus_identity_right, (const Q& q), qplus(q, quatIdentity()), q)
PAIR(Q, inverse_left, (const Q& unit_q), qplus(quatInv(unit_q), unit_q), quatIdentity())
PAIR(Q, inverse_right, (const Q& unit_q), qplus(unit_q, quatInv(unit_q)), quatIdentity())
PAIR(Q, inverse_of_product, (const Q& a, const Q& b), quatInv(qplus(a, b)), qplus(quatInv(b), quatInv(a)))
PAIR(M, quat2r_of_product, (const Q& unit_a, const Q& unit_b), quat2r(qplus(unit_a, unit_b)), quat2r(unit_a) * quat2r(unit_b))
PAIR(M, quat2r_of_inverse, (const Q& unit_q), quat2r(quatInv(unit_q)), quat2r(unit_q).transpose())
PAIR(M, quat2r_identity, (), quat2r(quatIdentity()), M::Identity())
PAIR(V, quatRotate_is_matrix, (const Q& unit_q, const V& v), quatRotate(unit_q, v), quat2r(unit_q) * v)
PAIR(Q, updateQuat_is_product, (const Q& q, const V& d), updateQuat(q, d), qplus(axisAngle2quat(d), q))
PAIR(V, qeps_part, (const Q& q), qeps(q), V(q[0], q[1], q[2]))
PAIR(double, qeta_part, (const Q& q), qeta(q), q[3])
PAIR(M, quatS_inverts, (const Q& unit_q), quatS(unit_q) * quatInvS(unit_q), M::Identity())
PAIR(V, crossMx_is_cross, (const V& a, const V& b), crossMx(a) * b, a.cross(b))
PAIR(V, crossMx3_is_cross, (const V& a, const V& b), crossMx(a[0], a[1], a[2]) * b, a.cross(b))
PAIR(Q, qexp_is_axisAngle2quat, (const V& a), qexp(a), axisAngle2quat(a))
PAIR(V, qlog_is_quat2AxisAngle, (const Q& unit_q), qlog(unit_q), quat2AxisAngle(unit_q))
// away from the switch to the series (that switch is K08)
PAIR(double, general_axisAngle2quat_unit, (const V& a), axisAngle2quat(a).squaredNorm(), 1.0)
PAIR(M, general_axisAngle2quat_same_rotation, (const V& a), quat2r(axisAngle2quat(a)), axisAngle2R(a))
// interpolation starts and ends where it should, whatever lies between
PAIR(Q, qslerp_start, (const Q& a, const Q& b), qslerp(a, b, 0.0), a)
PAIR(Q, qslerp_end, (const Q& a, const Q& b), qslerp(a, b, 1.0), b)
PAIR(V, lerp_between, (const V& a, const V& b), lerp(a, b, 0.25), a * 0.75 + b * 0.25)
PAIR(V, lerp_start, (const V& a, const V& b), lerp(a, b, 0.0), a)
PAIR(V, lerp_end, (const V& a, const V& b), lerp(a, b, 1.0), b)
// between them it follows the relative rotation, the shorter way round, in proportion to t
static Q slerpReference(const Q& a, const Q& b, double t) {
  const V away = quat2AxisAngle(qplus(quatInv(a), (a - b).squaredNorm() > (a + b).squaredNorm() ? Q(-b) : b));
  return qplus(a, axisAngle2quat(V(away * t)));
}
Q lhs_via_qslerp_between(const Q& unit_a, const Q& unit_b, double t) { if (!(t > 0.0 && t < 1.0)) return unit_a; Q A = qslerp(unit_a, unit_b, t); return A; }
Q rhs_via_qslerp_between(const Q& unit_a, const Q& unit_b, double t) { if (!(t > 0.0 && t < 1.0)) return unit_a; Q A = slerpReference(unit_a, unit_b, t); return A; }
