// Extracting parameters from the rotation built from them.  Inputs: angle_ in (-pi,pi), acute_ in (-pi/2,pi/2), turn_ in (0,pi).
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/RotationVector.hpp>

using namespace sm::kinematics;
typedef Eigen::Matrix3d M;
typedef Eigen::Matrix4d M4;
typedef Eigen::Vector3d V;
typedef Eigen::Vector4d Q;
typedef Eigen::Matrix<double, 6, 1> V6;

#define PAIR(T, NAME, ARGS, L, R) \
  T lhs_##NAME ARGS { T A = L; return A; } \
  T rhs_##NAME ARGS { T A = R; return A; }
#define ABOUT(C, p) C().rotationMatrixToParameters(C().parametersToRotationMatrix(p))

PAIR(V, R2rph, (double angle_r, double acute_p, double angle_h), R2rph(rph2R(angle_r, acute_p, angle_h)), V(angle_r, acute_p, angle_h))
PAIR(V, C2rph, (double angle_r, double acute_p, double angle_h), C2rph(rph2C(angle_r, acute_p, angle_h)), V(angle_r, acute_p, angle_h))
PAIR(V, ZXY, (double angle_z, double acute_x, double angle_y), ABOUT(EulerAnglesZXY, V(angle_z, acute_x, angle_y)), V(angle_z, acute_x, angle_y))
PAIR(V, ZYX, (double angle_z, double acute_y, double angle_x), ABOUT(EulerAnglesZYX, V(angle_z, acute_y, angle_x)), V(angle_z, acute_y, angle_x))
PAIR(V, YawPitchRoll, (double angle_z, double acute_y, double angle_x), ABOUT(EulerAnglesYawPitchRoll, V(angle_z, acute_y, angle_x)), V(angle_z, acute_y, angle_x))
V6 lhs_fromTEuler(double x, double y, double z, double angle_r, double acute_p, double angle_h) { V6 r = fromTEuler(toTEuler(x, y, z, angle_r, acute_p, angle_h)); return r; }
V6 rhs_fromTEuler(double x, double y, double z, double angle_r, double acute_p, double angle_h) { V6 r; r << x, y, z, angle_r, acute_p, angle_h; return r; }
V6 lhs_fromTEuler_vector(double x, double y, double z, double angle_r, double acute_p, double angle_h) { V6 d; d << x, y, z, angle_r, acute_p, angle_h; V6 r = fromTEuler(toTEuler(d)); return r; }
V6 rhs_fromTEuler_vector(double x, double y, double z, double angle_r, double acute_p, double angle_h) { V6 r; r << x, y, z, angle_r, acute_p, angle_h; return r; }
PAIR(V, general_RotationVector, (double turn_a, const V& unit_u), ABOUT(RotationVector, V(turn_a * unit_u)), V(turn_a * unit_u))
PAIR(V, general_EulerRodriguez, (double turn_a, const V& unit_u), ABOUT(EulerRodriguez, V(tan(0.5 * turn_a) * unit_u)), V(tan(0.5 * turn_a) * unit_u))
PAIR(V, general_R2AxisAngle, (double turn_a, const V& unit_u), R2AxisAngle(axisAngle2R(turn_a, unit_u[0], unit_u[1], unit_u[2])), V(turn_a * unit_u))
PAIR(V, general_R2AxisAngle3, (double turn_a, const V& unit_u), R2AxisAngle(axisAngle2R(turn_a * unit_u[0], turn_a * unit_u[1], turn_a * unit_u[2])), V(turn_a * unit_u))
PAIR(V, general_R2AxisAngle_vector, (double turn_a, const V& unit_u), R2AxisAngle(axisAngle2R(V(turn_a * unit_u))), V(turn_a * unit_u))
PAIR(M4, r2quat_up_to_sign, (const Q& unit_q), r2quat(quat2r(unit_q)) * r2quat(quat2r(unit_q)).transpose(), unit_q * unit_q.transpose())
PAIR(bool, r2quat_sign, (const M& R), r2quat(R)[3] < 0.0, false)
