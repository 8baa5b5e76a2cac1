// Rotation builders: orthogonality, determinant, and the relations between the builders.
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/RotationVector.hpp>

using namespace sm::kinematics;
typedef Eigen::Matrix3d M;
typedef Eigen::Vector3d V;
typedef Eigen::Vector4d Q;

#define ROTATION(NAME, ARGS, CALL) \
  M lhs_##NAME##_orthogonal ARGS { M R = CALL; M T = R.transpose() * R; return T; } \
  M rhs_##NAME##_orthogonal ARGS { M I = M::Identity(); return I; } \
  double lhs_##NAME##_det ARGS { M R = CALL; return R.determinant(); } \
  double rhs_##NAME##_det ARGS { return 1.0; }
#define SAME(NAME, ARGS, L, R) \
  M lhs_##NAME ARGS { M A = L; return A; } \
  M rhs_##NAME ARGS { M A = R; return A; }

ROTATION(Rx, (double a), Rx(a))
ROTATION(Ry, (double a), Ry(a))
ROTATION(Rz, (double a), Rz(a))
ROTATION(Cx, (double a), Cx(a))
ROTATION(Cy, (double a), Cy(a))
ROTATION(Cz, (double a), Cz(a))
ROTATION(rph2R, (double x, double y, double z), rph2R(x, y, z))
ROTATION(rph2C, (double x, double y, double z), rph2C(x, y, z))
ROTATION(axisAngle2R, (double a, const V& unit_e), axisAngle2R(a, unit_e[0], unit_e[1], unit_e[2]))
ROTATION(axisAngle2R3, (double x, double y, double z), axisAngle2R(x, y, z))
ROTATION(axisAngle2RV, (const V& x), axisAngle2R(x))
ROTATION(quat2r, (const Q& unit_q), quat2r(unit_q))

SAME(Cx_transposes_Rx, (double a), Cx(a), Rx(a).transpose())
SAME(Cy_transposes_Ry, (double a), Cy(a), Ry(a).transpose())
SAME(Cz_transposes_Rz, (double a), Cz(a), Rz(a).transpose())
SAME(rph2R_composes, (double x, double y, double z), rph2R(x, y, z), Rz(z) * Ry(y) * Rx(x))
SAME(rph2C_composes, (double x, double y, double z), rph2C(x, y, z), Cz(z) * Cy(y) * Cx(x))
SAME(rph2R_vector, (const V& x), rph2R(x), rph2R(x[0], x[1], x[2]))
SAME(rph2C_vector, (const V& x), rph2C(x), rph2C(x[0], x[1], x[2]))

// the parametrisations
ROTATION(ZXY, (const V& p), EulerAnglesZXY().parametersToRotationMatrix(p))
ROTATION(ZYX, (const V& p), EulerAnglesZYX().parametersToRotationMatrix(p))
ROTATION(YawPitchRoll, (const V& p), EulerAnglesYawPitchRoll().parametersToRotationMatrix(p))
ROTATION(EulerRodriguez, (const V& p), EulerRodriguez().parametersToRotationMatrix(p))
ROTATION(RotationVector, (const V& p), RotationVector().parametersToRotationMatrix(p))
SAME(ZXY_composes, (const V& p), EulerAnglesZXY().parametersToRotationMatrix(p), Rz(p[0]) * Rx(p[1]) * Ry(p[2]))
SAME(ZYX_composes, (const V& p), EulerAnglesZYX().parametersToRotationMatrix(p), Cz(p[0]) * Cy(p[1]) * Cx(p[2]))
SAME(YawPitchRoll_composes, (const V& p), EulerAnglesYawPitchRoll().parametersToRotationMatrix(p), Rz(p[0]) * Ry(p[1]) * Rx(p[2]))
SAME(general_RotationVector_is_axisAngle, (const V& p), RotationVector().parametersToRotationMatrix(p), axisAngle2R(p))
SAME(rph2C_dynamic_vector, (const V& x), rph2C(Eigen::VectorXd(x)), rph2C(x))
