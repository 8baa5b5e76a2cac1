// Functions that switch to another formula for small angles: vectors are r times a unit vector.
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/RotationVector.hpp>

namespace sm { namespace kinematics {
template <typename S> Eigen::Matrix<S, 3, 3> expDiffMat(const Eigen::Matrix<S, 3, 1>& vec);
template <typename S> Eigen::Matrix<S, 3, 3> logDiffMat(const Eigen::Matrix<S, 3, 1>& vec);
}}
using namespace sm::kinematics;
typedef Eigen::Matrix3d M;
typedef Eigen::Vector3d V;
typedef Eigen::Vector4d Q;

Q sm_axisAngle2quat(double pos_r, const V& unit_u) { Q q = axisAngle2quat(V(pos_r * unit_u)); return q; }
V sm_quat2AxisAngle(double pos_r, const V& unit_u) { Q q; q.head<3>() = pos_r * unit_u; q[3] = sqrt(1.0 - pos_r * pos_r); V a = quat2AxisAngle(q); return a; }
M sm_expDiffMat(double pos_r, const V& unit_u) { M A = expDiffMat<double>(V(pos_r * unit_u)); return A; }
M sm_logDiffMat(double pos_r, const V& unit_u) { M A = logDiffMat<double>(V(pos_r * unit_u)); return A; }
M sm_axisAngle2R(double r, const V& unit_u) { M A = axisAngle2R(r, unit_u[0], unit_u[1], unit_u[2]); return A; }
M sm_axisAngle2R_vector(double pos_r, const V& unit_u) { M A = axisAngle2R(V(pos_r * unit_u)); return A; }
M sm_RotationVector(double pos_r, const V& unit_u) { M A = RotationVector().parametersToRotationMatrix(V(pos_r * unit_u)); return A; }
M sm_RotationVector_S(double pos_r, const V& unit_u) { M A = RotationVector().parametersToSMatrix(V(pos_r * unit_u)); return A; }
M sm_RotationVector_inverseS(double pos_r, const V& unit_u) { M A = RotationVector().parametersToInverseSMatrix(V(pos_r * unit_u)); return A; }
typedef Eigen::Matrix<double, 3, 6> M36;
M sm_abs_RotationVector_J(double pos_r, const V& unit_u, const V& w) { M36 J; RotationVector().angularVelocityAndJacobian(V(pos_r * unit_u), w, &J); M A = J.leftCols<3>(); return A; }
