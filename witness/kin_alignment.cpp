// Matched points: what is decomposed, and how the motion is made of the factors.
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/LU>
#include <Eigen/SVD>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/three_point_methods.hpp>

using namespace sm::kinematics;
typedef Eigen::Matrix3d M;
typedef Eigen::Matrix4d M4;
typedef Eigen::Vector3d V;

M4 align_1(const V& a0, const V& b0) { Eigen::Matrix<double, 3, 1> p0, p1; p0 << a0; p1 << b0; return threePointSvd(p0, p1); }
M4 align_2(const V& a0, const V& a1, const V& b0, const V& b1) { Eigen::Matrix<double, 3, 2> p0, p1; p0 << a0, a1; p1 << b0, b1; return threePointSvd(p0, p1); }
M4 align_3(const V& a0, const V& a1, const V& a2, const V& b0, const V& b1, const V& b2) { Eigen::Matrix<double, 3, 3> p0, p1; p0 << a0, a1, a2; p1 << b0, b1, b2; return threePointSvd(p0, p1); }
M4 align_4(const V& a0, const V& a1, const V& a2, const V& a3, const V& b0, const V& b1, const V& b2, const V& b3) { Eigen::Matrix<double, 3, 4> p0, p1; p0 << a0, a1, a2, a3; p1 << b0, b1, b2, b3; return threePointSvd(p0, p1); }

M rotate_1(const V& unit_a0, const V& unit_b0, double pos_w0) { Eigen::Matrix<double, 3, 1> p0, p1; Eigen::Matrix<double, 1, 1> w; p0 << unit_a0; p1 << unit_b0; w << pos_w0; return qMethod(p0, p1, w); }
M rotate_2(const V& unit_a0, const V& unit_a1, const V& unit_b0, const V& unit_b1, double pos_w0, double pos_w1) { Eigen::Matrix<double, 3, 2> p0, p1; Eigen::Matrix<double, 2, 1> w; p0 << unit_a0, unit_a1; p1 << unit_b0, unit_b1; w << pos_w0, pos_w1; return qMethod(p0, p1, w); }
M rotate_3(const V& unit_a0, const V& unit_a1, const V& unit_a2, const V& unit_b0, const V& unit_b1, const V& unit_b2, double pos_w0, double pos_w1, double pos_w2) { Eigen::Matrix<double, 3, 3> p0, p1; Eigen::Matrix<double, 3, 1> w; p0 << unit_a0, unit_a1, unit_a2; p1 << unit_b0, unit_b1, unit_b2; w << pos_w0, pos_w1, pos_w2; return qMethod(p0, p1, w); }
M rotate_equal_1(const V& unit_a0, const V& unit_b0) { Eigen::Matrix<double, 3, 1> p0, p1; p0 << unit_a0; p1 << unit_b0; return qMethod(p0, p1); }
M rotate_equal_2(const V& unit_a0, const V& unit_a1, const V& unit_b0, const V& unit_b1) { Eigen::Matrix<double, 3, 2> p0, p1; p0 << unit_a0, unit_a1; p1 << unit_b0, unit_b1; return qMethod(p0, p1); }
