// Vectors, quaternions and poses read from a property tree.
#include <Eigen/Core>
#include <sm/eigen/property_tree.hpp>
#include <sm/kinematics/property_tree.hpp>
typedef Eigen::Vector3d V;
typedef Eigen::Vector4d Q;
typedef sm::ConstPropertyTree Tree;

V lhs_vector(const Tree& t) { V v = sm::eigen::vector3FromPropertyTree(t); return v; }
V rhs_vector(const Tree& t) { double z = t.getDouble("z"), y = t.getDouble("y"), x = t.getDouble("x"); V v(x, y, z); return v; }
Q lhs_quaternion(const Tree& t) { Q v = sm::eigen::quaternionFromPropertyTree(t); return v; }
Q rhs_quaternion(const Tree& t) { double w = t.getDouble("w"), z = t.getDouble("z"), y = t.getDouble("y"), x = t.getDouble("x"); Q v(x, y, z, w); return v; }
// the rotation, as the products of the coefficients of the quaternion of length one (the sign of a quaternion does not matter); a zero quaternion has none
typedef Eigen::Matrix4d M;
double squares(const Tree& t) {
  Tree c(t, "q_a_b");
  double x = c.getDouble("x"), y = c.getDouble("y"), z = c.getDouble("z"), w = c.getDouble("w"), s = x * x + y * y + z * z + w * w;
  if (!(s > 0.0)) throw 0;
  return s;
}
M lhs_rotation(const Tree& t) { squares(t); Q q = sm::kinematics::transformationFromPropertyTree(t).q(); M m = q * q.transpose(); return m; }
M rhs_rotation(const Tree& t) { double s = squares(t); Tree c(t, "q_a_b"); Q q = rhs_quaternion(c); M m = q * q.transpose() / s; return m; }
V lhs_translation(const Tree& t) { V v = sm::kinematics::transformationFromPropertyTree(t).t(); return v; }
V rhs_translation(const Tree& t) { Tree c(t, "t_a_b_a"); V v = rhs_vector(c); return v; }
