// K10: random transformations are transformations within the bounds asked for; angles keep their direction.
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>

using namespace sm::kinematics;
typedef Eigen::Vector3d V;
typedef Eigen::Vector4d Q;

Q unit_quatRandom() { return quatRandom(); }
Q unit_random() { Transformation T; T.setRandom(); return T.q(); }
Q unit_bounded(double pos_t, double pos_r) { Transformation T; T.setRandom(pos_t, pos_r); return T.q(); }
Q unit_uncertain() { UncertainTransformation T; T.setRandom(); return T.q(); }
Q unit_uncertain_bounded(double pos_t, double pos_r) { UncertainTransformation T; T.setRandom(pos_t, pos_r); return T.q(); }

V translation_bounded(double pos_t, double pos_r) { Transformation T; T.setRandom(pos_t, pos_r); return T.t(); }
V translation_uncertain_bounded(double pos_t, double pos_r) { UncertainTransformation T; T.setRandom(pos_t, pos_r); return T.t(); }

double mod(double r) { return angleMod(r); }
double degrees_to(double d) { return deg2rad(d); }
double degrees_from(double r) { return rad2deg(r); }
