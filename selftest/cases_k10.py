"""K10: random transformations, units of angles."""
T = "sm_kinematics/src/Transformation.cpp"
U = "sm_kinematics/src/UncertainTransformation.cpp"
Q = "sm_kinematics/src/quaternion_algebra.cpp"
R = "sm_kinematics/src/rotations.cpp"
H = "sm_kinematics/include/sm/kinematics/rotations.hpp"
CALL = "Transformation::setRandom(translationMaxMeters, rotationMaxRadians)"
CASES = [
    ("K10", "bug", T, "randLU(0.0, rotationMaxRadians)", "randLU(0.0, 2*rotationMaxRadians)"),
    ("K10", "bug", T, "angle/axis.norm()", "angle"),
    ("K10", "bug", T, "translationMaxMeters)/t.norm()", "translationMaxMeters)/t.squaredNorm()"),
    ("K10", "bug", U, CALL, "Transformation::setRandom(rotationMaxRadians, translationMaxMeters)"),
    ("K10", "bug", U, CALL, "Transformation::setRandom()"),
    ("K10", "bug", Q, ["q_a_b.array() -= 0.5;\n            q_a_b /= q_a_b.norm();"], ["q_a_b.array() -= 0.5;\n            if (q_a_b.squaredNorm() > 0.1) q_a_b.normalize();"]),
    ("K10", "bug", R, "boost::math::round(radians", "floor(radians"),
    ("K10", "bug", R, "degrees * SM_DEG2RAD", "degrees * SM_RAD2DEG"),
    ("K10", "bug", H, "0.017453292519943 ", "0.017453292619943 "),
    ("K10", "quiet", R, "boost::math::round(radians", "floor(0.5 + radians"),
    ("K10", "quiet", R, "degrees * SM_DEG2RAD", "degrees * (M_PI / 180.0)"),
    ("K10", "quiet", T, "randLU(0.0, translationMaxMeters)", "randLU(-translationMaxMeters, translationMaxMeters)"),
    ("K10", "quiet", T, "axis.array() *= angle/axis.norm();", "axis = angle * axis.normalized();"),
    ("K10", "quiet", Q, ["q_a_b.array() -= 0.5;\n            q_a_b /= q_a_b.norm();"], ["q_a_b.array() -= 0.5;\n            q_a_b.normalize();"]),
]
