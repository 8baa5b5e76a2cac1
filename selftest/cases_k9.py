"""K09: homogeneous points; J03: the initial state of the queue."""
C = "sm_kinematics/src/HomogeneousPoint.cpp"
H = "sm_kinematics/include/sm/kinematics/HomogeneousPoint.hpp"
U = "sm_kinematics/src/UncertainHomogeneousPoint.cpp"
X = "sm_kinematics/src/homogeneous_coordinates.cpp"
JC = "sm_boost/src/JobQueue.cpp"
JH = "sm_boost/include/sm/boost/JobQueue.hpp"
CTOR = "JobQueue::JobQueue() : killWorkers_(false), started_(false), threadsInPool_(0), activeThreads_(0) {}"
CASES = [
    ("K09", "bug", C, "_ph( p(0), p(1), p(2), 1.0 )", "_ph( p(0), p(1), p(1), 1.0 )"),
    ("K09", "bug", C, "      _ph.head<3>() = rhs;\n      _ph[3] = 1.0;\n", "      _ph.head<3>() = rhs;\n"),
    ("K09", "bug", C, "      _ph[2] *= scaleFactor;\n", "      _ph[2] *= scaleFactor;\n      _ph[3] *= scaleFactor;\n"),
    ("K09", "bug", C, "return (_ph[3] == 0.0);", "return (_ph[3] <= 0.0);"),
    ("K09", "bug", C, "	  normalize();\n      _ph[3] = 1.0;\n", "      _ph[3] = 1.0;\n	  normalize();\n"),
    ("K09", "bug", C, "_ph = updateQuat(_ph,dp);", "_ph = updateQuat(_ph,-dp);"),
    ("K09", "bug", H, "_ph[3] = p[3];", "_ph[3] = 1.0;"),
    ("K09", "bug", U, "      _U = U;\n", "      _U = U + _U;\n"),
    ("K09", "bug", X, "hM.topRows(hM.rows() - 1)", "hM.bottomRows(hM.rows() - 1)"),
    ("K09", "bug", X, "M.row(i).array() *= denom.array();", "M.row(i).array() *= denom[0];"),
    ("K09", "quiet", C, "      _ph[0] *= scaleFactor;\n      _ph[1] *= scaleFactor;\n      _ph[2] *= scaleFactor;\n", "      _ph.head<3>() *= scaleFactor;\n"),
    ("K09", "quiet", C, "      _ph.head<3>() = rhs;\n      _ph[3] = 1.0;\n", "      _ph << rhs, 1.0;\n"),
    ("K09", "quiet", C, "_ph = _ph/_ph.norm();", "_ph.normalize();"),
    ("K09", "quiet", C, "      _ph.head<3>().setZero();\n      _ph[3] = 1.0;\n", "      _ph = Eigen::Vector4d::UnitW();\n"),
    ("K09", "quiet", X, "M.row(i).array() *= denom.array();", "for(int c = 0; c < M.cols(); c++)\n	    M(i, c) *= denom[c];"),
    ("J03", "bug", JC, "threadsInPool_(0)", "threadsInPool_(1)"),
    ("J03", "bug", JC, ", activeThreads_(0)", ""),
    ("J03", "bug", JC, "killWorkers_(false)", "killWorkers_(true)"),
    ("J03", "quiet", JC, CTOR, "JobQueue::JobQueue() : started_(false) { killWorkers_ = false; threadsInPool_ = activeThreads_ = 0; }"),
    ("J03", "quiet", JH, ["int threadsInPool_;", "volatile bool killWorkers_;"], ["int threadsInPool_ = 0;", "volatile bool killWorkers_ = false;"]),
]
