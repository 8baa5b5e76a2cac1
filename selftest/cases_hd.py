CASES = [
 ("H01", "bug", "sm_common/include/sm/round.hpp", "#include <cmath>\n", ""),
 ("H01", "bug", "sm_common/include/sm/round.hpp", "    inline double round (double number)", "    double round (double number)"),
 ("H01", "bug", "sm_boost/include/sm/boost/null_deleter.hpp", "#endif", "namespace sm { int deleted = 0; }\n#endif"),
 ("H01", "bug", "sm_random/src/random.cpp", "double randn()\n{\n  return Random::instance().normal();\n}\n", ""),
 ("H01", "bug", "sm_kinematics/src/quaternion_algebra.cpp", "        template const Eigen::Matrix<float, 4, 3> & quatV();\n", ""),
 ("H01", "bug", "sm_logging/src/LoggingGlobals.cpp", "namespace sm {", "namespace sm {", ),
 ("H01", "quiet", "sm_common/include/sm/round.hpp", "    inline double round (double number)", "    static inline double half() { return 0.5; }\n    static const double minusHalf = -0.5;\n    inline double round (double number)"),
 ("H01", "quiet", "sm_common/include/sm/round.hpp", "    inline double round (double number)", "    namespace detail { int unused(int); }\n    template <typename T> T twice(T x) { return x + x; }\n    class Hidden { Hidden(const Hidden&); void operator=(const Hidden&); public: Hidden() {} };\n    inline double round (double number)"),
]
CASES = [c for c in CASES if c[3] != c[4]]
