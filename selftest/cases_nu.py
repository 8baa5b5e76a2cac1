R, M, C = "sm_common/include/sm/round.hpp", "sm_common/include/sm/maths.hpp", "sm_common/include/sm/numerical_comparisons.hpp"
T = "sm_timing/src/NsecTimeUtilities.cpp"
TC = "sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp"
N = "    double n;\n    if(b < 0.f)\n      {\n\tn = sqrt(bb_m_4ac) - b;\n      } \n    else\n      {\n\tn = -sqrt(bb_m_4ac) - b;\n      }\n"
L = "inline long int lrint(double number)\n    {\n        return static_cast<long int>( round(number) );"
CASES = [
 ("C04", "bug", R, "number < 0.0 ? ceil", "number <= 0.5 ? ceil"),
 ("C04", "bug", R, "ceil (number - 0.5)", "ceil (number + 0.5)"),
 ("C04", "bug", R, "ceil (number - 0.5)", "floor (number + 0.5)"),
 ("C04", "bug", R, "floorf (number + 0.5f)", "floorf (number + 0.49f)"),
 ("C04", "bug", R, L, L.replace("static_cast<long int>", "static_cast<int>")),
 ("C04", "bug", R, L, L.replace("static_cast<long int>( round(number) )", "rint(number)")),
 ("C04", "bug", R, "return static_cast<int>( round(number) );", "return static_cast<int>( number );"),
 ("C04", "bug", R, "return static_cast<int>( round(number) );", "return static_cast<int>( number + 0.5 );"),
 ("C04", "bug", M, "if(b < 0.f)", "if(b > 0.f)"),
 ("C04", "bug", M, "n == 0.0 ? 0.0 : (2*c)/n", "(2*c)/n"),
 ("C04", "bug", M, "n/(2*a)", "n/2*a"),
 ("C04", "bug", M, "b*b - 4*c*a", "b*b + 4*c*a"),
 ("C04", "bug", M, "SM_ASSERT_GE(std::runtime_error, bb_m_4ac, 0.0", "SM_ASSERT_GT(std::runtime_error, bb_m_4ac, 0.0"),
 ("C04", "bug", M, "    double n;", "    float n;"),
 ("C04", "bug", M, "(T(0) < val) - (val < T(0))", "(T(0) <= val) - (val < T(0))"),
 ("C04", "bug", M, "(T(0) < val) - (val < T(0))", "(T(0) < val) - (val < T(1))"),
 ("C04", "bug", C, "std::max(std::abs(a), std::abs(b))", "std::max(a, b)"),
 ("C04", "bug", C, "std::max(std::abs(a), std::abs(b))", "std::min(std::abs(a), std::abs(b))"),
 ("C04", "bug", C, "std::max(std::abs(a), std::abs(b))", "std::abs(a)"),
 ("C04", "bug", C, "(b - a) > internal", "(b - a) >= internal"),
 ("C04", "bug", C, "(a - b) > internal", "std::abs(a - b) > internal"),
 ("C04", "bug", C, "std::abs(a - b) <= internal", "std::abs(a - b) < internal"),
 ("C04", "quiet", R, "return (number < 0.0 ? ceil (number - 0.5) : floor (number + 0.5));", "if(number >= 0.0) return floor(0.5 + number);\n        return ceil(number - 0.5);"),
 ("C04", "quiet", R, "return (number < 0.0 ? ceil (number - 0.5) : floor (number + 0.5));", "return std::round(number);"),
 ("C04", "quiet", R, "return (number < 0.0 ? ceil (number - 0.5) : floor (number + 0.5));", "const double half = number < 0.0 ? -0.5 : 0.5;\n        return number < 0.0 ? std::ceil(number + half) : std::floor(number + half);"),
 ("C04", "quiet", R, L, L.replace("return static_cast<long int>( round(number) );", "const double r = round(number);\n        return (long int) r;")),
 ("C04", "quiet", M, N, "    const double root = sqrt(bb_m_4ac);\n    const double n = b < 0 ? root - b : -(root + b);\n"),
 ("C04", "quiet", M, N, "    double n = -b;\n    if(b >= 0.0) n -= std::sqrt(bb_m_4ac);\n    else n += std::sqrt(bb_m_4ac);\n"),
 ("C04", "quiet", M, ["SM_ASSERT_GE(std::runtime_error, bb_m_4ac, 0.0, \"b^2 - 4ac < 0. Imaginary solutions are not supported\");"], ["if(bb_m_4ac < 0.0) { SM_THROW(std::runtime_error, \"no real solutions\"); }"]),
 ("C04", "quiet", M, "return std::make_pair(n/(2*a),n == 0.0 ? 0.0 : (2*c)/n);", "if(n == 0.0)\n      return std::make_pair(0.0, 0.0);\n    const double first = n/(2*a), second = 2*c/n;\n    return std::pair<double,double>(first, second);"),
 ("C04", "quiet", M, "return (T(0) < val) - (val < T(0));", "if(val > T(0)) return 1;\n    return val < T(0) ? -1 : 0;"),
 ("C04", "quiet", M, "return (T(0) < val) - (val < T(0));", "const int positive = T(0) < val ? 1 : 0;\n    const int negative = val < T(0) ? 1 : 0;\n    return positive - negative;"),
 ("C04", "quiet", C, "std::max(std::abs(a), std::abs(b)) * epsilon", "epsilon * std::max(std::abs(b), std::abs(a))"),
 ("C04", "quiet", C, "return (b - a) > internal::maxTimesEpsilon(a, b, epsilon);", "return definitelyGreaterThan(b, a, epsilon);"),
 ("C04", "quiet", C, "return std::abs(a - b) <= internal::maxTimesEpsilon(a, b, epsilon);", "const ValueType_ bound = internal::maxTimesEpsilon(a, b, epsilon);\n  const ValueType_ difference = std::abs(b - a);\n  return !(difference > bound);"),
 ("T01", "bug", T, "return boost::int64_t( time * 1e9 );", "return int( time ) * NsecTime(1000000000) + NsecTime((time - int(time)) * 1e9);"),
 ("T01", "bug", T, "return (double) time * 1e-9;", "return (float) time * 1e-9;"),
]
