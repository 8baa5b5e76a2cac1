H = "sm_common/include/sm/assert_macros.hpp"
E = "sm_eigen/include/sm/eigen/assert_macros.hpp"
LT = "#define SM_ASSERT_LT(exceptionType, value, upperBound, message)\t\t\t\\\n  if((value) >= (upperBound))\t\t\t\t\t\t\t\t\t\t\t\t\\\n    {"
CASES = [
 ("A01", "bug", H, "if((value) >= (upperBound))", "if((value) > (upperBound))"),
 ("A01", "bug", H, "if((value) <= (lowerBound) || (value) > (upperBound))", "if((value) <= (lowerBound) && (value) > (upperBound))"),
 ("A01", "bug", H, "if((value) < 0.0)", "if((value) <= 0.0)"),
 ("A01", "bug", H, "if((value) < (lowerBound))", "if((value) < lowerBound)"),
 ("A01", "bug", H, "if((value) != (testValue))", "if(value != (testValue))"),
 ("A01", "bug", H, "fabs((testValue) - (value)) <= fabs(abs_error)", "((testValue) - (value)) <= fabs(abs_error)"),
 ("A01", "bug", H, "fabs((testValue) - (value)) <= fabs(abs_error)", "fabs((testValue) - value) <= fabs(abs_error)"),
 ("A01", "bug", H, "throw(SM_EXCEPTION_T(sm_assert_stringstream.str()));", "throw(std::runtime_error(sm_assert_stringstream.str()));"),
 ("A01", "bug", H, "if(!assert_condition)", "if(assert_condition)"),
 ("A01", "bug", E, "r < (matrix).rows()", "r < (matrix).cols()"),
 ("A01", "bug", E, "c < (matrix).cols()", "c < (matrix).cols() - 1"),
 ("A01", "bug", H, "  if(!(condition))\t\t\t\t\t\t\t\t\t\t\t\t\t\t\\\n    {", "  std::stringstream sm_msg; sm_msg << message; if(!(condition)) {"),
 ("A01", "quiet", H, "if((value) >= (upperBound))", "if(!((value) < (upperBound)))"),
 ("A01", "quiet", H, "if((value) <= (lowerBound) || (value) > (upperBound))", "if(!((lowerBound) < (value) && (value) <= (upperBound)))"),
 ("A01", "quiet", H, "fabs((testValue) - (value)) <= fabs(abs_error)", "std::abs((value) - (testValue)) <= fabs(abs_error)"),
 ("A01", "quiet", H, "    if(!assert_condition)\n      {\n", "    if(assert_condition) return;\n      {\n"),
 ("A01", "quiet", H, "sm_throw_exception<SM_EXCEPTION_T>(exceptionType, sm::source_file_pos(function,file,line),message);", "const sm::source_file_pos where(function,file,line);\n      sm_throw_exception<SM_EXCEPTION_T>(exceptionType, where, message);"),
 ("A01", "quiet", E, "for(int c = 0; c < (matrix).cols(); ++c)", "for(int c = 0; (matrix).cols() > c; c++)"),
 ("A02", "bug", H, "#define SM_ASSERT_TRUE_DBG(exceptionType, condition, message)\t\t\t\\\n  if(!(condition))", "#define SM_ASSERT_TRUE_DBG(exceptionType, condition, message)\t\t\t\\\n  if(!condition)"),
 ("A02", "bug", H, "#if !defined(NDEBUG) || defined(SM_ALWAYS_ASSERT)", "#if !defined(NDEBUG)"),
 ("A02", "bug", H, "#define SM_ASSERT_LT_DBG(exceptionType, value, upperBound, message)\n", "#define SM_ASSERT_LT_DBG(exceptionType, value, upperBound, message) { (void)(value); }\n"),
 ("A02", "bug", E, "#if !defined(NDEBUG) || defined(SM_ALWAYS_ASSERT)", "#ifndef NDEBUG"),
 ("A02", "quiet", H, "if((condition))", "if(condition)"),
]
