G = "sm_eigen/include/sm/eigen/gtest.hpp"
CASES = [
    ("A03", "bug", G, "if(!(diff <= percentTolerance * 1e-2))", "if(diff > percentTolerance * 1e-2)"),
    ("A03", "bug", G, "percentTolerance * 1e-2", "percentTolerance"),
    ("A03", "bug", G, "std::max(fa,fb)", "std::min(fa,fb)"),
    ("A03", "bug", G, "std::max(fa,fb)", "fa"),
    ("A03", "bug", G, "fa == 0.0  && fb < 1e-6", "fa == 0.0  && fb < 1e-3"),
    ("A03", "bug", G, "fa < 1e-15 && fb < 1e-15", "fa < 1e-15 || fb < 1e-15"),
    ("A03", "bug", G, "*percentError = diff * 100.0", "*percentError = diff"),
    ("A03", "bug", G, "fabs(a - b)/std::max", "fabs(fa - fb)/std::max"),
    ("A03", "bug", G, "ASSERT_TRUE(std::isfinite(A(r,c)))", "ASSERT_TRUE(!std::isnan(A(r,c)))"),
    ("A03", "bug", G, "ASSERT_NEAR(A(r,c),B(r,c),tolerance)", "ASSERT_FALSE(fabs(A(r,c)-B(r,c)) > tolerance)"),
    ("A03", "bug", G, "EXPECT_NEAR(A(r,c),B(r,c),tolerance)", "EXPECT_NEAR(A(r,c),B(r,c),tolerance*std::max(1.0,fabs(A(r,c))))"),
    ("A03", "bug", G, "EXPECT_EQ((size_t)A.cols(),(size_t)B.cols())", "EXPECT_EQ((size_t)A.rows(),(size_t)B.rows())"),
    ("A03", "bug", G, "for(int c = 0; c < (A).cols(); c++)", "for(int c = 0; c < (A).rows(); c++)"),
    ("A03", "bug", G, "for(int r = 0; r < (A).rows(); r++)", "for(int r = 1; r < (A).rows(); r++)"),
    ("A03", "bug", G, "ASSERT_EQ((size_t)(A).rows(), (size_t)(B).rows())", "ASSERT_LE((size_t)(A).rows(), (size_t)(B).rows())"),
    ("A03", "bug", G, "ASSERT_EQ(A(r,c),B(r,c))", "ASSERT_EQ(A(r,c),B(r,A.cols()-1-c))"),
    ("A03", "quiet", G, "fabs(a - b)/std::max(fa,fb)", "fabs(b - a)/(fa > fb ? fa : fb)"),
    ("A03", "quiet", G, "      if( a == b ||                      // Covers equal infinities.\n\t\t  (fa", "      if(a == b) return true;\n      if((fa"),
    ("A03", "quiet", G, "ASSERT_NEAR(A(r,c),B(r,c),tolerance)", "ASSERT_LE(fabs(A(r,c)-B(r,c)),tolerance)"),
    ("A03", "quiet", G, "ASSERT_EQ((size_t)A.rows(),(size_t)B.rows())", "ASSERT_TRUE(A.rows() == B.rows())"),
    ("A03", "quiet", G, "for(int r = 0; r < A.rows(); r++)", "const int n = (int)A.rows();\n      for(int r = 0; r != n; ++r)"),
    ("A03", "quiet", G, "for(int r = 0; r < A.rows(); r++)\n\t\t{\n\t\t  for(int c = 0; c < A.cols(); c++)", "for(int c = 0; c < A.cols(); c++)\n\t\t{\n\t\t  for(int r = 0; r < A.rows(); r++)"),
    ("A03", "quiet", G, "ASSERT_TRUE(std::isfinite(A(r,c)))", "const double v = A(r,c);\n\t\t\t  ASSERT_TRUE(!std::isinf(v) && !std::isnan(v))"),
]
