S, D = "sm_eigen/include/sm/eigen/matrix_sqrt.hpp", "sm_eigen/include/sm/eigen/NumericalDiff.hpp"
R, P = "sm_eigen/src/random.cpp", "sm_eigen/include/sm/eigen/property_tree.hpp"
K = "sm_kinematics/include/sm/kinematics/property_tree.hpp"
C = "J.block(0, c, M, 1) = (fxp - fxm).template cast<typename jacobian_t::Scalar>()/(typename jacobian_t::Scalar)(rcEps*(scalar_t)2.0);"
F = "  for(unsigned i = 0; i < dim; ++i) {\n    v[i] = sm::random::randn();\n  }\n"
CASES = [
 ("E02", "bug", S, "cwiseMax(scalar_t(0)).cwiseSqrt()", "array().sqrt().matrix()"),
 ("E02", "bug", S, "cwiseMax(scalar_t(0)).cwiseSqrt()", "cwiseAbs().cwiseSqrt()"),
 ("E02", "bug", S, "cwiseMax(scalar_t(0)).cwiseSqrt()", "cwiseMax(scalar_t(0))"),
 ("E02", "bug", S, "ldlt.transpositionsP().transpose() * result", "ldlt.transpositionsP() * result"),
 ("E02", "bug", S, "            result = ldlt.transpositionsP().transpose() * result;\n", ""),
 ("E02", "bug", S, "result = ldlt.matrixL()", "result = ldlt.matrixU()"),
 ("E02", "bug", D, "rcEps*(scalar_t)2.0", "rcEps"),
 ("E02", "bug", D, "rcEps*(scalar_t)2.0", "eps*(scalar_t)2.0"),
 ("E02", "bug", D, "std::max(static_cast<scalar_t>(fabs(x0(c))) * eps,eps)", "fabs(x0(c)) * eps"),
 ("E02", "bug", D, "std::max(static_cast<scalar_t>(fabs(x0(c))) * eps,eps)", "std::max(static_cast<scalar_t>(x0(c)) * eps,eps)"),
 ("E02", "bug", D, "functor(functor.update(x0,c,-rcEps))", "functor(x0)"),
 ("E02", "bug", D, "xnew[c] += delta", "xnew[c] = delta"),
 ("E02", "bug", D, "numDiff(Functor(function), eps)", "numDiff((Functor(function)))"),
 ("E02", "bug", D, "double eps = sqrt(std::numeric_limits<typename NumericalDiffFunctor<ValueType_, InputType_>::scalar_t>::epsilon())){", "double eps = std::numeric_limits<typename NumericalDiffFunctor<ValueType_, InputType_>::scalar_t>::epsilon()){"),
 ("E02", "bug", R, "  for(unsigned i = 0; i < dim; ++i) {\n    v[i] = sm::random::randn();\n", "  const double r = sm::random::randn();\n  for(unsigned i = 0; i < dim; ++i) {\n    v[i] = r;\n"),
 ("E02", "bug", R, "sm::random::randn()", "sm::random::rand()"),
 ("E02", "bug", R, "unsigned i = 0", "unsigned i = 1"),
 ("E02", "quiet", S, "            result *= ldlt.vectorD().cwiseMax(scalar_t(0)).cwiseSqrt().asDiagonal();", "            for(int c = 0; c < result.cols(); ++c) {\n              const scalar_t d = ldlt.vectorD()[c];\n              result.col(c) *= std::sqrt(d < scalar_t(0) ? scalar_t(0) : d);\n            }"),
 ("E02", "quiet", S, "            result = ldlt.matrixL();\n            result = ldlt.transpositionsP().transpose() * result;\n", "            DERIVED2 L = ldlt.matrixL();\n            result = ldlt.transpositionsP().transpose() * L;\n"),
 ("E02", "quiet", S, "result *= ldlt.vectorD().cwiseMax(scalar_t(0)).cwiseSqrt().asDiagonal();", "result *= ldlt.vectorD().array().max(scalar_t(0)).sqrt().matrix().asDiagonal();"),
 ("E02", "quiet", D, C, "J.col(c) = (fxp - fxm).template cast<typename jacobian_t::Scalar>() / (typename jacobian_t::Scalar)(rcEps + rcEps);"),
 ("E02", "quiet", D, C, "for(unsigned r = 0; r < M; r++)\n            J(r, c) = (typename jacobian_t::Scalar)((fxp[r] - fxm[r]) / (2 * rcEps));"),
 ("E02", "quiet", D, ["          value_t fxp = functor(functor.update(x0,c,rcEps));\n          value_t fxm = functor(functor.update(x0,c,-rcEps));\n"], ["          value_t fxm = functor(functor.update(x0,c,-rcEps));\n          const input_t above = functor.update(x0,c,rcEps);\n          value_t fxp = functor(above);\n"]),
 ("E02", "quiet", D, "std::max(static_cast<scalar_t>(fabs(x0(c))) * eps,eps)", "eps * std::max(static_cast<scalar_t>(fabs(x0(c))), scalar_t(1))"),
 ("E02", "quiet", R, F, "  unsigned i = 0;\n  while(i < dim) v[i++] = sm::random::randn();\n"),
 ("E02", "quiet", R, F, "  for(int i = 0; i < v.size(); i++)\n    v(i) = sm::random::randn();\n"),
 ("P06", "bug", P, "rval[2] = config.getDouble(\"z\");\n\n", "rval[2] = config.getDouble(\"y\");\n\n"),
 ("P06", "bug", P, "rval[3] = config.getDouble(\"w\")", "rval[3] = config.getDouble(\"w\", 1.0)"),
 ("P06", "bug", P, "rval[0] = config.getDouble(\"x\");\n            rval[1] = config.getDouble(\"y\");\n            rval[2] = config.getDouble(\"z\");\n            rval[3] = config.getDouble(\"w\")", "rval[1] = config.getDouble(\"x\");\n            rval[2] = config.getDouble(\"y\");\n            rval[3] = config.getDouble(\"z\");\n            rval[0] = config.getDouble(\"w\")"),
 ("P06", "quiet", K, "q = q / q.norm();", ""),
 ("P06", "quiet", K, "q = q / q.norm();", "q = q / q.squaredNorm();"),
 ("P06", "bug", K, "q = q / q.norm();", "q[3] = std::abs(q[3]);"),
 ("P06", "bug", K, "q = q / q.norm();", "q = q.cwiseAbs();"),
 ("P06", "bug", K, "q = q / q.norm();", "q.head<3>().normalize();"),
 ("P06", "quiet", K, "q = q / q.norm();", "q = q * -3.0;"),
 ("P06", "bug", K, "\"t_a_b_a\"", "\"t_b_a_a\""),
 ("P06", "bug", K, "Transformation(q,t)", "Transformation(q,t).inverse()"),
 ("P06", "quiet", K, "q = q / q.norm();", "q /= std::sqrt(q.dot(q));"),
 ("P06", "quiet", K, "return sm::kinematics::Transformation(q,t);", "sm::kinematics::Transformation T(q, t);\n            return T;"),
 ("P06", "quiet", P, "            Eigen::Vector3d rval;\n            rval[0] = config.getDouble(\"x\");\n            rval[1] = config.getDouble(\"y\");\n            rval[2] = config.getDouble(\"z\");\n", "            const double x = config.getDouble(\"x\"), y = config.getDouble(\"y\");\n            const double z = config.getDouble(\"z\");\n            Eigen::Vector3d rval(x, y, z);\n"),
 ("P06", "quiet", P, "            rval[3] = config.getDouble(\"w\");\n            return rval;", "            rval.tail<1>()[0] = config.getDouble(\"w\");\n            return rval;"),
]
