"""N01: alignment of matched points."""
F = "sm_kinematics/src/three_point_methods.cpp"
B = "            Eigen::MatrixXd B = W * V.transpose();\n"
CASES = [
    ("N01", "bug", F, "V.col(2) = V.col(2) * -1.0;", "V.col(0) = V.col(0) * -1.0;"),
    ("N01", "bug", F, "if (det < 0.0)", "if (det < -2.0)"),
    ("N01", "bug", F, "if (det < 0.0)", "if (p0.cols() > 3 && det < 0.0)"),
    ("N01", "bug", F, "c0-R.transpose()*c1", "c0-R*c1"),
    ("N01", "bug", F, "H += (p0.col(i) - c0) * (p1.col(i) - c1).transpose", "H += (p1.col(i) - c1) * (p0.col(i) - c0).transpose"),
    ("N01", "bug", F, "for(int i = 0; i < p0.cols(); ++i)", "for(int i = 1; i < p0.cols(); ++i)"),
    ("N01", "bug", F, "Vector3d Z(B(1,2) - B(2,1)", "Vector3d Z(B(2,1) - B(1,2)"),
    ("N01", "bug", F, "B(1,1) + B(2,2)", "B(1,1) - B(2,2)"),
    ("N01", "bug", F, "eigenvalues(i) > maxVal", "eigenvalues(i) < maxVal"),
    ("N01", "bug", F, "eigenvalues(i) > maxVal", "fabs(eigenvalues(i)) > fabs(maxVal)"),
    ("N01", "bug", F, "for(int i = 1; i < 4; i++)", "for(int i = 1; i < 3; i++)"),
    ("N01", "bug", F, "- 2.0 * qs * sm::", "+ 2.0 * qs * sm::"),
    ("N01", "bug", F, "wi = sqrt(w[i])", "wi = w[i]"),
    ("N01", "bug", F, "K(3,3) = sigma;", "K(3,3) = -sigma;"),
    ("N01", "bug", F, "VectorXd::Ones(p1.cols())", "VectorXd::Unit(p1.cols(), 0)"),
    ("N01", "quiet", F, "(p0.col(i) - c0) * (", "p0.col(i) * ("),
    ("N01", "quiet", F, "eigenvectors().col(maxValIdx)", "eigenvectors().col(3)"),
    ("N01", "quiet", F, "q_01 /= q_01.norm();", "q_01.normalize();"),
    ("N01", "quiet", F, "double det = R.determinant();", "double det = svd.matrixU().determinant() * V.determinant();"),
    ("N01", "quiet", F, "Vector3d tr = c0-R.transpose()*c1;", "Vector3d tr = -(R.transpose()*c1) + c0;"),
    ("N01", "quiet", F, "eigenvalues(i) > maxVal", "!(eigenvalues(i) <= maxVal)"),
    ("N01", "quiet", F, "B(0,0) + B(1,1) + B(2,2)", "B.trace()"),
    ("N01", "quiet", F, "Matrix4d> eigensolver(K);", "Matrix4d> eigensolver;\n            eigensolver.compute(K);"),
    ("N01", "quiet", F, B, "            Eigen::Matrix3d B = Eigen::Matrix3d::Zero();\n            for(int k = 0; k < p0.cols(); ++k) B += w[k] * p0.col(k) * p1.col(k).transpose();\n"),
    ("N01", "quiet", F, B, "            Eigen::MatrixXd B = p0 * w.asDiagonal() * p1.transpose();\n"),
    ("N01", "quiet", F, "tfm.topRightCorner<3,1>() = tr;", "tfm.col(3).head<3>() = tr;"),
    ("N01", "quiet", F, ["double maxVal = eigenvalues(0);\n", "int maxValIdx = 0;\n"], ["int maxValIdx;\n", "double maxVal = eigenvalues.maxCoeff(&maxValIdx);\n"]),
    ("N01", "quiet", F, "JacobiSVD<Matrix3d> svd(H,ComputeFullU", "Matrix3d X = (p0.colwise() - c0) * (p1.colwise() - c1).transpose();\n            JacobiSVD<Matrix3d> svd(X,ComputeFullU"),
]
