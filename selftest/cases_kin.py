R = "sm_kinematics/src/rotations.cpp"
Q = "sm_kinematics/src/quaternion_algebra.cpp"
T = "sm_kinematics/src/Transformation.cpp"
TF = "sm_kinematics/src/transformations.cpp"
UT = "sm_kinematics/src/UncertainTransformation.cpp"
UH = "sm_kinematics/src/UncertainHomogeneousPoint.cpp"
HP = "sm_kinematics/src/HomogeneousPoint.cpp"
HC = "sm_kinematics/src/homogeneous_coordinates.cpp"
RV = "sm_kinematics/src/RotationVector.cpp"
ER = "sm_kinematics/src/EulerRodriguez.cpp"
ZXY = "sm_kinematics/src/EulerAnglesZXY.cpp"
UV = "sm_kinematics/include/sm/kinematics/implementation/UncertainVector.hpp"
CASES = [
 # K01
 ("K01", "bug", R, "C(2,0) =  ax*az-ca*ax*az+sa*ay;", "C(2,0) =  ax*az-ca*ax*az-sa*ay;"),
 ("K05", "bug", ER, "(2.0/(1.0 + parameters.squaredNorm()))*(crossp * crossp - crossp)", "(2.0/(1.0 + parameters.squaredNorm()))*(crossp * crossp + crossp)"),
 ("K01", "bug", ZXY, "cz * sy + sz * sx * cy,", "cz * sy - sz * sx * cy,"),
 ("K01", "quiet", ER, "C = Eigen::Matrix3d::Identity() + (2.0/(1.0 + parameters.squaredNorm()))*(crossp * crossp - crossp);",
  "const double n2 = parameters.dot(parameters);\n      const double k = 2.0 / (n2 + 1.0);\n      C.setIdentity();\n      C.noalias() += k * (crossp * crossp);\n      C -= k * crossp;"),
 ("K01", "quiet", R, "    double d = 1/a;\n    return axisAngle2R(a,x*d, y*d, z*d);", "    return axisAngle2R(a, x / a, y / a, z / a);"),
 ("K01", "quiet", ZXY, "      return (Eigen::Matrix3d() <<\n        cz * cy - sz * sx * sy, -sz * cx, cz * sy + sz * sx * cy,\n        sz * cy + cz * sx * sy, cz * cx, sz * sy - cz * sx * cy,\n        -cx * sy, sx, cx * cy).finished();",
  "      Eigen::Matrix3d Rz, Rx, Ry;\n      Rz << cz, -sz, 0, sz, cz, 0, 0, 0, 1;\n      Rx << 1, 0, 0, 0, cx, -sx, 0, sx, cx;\n      Ry << cy, 0, sy, 0, 1, 0, -sy, 0, cy;\n      return Rz * Rx * Ry;"),
 # K02
 ("K02", "bug", Q, "retq[2] = q[2]*ca-dq3[0]*q[1]+dq3[1]*q[0]+dq3[2]*q[3];", "retq[2] = q[2]*ca-dq3[0]*q[1]+dq3[1]*q[0]-dq3[2]*q[3];"),
 ("K02", "bug", Q, "q_a_b.head<3>().cross(v_b) - q_a_b[3] * v_b", "q_a_b.head<3>().cross(v_b) + q_a_b[3] * v_b"),
 ("K02", "bug", Q, "return qplus(q0, qexp(t * qlog( qplus(quatInv(q0),q1))));", "return qplus(qexp(t * qlog( qplus(quatInv(q0),q1))), q0);"),
 ("K02", "quiet", Q, "            Eigen::Vector4d dq3 = axisAngle2quat(dq);\n            double ca = dq3[3];\n            Eigen::Vector4d retq;\n            retq[0] = q[0]*ca+dq3[0]*q[3]-dq3[1]*q[2]+dq3[2]*q[1];\n            retq[1] = q[1]*ca+dq3[0]*q[2]+dq3[1]*q[3]-dq3[2]*q[0];\n            retq[2] = q[2]*ca-dq3[0]*q[1]+dq3[1]*q[0]+dq3[2]*q[3];\n            retq[3] = q[3]*ca-dq3[0]*q[0]-dq3[1]*q[1]-dq3[2]*q[2];\n",
  "            const Eigen::Vector4d dq4 = axisAngle2quat(dq);\n            const Eigen::Vector4d retq = quatPlus(dq4) * q;\n"),
 ("K02", "quiet", Q, "            return v_b + 2.0 * q_a_b.head<3>().cross(q_a_b.head<3>().cross(v_b) - q_a_b[3] * v_b);",
  "            const Eigen::Vector3d e = q_a_b.head<3>();\n            const double eta = q_a_b(3);\n            Eigen::Vector3d w = e.cross(v_b);\n            w -= eta * v_b;\n            Eigen::Vector3d r(v_b);\n            r += 2.0 * e.cross(w);\n            return r;"),
 # K03
 ("K03", "bug", TF, "invT.topRightCorner<3,1>().noalias() = -invT.topLeftCorner<3,3>() * T.topRightCorner<3,1>();", "invT.topRightCorner<3,1>().noalias() = -T.topLeftCorner<3,3>() * T.topRightCorner<3,1>();"),
 ("K03", "bug", T, "rval.head<3>() = quatRotate(_q_a_b, rval.head<3>());", "rval.head<3>() = quatRotate(_q_a_b, rval.head<3>()) + _t_a_b_a * rval[3];"),
 ("K03", "quiet", TF, "      invT(3,0) = 0.0;\n      invT(3,1) = 0.0;\n      invT(3,2) = 0.0;\n      invT(3,3) = 1.0;\n", "      invT.row(3) << 0.0, 0.0, 0.0, 1.0;\n"),
 ("K03", "quiet", TF, "      invT(3,0) = 0.0;\n      invT(3,1) = 0.0;\n      invT(3,2) = 0.0;\n      invT(3,3) = 1.0;\n", "      for(int c = 0; c < 4; ++c) {\n        invT(3,c) = c == 3 ? 1.0 : 0.0;\n      }\n"),
 ("K03", "quiet", TF, "      invT.topLeftCorner<3,3>().noalias() = T.topLeftCorner<3,3>().transpose();", "      const Eigen::Matrix3d Ct = T.block<3,3>(0,0).transpose();\n      invT.block(0,0,3,3) = Ct;"),
 # K04
 ("K04", "bug", UT, "covariance_t U_a_c = UT_a_b.U() + T_a_b_boxtimes * UT_b_c.U() * T_a_b_boxtimes.transpose();", "covariance_t U_a_c = UT_b_c.U() + T_a_b_boxtimes * UT_a_b.U() * T_a_b_boxtimes.transpose();"),
 ("K04", "bug", UT, "covariance_t U_b_a = T_b_a_boxtimes * _U * T_b_a_boxtimes.transpose();", "covariance_t U_b_a = T_b_a_boxtimes.transpose() * _U * T_b_a_boxtimes;"),
 ("K04", "bug", UV, "rhs * rhs.transpose() * _sigma2", "rhs * rhs.transpose() * _sigma2 * _sigma2"),
 ("K04", "bug", UH, "return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose()));\n\n    }", "return UncertainHomogeneousPoint(rval, U4());\n\n    }"),
 ("K04", "bug", UT, "UncertainHomogeneousPoint::covariance_t U = Jt * _U * Jt.transpose();", "UncertainHomogeneousPoint::covariance_t U = Jt * _U * Jt.transpose() * p_1.toHomogeneous()[3];"),
 ("K04", "quiet", UT, "      covariance_t U_a_c = UT_a_b.U() + T_a_b_boxtimes * UT_b_c.U() * T_a_b_boxtimes.transpose();\n", "      covariance_t U_a_c(UT_a_b.U());\n      const covariance_t half = T_a_b_boxtimes * UT_b_c._U;\n      U_a_c.noalias() += half * T_a_b_boxtimes.transpose();\n"),
 ("K04", "quiet", UV, "return UncertainVector<D>( _v * rhs.v(), _v * _v.transpose() * rhs.E() + _E * rhs.v() * rhs.v());", "const double s = rhs.mean();\n             covariance_t E = s * s * _E;\n             E += rhs.covariance() * (_v * _v.transpose());\n             return UncertainVector<D>(s * _v, E);"),
 # K05
 ("K05", "bug", RV, "-dt1*t2*t9*2.0-dt2*t1*t10*t6*2.0", "-dt1*t2*t9*2.0+dt2*t1*t10*t6*2.0"),
 ("K05", "bug", HC, "jacobian->topRightCorner<3,1>() = -v3 * rv3;", "jacobian->topRightCorner<3,1>() = -v3;"),
 ("K05", "bug", ZXY, "(*Jacobian)(2, 1) = -cx * pdot[2];", "(*Jacobian)(2, 1) = -sx * pdot[2];"),
 ("K05", "bug", ER, "pdot * a.transpose() - crossp * pdot * a.transpose()", "pdot * a.transpose() + crossp * pdot * a.transpose()"),
 ("K05", "bug", TF, "out_B.topRightCorner<3,3>().noalias() = -T_ab.topLeftCorner<3,3>() * crossMx(v_b(0),v_b(1),v_b(2));", "out_B.topRightCorner<3,3>().noalias() = -T_ab.topLeftCorner<3,3>() * crossMx(out_v_a(0),out_v_a(1),out_v_a(2));"),
 ("K05", "bug", Q, "return J*0.5;", "return J;"),
 ("K05", "quiet", HC, "	  jacobian->topLeftCorner<3,3>() = Eigen::Matrix3d::Identity() * rv3;", "	  jacobian->leftCols<3>().setZero();\n	  jacobian->leftCols<3>().diagonal().setConstant(rv3);"),
 ("K05", "quiet", HC, "	  jacobian->topLeftCorner<3,3>() = Eigen::Matrix3d::Identity() * rv3;", "	  for(int r = 0; r < 3; ++r)\n	    for(int c = 0; c < 3; ++c)\n	      (*jacobian)(r,c) = (r == c) ? rv3 : 0.0;"),
 ("K05", "quiet", ER, "Jacobian->block(0,0,3,3) = pdot * a.transpose() - crossp * pdot * a.transpose() + f * crossMx(pdot);", "const Eigen::Vector3d d = pdot - p.cross(pdot);\n	  Jacobian->leftCols<3>() = d * a.transpose();\n	  Jacobian->leftCols<3>() += f * crossMx(pdot);"),
 # K06
 ("K06", "bug", ZXY, "const double r_y = atan2(-rotationMatrix(2, 0), rotationMatrix(2, 2));", "const double r_y = atan2(rotationMatrix(2, 0), rotationMatrix(2, 2));"),
 ("K06", "bug", ER, "double scale = -tan(0.5*a)/n2;", "double scale = -tan(a)/n2;"),
 ("K06", "quiet", ZXY, "      const double r_x = asin(sx);", "      const double r_x = std::asin(sx);"),
 # K07
 ("K07", "bug", ZXY, "std::max(-1.0, std::min(rotationMatrix(2, 1), 1.0))", "rotationMatrix(2, 1)"),
 ("K07", "bug", ER, "std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5), 1.0))", "std::max(-1.0, (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5))"),
 ("K07", "quiet", ZXY, "      const double sx = std::max(-1.0, std::min(rotationMatrix(2, 1), 1.0));", "      double sx = rotationMatrix(2, 1);\n      if (sx > 1.0) sx = 1.0; else if (sx < -1.0) sx = -1.0;"),
 # K08
 ("K08", "bug", Q, "na = 0.5 - (theta * theta) * one_over_48;", "na = 0.5 + (theta * theta) * one_over_48;"),
 ("K08", "bug", Q, "b = (1.0/6) * (1 - (1.0 / (120 / 6)) * phiSquare);", "b = (1.0/6) * (1 - (1.0 / 24) * phiSquare);"),
 ("K08", "bug", R, "if(fabs(a) < 1e-12)", "if(a < 1e-12)"),
 ("K08", "quiet", Q, "na = 0.5 - (theta * theta) * one_over_48;", "const double t2 = theta * theta;\n                na = (24.0 - t2) / 48.0;"),
]

_qa = "sm_kinematics/src/quaternion_algebra.cpp"
_tf = "sm_kinematics/src/Transformation.cpp"
CASES += [
 ("K02", "bug", _qa, "if( (q0-q1).squaredNorm() > (q0 + q1).squaredNorm() )", "if( (q0-q1).squaredNorm() < (q0 + q1).squaredNorm() )"),
 ("K02", "bug", _qa, "return qplus(q0, qexp(t * qlog( qplus(quatInv(q0),q1))));", "return qplus(q0, qexp(t * qlog( qplus(quatInv(q1),q0))));"),
 ("K02", "quiet", _qa, "if( (q0-q1).squaredNorm() > (q0 + q1).squaredNorm() )", "if( q0.dot(q1) < 0.0 )"),
 ("K02", "quiet", _qa, ["              if( (q0-q1).squaredNorm() > (q0 + q1).squaredNorm() ) {", "                return qplus(q0, qexp(t * qlog( qplus(quatInv(q0),-q1))));"], ["              const Eigen::Vector4d nearer = q0.dot(q1) < 0.0 ? Eigen::Vector4d(-q1) : q1;\n              if( (q0-q1).squaredNorm() > (q0 + q1).squaredNorm() ) {", "                return qplus(q0, qexp(t * qlog( qplus(quatInv(q0),nearer))));"]),
 ("K03", "bug", _tf, "double di = (si - s0) / ds;", "double di = (s1 - si) / ds;"),
 ("K03", "bug", _tf, "return interpolateTransformations( T1, s1, T0, s0, si );", "return interpolateTransformations( T0, s1, T1, s0, si );"),
 ("K03", "quiet", _tf, "          double di = (si - s0) / ds;\n          return slerpTransformations(T0, T1, di);", "          return slerpTransformations(T0, T1, (si - s0) / ds);"),
    ("K06", "bug", "sm_kinematics/src/rotations.cpp", "angleAxis.axis() * (-angleAxis.angle())", "angleAxis.axis() * angleAxis.angle()"),
    ("K06", "bug", "sm_kinematics/src/rotations.cpp", "angleAxis.axis() * (-angleAxis.angle())", "angleAxis.axis() * (-sin(angleAxis.angle()))"),
    ("K06", "bug", "sm_kinematics/src/rotations.cpp", "angleAxis.axis() * (-angleAxis.angle())", "angleAxis.axis() * angleMod(-2.0 * angleAxis.angle()) * 0.5"),
    ("K06", "quiet", "sm_kinematics/src/rotations.cpp", ["angleAxis(C);", "angleAxis.axis() * (-angleAxis.angle())"], ["angleAxis(C.transpose());", "angleAxis.angle() * angleAxis.axis()"]),
    ("K06", "quiet", "sm_kinematics/src/rotations.cpp", "return angleAxis.axis() * (-angleAxis.angle());", "Eigen::Vector3d r = angleAxis.axis();\n    r *= -angleAxis.angle();\n    return r;"),
    ("K06", "quiet", "sm_kinematics/src/rotations.cpp", ["const Eigen::AngleAxis<double> angleAxis(C);", "return angleAxis.axis() * (-angleAxis.angle());"], ["Eigen::AngleAxisd angleAxis;\n    angleAxis = C;", "return -(angleAxis.axis() * angleAxis.angle());"]),
    ("K04", "bug", "sm_kinematics/src/UncertainTransformation.cpp", "_U(5,5) = diagonalRotationVariance;", ""),
    ("K04", "bug", "sm_kinematics/src/UncertainTransformation.cpp", "Transformation(T), _U(U)", "Transformation(T), _U(U.transpose() * 0.5)"),
    ("K04", "bug", "sm_kinematics/include/sm/kinematics/implementation/UncertainVector.hpp", "_v.setZero();\n             _E.setZero();", "_v.setZero();"),
    ("K04", "quiet", "sm_kinematics/src/UncertainTransformation.cpp", "_U.setZero();\n      _U(0,0) = diagonalTranslationVariance;\n      _U(1,1) = diagonalTranslationVariance;\n      _U(2,2) = diagonalTranslationVariance;\n      _U(3,3) = diagonalRotationVariance;\n      _U(4,4) = diagonalRotationVariance;\n      _U(5,5) = diagonalRotationVariance;", "_U.setZero();\n      _U.diagonal().head<3>().setConstant(diagonalTranslationVariance);\n      _U.diagonal().tail<3>().setConstant(diagonalRotationVariance);"),
]
