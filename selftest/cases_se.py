UT = "sm_kinematics/include/sm/kinematics/UncertainTransformation.hpp"
TR = "sm_kinematics/include/sm/kinematics/Transformation.hpp"
HP = "sm_kinematics/include/sm/kinematics/HomogeneousPoint.hpp"
UH = "sm_kinematics/include/sm/kinematics/UncertainHomogeneousPoint.hpp"
UV = "sm_kinematics/include/sm/kinematics/UncertainVector.hpp"
UVI = "sm_kinematics/include/sm/kinematics/implementation/UncertainVector.hpp"
TC = "sm_kinematics/src/Transformation.cpp"
UTC = "sm_kinematics/src/UncertainTransformation.cpp"
UHC = "sm_kinematics/src/UncertainHomogeneousPoint.cpp"
ID = "sm_common/include/sm/Id.hpp"
SM = "sm_common/include/sm/serialization_macros.hpp"
CASES = [
    ("S01", "bug", UT, '      ar >> make_nvp("_U", _U);', '      if (version > 4) ar >> make_nvp("_U", _U);'),
    ("S01", "bug", UT, '      ar << make_nvp("_U", _U);', '      ar << make_nvp("_u", _U);'),
    ("S01", "bug", UT, '      ar << BOOST_SERIALIZATION_BASE_OBJECT_NVP(Transformation);\n', ""),
    ("S01", "bug", TR, "      ar & BOOST_SERIALIZATION_NVP(_q_a_b);\n      ar & BOOST_SERIALIZATION_NVP(_t_a_b_a);", "      ar & BOOST_SERIALIZATION_NVP(_t_a_b_a);\n      ar & BOOST_SERIALIZATION_NVP(_q_a_b);"),
    ("S01", "bug", HP, 'ar >> ::boost::serialization::make_nvp("_ph",_ph);', 'ar >> ::boost::serialization::make_nvp("_ph",_ph); _ph.normalize();'),
    ("S01", "bug", UH, "          ar >> BOOST_SERIALIZATION_NVP(_U);\n", ""),
    ("S01", "bug", UV, "                    ar << BOOST_SERIALIZATION_NVP(_sigma2);", "                    ar << BOOST_SERIALIZATION_NVP(_v);"),
    ("S01", "bug", UVI, "return SM_CHECKMEMBERSSAME(rhs, _v) && SM_CHECKMEMBERSSAME(rhs, _E);", "return SM_CHECKMEMBERSSAME(rhs, _v);"),
    ("S01", "bug", UTC, "return Transformation::isBinaryEqual(rhs) && SM_CHECKMEMBERSSAME(rhs, _U)", "return Transformation::isBinaryEqual(rhs) || SM_CHECKMEMBERSSAME(rhs, _U)"),
    ("S01", "bug", UHC, "HomogeneousPoint::isBinaryEqual(rhs) && ", ""),
    ("S01", "bug", SM, "&& false : false))", "&& false : true))"),
    ("S01", "bug", SM, "    if (!lhs || !rhs) {\n      return false;\n    }\n    return *lhs == *rhs;", "    if (!lhs || !rhs) {\n      return true;\n    }\n    return *lhs == *rhs;"),
    ("S01", "bug", SM, "    return lhs->isBinaryEqual(*rhs);", "    return lhs == rhs;"),
    ("S01", "bug", ID, "return _id == rhs._id;", "return _id <= rhs._id;"),
    ("S01", "quiet", UT, '      ar >> make_nvp("_U", _U);', '      covariance_t u;\n      ar >> make_nvp("_U", u);\n      _U = u;'),
    ("S01", "quiet", TR, "      ar & BOOST_SERIALIZATION_NVP(_q_a_b);\n", "      ar << ::boost::serialization::make_nvp(\"_q_a_b\", this->_q_a_b);\n"),
    ("S01", "quiet", TC, "return SM_CHECKMEMBERSSAME(rhs, _q_a_b) && SM_CHECKMEMBERSSAME(rhs, _t_a_b_a);", "if (!SM_CHECKMEMBERSSAME(rhs, _q_a_b)) return false;\n      return SM_CHECKMEMBERSSAME(rhs, _t_a_b_a);"),
    ("S01", "quiet", TC, "return SM_CHECKMEMBERSSAME(rhs, _q_a_b) && SM_CHECKMEMBERSSAME(rhs, _t_a_b_a);", "return _t_a_b_a == rhs._t_a_b_a && !(_q_a_b != rhs._q_a_b);"),
    ("S01", "quiet", SM, "    if (!lhs && !rhs) {\n      return true;\n    }\n    if (!lhs || !rhs) {\n      return false;\n    }\n    return lhs->isBinaryEqual(*rhs);", "    if (!lhs) {\n      return !rhs;\n    }\n    return rhs && lhs->isBinaryEqual(*rhs);"),
    ("S01", "quiet", ID, "return _id == rhs._id;", "return !(_id != rhs._id);"),
    ("S01", "quiet", TR, '        SM_ASSERT_LE(std::runtime_error, version, (unsigned int)CLASS_SERIALIZATION_VERSION, "Unsupported serialization version");\n', ""),
]
_UHP = "sm_kinematics/src/UncertainHomogeneousPoint.cpp"
CASES += [("S01", k, _UHP, "SM_CHECKMEMBERSSAME(rhs, _U);", x + ";") for k, x in (
 ("bug", "_U.isApprox(rhs._U)"), ("bug", "(_U - rhs._U).isZero()"), ("bug", "(_U.array() == rhs._U.array()).any()"), ("bug", "(_U.array() != rhs._U.array()).all()"),
 ("quiet", "(_U.array() == rhs._U.array()).all()"), ("quiet", "_U.cwiseEqual(rhs._U).all()"), ("quiet", "!(_U.array() != rhs._U.array()).any()"), ("quiet", "!(_U != rhs._U)"), ("quiet", "rhs._U == _U"))]
