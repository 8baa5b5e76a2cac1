ES = "sm_eigen/include/sm/eigen/serialization.hpp"
CASES = [
    ("E01", "bug", ES, "      if(rows > 0 && cols > 0)\n      {\n          ar << make_nvp", "      if(rows > 1 && cols > 0)\n      {\n          ar << make_nvp"),
    ("E01", "bug", ES, "      ar << BOOST_SERIALIZATION_NVP(rows);\n      ar << BOOST_SERIALIZATION_NVP(cols);", "      ar << BOOST_SERIALIZATION_NVP(cols);\n      ar << BOOST_SERIALIZATION_NVP(rows);"),
    ("E01", "bug", ES, "make_array(&M(0,0),M.rows()*M.cols()));\n      }", "make_array(&M(0,0),M.rows()*M.rows()));\n      }"),
    ("E01", "bug", ES, 'SM_ASSERT_EQ(sm::eigen::SerializationException,cols,B,"Unexpected number of columns found for fixed-sized type");\n\n', ""),
    ("E01", "bug", ES, "SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A", "SM_ASSERT_LE(sm::eigen::SerializationException,rows,A"),
    ("E01", "bug", ES, "M.resize(rows,Eigen::NoChange);", "if (M.rows() < rows) M.resize(rows,Eigen::NoChange);"),
    ("E01", "bug", ES, "M.resize(rows,cols);", "M.resize(cols,rows);"),
    ("E01", "bug", ES, "M.resize(rows,cols);\n      if(rows > 0 && cols > 0)\n", "M.resize(rows,cols);\n"),
    ("E01", "bug", ES, "M.resize(Eigen::NoChange,cols);\n      if(rows > 0 && cols > 0)", "M.resize(Eigen::NoChange,cols);\n      if(cols > 1)"),
    ("E01", "quiet", ES, "M.resize(rows,cols);\n      if(rows > 0 && cols > 0)", "M.resize(rows,cols);\n      if(!(M.rows() == 0) && M.cols() > 0)"),
    ("E01", "quiet", ES, "      if(rows > 0 && cols > 0)\n      {\n          ar << make_nvp(\"data\", make_array(&M(0,0),M.rows()*M.cols()));", "      if(M.size() > 0)\n      {\n          ar << make_nvp(\"data\", make_array(M.data(), M.size()));"),
    ("E01", "quiet", ES, "      if(rows > 0 && cols > 0)\n      {\n          ar << make_nvp(\"data\", make_array(&M(0,0),M.rows()*M.cols()));\n      }", "      if(rows <= 0 || cols <= 0)\n          return;\n      ar << make_nvp(\"data\", make_array(&M.coeffRef(0,0), rows*cols));"),
    ("E01", "quiet", ES, "SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A", "SM_ASSERT_TRUE(sm::eigen::SerializationException,rows == A"),
    ("E01", "quiet", ES, 'ar & boost::serialization::make_nvp("matrix",M.matrix());', 'ar & BOOST_SERIALIZATION_NVP(M.matrix());'),
]
