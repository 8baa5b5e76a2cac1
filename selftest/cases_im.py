"""S03: images in archives."""
F = "sm_opencv/include/sm/opencv/serialization.hpp"
CREATE = "      mat.create(rows, cols, type);\n"
CLONE = '''      cv::Mat mat_;
      mat_ = mat;
      if (!mat.isContinuous()) {
		mat_ = mat.clone(); 
      }
'''
SAVED = "boost::serialization::make_binary_object(mat_.data, mat_.total()*mat_.elemSize())"
LOADED = "boost::serialization::make_binary_object(mat.data, mat.step*mat.rows)"
SAVE = '''      ar & make_nvp("rows",mat_.rows);
      ar & make_nvp("cols",mat_.cols);
'''
REL = "      mat.release();  // create would keep the storage of a part of another image, whose rows are not adjacent\n"
LOOP = '''		  for(int r = 0; r < m1.rows; ++r)
			{
			  const uchar * p1 = m1.ptr(r);
			  const uchar * p2 = m2.ptr(r);
			  for(int c = 0; isEqual && c < (int)(m1.cols * m1.elemSize()); ++c, ++p1, ++p2)
				{
				  isEqual = SM_CHECKSAME((*p1), (*p2));
				}
			}
'''
CASES = [
    ("S03", "bug", F, CREATE, "      mat.create(cols, rows, type);\n"),
    ("S03", "bug", F, CLONE, "      cv::Mat mat_;\n      mat_ = mat;\n"),
    ("S03", "bug", F, "if (!mat.isContinuous())", "if (mat.empty())"),
    ("S03", "bug", F, SAVED, SAVED.replace("mat_.total()*mat_.elemSize()", "mat_.step*mat_.rows")),
    ("S03", "bug", F, SAVED, SAVED.replace("elemSize()", "channels()")),
    ("S03", "bug", F, LOADED, LOADED.replace("step*mat.rows", "step*mat.cols")),
    ("S03", "bug", F, REL, ""),
    ("S03", "bug", F, SAVE, SAVE.replace("mat_.cols", "mat_.rows")),
    ("S03", "bug", F, "int type = mat_.type();", "int type = mat_.depth();"),
    ("S03", "bug", F, "  ar & BOOST_SERIALIZATION_NVP(k.angle);\n", ""),
    ("S03", "bug", F, "  ar & BOOST_SERIALIZATION_NVP(k.octave);\n", "  ar & BOOST_SERIALIZATION_NVP(k.class_id);\n"),
    ("S03", "bug", F, "  ar & BOOST_SERIALIZATION_NVP(p.y);\n", "  ar & BOOST_SERIALIZATION_NVP(p.x);\n"),
    ("S03", "bug", F, "	      SM_CHECKSAME(m1.type(), m2.type()) &&\n	      SM_CHECKSAME(m1.elemSize(), m2.elemSize());", "	      SM_CHECKSAME(m1.elemSize(), m2.elemSize());"),
    ("S03", "bug", F, "(int)(m1.cols * m1.elemSize())", "m1.cols"),
    ("S03", "bug", F, "for(int c = 0; isEqual && c <", "for(int c = 0; c <"),
    ("S03", "bug", F, "SM_CHECKSAME(m1.rows, m2.rows) &&", ""),
    ("S03", "bug", F, "for(int r = 0; r < m1.rows; ++r)", "for(int r = 1; r < m1.rows; ++r)"),
    ("S03", "quiet", F, CLONE, "      const cv::Mat mat_ = mat.isContinuous() ? mat : mat.clone();\n"),
    ("S03", "quiet", F, CLONE, "      cv::Mat mat_ = mat.clone();\n"),
    ("S03", "quiet", F, CLONE, "      cv::Mat mat_;\n      if (mat.isContinuous())\n        mat_ = mat;\n      else\n        mat.copyTo(mat_);\n"),
    ("S03", "quiet", F, LOADED, LOADED.replace("mat.step*mat.rows", "mat.total() * mat.elemSize()")),
    ("S03", "quiet", F, LOADED, LOADED.replace("mat.step*mat.rows", "(size_t)rows * cols * mat.elemSize()").replace("mat.data", "mat.ptr()")),
    ("S03", "quiet", F, [REL + CREATE, LOADED], ["      cv::Mat fresh(rows, cols, type);\n", LOADED.replace("mat.", "fresh.") + ");\n      mat = fresh; (void)(0"]),
    ("S03", "quiet", F, "  ar & BOOST_SERIALIZATION_NVP(k.pt);\n  ar & BOOST_SERIALIZATION_NVP(k.size);\n", "  ar & BOOST_SERIALIZATION_NVP(k.size);\n  ar & BOOST_SERIALIZATION_NVP(k.pt);\n"),
    ("S03", "quiet", F, LOOP, LOOP.replace("isEqual && ", "").replace("isEqual = SM_CHECKSAME((*p1), (*p2));", "if(!SM_CHECKSAME((*p1), (*p2))) return false;")),
    ("S03", "quiet", F, "for(int r = 0; r <", "for(int r = 0; isEqual && r <"),
    ("S03", "quiet", F, LOOP, LOOP.replace(", ++p1, ++p2", "").replace("(*p1), (*p2)", "(p1[c]), (p2[c])")),
    ("S03", "quiet", F, LOOP, LOOP.replace("(int)(m1.cols * m1.elemSize())", "rowBytes").replace("		  for(int r", "		  const int rowBytes = m1.cols * m1.elemSize();\n		  for(int r", 1)),
    ("S03", "quiet", F, LOOP, LOOP.replace("isEqual && ", "").replace("isEqual = SM_CHECKSAME((*p1), (*p2));", "if(*p1 != *p2) return false;")),
]
