// What is saved of an image or a key point is read back, and equality looks at every byte.
#include <cstring>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/mpl/bool.hpp>
#include <sm/opencv/serialization.hpp>
#include "tape.inc"

void round_mat(const cv::Mat& a, cv::Mat& b) {
  Tape<false> out;
  Tape<true> in;
  boost::serialization::save(out, a, 0);
  boost::serialization::load(in, b, 0);
}
void round_point(const cv::Point2f& a, cv::Point2f& b) {
  Tape<false> out;
  Tape<true> in;
  boost::serialization::serialize(out, const_cast<cv::Point2f&>(a), 0);
  boost::serialization::serialize(in, b, 0);
}
void round_key(const cv::KeyPoint& a, cv::KeyPoint& b) {
  Tape<false> out;
  Tape<true> in;
  boost::serialization::serialize(out, const_cast<cv::KeyPoint&>(a), 0);
  boost::serialization::serialize(in, b, 0);
}
// both directions go through the pair above
void split_mat(boost::archive::text_oarchive& out, boost::archive::text_iarchive& in, cv::Mat& a) {
  boost::serialization::serialize(out, a, 0);
  boost::serialization::serialize(in, a, 0);
}

bool lhs_equal(const cv::Mat& m1, const cv::Mat& m2) { return sm::opencv::isBinaryEqual(m1, m2); }
#define ALL(m1, m2) m1.rows == m2.rows && m1.cols == m2.cols && m1.depth() == m2.depth() && m1.type() == m2.type() && m1.elemSize() == m2.elemSize()
// the type determines the depth and the number of bytes
#define SOME(m1, m2) m1.rows == m2.rows && m1.cols == m2.cols && m1.type() == m2.type()
#define AND_POINTERS , ++p1, ++p2
// the result is kept in a variable, and the loops go on while it is true
#define KEPT(NAME, COND, OUTER, A, B, STEP)                                                                                         \
  bool NAME(const cv::Mat& m1, const cv::Mat& m2) {                                                                            \
    bool isEqual = COND(m1, m2);                                                                                               \
    if (isEqual) {                                                                                                             \
      for (int r = 0; OUTER r < m1.rows; ++r) {                                                                                \
        const uchar* p1 = m1.ptr(r);                                                                                           \
        const uchar* p2 = m2.ptr(r);                                                                                           \
        for (int c = 0; isEqual && c < (int)(m1.cols * m1.elemSize()); ++c STEP) isEqual = A == B;                              \
      }                                                                                                                        \
    }                                                                                                                          \
    return isEqual;                                                                                                            \
  }
KEPT(rhs_equal, ALL, , *p2, *p1, AND_POINTERS)
KEPT(alt1_equal, ALL, , *p1, *p2, AND_POINTERS)
KEPT(alt2_equal, ALL, isEqual&&, *p1, *p2, AND_POINTERS)
KEPT(alt3_equal, ALL, isEqual&&, *p2, *p1, AND_POINTERS)
KEPT(alt4_equal, SOME, , *p1, *p2, AND_POINTERS)
KEPT(alt5_equal, SOME, , *p2, *p1, AND_POINTERS)
KEPT(alt6_equal, SOME, isEqual&&, *p1, *p2, AND_POINTERS)
KEPT(alt7_equal, SOME, isEqual&&, *p2, *p1, AND_POINTERS)
KEPT(alt20_equal, ALL, , p1[c], p2[c], )
KEPT(alt21_equal, ALL, , p2[c], p1[c], )
KEPT(alt22_equal, ALL, isEqual&&, p1[c], p2[c], )
KEPT(alt23_equal, ALL, isEqual&&, p2[c], p1[c], )
// left at the first difference
#define LEFT(NAME, COND, STEP, A, B)                                                     \
  bool NAME(const cv::Mat& m1, const cv::Mat& m2) {                                      \
    if (!(COND(m1, m2))) return false;                                                   \
    for (int r = 0; r < m1.rows; ++r) {                                                  \
      const uchar* p1 = m1.ptr(r);                                                       \
      const uchar* p2 = m2.ptr(r);                                                       \
      for (int c = 0; c < (int)(m1.cols * m1.elemSize()); ++c STEP)                      \
        if (!(A == B)) return false;                                                     \
    }                                                                                    \
    return true;                                                                         \
  }
LEFT(alt10_equal, ALL, AND_POINTERS, *p1, *p2)
LEFT(alt11_equal, ALL, AND_POINTERS, *p2, *p1)
LEFT(alt12_equal, ALL, , p1[c], p2[c])
LEFT(alt13_equal, ALL, , p2[c], p1[c])
LEFT(alt14_equal, SOME, AND_POINTERS, *p1, *p2)
LEFT(alt15_equal, SOME, AND_POINTERS, *p2, *p1)
LEFT(alt16_equal, SOME, , p1[c], p2[c])
LEFT(alt17_equal, SOME, , p2[c], p1[c])
