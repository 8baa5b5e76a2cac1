// stands in for the header of OpenCV, which is not part of this repository; the analysis knows what the members of cv::Mat do
#pragma once
#include <cassert>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
typedef unsigned char uchar;
namespace cv {
template <typename T>
struct Point_ {
  typedef T value_type;
  Point_();
  Point_(T x, T y);
  T x, y;
};
typedef Point_<int> Point2i;
typedef Point_<float> Point2f;
typedef Point_<double> Point2d;
typedef Point2i Point;
template <typename T>
struct Size_ {
  Size_();
  Size_(T w, T h);
  T area() const;
  T width, height;
};
typedef Size_<int> Size;
struct MatStep {
  operator size_t() const;
  size_t operator[](int) const;
};
struct MatData {
  operator uchar*() const;
};
class Mat {
 public:
  Mat();
  Mat(int rows, int cols, int type);
  Mat(const Mat& m);
  ~Mat();
  Mat& operator=(const Mat& m);
  Mat clone() const;
  void copyTo(Mat& m) const;
  void create(int rows, int cols, int type);
  void release();
  bool isContinuous() const;
  bool empty() const;
  int type() const;
  int depth() const;
  int channels() const;
  size_t elemSize() const;
  size_t elemSize1() const;
  size_t total() const;
  size_t step1(int i = 0) const;
  Size size() const;
  uchar* ptr(int r = 0);
  const uchar* ptr(int r = 0) const;
  template <typename T> T* ptr(int r = 0);
  template <typename T> const T* ptr(int r = 0) const;
  template <typename T> T& at(int r, int c);
  template <typename T> const T& at(int r, int c) const;
  int flags, dims, rows, cols;
  MatData data;
  MatStep step;
};
bool operator==(const Size& a, const Size& b);
bool operator!=(const Size& a, const Size& b);
}
