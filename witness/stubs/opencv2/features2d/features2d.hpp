// stands in for the header of OpenCV, which is not part of this repository
#pragma once
#include <opencv2/core/core.hpp>
namespace cv {
class KeyPoint {
 public:
  KeyPoint();
  Point2f pt;
  float size;
  float angle;
  float response;
  int octave;
  int class_id;
};
}
