// Stand-in for OpenCV's key point. See ../core/core.hpp.
#ifndef STANDIN_OPENCV_FEATURES2D
#define STANDIN_OPENCV_FEATURES2D
#include <opencv2/core/core.hpp>
namespace cv {
class KeyPoint {
public:
  KeyPoint() : size(0), angle(-1), response(0), octave(0), class_id(-1) {}
  KeyPoint(Point2f p, float s, float a = -1, float r = 0, int o = 0, int c = -1) : pt(p), size(s), angle(a), response(r), octave(o), class_id(c) {}
  Point2f pt;
  float size, angle, response;
  int octave, class_id;
};
}  // namespace cv
#endif
