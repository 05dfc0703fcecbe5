// Stand-in for the part of OpenCV's core module that sm_opencv uses (OpenCV is not installed): a
// reference-counted 2-D matrix with OpenCV's rules for steps, regions of interest, continuity and
// create() (which keeps a buffer that already has the right shape, also within a parent).
#ifndef STANDIN_OPENCV_CORE
#define STANDIN_OPENCV_CORE
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
typedef unsigned char uchar;
typedef unsigned short ushort;
#define CV_8U 0
#define CV_8S 1
#define CV_16U 2
#define CV_16S 3
#define CV_32S 4
#define CV_32F 5
#define CV_64F 6
#define CV_CN_SHIFT 3
#define CV_DEPTH_MAX (1 << CV_CN_SHIFT)
#define CV_MAT_DEPTH(t) ((t) & (CV_DEPTH_MAX - 1))
#define CV_MAKETYPE(d, cn) (CV_MAT_DEPTH(d) + (((cn)-1) << CV_CN_SHIFT))
#define CV_MAT_CN(t) ((((t) >> CV_CN_SHIFT) & 511) + 1)
#define CV_MAT_TYPE(t) ((t) & 4095)
#define CV_8UC1 CV_MAKETYPE(CV_8U, 1)
#define CV_8UC3 CV_MAKETYPE(CV_8U, 3)
#define CV_32FC1 CV_MAKETYPE(CV_32F, 1)
#define CV_64FC1 CV_MAKETYPE(CV_64F, 1)
namespace cv {
template <class T> struct Point_ {
  T x, y;
  Point_() : x(0), y(0) {}
  Point_(T a, T b) : x(a), y(b) {}
  bool operator==(const Point_& o) const { return x == o.x && y == o.y; }
  bool operator!=(const Point_& o) const { return !(*this == o); }
};
typedef Point_<float> Point2f;
typedef Point_<double> Point2d;
typedef Point_<int> Point2i;
typedef Point2i Point;
template <class T> struct Size_ {
  T width, height;
  Size_() : width(0), height(0) {}
  Size_(T w, T h) : width(w), height(h) {}
  bool operator==(const Size_& o) const { return width == o.width && height == o.height; }
  bool operator!=(const Size_& o) const { return !(*this == o); }
  T area() const { return width * height; }
};
typedef Size_<int> Size;
template <class T> struct Rect_ {
  T x, y, width, height;
  Rect_(T a, T b, T w, T h) : x(a), y(b), width(w), height(h) {}
};
typedef Rect_<int> Rect;
struct Range { int start, end; Range(int a, int b) : start(a), end(b) {} };
struct MatStep {
  size_t p[2];
  MatStep() { p[0] = p[1] = 0; }
  size_t operator[](int i) const { return p[i]; }
  size_t& operator[](int i) { return p[i]; }
  operator size_t() const { return p[0]; }
};
class Mat {
public:
  int flags, dims, rows, cols;
  uchar* data;
  MatStep step;
  enum { AUTO_STEP = 0 };
  Mat() : flags(0), dims(0), rows(0), cols(0), data(nullptr), continuous_(false) {}
  Mat(int r, int c, int t) : Mat() { create(r, c, t); }
  Mat(Size s, int t) : Mat() { create(s.height, s.width, t); }
  Mat(int r, int c, int t, void* d, size_t s = AUTO_STEP) : Mat() {   // does not own its data
    flags = CV_MAT_TYPE(t); dims = 2; rows = r; cols = c; data = (uchar*)d;
    size_t min = (size_t)c * elemSize();
    step[0] = s == AUTO_STEP || r == 1 ? min : s; step[1] = elemSize();
    continuous_ = step[0] == min || r == 1;
  }
  Mat(const Mat& m, const Rect& roi) : Mat(m) {
    assert(roi.x >= 0 && roi.y >= 0 && roi.x + roi.width <= m.cols && roi.y + roi.height <= m.rows);
    rows = roi.height; cols = roi.width;
    data += roi.y * step[0] + roi.x * elemSize();
    if (roi.width < m.cols) continuous_ = false;
    if (rows == 1) continuous_ = true;
    if (!rows || !cols) { release(); flags = m.flags; }
  }
  Mat(const Mat& m, const Range& r, const Range& c) : Mat(m, Rect(c.start, r.start, c.end - c.start, r.end - r.start)) {}
  Mat operator()(const Rect& roi) const { return Mat(*this, roi); }
  Mat row(int y) const { return Mat(*this, Rect(0, y, cols, 1)); }
  Mat col(int x) const { return Mat(*this, Rect(x, 0, 1, rows)); }
  Mat rowRange(int a, int b) const { return Mat(*this, Rect(0, a, cols, b - a)); }
  Mat colRange(int a, int b) const { return Mat(*this, Rect(a, 0, b - a, rows)); }
  static Mat zeros(int r, int c, int t) { Mat m(r, c, t); if (m.data) std::memset(m.data, 0, m.step[0] * r); return m; }
  void create(int r, int c, int t) {
    t = CV_MAT_TYPE(t);
    if (dims == 2 && rows == r && cols == c && type() == t && data) return;
    release();
    flags = t; dims = 2; rows = r; cols = c;
    step[0] = (size_t)c * elemSize(); step[1] = elemSize();
    continuous_ = true;
    size_t n = step[0] * (size_t)r;
    if (n) {
      buffer_.reset(new uchar[n], std::default_delete<uchar[]>());
      data = buffer_.get();
      std::memset(data, 0xfe, n);
    }
  }
  void create(Size s, int t) { create(s.height, s.width, t); }
  void release() { buffer_.reset(); data = nullptr; rows = cols = 0; step = MatStep(); continuous_ = false; }
  Mat clone() const { Mat m; copyTo(m); return m; }
  void copyTo(Mat& m) const {
    if (empty()) { m.release(); m.flags = flags; m.dims = dims; m.rows = rows; m.cols = cols; return; }
    Mat src(*this);   // m may be this
    m.create(rows, cols, type());
    for (int r = 0; r < rows; ++r) if (m.ptr(r) != src.ptr(r)) std::memmove(m.ptr(r), src.ptr(r), cols * elemSize());
  }
  bool isContinuous() const { return continuous_; }
  bool isSubmatrix() const { return buffer_ && (data != buffer_.get()); }
  int type() const { return CV_MAT_TYPE(flags); }
  int depth() const { return CV_MAT_DEPTH(flags); }
  int channels() const { return CV_MAT_CN(flags); }
  size_t elemSize1() const { static const size_t s[] = {1, 1, 2, 2, 4, 4, 8, 2}; return s[depth()]; }
  size_t elemSize() const { return elemSize1() * channels(); }
  size_t step1(int i = 0) const { return step[i] / elemSize1(); }
  size_t total() const { return (size_t)rows * cols; }
  bool empty() const { return !data || total() == 0; }
  Size size() const { return Size(cols, rows); }
  uchar* ptr(int r = 0) { return data + step[0] * r; }
  const uchar* ptr(int r = 0) const { return data + step[0] * r; }
  uchar* ptr(int r, int c) { return data + step[0] * r + c * elemSize(); }
  const uchar* ptr(int r, int c) const { return data + step[0] * r + c * elemSize(); }
  template <class T> T* ptr(int r = 0) { return (T*)(data + step[0] * r); }
  template <class T> const T* ptr(int r = 0) const { return (const T*)(data + step[0] * r); }
  template <class T> T& at(int r, int c) { return ((T*)ptr(r))[c]; }
  template <class T> const T& at(int r, int c) const { return ((const T*)ptr(r))[c]; }
private:
  bool continuous_;
  std::shared_ptr<uchar> buffer_;
};
}  // namespace cv
#endif
