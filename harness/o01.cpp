// O01: serialization and comparison of OpenCV matrices and key points (sm_opencv), on a stand-in for
// cv::Mat with OpenCV's rules for steps, regions, continuity and create().
#include "vm.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/vector.hpp>
#include <sm/opencv/serialization.hpp>

namespace {
std::vector<uchar> bytes(const cv::Mat& m) {
  std::vector<uchar> b;
  for (int r = 0; r < m.rows && m.data; ++r) b.insert(b.end(), m.ptr(r), m.ptr(r) + m.cols * m.elemSize());
  return b;
}
struct Shape { int rows, cols, type; std::vector<uchar> data; };
Shape shape(const cv::Mat& m) { return Shape{m.rows, m.cols, m.type(), bytes(m)}; }
bool operator==(const Shape& a, const Shape& b) { return a.rows == b.rows && a.cols == b.cols && a.type == b.type && a.data == b.data; }
std::string str(const Shape& s) { std::ostringstream o; o << s.rows << "x" << s.cols << " of type " << s.type << ", " << s.data.size() << " bytes"; return o.str(); }

struct Fresh { cv::Mat m, parent; int kind; std::vector<uchar> foreign; };   // `parent` keeps what surrounds m
cv::Mat filled(vm::Rng& r, int rows, int cols, int type) {
  cv::Mat m(rows, cols, type);
  for (int i = 0; i < rows; ++i) for (size_t j = 0; j < cols * m.elemSize(); ++j) m.ptr(i)[j] = r.chance(1, 6) ? r.pickl({0, 255, 10, 13, 26}) : (uchar)r.next();
  return m;
}
int aType(vm::Rng& r) { return CV_MAKETYPE((int)r.below(7), r.pickl({1, 1, 2, 3, 4, 7})); }
Fresh make(vm::Rng& r, int rows, int cols, int type) {
  Fresh f;
  f.kind = (int)r.below(6);
  switch (f.kind) {
    case 0: case 1: f.m = filled(r, rows, cols, type); f.kind = 0; break;
    case 2: {   // a region of a larger matrix
      int x = (int)r.below(4), y = (int)r.below(4);
      f.parent = filled(r, rows + y + (int)r.below(3), cols + x + (int)r.below(3), type);
      f.m = f.parent(cv::Rect(x, y, cols, rows));
      break;
    }
    case 3: {   // complete rows of a larger matrix: continuous, but not the whole buffer
      int y = (int)r.below(4);
      f.parent = filled(r, rows + y + (int)r.below(3), cols, type);
      f.m = f.parent.rowRange(y, y + rows);
      break;
    }
    case 4: {   // foreign data with a padded step
      cv::Mat probe(1, 1, type);
      size_t step = cols * probe.elemSize() + r.below(9) * probe.elemSize1();
      f.foreign.resize(rows ? step * (rows - 1) + cols * probe.elemSize() : 0);
      for (auto& b : f.foreign) b = (uchar)r.next();
      f.m = cv::Mat(rows, cols, type, f.foreign.data(), step);
      break;
    }
    default: { cv::Mat a = filled(r, rows, cols, type); f.m = a; f.parent = a; }   // shares its buffer with another
  }
  return f;
}
std::string name(int fmt) { return fmt == 0 ? "text" : fmt == 1 ? "binary" : "xml"; }
template <class T> std::string save(const T& v, int fmt, int& after) {
  std::ostringstream o(std::ios::binary);
  after = 4711;
  if (fmt == 0) { boost::archive::text_oarchive a(o); a << v; a << after; }
  else if (fmt == 1) { boost::archive::binary_oarchive a(o); a << v; a << after; }
  else { boost::archive::xml_oarchive a(o); a << boost::serialization::make_nvp("value", v); a << boost::serialization::make_nvp("after", after); }
  return o.str();
}
template <class T> void load(T& v, const std::string& s, int fmt, int& after) {
  std::istringstream i(s, std::ios::binary);
  after = 0;
  if (fmt == 0) { boost::archive::text_iarchive a(i); a >> v; a >> after; }
  else if (fmt == 1) { boost::archive::binary_iarchive a(i); a >> v; a >> after; }
  else { boost::archive::xml_iarchive a(i); a >> boost::serialization::make_nvp("value", v); a >> boost::serialization::make_nvp("after", after); }
}
float aFloat(vm::Rng& r) {
  switch (r.below(5)) {
    case 0: return r.pickl({0.f, -1.f, 1.f, 3.4028235e38f, 1.17549435e-38f, -0.f, 16777216.f, 0.1f});
    case 1: { float f; do { uint32_t u = (uint32_t)r.next(); std::memcpy(&f, &u, 4); } while (!std::isnormal(f)); return f; }
    default: return (float)r.uniform(-2000, 2000);
  }
}
bool same(float a, float b) { return std::memcmp(&a, &b, 4) == 0 || (a == 0 && b == 0); }
bool same(const cv::KeyPoint& a, const cv::KeyPoint& b) {
  return same(a.pt.x, b.pt.x) && same(a.pt.y, b.pt.y) && same(a.size, b.size) && same(a.angle, b.angle) && same(a.response, b.response) && a.octave == b.octave && a.class_id == b.class_id;
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case is a matrix (whole, region, padded, shared, empty) of any element type saved and loaded into another matrix in some state, a pair of matrices to compare, or a set of key points; distinct by element type, shape class, the layout of source and destination, and the archive format.");
  vm::run("matrices", 4000, [](vm::Rng& r, uint64_t) {
    int rows = (int)r.below(r.chance(1, 10) ? 40 : 6), cols = (int)r.below(r.chance(1, 10) ? 60 : 6), type = aType(r), fmt = (int)r.below(3);
    if (r.chance(1, 150)) { rows = r.pickl({1, 257, 300}); cols = r.pickl({1, 256, 257}); if (r.chance(1, 3)) { rows = 1; cols = 66000; type = 0; } if (r.chance(1, 2)) std::swap(rows, cols); }
    bool none = r.chance(1, 25);
    Fresh src;
    if (none) src.kind = 9; else src = make(r, rows, cols, type);
    Shape want = shape(src.m), around = shape(src.parent);
    int after;
    std::string s = save(src.m, fmt, after);
    VM_CHECK(shape(src.m) == want && shape(src.parent) == around, "save-changes", "saving changed the matrix");
    // the destination: nothing, something else, or something of the same shape
    Fresh dst;
    int state = (int)r.below(4);
    if (state == 1) dst = make(r, (int)r.below(5), (int)r.below(5), aType(r));
    if (state >= 2) dst = make(r, rows, cols, type);
    if (state == 0) dst.kind = 9;
    Shape before = shape(dst.parent);
    try { load(dst.m, s, fmt, after); }
    catch (const std::exception& e) { vm::fail("load", name(fmt) + ": loading " + str(want) + " (layout " + std::to_string(src.kind) + ") raised " + e.what()); return; }
    Shape got = shape(dst.m);
    VM_CHECK(got == want || (want.data.empty() && got.data.empty() && got.rows == want.rows && got.cols == want.cols), "round-trip",
             name(fmt) << ": saved " << str(want) << " (layout " << src.kind << "), loaded " << str(got) << " (destination " << state << "/" << dst.kind << ")");
    VM_CHECK(after == 4711, "archive-position", name(fmt) << ": what follows " << str(want) << " (layout " << src.kind << ") in the archive reads as " << after << " (destination " << state << "/" << dst.kind << ")");
    // What surrounds the region that was loaded into is not part of it.
    if (dst.kind == 2 && dst.parent.data) {
      Shape now = shape(dst.parent);
      size_t e = dst.parent.elemSize(), w = dst.parent.cols * e, hits = 0;
      std::vector<bool> inside(now.data.size(), false);
      if (dst.m.data >= dst.parent.data && dst.m.data < dst.parent.data + now.data.size()) {
        size_t at = dst.m.data - dst.parent.data;
        for (int i = 0; i < dst.m.rows; ++i) for (size_t j = 0; j < dst.m.cols * e; ++j) inside[at + i * w + j] = true;
      }
      for (size_t i = 0; i < now.data.size(); ++i) if (!inside[i] && now.data[i] != before.data[i]) ++hits;
      VM_CHECK(hits == 0, "load-outside", name(fmt) << ": loading into a region changed " << hits << " bytes outside of it");
      vm::event("region-loads");
    }
    Shape src2 = shape(src.m);
    VM_CHECK(src2 == want, "load-changes-source", "loading changed the saved matrix");
    vm::nontrivial(vm::combine(type * 64 + fmt * 16 + state, src.kind * 64 + dst.kind * 8 + std::min(rows, 2) * 3 + std::min(cols, 2)));
    vm::event("matrix-round-trips");
  });
  vm::run("comparison", 4000, [](vm::Rng& r, uint64_t) {
    int rows = (int)r.below(6), cols = (int)r.below(6), type = aType(r);
    Fresh a = make(r, rows, cols, type), b;
    int how = (int)r.below(5);
    if (how == 0) b = make(r, rows, cols, type);
    else if (how == 1) b = make(r, (int)r.below(6), (int)r.below(6), r.chance(1, 2) ? type : aType(r));
    else { b = make(r, rows, cols, type); for (int i = 0; i < rows && a.m.data && b.m.data; ++i) std::memcpy(b.m.ptr(i), a.m.ptr(i), cols * a.m.elemSize()); }
    if (how == 4 && rows && cols) b.m.ptr((int)r.below(rows))[r.below(cols * b.m.elemSize())] ^= (uchar)(1 << r.below(8));   // one bit
    if (how == 3 && rows && cols && r.chance(1, 2)) {   // the same bytes as another type
      static const int as[] = {CV_8S, CV_8U, CV_16S, CV_16U, CV_32F, CV_32S, CV_64F};
      b.m.flags = CV_MAKETYPE(as[b.m.depth()], b.m.channels());
    }
    bool want = shape(a.m) == shape(b.m);
    std::ostringstream cap;
    std::streambuf* old = std::cout.rdbuf(cap.rdbuf());
    SET_CHECKSAME_VERBOSITY(r.chance(1, 3));
    bool got = sm::opencv::isBinaryEqual(a.m, b.m), got2 = sm::opencv::isBinaryEqual(b.m, a.m), self = sm::opencv::isBinaryEqual(a.m, a.m);
    SET_CHECKSAME_VERBOSITY(false);
    std::cout.rdbuf(old);
    if (a.m.empty() && b.m.empty() && a.m.rows == b.m.rows && a.m.cols == b.m.cols && a.m.type() != b.m.type()) return;
    VM_CHECK(got == want, "binary-equal", str(shape(a.m)) << " and " << str(shape(b.m)) << " (layouts " << a.kind << ", " << b.kind << "): " << got);
    VM_CHECK(got == got2 && self, "binary-equal", "not symmetric or not reflexive");
    vm::nontrivial(vm::combine(type * 16 + how, vm::combine(a.kind * 8 + b.kind, want)));
    vm::event(want ? "equal-pairs" : "different-pairs");
  });
  vm::run("keypoints", 2000, [](vm::Rng& r, uint64_t) {
    int fmt = (int)r.below(3), after;
    std::vector<cv::KeyPoint> k(r.chance(1, 800) ? 70000 : r.chance(1, 50) ? r.below(600) : r.below(6)), k2(r.below(3));
    for (auto& x : k) x = cv::KeyPoint(cv::Point2f(aFloat(r), aFloat(r)), aFloat(r), aFloat(r), aFloat(r), (int)r.next(), (int)r.next());
    const std::vector<cv::KeyPoint>& ck = k;
    load(k2, save(ck, fmt, after), fmt, after);
    bool ok = k.size() == k2.size();
    for (size_t i = 0; ok && i < k.size(); ++i) ok = same(k[i], k2[i]);
    VM_CHECK(ok && after == 4711, "key-points", name(fmt) << ": " << k.size() << " key points saved, " << k2.size() << " loaded or different values");
    cv::Point2f p(aFloat(r), aFloat(r)), q(1, 2);
    const cv::Point2f& cp = p;
    load(q, save(cp, fmt, after), fmt, after);
    VM_CHECK(same(p.x, q.x) && same(p.y, q.y) && after == 4711, "points", name(fmt) << ": (" << p.x << ", " << p.y << ") loaded as (" << q.x << ", " << q.y << ")");
    std::vector<cv::Mat> m, m2;
    for (int i = (int)r.below(4); i > 0; --i) m.push_back(make(r, 1 + (int)r.below(3), 1 + (int)r.below(3), aType(r)).m.clone());
    const std::vector<cv::Mat>& cm = m;
    load(m2, save(cm, fmt, after), fmt, after);
    ok = m.size() == m2.size();
    for (size_t i = 0; ok && i < m.size(); ++i) ok = shape(m[i]) == shape(m2[i]);
    VM_CHECK(ok && after == 4711, "matrix-list", name(fmt) << ": a list of " << m.size() << " matrices came back different");
    vm::nontrivial(vm::combine(k.size() * 8 + m.size(), fmt * 4 + k2.size()));
    vm::event("key-point-lists");
  });
  return vm::finish();
}
