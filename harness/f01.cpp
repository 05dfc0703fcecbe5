// F01: archives written by earlier versions are read as what was saved.
//
// The types in `was` are frozen: they write, with the same serialization library, what the classes of the repository
// wrote when this monitor was made (members, order, tags, versions). What they wrote is read by the code under test.
#include "vm.hpp"
#include <boost/serialization/binary_object.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/make_shared.hpp>
#include <fstream>
#include <sm/Id.hpp>
#include <sm/boost/serialization.hpp>
#include <sm/eigen/serialization.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/opencv/serialization.hpp>

SM_DEFINE_ID(FrameId);
namespace k = sm::kinematics;
namespace was {
// P: written through pointers (the library then numbers the objects); V: the version of the class
template <class S, int R, int C, bool P, int Tag = 0> struct Matrix {
  ptrdiff_t rows = R, cols = C;
  std::vector<S> v;
  template <class A> void serialize(A& ar, unsigned) {
    ar & BOOST_SERIALIZATION_NVP(rows);
    ar & BOOST_SERIALIZATION_NVP(cols);
    if (rows > 0 && cols > 0) ar & boost::serialization::make_nvp("data", boost::serialization::make_array(v.data(), v.size()));
  }
};
template <bool P, int V> struct Transformation {
  Matrix<double, 4, 1, P> _q_a_b; Matrix<double, 3, 1, P> _t_a_b_a;
  template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(_q_a_b); ar & BOOST_SERIALIZATION_NVP(_t_a_b_a); }
};
template <bool P, int V> struct UncertainTransformation {
  Transformation<P, 0> base; Matrix<double, 6, 6, P> _U;
  template <class A> void serialize(A& ar, unsigned) { ar & boost::serialization::make_nvp("Transformation", base); ar & BOOST_SERIALIZATION_NVP(_U); }
};
template <bool P, int V> struct HomogeneousPoint {
  Matrix<double, 4, 1, P> _ph;
  template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(_ph); }
};
template <bool P, int V> struct UncertainHomogeneousPoint {
  HomogeneousPoint<P, 0> base; Matrix<double, 4, 4, P> _U;
  template <class A> void serialize(A& ar, unsigned) { ar & boost::serialization::make_nvp("HomogeneousPoint", base); ar & BOOST_SERIALIZATION_NVP(_U); }
};
template <int D, bool P, int V> struct UncertainVector {
  Matrix<double, D, 1, P> _v; Matrix<double, D, D, P> _E;
  template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(_v); ar & BOOST_SERIALIZATION_NVP(_E); }
};
template <bool P, int V> struct UncertainVector<1, P, V> {
  double _v, _sigma2;
  template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(_v); ar & BOOST_SERIALIZATION_NVP(_sigma2); }
};
template <bool P> struct Transform {   // Eigen::Transform
  Matrix<double, 4, 4, P> matrix;
  template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(matrix); }
};
template <bool P> struct Id {
  boost::uint64_t _id;
  template <class A> void serialize(A& ar, unsigned) { ar & BOOST_SERIALIZATION_NVP(_id); }
};
template <bool P> struct Point2f {
  float x, y;
  template <class A> void serialize(A& ar, unsigned) { ar & boost::serialization::make_nvp("p.x", x); ar & boost::serialization::make_nvp("p.y", y); }
};
template <bool P> struct KeyPoint {
  Point2f<P> pt; float size, angle, response; int octave, class_id;
  template <class A> void serialize(A& ar, unsigned) {
    ar & boost::serialization::make_nvp("k.pt", pt); ar & boost::serialization::make_nvp("k.size", size); ar & boost::serialization::make_nvp("k.angle", angle);
    ar & boost::serialization::make_nvp("k.response", response); ar & boost::serialization::make_nvp("k.octave", octave); ar & boost::serialization::make_nvp("k.class_id", class_id);
  }
};
template <bool P> struct Mat {
  int rows, cols, type; std::vector<unsigned char> data;
  template <class A> void serialize(A& ar, unsigned) {
    ar & BOOST_SERIALIZATION_NVP(rows); ar & BOOST_SERIALIZATION_NVP(cols); ar & BOOST_SERIALIZATION_NVP(type);
    ar & boost::serialization::make_nvp("data", boost::serialization::make_binary_object(data.data(), data.size()));
  }
};
}
namespace boost { namespace serialization {
#define VERSIONED(C) template <bool P, int V> struct version<was::C<P, V>> { typedef mpl::int_<V> type; typedef mpl::integral_c_tag tag; static const int value = V; };
VERSIONED(Transformation) VERSIONED(UncertainTransformation) VERSIONED(HomogeneousPoint) VERSIONED(UncertainHomogeneousPoint)
template <int D, bool P, int V> struct version<was::UncertainVector<D, P, V>> { typedef mpl::int_<V> type; typedef mpl::integral_c_tag tag; static const int value = V; };
}}

namespace {
double dbl(vm::Rng& r) {
  double d = r.anyDouble(true);
  return d != 0 && std::fabs(d) < 3e-308 ? 0.25 : d;   // the streams of text archives do not read denormals back
}
float flt(vm::Rng& r) { return (float)r.logmag(-20, 20); }
template <class S> struct Val { static S make(vm::Rng& r) { return (S)r.next(); } };
template <> struct Val<double> { static double make(vm::Rng& r) { return dbl(r); } };
template <> struct Val<float> { static float make(vm::Rng& r) { return flt(r); } };
template <class A, class B> bool eq(const A& a, const B& b) { return std::memcmp(&a, &b, sizeof a) == 0 && sizeof a == sizeof b; }
template <class S, int R, int C, bool P, int T, class M> bool eqm(const was::Matrix<S, R, C, P, T>& w, const M& m) {
  if (w.rows != m.rows() || w.cols != m.cols()) return false;
  for (ptrdiff_t i = 0; i < w.rows; ++i) for (ptrdiff_t j = 0; j < w.cols; ++j) if (!eq(w.v[M::IsRowMajor ? i * w.cols + j : j * w.rows + i], m(i, j))) return false;
  return true;
}
template <class S, int R, int C, bool P, int T> void fill(vm::Rng& r, was::Matrix<S, R, C, P, T>& w) {
  if (R == Eigen::Dynamic) w.rows = r.below(5);
  if (C == Eigen::Dynamic) w.cols = r.below(5);
  w.v.resize(w.rows * w.cols);
  for (auto& x : w.v) x = Val<S>::make(r);
}
// Kinds: the frozen type, the type of today, and what must agree.
template <class S, int R, int C, int O, bool P> struct KMatrix {
  typedef was::Matrix<S, R, C, P, O> W; typedef Eigen::Matrix<S, R, C, O> T;
  static T blank() { return T(); }
  static bool same(const W& w, const T& t) { return eqm(w, t); }
};
template <bool P> struct KTransform {
  typedef was::Transform<P> W; typedef Eigen::Transform<double, 3, Eigen::Affine> T;
  static T blank() { return T::Identity(); }
  static bool same(const W& w, const T& t) { return eqm(w.matrix, Eigen::Matrix4d(t.matrix())); }
};
template <bool P> void fill(vm::Rng& r, was::Transform<P>& w) { fill(r, w.matrix); }
template <bool P, int V> void fill(vm::Rng& r, was::Transformation<P, V>& w) { fill(r, w._q_a_b); fill(r, w._t_a_b_a); }
template <bool P, int V> void fill(vm::Rng& r, was::UncertainTransformation<P, V>& w) { fill(r, w.base); fill(r, w._U); }
template <bool P, int V> void fill(vm::Rng& r, was::HomogeneousPoint<P, V>& w) { fill(r, w._ph); }
template <bool P, int V> void fill(vm::Rng& r, was::UncertainHomogeneousPoint<P, V>& w) { fill(r, w.base); fill(r, w._U); }
template <int D, bool P, int V> void fill(vm::Rng& r, was::UncertainVector<D, P, V>& w) { fill(r, w._v); fill(r, w._E); }
template <bool P, int V> void fill(vm::Rng& r, was::UncertainVector<1, P, V>& w) { w._v = dbl(r); w._sigma2 = dbl(r); }
template <bool P> void fill(vm::Rng& r, was::Id<P>& w) { w._id = r.chance(1, 4) ? r.below(10) : r.next(); }
template <bool P> void fill(vm::Rng& r, was::Point2f<P>& w) { w.x = flt(r); w.y = flt(r); }
template <bool P> void fill(vm::Rng& r, was::KeyPoint<P>& w) { fill(r, w.pt); w.size = flt(r); w.angle = flt(r); w.response = flt(r); w.octave = (int)r.next(); w.class_id = (int)r.next(); }
template <bool P> void fill(vm::Rng& r, was::Mat<P>& w) {
  w.rows = 1 + (int)r.below(5); w.cols = 1 + (int)r.below(5); w.type = CV_MAKETYPE((int)r.below(7), r.pickl({1, 2, 3, 4}));
  w.data.resize(w.rows * w.cols * cv::Mat(1, 1, w.type).elemSize());
  for (auto& x : w.data) x = (unsigned char)r.next();
}
template <bool P, int V, class T> bool eqt(const was::Transformation<P, V>& w, const T& t) {
  Eigen::Vector4d q = t.q(); Eigen::Vector3d p = t.t();
  return eqm(w._q_a_b, q) && eqm(w._t_a_b_a, p);
}
template <bool P, int V, class T> bool eqh(const was::HomogeneousPoint<P, V>& w, const T& t) { Eigen::Vector4d h = t.toHomogeneous(); return eqm(w._ph, h); }
template <bool P, int V = 0> struct KT { typedef was::Transformation<P, V> W; typedef k::Transformation T; static T blank() { return T(); } static bool same(const W& w, const T& t) { return eqt(w, t); } };
template <bool P, int V = 0> struct KUT { typedef was::UncertainTransformation<P, V> W; typedef k::UncertainTransformation T; static T blank() { return T(); } static bool same(const W& w, const T& t) { Eigen::Matrix<double, 6, 6> U = t.U(); return eqt(w.base, t) && eqm(w._U, U); } };
template <bool P, int V = 0> struct KH { typedef was::HomogeneousPoint<P, V> W; typedef k::HomogeneousPoint T; static T blank() { return T(); } static bool same(const W& w, const T& t) { return eqh(w, t); } };
template <bool P, int V = 0> struct KUH { typedef was::UncertainHomogeneousPoint<P, V> W; typedef k::UncertainHomogeneousPoint T; static T blank() { return T(); } static bool same(const W& w, const T& t) { Eigen::Matrix4d U = t.U4(); return eqh(w.base, t) && eqm(w._U, U); } };
template <int D, bool P, int V = 0> struct KV {
  typedef was::UncertainVector<D, P, V> W; typedef k::UncertainVector<D> T; static T blank() { return T(); }
  static bool same(const W& w, const T& t) { Eigen::Matrix<double, D, 1> m = t.mean(); Eigen::Matrix<double, D, D> E = t.covariance(); return eqm(w._v, m) && eqm(w._E, E); }
};
template <bool P, int V> struct KV<1, P, V> { typedef was::UncertainVector<1, P, V> W; typedef k::UncertainVector<1> T; static T blank() { return T(); } static bool same(const W& w, const T& t) { double m = t.mean(), s = t.covariance(); return eq(w._v, m) && eq(w._sigma2, s); } };
template <bool P> struct KId { typedef was::Id<P> W; typedef FrameId T; static T blank() { return T(); } static bool same(const W& w, const T& t) { return w._id == t.getId(); } };
template <bool P> struct KKey { typedef was::KeyPoint<P> W; typedef cv::KeyPoint T; static T blank() { return T(); } static bool same(const W& w, const T& t) { return eq(w.pt.x, t.pt.x) && eq(w.pt.y, t.pt.y) && eq(w.size, t.size) && eq(w.angle, t.angle) && eq(w.response, t.response) && w.octave == t.octave && w.class_id == t.class_id; } };
template <bool P> struct KMat { typedef was::Mat<P> W; typedef cv::Mat T; static T blank() { return T(); }
  static bool same(const W& w, const T& t) {
    if (w.rows != t.rows || w.cols != t.cols || w.type != t.type()) return false;
    for (int i = 0; i < w.rows; ++i) if (std::memcmp(t.ptr(i), &w.data[i * t.cols * t.elemSize()], t.cols * t.elemSize())) return false;
    return true;
  } };

const char* formats[] = {"binary", "text", "XML"};
// The file as it was written then; the functions and flags are those of sm::boost_serialization.
template <class W> void write(const W& w, int fmt, const std::string& tag, const std::string& f) {
  std::ofstream o(f, fmt == 2 ? std::ios::out : std::ios::binary);
  if (fmt == 0) { boost::archive::binary_oarchive a(o); a << w; }
  else if (fmt == 1) { boost::archive::text_oarchive a(o); a << w; }
  else { boost::archive::xml_oarchive a(o); a << boost::serialization::make_nvp(tag.c_str(), w); }
}
template <class T> void read(T& t, int fmt, const std::string& tag, const std::string& f) {
  if (fmt == 0) sm::boost_serialization::load(t, f);
  else if (fmt == 1) sm::boost_serialization::load_txt(t, f);
  else if (tag == "object") sm::boost_serialization::load_xml(t, f);
  else sm::boost_serialization::load_xml(t, tag, f);
}
std::string head(const std::string& f) { std::ifstream i(f, std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); return s.substr(0, 400); }

template <class K> void one(vm::Rng& r, const char* name) {
  int fmt = (int)r.below(3);
  std::string f = vm::scratch() + "/old", tag = r.chance(1, 2) ? "object" : "top", key = std::string("/") + name + "/" + formats[fmt];
  typename K::W w; fill(r, w);
  bool list = r.chance(1, 3);
  try {
    if (!list) {
      write(w, fmt, tag, f);
      typename K::T t = K::blank(); read(t, fmt, tag, f);
      VM_CHECK(K::same(w, t), "other-value" + key, "the file begins " << head(f));
    } else {
      std::vector<typename K::W> ws(r.below(4)); for (auto& x : ws) fill(r, x);
      write(ws, fmt, tag, f);
      std::vector<typename K::T, Eigen::aligned_allocator<typename K::T>> ts; read(ts, fmt, tag, f);
      bool ok = ts.size() == ws.size();
      for (size_t i = 0; ok && i < ws.size(); ++i) ok = K::same(ws[i], ts[i]);
      VM_CHECK(ok, "other-list" + key, ws.size() << " were saved, " << ts.size() << " loaded; the file begins " << head(f));
      vm::event("lists");
    }
  } catch (const std::exception& e) { vm::fail("not-read" + key, std::string(e.what()) + "; the file begins " + head(f)); }
  vm::nontrivial(vm::hashStr(head(f)));
  vm::event(std::string("archives-") + formats[fmt]);
}
template <class K> void shared(vm::Rng& r, const char* name) {
  int fmt = (int)r.below(3);
  std::string f = vm::scratch() + "/old", key = std::string("/") + name + "/" + formats[fmt];
  typedef boost::shared_ptr<typename K::W> WP; typedef boost::shared_ptr<typename K::T> TP;
  std::vector<WP> ws; std::vector<size_t> first;
  for (int i = (int)r.below(5); i > 0; --i) {
    if (r.chance(1, 6)) ws.push_back(WP());
    else if (!ws.empty() && r.chance(1, 3)) ws.push_back(r.pick(ws));
    else { ws.push_back(boost::make_shared<typename K::W>()); fill(r, *ws.back()); }
  }
  try {
    write(ws, fmt, "object", f);
    std::vector<TP> ts; read(ts, fmt, "object", f);
    bool ok = ts.size() == ws.size();
    for (size_t i = 0; ok && i < ws.size(); ++i) {
      ok = !ws[i] == !ts[i] && (!ws[i] || K::same(*ws[i], *ts[i]));
      for (size_t j = 0; ok && j < i; ++j) ok = (ws[i] == ws[j]) == (ts[i] == ts[j]);
    }
    VM_CHECK(ok, "other-pointers" + key, ws.size() << " pointers were saved; the file begins " << head(f));
  } catch (const std::exception& e) { vm::fail("not-read-pointers" + key, std::string(e.what()) + "; the file begins " + head(f)); }
  vm::nontrivial(vm::hashStr(head(f)));
  vm::event("pointer-lists");
}
// A file of a version to come is refused, and not half understood.
template <class K> void newer(vm::Rng& r, const char* name) {
  int fmt = (int)r.below(3);
  std::string f = vm::scratch() + "/new";
  typename K::W w; fill(r, w);
  write(w, fmt, "object", f);
  typename K::T t = K::blank();
  bool refused = false;
  try { read(t, fmt, "object", f); } catch (const std::exception&) { refused = true; }
  VM_CHECK(refused, std::string("newer-version/") + name, formats[fmt] << ": a file of a newer version was accepted; it begins " << head(f));
  vm::event("newer-versions");
}
}

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("an archive written by a frozen copy of the format is loaded by the current code as exactly what was saved; an archive of a newer class version is refused");
  typedef void (*Case)(vm::Rng&, const char*);
  struct Entry { const char* name; Case one, shared; };
#define KIND(name, ...) {name, [](vm::Rng& r, const char* n) { const bool P = false; one<__VA_ARGS__>(r, n); }, [](vm::Rng& r, const char* n) { const bool P = true; shared<__VA_ARGS__>(r, n); }}
  static const Entry entries[] = {
    KIND("Transformation", KT<P>), KIND("UncertainTransformation", KUT<P>), KIND("HomogeneousPoint", KH<P>), KIND("UncertainHomogeneousPoint", KUH<P>),
    KIND("UncertainVector1", KV<1, P>), KIND("UncertainVector2", KV<2, P>), KIND("UncertainVector3", KV<3, P>), KIND("UncertainVector4", KV<4, P>),
    KIND("MatrixXd", KMatrix<double, -1, -1, 0, P>), KIND("RowMajorXf", KMatrix<float, -1, -1, 1, P>), KIND("Matrix3d", KMatrix<double, 3, 3, 0, P>),
    KIND("VectorXi", KMatrix<int, -1, 1, 0, P>), KIND("RowVectorXd", KMatrix<double, 1, -1, 1, P>), KIND("Matrix23Row", KMatrix<float, 2, 3, 1, P>),
    KIND("Transform", KTransform<P>), KIND("Id", KId<P>), KIND("KeyPoint", KKey<P>), KIND("Mat", KMat<P>)};
  const uint64_t n = sizeof entries / sizeof *entries;
  vm::run("files", 400 * n, [&](vm::Rng& r, uint64_t i) { entries[i % n].one(r, entries[i % n].name); });
  vm::run("pointers", 40 * n, [&](vm::Rng& r, uint64_t i) { entries[i % n].shared(r, entries[i % n].name); });
  vm::run("newer", 300, [&](vm::Rng& r, uint64_t i) {
    switch (i % 6) {
      case 0: newer<KT<false, 200>>(r, "Transformation"); break;
      case 1: newer<KUT<false, 200>>(r, "UncertainTransformation"); break;
      case 2: newer<KH<false, 200>>(r, "HomogeneousPoint"); break;
      case 3: newer<KUH<false, 200>>(r, "UncertainHomogeneousPoint"); break;
      case 4: newer<KV<1, false, 200>>(r, "UncertainVector1"); break;
      default: newer<KV<3, false, 200>>(r, "UncertainVector3"); break;
    }
  });
  return vm::finish();
}
