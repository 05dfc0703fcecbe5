// E01: every matrix shape survives every archive format.
#include "vm.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/serialization/complex.hpp>
#include <boost/serialization/vector.hpp>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <sm/eigen/serialization.hpp>
#include <complex>

namespace {
struct Bin { typedef boost::archive::binary_oarchive O; typedef boost::archive::binary_iarchive I; static const char* name() { return "binary"; } static const bool text = false; };
struct Txt { typedef boost::archive::text_oarchive O; typedef boost::archive::text_iarchive I; static const char* name() { return "text"; } static const bool text = true; };
struct Xml { typedef boost::archive::xml_oarchive O; typedef boost::archive::xml_iarchive I; static const char* name() { return "xml"; } static const bool text = true; };

double dbl(vm::Rng& r, bool text) {
  double d = r.anyDouble(text);
  return text && d != 0 && std::fabs(d) < 3e-308 ? 0.25 : d;   // the streams of text archives do not read denormals or NaN back
}
template <class T> struct Val { static T make(vm::Rng& r, bool) { switch (r.below(3)) { case 0: return std::numeric_limits<T>::min(); case 1: return std::numeric_limits<T>::max(); default: return (T)r.next(); } } };
template <> struct Val<bool> { static bool make(vm::Rng& r, bool) { return r.chance(1, 2); } };
template <> struct Val<double> { static double make(vm::Rng& r, bool text) { return dbl(r, text); } };
template <> struct Val<float> { static float make(vm::Rng& r, bool text) { float f = (float)r.logmag(-30, 30); return text ? f : r.chance(1, 10) ? NAN : r.chance(1, 10) ? -INFINITY : f; } };
template <> struct Val<std::complex<double>> { static std::complex<double> make(vm::Rng& r, bool text) { double a = dbl(r, text); return std::complex<double>(a, dbl(r, text)); } };

template <class M> M gen(vm::Rng& r, bool text) {
  M m;
  int rows = M::RowsAtCompileTime, cols = M::ColsAtCompileTime;
  auto dim = [&]() { return (int)(r.chance(1, 4) ? 0 : r.chance(1, 10) ? r.range(1, 120) : r.range(1, 9)); };
  if (rows == Eigen::Dynamic && cols != Eigen::Dynamic && M::MaxRowsAtCompileTime == Eigen::Dynamic && r.chance(1, 150)) rows = r.pickl({255, 256, 257, 1000, 32769, 65537});
  else if (cols == Eigen::Dynamic && rows != Eigen::Dynamic && M::MaxColsAtCompileTime == Eigen::Dynamic && r.chance(1, 150)) cols = r.pickl({255, 256, 257, 1000, 32769, 65537});
  else if (rows == Eigen::Dynamic && cols == Eigen::Dynamic && M::MaxColsAtCompileTime == Eigen::Dynamic && r.chance(1, 300)) { rows = r.pickl({1, 257, 300}); cols = r.pickl({256, 301}); }
  if (rows == Eigen::Dynamic) rows = M::MaxRowsAtCompileTime != Eigen::Dynamic ? (int)r.range(0, M::MaxRowsAtCompileTime) : dim();
  if (cols == Eigen::Dynamic) cols = M::MaxColsAtCompileTime != Eigen::Dynamic ? (int)r.range(0, M::MaxColsAtCompileTime) : dim();
  m.resize(rows, cols);
  for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m(i, j) = Val<typename M::Scalar>::make(r, text);
  return m;
}
template <class M> bool same(const M& a, const M& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) {
    typename M::Scalar x = a(i, j), y = b(i, j);
    if (!(x == y) && !(x != x && y != y)) return false;
  }
  return true;
}
template <class M> std::string dims(const M& m) { return std::to_string(m.rows()) + "x" + std::to_string(m.cols()); }

// M, then a guard value, then M again, so that a block of the wrong length is noticed.
template <class F, class M> void roundTrip(vm::Rng& r, const char* type) {
  M a = gen<M>(r, F::text), b = gen<M>(r, F::text);
  const M ca = a;
  int guard = (int)r.below(1000000), guard2 = 7;
  std::string key = std::string("/") + F::name() + "/" + type, where = std::string(F::name()) + " " + type + " " + dims(a) + " and " + dims(b);
  std::stringstream ss;
  try {
    {
      typename F::O o(ss);
      o << boost::serialization::make_nvp("a", ca) << boost::serialization::make_nvp("g", (const int&)guard)
        << boost::serialization::make_nvp("b", (const M&)b) << boost::serialization::make_nvp("h", (const int&)guard2);
    }
    VM_CHECK(same(a, ca), "save-changes" + key, where);
    M x = gen<M>(r, F::text), y;   // loads replace whatever was there
    int g = 0, h = 0;
    typename F::I i(ss);
    i >> boost::serialization::make_nvp("a", x) >> boost::serialization::make_nvp("g", g) >> boost::serialization::make_nvp("b", y) >> boost::serialization::make_nvp("h", h);
    VM_CHECK(same(a, x), "round-trip" + key, where << ": the first came back as " << dims(x));
    VM_CHECK(same(b, y), "round-trip" + key, where << ": the second came back as " << dims(y));
    VM_CHECK(g == guard && h == 7, "archive-position" + key, where << ": guards " << g << ", " << h);
  } catch (const std::exception& e) {
    vm::fail("throws" + key, where + ": " + e.what());
  }
  vm::event(std::string("round-trips:") + F::name(), 2);
  vm::nontrivial(vm::combine(vm::hashStr(where), vm::hashStr(ss.str())));
}
template <class F> void all(vm::Rng& r) {
  using Eigen::Matrix; using Eigen::Dynamic;
#define RT(...) roundTrip<F, __VA_ARGS__>(r, #__VA_ARGS__)
  switch (r.below(10)) {
    case 0: RT(Matrix<double, 3, 3>); RT(Matrix<double, 4, 2>); RT(Matrix<double, 1, 1>); break;
    case 1: RT(Matrix<double, 3, 4, Eigen::RowMajor>); RT(Matrix<float, 2, 5>); RT(Matrix<float, Dynamic, Dynamic, Eigen::RowMajor>); break;
    case 2: RT(Matrix<double, Dynamic, Dynamic>); RT(Matrix<double, Dynamic, Dynamic, Eigen::RowMajor>); break;
    case 3: RT(Matrix<double, Dynamic, 1>); RT(Matrix<double, 1, Dynamic>); RT(Matrix<double, 5, 1>); RT(Matrix<double, 1, 7>); break;
    case 4: RT(Matrix<double, Dynamic, 4>); RT(Matrix<double, 4, Dynamic>); RT(Matrix<double, 3, Dynamic, Eigen::RowMajor>); RT(Matrix<double, Dynamic, 3, Eigen::RowMajor>); break;
    case 5: RT(Matrix<int, Dynamic, Dynamic>); RT(Matrix<unsigned, 3, Dynamic>); RT(Matrix<int64_t, Dynamic, 2>); break;
    case 6: RT(Matrix<char, Dynamic, Dynamic>); RT(Matrix<unsigned char, Dynamic, 1>); RT(Matrix<short, 2, 2>); RT(Matrix<bool, Dynamic, Dynamic>); break;
    case 7: RT(Matrix<std::complex<double>, Dynamic, Dynamic>); RT(Matrix<std::complex<double>, 2, 3>); break;
    case 8: RT(Matrix<double, Dynamic, Dynamic, 0, 6, 6>); RT(Matrix<double, 3, Dynamic, 0, 3, 8>); RT(Matrix<double, Dynamic, 2, 0, 9, 2>); break;
    case 9: RT(Matrix<uint64_t, 1, Dynamic>); RT(Matrix<unsigned short, Dynamic, 4>); RT(Matrix<double, 6, 6>); break;
  }
}
// Loading a stored shape into a fixed dimension that differs.
template <class F, class From, class To> void mismatch(vm::Rng& r, const char* type) {
  From a = gen<From>(r, true);
  To before = gen<To>(r, true), x = before;
  std::stringstream ss;
  { typename F::O o(ss); o << boost::serialization::make_nvp("a", (const From&)a); }
  bool fits = (To::RowsAtCompileTime == Eigen::Dynamic || To::RowsAtCompileTime == a.rows()) && (To::ColsAtCompileTime == Eigen::Dynamic || To::ColsAtCompileTime == a.cols());
  int threw = 0;
  try { typename F::I i(ss); i >> boost::serialization::make_nvp("a", x); }
  catch (const sm::eigen::SerializationException&) { threw = 1; }
  catch (const std::exception& e) { threw = 2; }
  std::string key = std::string("/") + F::name() + "/" + type;
  if (fits) VM_CHECK(threw == 0 && x.rows() == a.rows() && x.cols() == a.cols() && (x.size() == 0 || (x.array() == a.array()).all()), "fitting-shape" + key, dims(a));
  else {
    VM_CHECK(threw == 1, "wrong-shape-accepted" + key, "a stored " << dims(a) << " matrix was loaded as " << type << ": " << (threw ? "another exception" : "no exception"));
    VM_CHECK(same(x, before), "wrong-shape-changes" + key, "a refused load changed the matrix");
    vm::event("mismatches-refused");
  }
  vm::nontrivial(vm::combine(vm::hashStr(key), a.rows() * 1000 + a.cols()));
}
template <class F> void mismatches(vm::Rng& r) {
  using Eigen::Matrix; using Eigen::Dynamic; typedef Matrix<double, Dynamic, Dynamic> X;
#define MM(...) mismatch<F, X, __VA_ARGS__>(r, #__VA_ARGS__)
  MM(Matrix<double, 3, 3>); MM(Matrix<double, 2, Dynamic>); MM(Matrix<double, Dynamic, 2>); MM(Matrix<double, Dynamic, 1>); MM(Matrix<double, 1, Dynamic>); MM(Matrix<double, 1, 1>); MM(X);
  mismatch<F, Matrix<double, Dynamic, 1>, Matrix<double, 4, 1>>(r, "4-vector");
}
template <class F> void transforms(vm::Rng& r) {
  Eigen::Transform<double, 3, Eigen::Affine> a, b; Eigen::Transform<double, 2, Eigen::Isometry> c, d; Eigen::Transform<float, 3, Eigen::AffineCompact> e, f; Eigen::Transform<double, 3, Eigen::Projective> g, h;
  a.matrix() = gen<Eigen::Matrix4d>(r, true); c.matrix() = gen<Eigen::Matrix3d>(r, true); e.matrix() = gen<Eigen::Matrix<float, 3, 4>>(r, true); g.matrix() = gen<Eigen::Matrix4d>(r, true);
  std::vector<Eigen::VectorXd> v, w(r.below(3));
  for (int k = (int)r.below(5); k > 0; --k) v.push_back(gen<Eigen::VectorXd>(r, true));
  std::stringstream ss;
  {
    typename F::O o(ss);
    o << boost::serialization::make_nvp("a", a) << boost::serialization::make_nvp("c", c) << boost::serialization::make_nvp("e", e) << boost::serialization::make_nvp("v", v) << boost::serialization::make_nvp("g", g);
  }
  typename F::I i(ss);
  i >> boost::serialization::make_nvp("a", b) >> boost::serialization::make_nvp("c", d) >> boost::serialization::make_nvp("e", f) >> boost::serialization::make_nvp("v", w) >> boost::serialization::make_nvp("g", h);
  VM_CHECK(a.matrix() == b.matrix() && c.matrix() == d.matrix() && e.matrix() == f.matrix() && g.matrix() == h.matrix(), std::string("transform/") + F::name(), "a transform came back different");
  bool eq = v.size() == w.size();
  for (size_t k = 0; eq && k < v.size(); ++k) eq = same(v[k], w[k]);
  VM_CHECK(eq, std::string("vector-of-vectors/") + F::name(), v.size() << " vectors");
  vm::event("transforms", 4);
}
}
int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case saves two matrices of one type (random sizes including empty, extreme values) with guards between them and loads them back; distinct when type, sizes or the archive bytes differ.");
  vm::run("binary", 4000, [](vm::Rng& r, uint64_t) { all<Bin>(r); });
  vm::run("text", 2500, [](vm::Rng& r, uint64_t) { all<Txt>(r); });
  vm::run("xml", 2500, [](vm::Rng& r, uint64_t) { all<Xml>(r); });
  vm::run("mismatch", 400, [](vm::Rng& r, uint64_t) { mismatches<Bin>(r); mismatches<Txt>(r); mismatches<Xml>(r); });
  vm::run("transforms", 300, [](vm::Rng& r, uint64_t) { transforms<Bin>(r); transforms<Txt>(r); transforms<Xml>(r); });
  return vm::finish();
}
