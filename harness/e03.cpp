// E03: matrix square roots, finiteness assertions, random vectors and vectors from a configuration.
#include "vm.hpp"
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/property_tree.hpp>
#include <sm/eigen/assert_macros.hpp>
#include <sm/eigen/random.hpp>
#include <sm/eigen/traits.hpp>
#include <sm/eigen/static_assert.hpp>
#include <sm/aligned_allocation.h>
#include <sm/random.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <Eigen/Core>
#include <Eigen/QR>

namespace {
template <class M> void judge(const M& A, const M& S, bool psd, const char* k) {
  typedef typename M::Scalar T;
  int n = A.rows();
  double u = std::numeric_limits<T>::epsilon(), scale = n ? (double)A.cwiseAbs().maxCoeff() : 0;
  VM_CHECK(S.rows() == n && S.cols() == n, std::string("shape/") + k, S.rows() << "x" << S.cols());
  bool finite = S.array().isFinite().all();
  VM_CHECK(finite || !psd, std::string("nan/") + k, "the square root of a positive semidefinite matrix is not finite; A =\n" << A << "\nS =\n" << S);
  if (finite && n) {
    Eigen::MatrixXd a = A.template cast<double>(), s = S.template cast<double>();
    double e = (s * s.transpose() - a).cwiseAbs().maxCoeff();
    VM_CHECK(e <= (psd ? 1000 : 1e6) * n * u * scale, std::string(psd ? "product/" : "wrong-root-of-indefinite/") + k, "S S^T differs from A by " << e << ", scale " << scale << "; A =\n" << A << "\nS =\n" << S);
  }
  vm::event(psd ? "roots-of-psd" : finite ? "finite-roots-of-indefinite" : "no-root-of-indefinite");
}
template <class M> void sqrtCase(vm::Rng& r, const char* k) {
  typedef typename M::Scalar T;
  int n = M::RowsAtCompileTime == -1 ? (int)r.range(1, 9) : M::RowsAtCompileTime;
  int rank = (int)r.range(0, n);
  Eigen::MatrixXd B(n, rank);
  double s = std::pow(10., r.uniform(-6, 6));
  int shape = (int)r.below(5);
  for (int i = 0; i < n; ++i) {
    double row = shape == 1 ? std::pow(10., (double)r.range(-3, 3)) : 1;
    for (int j = 0; j < rank; ++j) B(i, j) = s * row * (shape == 2 ? (double)r.range(-2, 2) : r.normal());
  }
  Eigen::MatrixXd A = B * B.transpose();
  if (shape == 3) { A.setZero(); for (int i = 0; i < n; ++i) A(i, i) = r.chance(1, 3) ? 0 : std::fabs(r.logmag(-10, 10)); }
  if (shape == 4 && n > 2) {   // two decoupled blocks, one singular
    A.topRightCorner(1, n - 1).setZero(); A.bottomLeftCorner(n - 1, 1).setZero();
  }
  A = (0.5 * (A + A.transpose())).eval();
  bool psd = true;
  if (r.chance(1, 6)) {   // clearly indefinite
    Eigen::VectorXd v(n); for (int i = 0; i < n; ++i) v[i] = r.normal();
    v.normalize();
    double m = std::max(A.cwiseAbs().maxCoeff(), 1e-6);
    A = (A - (v.dot(A * v) + m * r.uniform(0.01, 2)) * v * v.transpose()).eval();
    A = (0.5 * (A + A.transpose())).eval();
    psd = false;
  }
  M a = A.cast<T>();
  const M before = a;
  M out = M::Constant(n, n, T(7));
  switch (r.below(4)) {
    case 0: { M S; sm::eigen::computeMatrixSqrt(a, S); out = S; break; }
    case 1: { M big = M::Zero(n, n); big = a; sm::eigen::computeMatrixSqrt(big.block(0, 0, n, n), out); break; }
    case 2: sm::eigen::computeMatrixSqrt(a * T(1), out); break;
    default: sm::eigen::computeMatrixSqrt(a, out); break;
  }
  VM_CHECK(a == before, std::string("argument-changed/") + k, "the input was changed");
  judge<M>(a, out, psd, k);
  vm::nontrivial(vm::combine(rank * 16 + n, vm::bits((double)out(n - 1, 0))));
}
// What the static assertions on shapes accept, observed where they hand their condition to Eigen's.
#undef EIGEN_STATIC_ASSERT
#define EIGEN_STATIC_ASSERT(CONDITION, MESSAGE) accepted = bool(CONDITION);
template <class M, int R, int C> void shape() {
  bool accepted = false;
  enum { rows = M::RowsAtCompileTime, cols = M::ColsAtCompileTime };
  { EIGEN_STATIC_ASSERT_MATRIX_SPECIFIC_SIZE_OR_DYNAMIC(M, R, C) }
  bool fits = ((int)rows == R || (int)rows == Eigen::Dynamic) && ((int)cols == C || (int)cols == Eigen::Dynamic);
  VM_CHECK(accepted == fits, "static-assert/matrix", "a type of " << (int)rows << " by " << (int)cols << " is " << (accepted ? "accepted" : "refused") << " for " << R << " by " << C);
  { EIGEN_STATIC_ASSERT_VECTOR_SPECIFIC_SIZE_OR_DYNAMIC(M, R) }
  bool isVector = (int)rows == 1 || (int)cols == 1;
  int size = (int)rows == Eigen::Dynamic || (int)cols == Eigen::Dynamic ? Eigen::Dynamic : (int)rows * (int)cols;
  VM_CHECK(accepted == (isVector && (size == R || size == Eigen::Dynamic)), "static-assert/vector", "a type of " << (int)rows << " by " << (int)cols << " is " << (accepted ? "accepted" : "refused") << " for a vector of " << R);
  vm::event("shape-assertions");
}
template <class M> void shapesOf() { shape<M, 1, 1>(); shape<M, 1, 3>(); shape<M, 3, 1>(); shape<M, 3, 3>(); shape<M, 3, 4>(); shape<M, 4, 3>(); shape<M, 4, 4>(); }
template <class T, int R> void shapesOfRows() {
  shapesOf<Eigen::Matrix<T, R, 1>>(); shapesOf<Eigen::Matrix<T, R, 3>>(); shapesOf<Eigen::Matrix<T, R, 4>>(); shapesOf<Eigen::Matrix<T, R, Eigen::Dynamic>>();
}
void shapes() {
  vm::run("static-assertions", 1, [](vm::Rng&, uint64_t) {
    shapesOfRows<double, 3>(); shapesOfRows<float, 4>(); shapesOfRows<double, Eigen::Dynamic>();
    shapesOf<Eigen::RowVector3d>(); shapesOf<Eigen::RowVectorXd>(); shapesOf<Eigen::Matrix<double, 1, 1>>();
    vm::nontrivial(1);
  });
}
// Values of Eigen types in shared pointers and containers: aligned, constructed from the arguments, destroyed once.
struct Counted {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  static int& live() { static int n; return n; }
  Eigen::Vector4d a; std::unique_ptr<int> p; int copies;
  Counted(const Eigen::Vector4d& v, std::unique_ptr<int> q, int& counter) : a(v), p(std::move(q)), copies(0) { ++live(); ++counter; }
  Counted(Counted&& o) : a(o.a), p(std::move(o.p)), copies(o.copies) { ++live(); }
  ~Counted() { --live(); }
};
template <class T> bool isAligned(const T& t) { return reinterpret_cast<uintptr_t>(&t) % EIGEN_MAX_ALIGN_BYTES == 0; }
void aligned(vm::Rng& r, uint64_t) {
  const int before = Counted::live(), n = (int)r.range(1, 30);
  {
    std::vector<std::shared_ptr<const Counted>> held; std::vector<std::unique_ptr<char[]>> noise;
    int counter = 0;
    for (int i = 0; i < n; ++i) {
      noise.emplace_back(new char[r.range(1, 40)]);
      const Eigen::Vector4d v = Eigen::Vector4d::Constant(i);
      if (r.chance(1, 2)) held.push_back(aligned_shared<Counted>(v, std::unique_ptr<int>(new int(i)), counter));
      else held.push_back(aligned_shared<const Counted>(v, std::unique_ptr<int>(new int(i)), counter));
      VM_CHECK(isAligned(held.back()->a), "alignment/shared", (const void*)&held.back()->a);
    }
    VM_CHECK(counter == n && Counted::live() == before + n, "aligned-shared", counter << " of " << n << " constructed");
    for (int i = 0; i < n; ++i) VM_CHECK(held[i]->a[3] == i && held[i]->p && *held[i]->p == i, "aligned-shared", "value " << i);
    Aligned<std::vector, Eigen::Vector4d>::type v; sm::eigen::Traits<Eigen::Matrix4d>::vector_t w;
    AlignedMap<int, Eigen::Vector4d>::type m; AlignedUnorderedMap<std::string, Eigen::Matrix2d>::type u; sm::eigen::MapTraits<int, Eigen::Vector4f>::map_t t;
    for (int i = 0; i < n; ++i) {
      v.push_back(Eigen::Vector4d::Constant(i)); w.push_back(Eigen::Matrix4d::Constant(i));
      int key = (int)r.range(-50, 50);
      m[key].setConstant(key); u[std::to_string(key)].setConstant(key); t[key].setConstant(key);
    }
    for (int i = 0; i < n; ++i) VM_CHECK(isAligned(v[i]) && isAligned(w[i]) && v[i][2] == i && w[i](3, 3) == i, "alignment/vector", i);
    int last = -1000;
    for (auto& e : m) { VM_CHECK(isAligned(e.second) && e.second[0] == e.first && e.first > last && t.count(e.first) && isAligned(t[e.first]) && t[e.first][3] == e.first, "alignment/map", e.first); last = e.first; }
    for (auto& e : u) VM_CHECK(isAligned(e.second) && e.second(1, 1) == std::stoi(e.first) && m.count(std::stoi(e.first)), "alignment/unordered-map", e.first);
    VM_CHECK(u.size() == m.size() && t.size() == m.size(), "aligned-map-size", u.size() << ", " << m.size());
    vm::event("aligned-containers");
    vm::nontrivial(n * 1000 + m.size());
  }
  VM_CHECK(Counted::live() == before, "aligned-shared-lifetime", Counted::live() - before << " objects left");
}
}
int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case takes the square root of one random matrix of random rank, size and grading; distinct when rank, size or the root differ.");
  vm::run("sqrt", 12000, [](vm::Rng& r, uint64_t) {
    switch (r.below(5)) {
      case 0: sqrtCase<Eigen::Matrix3d>(r, "3"); break;
      case 1: sqrtCase<Eigen::Matrix<double, 6, 6>>(r, "6"); break;
      case 2: sqrtCase<Eigen::Matrix<double, 1, 1>>(r, "1"); break;
      case 3: sqrtCase<Eigen::MatrixXf>(r, "float"); break;
      default: sqrtCase<Eigen::MatrixXd>(r, "dynamic"); break;
    }
  });
  vm::run("sqrt-expressions", 50, [](vm::Rng& r, uint64_t) {
    Eigen::MatrixXd S;
    int n = (int)r.range(1, 6);
    sm::eigen::computeMatrixSqrt(Eigen::MatrixXd::Identity(n, n), S);
    judge<Eigen::MatrixXd>(Eigen::MatrixXd::Identity(n, n), S, true, "identity");
    sm::eigen::computeMatrixSqrt(Eigen::MatrixXd::Zero(n, n), S);
    judge<Eigen::MatrixXd>(Eigen::MatrixXd::Zero(n, n), S, true, "zero");
    Eigen::VectorXd d(n); for (int i = 0; i < n; ++i) d[i] = r.uniform(0, 3);
    Eigen::MatrixXd D = d.asDiagonal();
    sm::eigen::computeMatrixSqrt(D * 2.0, S);
    judge<Eigen::MatrixXd>(D * 2.0, S, true, "expression");
  });
  vm::run("finite", 3000, [](vm::Rng& r, uint64_t) {
    Eigen::MatrixXd m(r.range(0, 5), r.range(0, 5));
    bool ok = true; double bad = 0;
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) { m(i, j) = r.chance(1, 12) ? r.anyDouble(false) : r.anyDouble(true); if (!std::isfinite(m(i, j)) && ok) { ok = false; bad = m(i, j); } }
    int threw = 0; std::string what;
    try { SM_ASSERT_MAT_IS_FINITE(std::range_error, m, "the-note") } catch (const std::range_error& e) { threw = 1; what = e.what(); }
    VM_CHECK(threw == !ok, "finite", "threw " << threw << " for\n" << m);
    if (threw) VM_CHECK(what.find("the-note") != std::string::npos && what.find(__FILE__) != std::string::npos, "finite-message", what);
    vm::event(ok ? "finite-matrices" : "non-finite-matrices");
    vm::nontrivial(m.size() ? vm::bits(m(0, 0)) : m.rows() * 7 + m.cols());
  });
  // The assertion takes any expression, under any name, and its message is the caller's.
  vm::run("finite-expressions", 1000, [](vm::Rng& rng, uint64_t) {
    Eigen::MatrixXd r = Eigen::MatrixXd::Random(rng.range(1, 3), rng.range(1, 3)), c = r;
    int i = (int)rng.below(r.rows()), j = (int)rng.below(r.cols()), k = 5;
    bool ok = rng.chance(1, 2);
    if (!ok) c(i, j) = rng.pickl({(double)NAN, (double)INFINITY, -(double)INFINITY});
    std::string what;
    try { if (rng.chance(1, 2)) { SM_ASSERT_MAT_IS_FINITE(std::range_error, r + c, "k = " << k) } else { SM_ASSERT_MAT_IS_FINITE(std::range_error, c, "k = " << k) } } catch (const std::range_error& e) { what = e.what(); }
    VM_CHECK(what.empty() == ok, "finite", "threw '" << what << "' for\n" << c);
    VM_CHECK(ok || (what.find("k = 5") != std::string::npos && what.find("(" + std::to_string(i) + ", " + std::to_string(j) + ")") != std::string::npos), "finite-message", what);
    what.clear();
    try { SM_ASSERT_MAT_IS_FINITE_DBG(std::range_error, r - c, "k = " << k) } catch (const std::range_error& e) { what = e.what(); }
    VM_CHECK(what.empty() == ok, "finite-debug", "threw '" << what << "' for\n" << c);
    vm::event(ok ? "finite-expressions" : "non-finite-expressions");
    vm::nontrivial(vm::combine(vm::bits(r(0, 0)), i * 3 + j + 9 * ok));
  });
  shapes();
  vm::run("aligned", 500, aligned);
  vm::run("config", 3000, [](vm::Rng& r, uint64_t) {
    sm::BoostPropertyTree pt;
    std::string ns = r.chance(1, 2) ? "a/b" : "v";
    double v[4]; const char* names[] = {"x", "y", "z", "w"};
    int missing = r.chance(1, 4) ? (int)r.below(4) : -1;
    std::vector<int> order{0, 1, 2, 3};
    for (int i = 3; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
    for (int i : order) { v[i] = r.anyDouble(true); if (std::fabs(v[i]) < 3e-308) v[i] = 0; if (i != missing) pt.setDouble(ns + "/" + names[i], v[i]); }
    sm::PropertyTree view(pt, ns);
    int threw3 = 0, threw4 = 0;
    Eigen::Vector3d a; Eigen::Vector4d q;
    try { a = sm::eigen::vector3FromPropertyTree(view); } catch (const sm::PropertyTree::Exception&) { threw3 = 1; }
    try { q = sm::eigen::quaternionFromPropertyTree(view); } catch (const sm::PropertyTree::Exception&) { threw4 = 1; }
    VM_CHECK(threw3 == (missing >= 0 && missing < 3), "vector-missing-key", "missing " << missing << ", threw " << threw3);
    VM_CHECK(threw4 == (missing >= 0), "quaternion-missing-key", "missing " << missing << ", threw " << threw4);
    if (!threw3) VM_CHECK(a[0] == v[0] && a[1] == v[1] && a[2] == v[2], "vector", a.transpose() << " for " << v[0] << " " << v[1] << " " << v[2]);
    if (!threw4) VM_CHECK(q[0] == v[0] && q[1] == v[1] && q[2] == v[2] && q[3] == v[3], "quaternion", q.transpose() << " for " << v[0] << " " << v[1] << " " << v[2] << " " << v[3]);
    vm::event("configurations");
    vm::nontrivial(vm::bits(v[0]));
  });
  vm::run("randn", 400, [](vm::Rng& r, uint64_t) {
    unsigned n = (unsigned)r.below(300);
    unsigned seed = (unsigned)r.next();
    sm::random::seed(seed);
    Eigen::VectorXd a = sm::eigen::randn(n);
    sm::random::seed(seed);
    VM_CHECK(a.size() == (int)n, "randn-size", a.size() << " for " << n);
    for (unsigned i = 0; i < n; ++i) { double x = sm::random::randn(); if (x != a[i]) { VM_CHECK(false, "randn-seed", "entry " << i << " of " << n); break; } }
    if (n > 100) VM_CHECK(std::fabs(a.mean()) < 7 / std::sqrt((double)n) && a.squaredNorm() / n < 2.5 && a.squaredNorm() / n > 0.25, "randn-distribution", "mean " << a.mean() << ", mean square " << a.squaredNorm() / n);
    vm::event("random-vectors");
    vm::nontrivial(n ? vm::bits(a[0]) : 0);
  });
  return vm::finish();
}
