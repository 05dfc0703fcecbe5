// E02: numerical differentiation against analytic derivatives.
#include "vm.hpp"
#include <functional>
#include <sm/eigen/NumericalDiff.hpp>
#include <Eigen/Core>

namespace {
// f_i(x) = sum_j a_ij sin(w_ij x_j + p_ij) + q_ij x_j^2 + c_i, with optional products
struct Fn {
  Eigen::MatrixXd a, w, p, q; Eigen::VectorXd c; double prod;
  Fn(vm::Rng& r, int m, int n) : a(m, n), w(m, n), p(m, n), q(m, n), c(m) {
    double s = std::pow(10., r.uniform(-3, 3));
    for (int i = 0; i < m; ++i) { c[i] = s * r.uniform(-1, 1); for (int j = 0; j < n; ++j) { a(i, j) = s * r.uniform(-1, 1); w(i, j) = r.uniform(-3, 3); p(i, j) = r.uniform(-3, 3); q(i, j) = s * r.uniform(-1, 1); } }
    prod = r.chance(1, 2) ? s * r.uniform(-1, 1) : 0;
  }
  template <class V> double term(int i, const V& x, long double* mag = nullptr) const {
    long double v = c[i], m = std::fabs(c[i]);
    for (int j = 0; j < a.cols(); ++j) { long double t = a(i, j) * std::sin(w(i, j) * (long double)x[j] + p(i, j)), u = q(i, j) * (long double)x[j] * x[j]; v += t + u; m += std::fabs(a(i, j)) * (1 + std::fabs(w(i, j) * x[j])) + std::fabs(u); }
    if (prod != 0 && a.cols() > 1) { long double t = prod * (long double)x[0] * x[a.cols() - 1]; v += t; m += std::fabs(t); }
    if (mag) *mag = m;
    return (double)v;
  }
  double d(int i, int j, const Eigen::VectorXd& x) const {
    int n = a.cols();
    double v = a(i, j) * w(i, j) * std::cos(w(i, j) * x[j] + p(i, j)) + 2 * q(i, j) * x[j];
    if (prod != 0 && n > 1) { if (j == 0) v += prod * x[n - 1]; if (j == n - 1) v += prod * x[0]; }
    return v;
  }
};
template <class V> V point(vm::Rng& r, int n) {
  V x(n);
  for (int i = 0; i < n; ++i) x[i] = r.chance(1, 6) ? 0 : r.chance(1, 6) ? r.logmag(-8, 3) : r.uniform(-5, 5);
  return x;
}
template <class V> void observe(const V& x0, const V& x, double eps, const char* k) {
  int moved = 0;
  for (int i = 0; i < x.size(); ++i) if (x[i] != x0[i]) {
    moved++;
    double step = std::max(std::fabs((double)x0[i]) * eps, eps);
    VM_CHECK(std::fabs((double)x[i] - x0[i]) <= step * 1.5, std::string("evaluated-far-away/") + k, "coordinate " << i << " was moved from " << x0[i] << " to " << x[i] << " with step " << step);
  }
  VM_CHECK(moved <= 1, std::string("evaluated-elsewhere/") + k, moved << " coordinates were moved at once");
  VM_CHECK(x.size() == x0.size(), std::string("evaluated-elsewhere/") + k, "dimension " << x.size());
}
template <class J> void compare(const J& jac, const Fn& f, const Eigen::VectorXd& x, double eps, double u, const char* k) {
  int m = f.a.rows(), n = f.a.cols();
  VM_CHECK(jac.rows() == m && jac.cols() == n, std::string("shape/") + k, jac.rows() << "x" << jac.cols() << " for " << m << "x" << n);
  if (jac.rows() != m || jac.cols() != n) return;
  for (int i = 0; i < m; ++i) {
    long double mag; f.term(i, x, &mag);
    for (int j = 0; j < n; ++j) {
      double h = std::max(std::fabs(x[j]) * eps, eps), w = std::fabs(f.w(i, j)), d = f.d(i, j, x);
      double tol = h * h * std::fabs(f.a(i, j)) * w * w * w / 6 + 4 * u * (double)mag / h + 4 * u * std::fabs(x[j]) / h * (std::fabs(d) + std::fabs(f.a(i, j)) * w) + 1e-12 * std::fabs(d);
      VM_CHECK(std::fabs(jac(i, j) - d) <= tol, std::string("jacobian/") + k, "d f" << i << "/d x" << j << " = " << jac(i, j) << ", analytically " << d << " (tolerance " << tol << ") at x" << j << " = " << x[j] << ", step " << h);
    }
  }
  vm::event("derivatives-compared", (uint64_t)m * n);
}
template <int M, int N> void fixed(vm::Rng& r) {
  typedef Eigen::Matrix<double, M, 1> VM_; typedef Eigen::Matrix<double, N, 1> VN;
  int m = M == -1 ? (int)r.range(1, 6) : M, n = N == -1 ? (int)r.range(1, 6) : N;
  Fn f(r, m, n);
  const VN x0 = point<VN>(r, n);
  VN x = x0;
  double defEps = std::sqrt(std::numeric_limits<double>::epsilon()), eps = defEps;
  bool own = r.chance(1, 2);
  if (own) eps = std::pow(10., r.uniform(-12, -1));
  int calls = 0;
  auto eval = [&](const VN& y) { ++calls; observe(x0, y, eps, "double"); VM_ v(m); for (int i = 0; i < m; ++i) v[i] = f.term(i, y); return v; };
  Eigen::MatrixXd jac;
  if (r.chance(1, 2)) {
    std::function<VM_(const VN&)> g = eval;
    jac = own ? sm::eigen::numericalDiff<VM_, VN>(g, x, eps) : sm::eigen::numericalDiff<VM_, VN>(g, x);
  } else {
    typedef sm::eigen::NumericalDiffFunctor<VM_, VN> F;
    F functor([&](VN y) { return eval(y); });
    sm::eigen::NumericalDiff<F> nd = own ? sm::eigen::NumericalDiff<F>(functor, eps) : sm::eigen::NumericalDiff<F>(functor);
    jac = nd.estimateJacobian(x);
    if (r.chance(1, 3)) VM_CHECK(jac == nd.estimateJacobian(x), "repeat", "two estimates at one point differ");
  }
  VM_CHECK(x == x0, "argument-changed", "the evaluation point was changed");
  VM_CHECK(calls >= 2 * n, "evaluations", calls << " evaluations for " << n << " parameters");
  compare(jac, f, x0, eps, 1.2e-16, "double");
  vm::nontrivial(vm::combine(vm::combine(m, n), vm::bits(jac.size() ? jac(0, 0) : 0)));
}
void floats(vm::Rng& r) {
  typedef Eigen::VectorXf V; typedef sm::eigen::NumericalDiffFunctor<V, V, Eigen::MatrixXf> F;
  int m = (int)r.range(1, 4), n = (int)r.range(1, 4);
  Fn f(r, m, n);
  V x(n); for (int i = 0; i < n; ++i) x[i] = (float)r.uniform(-3, 3);
  double eps = std::sqrt((double)std::numeric_limits<float>::epsilon());
  const V x0 = x;
  F functor([&](V y) { observe(x0, y, eps, "float"); V v(m); for (int i = 0; i < m; ++i) v[i] = (float)f.term(i, y); return v; });
  sm::eigen::NumericalDiff<F> nd(functor);
  Eigen::MatrixXf jac = nd.estimateJacobian(x);
  compare(jac, f, x0.cast<double>(), eps, 0.7e-7, "float");
  vm::nontrivial(vm::bits(jac(0, 0)));
}
// A functor whose parameters live on a manifold: the update is the functor's own.
struct Circle {
  typedef double input_scalar; typedef double scalar_t; typedef Eigen::Vector2d value_t; typedef Eigen::Vector2d input_t; typedef Eigen::MatrixXd jacobian_t;
  std::vector<std::pair<int, double>>* log;
  value_t operator()(const input_t& x) { return value_t(std::cos(x[0]) * x[1], std::sin(x[0]) * x[1]); }
  input_t update(const input_t& x, int c, double d) { log->push_back({c, d}); input_t y = x; if (c == 0) y[0] = std::remainder(x[0] + d, 6.283185307179586); else y[1] *= std::exp(d); return y; }
};
void manifold(vm::Rng& r) {
  std::vector<std::pair<int, double>> log;
  Eigen::Vector2d x(r.uniform(-3.1415, 3.1415), std::exp(r.uniform(-2, 2)));
  Circle c; c.log = &log;
  double eps = 1e-6;
  Eigen::MatrixXd j = sm::eigen::NumericalDiff<Circle>(c, eps).estimateJacobian(x);
  Eigen::Matrix2d w;
  w << -std::sin(x[0]) * x[1], std::cos(x[0]) * x[1], std::cos(x[0]) * x[1], std::sin(x[0]) * x[1];
  VM_CHECK((j - w).cwiseAbs().maxCoeff() <= 1e-8 * (1 + x[1]) * 10, "jacobian/manifold", j << "\ninstead of\n" << w);
  double sum[2] = {0, 0};
  for (auto& l : log) { if (l.first < 0 || l.first > 1) vm::fail("update-index", "coordinate " + std::to_string(l.first)); else sum[l.first] += l.second; }
  VM_CHECK(log.size() == 4 && sum[0] == 0 && sum[1] == 0, "update-symmetric", log.size() << " updates");
  vm::nontrivial(vm::bits(x[0]));
  vm::event("manifold-jacobians");
}
}
int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case differentiates one random smooth function at one random point; distinct when the dimensions or the first derivative differ.");
  vm::run("double", 6000, [](vm::Rng& r, uint64_t) { switch (r.below(5)) { case 0: fixed<-1, -1>(r); break; case 1: fixed<3, 4>(r); break; case 2: fixed<-1, 3>(r); break; case 3: fixed<2, -1>(r); break; default: fixed<1, 1>(r); } });
  vm::run("float", 2000, [](vm::Rng& r, uint64_t) { floats(r); });
  vm::run("manifold", 2000, [](vm::Rng& r, uint64_t) { manifold(r); });
  return vm::finish();
}
