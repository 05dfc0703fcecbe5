// E04: the test assertions for matrices fail exactly when the matrices differ.
#include "vm.hpp"
#include <gtest/gtest.h>
#include <gtest/gtest-spi.h>
#include <Eigen/Eigenvalues>
#include <sm/eigen/gtest.hpp>

namespace {
typedef Eigen::MatrixXd M;
struct Results {
  testing::TestPartResultArray a;
  int fatal = 0, nonfatal = 0; std::string text;
  template <class F> void run(F f) {
    { testing::ScopedFakeTestPartResultReporter r(testing::ScopedFakeTestPartResultReporter::INTERCEPT_ONLY_CURRENT_THREAD, &a); f(); }
    for (int i = 0; i < a.size(); ++i) { fatal += a.GetTestPartResult(i).fatally_failed(); nonfatal += a.GetTestPartResult(i).nonfatally_failed(); text += a.GetTestPartResult(i).message(); text += '\n'; }
  }
};
double value(vm::Rng& r) { return r.chance(1, 12) ? r.pickl<double>({0.0, -0.0, NAN, INFINITY, -INFINITY, 1e300, 1e-300}) : r.chance(1, 5) ? (double)r.range(-3, 3) : r.logmag(-6, 6); }
// B is A, or A with something changed: `where` is the first coefficient that was (row by row), or "shape".
struct Pair { M A, B; std::vector<std::pair<int, int>> changed; bool shape; };
Pair make(vm::Rng& r) {
  Pair p;
  int rows = r.chance(1, 8) ? 0 : 1 + (int)r.below(6), cols = r.chance(1, 8) ? 0 : 1 + (int)r.below(6);
  bool wild = r.chance(1, 3);
  p.A.resize(rows, cols);
  for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) p.A(i, j) = wild ? value(r) : r.logmag(-2, 2);
  p.B = p.A; p.shape = false;
  if (r.chance(1, 5)) {
    int nr = std::max(0, rows + (int)r.range(-2, 2)), nc = std::max(0, cols + (int)r.range(-2, 2));
    M B = M::Zero(nr, nc);
    B.topLeftCorner(std::min(rows, nr), std::min(cols, nc)) = p.A.topLeftCorner(std::min(rows, nr), std::min(cols, nc));
    p.B = B;
  } else if (rows * cols > 0) {
    for (int n = r.chance(1, 3) ? 0 : r.chance(2, 3) ? 1 : 3; n > 0; --n) {
      int i = (int)r.below(rows), j = (int)r.below(cols);
      double& b = p.B(i, j);
      switch (r.below(5)) {
        case 0: b = value(r); break;
        case 1: b = -b; break;
        case 2: b += r.logmag(-8, 0); break;
        case 3: b *= 1 + r.logmag(-6, 1); break;
        default: b = std::nextafter(b, r.chance(1, 2) ? 1e308 : -1e308);
      }
    }
  }
  p.shape = p.A.rows() != p.B.rows() || p.A.cols() != p.B.cols();
  return p;
}
enum Verdict { yes, no, either };   // either: left to rounding, or to googletest (two equal infinite values are not near in its older versions)
Verdict nearby(double a, double b, double tol) {   // what EXPECT_NEAR promises
  if (a == b) return std::isinf(a) ? either : yes;
  if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) return no;
  long double d = fabsl((long double)a - b);
  if (fabsl(d - tol) <= 4e-16L * (fabs(a) + fabs(b))) return either;
  return d <= tol ? yes : no;
}
Verdict relative(double a, double b, double percent) {
  double fa = std::fabs(a), fb = std::fabs(b);
  if ((fa < 1e-15 && fb < 1e-15) || (fa == 0 && fb < 1e-6) || (fb == 0 && fa < 1e-6) || a == b) return yes;
  if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) return no;
  long double m = std::max(fa, fb), d = fabsl((long double)a - b) / m;
  if (std::isinf(a - b)) return percent < 90 ? no : either;
  if (fabsl(d - percent * 1e-2L) <= 1e-15L + 4e-16L * percent) return either;
  return d <= percent * 1e-2L ? yes : no;
}
template <class F> Verdict all(const Pair& p, F f, int* firstRow, int* firstCol) {
  if (p.shape) return no;
  Verdict v = yes;
  for (int i = 0; i < p.A.rows(); ++i) for (int j = 0; j < p.A.cols(); ++j) {
    Verdict w = f(p.A(i, j), p.B(i, j));
    if (w == either && v == yes) { v = either; *firstRow = -2; }
    if (w == no && v != no) { if (v == yes) { *firstRow = i; *firstCol = j; } v = no; }
  }
  return v;
}
std::string show(const Pair& p) { std::ostringstream o; o << std::setprecision(17) << "A (" << p.A.rows() << "x" << p.A.cols() << "):\n" << p.A << "\nB (" << p.B.rows() << "x" << p.B.cols() << "):\n" << p.B; return o.str(); }
void judge(const char* name, const Pair& p, Verdict v, int row, int col, const Results& got, bool fatal, const std::string& message, bool position) {
  int n = got.fatal + got.nonfatal;
  if (v == either) { vm::event("borderline"); return; }
  VM_CHECK((n > 0) == (v == no), std::string(v == no ? "accepted/" : "rejected/") + name, show(p) << "\n" << got.text.substr(0, 300));
  VM_CHECK(fatal ? got.nonfatal == 0 && got.fatal <= 1 : got.fatal == 0, std::string("kind/") + name, got.fatal << " fatal and " << got.nonfatal << " other failures");
  if (n && v == no) {
    VM_CHECK(got.text.find(message) != std::string::npos, std::string("message/") + name, "the message of the caller is missing: " << got.text.substr(0, 400));
    if (position) VM_CHECK(got.text.find("somewhere.cpp") != std::string::npos && got.text.find("4242") != std::string::npos, std::string("position/") + name, "the position of the caller is missing: " << got.text.substr(0, 400));
    std::string where = "(" + std::to_string(row) + "," + std::to_string(col) + ")";
    if (row >= 0) VM_CHECK(got.text.find(where) != std::string::npos, std::string("coefficient/") + name, "the first difference at " << where << " is not named: " << got.text.substr(0, 400));
    vm::event("failures-" + std::string(name));
  } else vm::event("successes-" + std::string(name));
}
}

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("an assertion about two matrices fails if and only if the sizes differ or a coefficient does (by more than the tolerance, or is not finite), says where, and reads nothing outside of them");
  sm::source_file_pos here("function_name", "somewhere.cpp", 4242);
  vm::run("compare", 12000, [&](vm::Rng& r, uint64_t) {
    Pair p = make(r);
    const M A = p.A, B = p.B;
    std::string message = "case " + std::to_string(r.below(1000000)) + "!";
    int row = -1, col = -1;
    double tol = r.chance(1, 6) ? 0 : std::fabs(r.logmag(-8, 1)), percent = r.chance(1, 6) ? 0 : std::fabs(r.logmag(-6, 2));
    int how = (int)r.below(4);
    {
      Results g; Verdict v = all(p, [](double a, double b) { return a == b ? yes : no; }, &row, &col);
      g.run([&]() { how == 0 ? sm::eigen::assertEqual(A.block(0, 0, A.rows(), A.cols()), B, here, message) : sm::eigen::assertEqual(A, B, here, message); });
      judge("assertEqual", p, v, row, col, g, true, message, true);
    }
    row = -1;
    Verdict near = all(p, [&](double a, double b) { return nearby(a, b, tol); }, &row, &col);
    {
      Results g;
      g.run([&]() { how == 1 ? sm::eigen::assertNear(A.transpose().transpose(), Eigen::Map<const M>(B.data(), B.rows(), B.cols()), tol, here, message) : sm::eigen::assertNear(A, B, tol, here, message); });
      judge("assertNear", p, near, row, col, g, true, message, true);
    }
    {
      Results g; g.run([&]() { sm::eigen::expectNear(A, B, tol, here, message); });
      judge("expectNear", p, near, row, col, g, false, message, true);
      if (!p.shape && near == no) {   // every difference is reported, not just the first
        int wrong = 0, maybe = 0;
        for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) { Verdict w = nearby(A(i, j), B(i, j), tol); wrong += w == no; maybe += w == either; }
        VM_CHECK(g.nonfatal >= wrong && g.nonfatal <= wrong + maybe, "count/expectNear", wrong << " coefficients differ, " << g.nonfatal << " failures");
      }
    }
    {
      row = -1; Verdict v = all(p, [&](double a, double b) { return relative(a, b, percent); }, &row, &col);
      // the arguments are expressions of the caller, with names of the caller's own
      Results g;
      std::vector<M> As(3, M::Zero(A.rows(), A.cols())), Bs = As; int c = 1 + (int)r.below(2); As[c] = A; Bs[c] = B;
      if (how < 2) g.run([&]() { ASSERT_DOUBLE_MX_EQ(A, B, percent, message); });
      else g.run([&]() { int r = c; ASSERT_DOUBLE_MX_EQ(As[r], Bs[c], percent, message); });
      judge(how < 2 ? "ASSERT_DOUBLE_MX_EQ" : "ASSERT_DOUBLE_MX_EQ-names", p, v, row, col, g, true, message, false);
    }
    {
      bool finite = true;
      for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) if (finite && !std::isfinite(A(i, j))) { finite = false; row = i; col = j; }
      Results g; g.run([&]() { sm::eigen::assertFinite(A, here, message); });
      Pair q = p; q.shape = false;
      judge("assertFinite", q, finite ? yes : no, row, col, g, true, message, true);
    }
    auto same = [](const M& x, const M& y) { return x.size() == 0 || std::memcmp(x.data(), y.data(), x.size() * 8) == 0; };
    VM_CHECK(same(A, p.A) && same(B, p.B), "changed", "an assertion changed its arguments");
    vm::nontrivial(vm::combine(vm::hashStr(show(p)), vm::bits(tol)));
  });
  vm::run("relative", 40000, [&](vm::Rng& r, uint64_t) {
    double a = value(r), b = r.chance(1, 3) ? value(r) : r.chance(1, 4) ? a : a * (1 + r.logmag(-8, 1)), percent = r.chance(1, 6) ? 0 : std::fabs(r.logmag(-6, 2)), error = -1;
    bool got = sm::eigen::compareRelative(a, b, percent, &error), plain = sm::eigen::compareRelative(a, b, percent), swapped = sm::eigen::compareRelative(b, a, percent);
    Verdict v = relative(a, b, percent);
    if (v != either) VM_CHECK(got == (v == yes), std::string(got ? "relative-accepted" : "relative-rejected") + (std::isfinite(a) && std::isfinite(b) ? "" : "/not-finite"), a << " and " << b << " within " << percent << " %: " << got);
    VM_CHECK(got == plain && got == swapped, "relative-symmetric", a << " and " << b << " within " << percent << " %: " << got << plain << swapped);
    if (!got && std::isfinite(a) && std::isfinite(b) && std::isfinite(a - b)) {
      double want = 100 * std::fabs(a - b) / std::max(std::fabs(a), std::fabs(b));
      VM_CHECK(std::fabs(error - want) <= 1e-12 * want, "relative-error", a << " and " << b << ": the error is " << want << " %, not " << error);
    }
    vm::nontrivial(vm::combine(vm::bits(a), vm::bits(b)));
    vm::event(got ? "within" : "outside");
  });
  vm::run("covariance", 300, [&](vm::Rng& r, uint64_t) {
    int n = 1 + (int)r.below(8); unsigned seed = (unsigned)r.next();
    std::srand(seed); M C = sm::eigen::randomCovarianceXd(n), D = sm::eigen::randomCovarianceXd(n);
    std::srand(seed); M C2 = sm::eigen::randomCovarianceXd(n);
    std::srand(seed); Eigen::Matrix<double, 6, 6> F = sm::eigen::randomCovariance<6>();
    VM_CHECK(C.rows() == n && C.cols() == n && C == C2 && C != D, "covariance-seed", "does not follow the seed");
    for (const M& X : {C, D, M(F)}) {
      VM_CHECK((X - X.transpose()).cwiseAbs().maxCoeff() <= 1e-14 * X.cwiseAbs().maxCoeff(), "covariance-symmetric", X);
      VM_CHECK(Eigen::SelfAdjointEigenSolver<M>(X).eigenvalues().minCoeff() > 1, "covariance-positive", "not well conditioned:\n" << X);
    }
    vm::nontrivial(vm::bits(C(0, 0)));
    vm::event("covariances");
  });
  return vm::finish();
}
