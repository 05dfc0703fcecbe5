// R01: ranges, reproducibility and distribution of the random numbers.
#include "vm.hpp"
#include <sm/random.hpp>
#include <sm/eigen/random.hpp>
#include <algorithm>

namespace rnd = sm::random;
namespace {
struct Draw { int kind; double a, b; int i, j; };
double take(const Draw& d) {
  switch (d.kind) {
    case 0: return rnd::normal();
    case 1: return rnd::randn();
    case 2: return rnd::uniform();
    case 3: return rnd::rand();
    case 4: return rnd::randLU(d.a, d.b);
    case 5: return rnd::randLUi(d.i, d.j);
    default: { Eigen::VectorXd v = sm::eigen::randn((unsigned)d.i); return v.size() ? v.sum() + v.size() : 0; }
  }
}
Draw gen(vm::Rng& r) {
  Draw d{(int)r.below(7), 0, 0, 0, 0};
  d.a = r.anyDouble(true); d.b = d.a + std::fabs(r.logmag(-3, 3));
  if (d.kind == 6) d.i = (int)r.below(6); else { d.i = (int)r.range(-50, 50); d.j = d.i + 1 + (int)r.below(60); }
  return d;
}
double phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
template <class F> double ks(std::vector<double> v, F cdf) {
  std::sort(v.begin(), v.end());
  double d = 0; size_t n = v.size();
  for (size_t i = 0; i < n; ++i) { double c = cdf(v[i]); d = std::max(d, std::max(std::fabs(c - (double)i / n), std::fabs(c - (double)(i + 1) / n))); }
  return d * std::sqrt((double)n);
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case is an interval (tiny, huge, crossing zero, a few representable numbers wide), a mixed sequence of draws under a seed, or a sample of 40000 draws compared with its distribution; distinct by interval / seed.");
  vm::run("range", 6000, [](vm::Rng& r, uint64_t) {
    rnd::seed(r.next());
    double a, b;
    switch (r.below(5)) {
      case 0: a = r.logmag(-10, 16); b = a; { int k = (int)r.range(1, 4); while (k--) b = std::nextafter(b, 1e300); } break;  // a handful of numbers
      case 1: a = r.logmag(0, 17); b = a + r.pickl({1.0, 2.0, 3.0, 0.1}); break;
      case 2: a = -std::fabs(r.logmag(-300, 300)); b = std::fabs(r.logmag(-300, 300)); break;
      case 3: a = 0; b = std::fabs(r.logmag(-300, 300)); break;
      default: a = r.uniform(-10, 10); b = a + r.uniform(0, 10); break;
    }
    for (int k = 0; k < 40; ++k) {
      double x = rnd::randLU(a, b);
      if (a < b) VM_CHECK(x >= a && x < b, "uniform-range", "a draw from [" << a << ", " << b << ") gave " << x);
    }
    int i, j;
    switch (r.below(4)) {
      case 0: i = std::numeric_limits<int>::min(); j = std::numeric_limits<int>::max(); break;
      case 1: i = (int)r.next(); j = (int)r.next(); if (i > j) std::swap(i, j); if (i == j) j = i < 0 ? i + 1 : i, i = j - 1; break;
      case 2: i = (int)r.range(-5, 5); j = i + 1; break;
      default: i = (int)r.range(-1000, 1000); j = i + (int)r.range(1, 300); break;
    }
    for (int k = 0; k < 40; ++k) {
      int x = rnd::randLUi(i, j);
      VM_CHECK(x >= i && x < j, "integer-range", "a draw from [" << i << ", " << j << ") gave " << x);
      double u = rnd::uniform(), v = rnd::rand();
      VM_CHECK(u >= 0 && u < 1 && v >= 0 && v < 1, "unit-range", "a unit draw gave " << u << " / " << v);
      double n = rnd::normal(), m = rnd::randn();
      VM_CHECK(std::isfinite(n) && std::isfinite(m) && std::fabs(n) < 12 && std::fabs(m) < 12, "normal-range", "a normal draw gave " << n << " / " << m);
    }
    vm::event("draws", 240);
    vm::nontrivial(vm::combine(vm::bits(a), vm::combine(vm::bits(b), vm::combine(i, j))));
  });
  vm::run("reproducible", 600, [](vm::Rng& r, uint64_t) {
    uint64_t seed = r.chance(1, 4) ? r.below(5) : (uint32_t)r.next(), other;
    switch (r.below(6)) {  // seeds that a sloppy reduction would identify
      case 0: other = (uint32_t)-seed; break;
      case 1: other = (uint32_t)~seed; break;
      case 2: other = seed ^ (1u << r.below(32)); break;
      case 3: other = (uint32_t)(seed << 16 | (uint32_t)seed >> 16); break;
      default: other = (uint32_t)(seed + 1 + r.below(1000));
    }
    if (other == (uint32_t)seed) other = (uint32_t)(seed + 1);
    std::vector<Draw> ds;
    int n = (int)r.range(1, 60);
    for (int i = 0; i < n; ++i) ds.push_back(gen(r));
    for (uint64_t k = r.below(7); k > 0; --k) take(gen(r));  // whatever state came before, e.g. half a pair of normals
    rnd::seed(seed);
    std::vector<double> a, b;
    for (auto& d : ds) a.push_back(take(d));
    for (uint64_t k = r.below(7); k > 0; --k) take(gen(r));
    rnd::seed(seed);
    for (auto& d : ds) b.push_back(take(d));
    for (int i = 0; i < n; ++i) VM_CHECK(vm::bits(a[i]) == vm::bits(b[i]), "not-reproducible", "draw " << i << " (kind " << ds[i].kind << ") after seeding with " << seed << " gave " << a[i] << " and then " << b[i]);
    std::vector<double> c, d;
    rnd::seed(seed); for (int i = 0; i < 20; ++i) c.push_back(rnd::uniform());
    for (int i = 0; i < 21; ++i) c.push_back(rnd::normal());
    rnd::seed(other); for (int i = 0; i < 20; ++i) d.push_back(rnd::uniform());
    for (int i = 0; i < 21; ++i) d.push_back(rnd::normal());
    int same = 0; for (int i = 0; i < 41; ++i) same += c[i] == d[i];
    VM_CHECK(same <= 3, "seed-ignored", "seeds " << seed << " and " << other << " share " << same << " of 41 draws");
    std::set<double> u(c.begin(), c.end());
    VM_CHECK(u.size() >= 40, "constant-sequence", "only " << u.size() << " distinct values in 41 draws");
    vm::nontrivial(seed);
  });
  vm::run("distribution", 12, [](vm::Rng& r, uint64_t) {
    uint64_t seed = r.next();
    rnd::seed(seed);
    const int N = 40000;
    std::vector<double> u, n, m, lu, v2;
    double a = r.uniform(-100, 100), w = r.uniform(0.1, 50);
    int k = (int)r.range(2, 40), lo = (int)r.range(-100, 100);
    std::vector<int> hist(k);
    for (int i = 0; i < N; ++i) {
      u.push_back(rnd::uniform()); n.push_back(rnd::normal()); m.push_back(rnd::randn()); lu.push_back((rnd::randLU(a, a + w) - a) / w);
      v2.push_back(rnd::rand()); int x = rnd::randLUi(lo, lo + k); if (x >= lo && x < lo + k) hist[x - lo]++;
    }
    auto unit = [](double x) { return std::min(1.0, std::max(0.0, x)); };
    // 3.3 is exceeded with probability below 1e-9
    VM_CHECK(ks(u, unit) < 3.3 && ks(v2, unit) < 3.3, "uniform-distribution", "Kolmogorov-Smirnov " << ks(u, unit) << ", " << ks(v2, unit));
    VM_CHECK(ks(lu, unit) < 3.3, "uniform-distribution", "on an interval: Kolmogorov-Smirnov " << ks(lu, unit));
    VM_CHECK(ks(n, phi) < 3.3 && ks(m, phi) < 3.3, "normal-distribution", "Kolmogorov-Smirnov " << ks(n, phi) << ", " << ks(m, phi));
    auto var = [](const std::vector<double>& v) { double s = 0, q = 0; for (double x : v) { s += x; q += x * x; } s /= v.size(); return q / v.size() - s * s; };
    auto corr = [&](const std::vector<double>& x, const std::vector<double>& y, int lag) { double mx = 0, my = 0, c = 0; for (int i = 0; i < N; ++i) { mx += x[i]; my += y[i]; } mx /= N; my /= N; for (int i = lag; i < N; ++i) c += (x[i] - mx) * (y[i - lag] - my); return c / N / std::sqrt(var(x) * var(y)); };
    VM_CHECK(std::fabs(var(n) - 1) < 0.05 && std::fabs(var(m) - 1) < 0.05, "normal-distribution", "variance " << var(n) << ", " << var(m));
    double c = std::max({std::fabs(corr(n, n, 1)), std::fabs(corr(u, u, 1)), std::fabs(corr(n, m, 0)), std::fabs(corr(u, v2, 0)), std::fabs(corr(n, u, 0))});
    VM_CHECK(c < 0.035, "correlated", "a correlation of " << c << " between draws that should be independent");
    double chi = 0, e = (double)N / k;
    for (int h : hist) chi += (h - e) * (h - e) / e;
    double z = (chi - (k - 1)) / std::sqrt(2.0 * (k - 1));
    VM_CHECK(z < 12, "integer-distribution", "integers in [" << lo << ", " << lo + k << "): chi-square " << chi << " for " << k << " values");
    Eigen::VectorXd v = sm::eigen::randn(N);
    VM_CHECK(v.size() == N, "vector-size", v.size());
    std::vector<double> vv(v.data(), v.data() + v.size());
    VM_CHECK(ks(vv, phi) < 3.3, "normal-distribution", "vector: Kolmogorov-Smirnov " << ks(vv, phi));
    vm::event("draws", 7 * N);
    vm::nontrivial(seed);
    vm::sample("seed " + std::to_string(seed) + ": KS uniform " + vm::str(ks(u, unit)) + ", normal " + vm::str(ks(n, phi)) + ", chi2 z " + vm::str(z));
  });
  return vm::finish();
}
