// C03: numeric helpers against exact / 113-bit references.
#include "vm.hpp"
#include <sm/maths.hpp>
#include <sm/numerical_comparisons.hpp>
#include <sm/round.hpp>

int refusedRelease(double, double, double);
int refusedRelease(float, float, float);
namespace {
typedef __float128 Q;
Q qabs(Q x) { return x < 0 ? -x : x; }
Q qmax(Q a, Q b) { return a > b ? a : b; }
template <class T> void comparisons(const char* name) {
  vm::run(std::string("comparisons-") + name, 8000, [&](vm::Rng& r, uint64_t) {
    const double big = sizeof(T) == 4 ? 37 : 300;
    T a, b;
    switch (r.below(5)) {
      case 0: a = (T)r.logmag(-big, big); b = (T)r.logmag(-big, big); break;
      case 1: a = (T)r.logmag(-6, 6); b = a; { int k = r.below(6); while (k--) b = std::nextafter(b, r.chance(1, 2) ? (T)1e30 : (T)-1e30); } break;
      case 2: a = (T)r.pickl({0.0, -0.0, 1.0, -1.0}); b = (T)r.pickl({0.0, -0.0, 1.0, -1.0, 1e-30, -1e-30}); break;
      default: a = (T)r.logmag(-6, 6); b = (T)(a * (1 + r.logmag(-9, 0))); break;
    }
    bool dflt = r.chance(1, 3);
    T eps = dflt ? std::numeric_limits<T>::epsilon() : (T)std::pow(10.0, r.uniform(-9, 0.5));
    bool eq = dflt ? sm::approximatelyEqual(a, b) : sm::approximatelyEqual(a, b, eps);
    bool gt = dflt ? sm::definitelyGreaterThan(a, b) : sm::definitelyGreaterThan(a, b, eps);
    bool lt = dflt ? sm::definitelyLessThan(a, b) : sm::definitelyLessThan(a, b, eps);
    bool eq2 = sm::approximatelyEqual(b, a, eps), gt2 = sm::definitelyGreaterThan(b, a, eps);
    std::ostringstream d; d << std::setprecision(17) << a << " vs " << b << " within " << eps << ": equal " << eq << ", greater " << gt << ", less " << lt;
    VM_CHECK(eq + gt + lt == 1, "comparison-trichotomy", d.str());
    VM_CHECK(eq == eq2 && gt2 == lt, "comparison-symmetry", d.str());
    Q diff = (Q)a - (Q)b, lim = qmax(qabs(a), qabs(b)) * (Q)eps;
    Q slack = (qabs(diff) + lim) * 4 * (Q)std::numeric_limits<T>::epsilon() + (Q)std::numeric_limits<T>::min();
    if (qabs(diff) < lim - slack) VM_CHECK(eq, "comparison-tolerance", d.str());
    if (diff > lim + slack) VM_CHECK(gt, "comparison-tolerance", d.str());
    if (-diff > lim + slack) VM_CHECK(lt, "comparison-tolerance", d.str());
    T bad = (T)r.pickl({0.0, -0.0, -1e-3, -1.0});
    int refused = 0;
    try { sm::approximatelyEqual(a, b, bad); } catch (const std::invalid_argument&) { refused++; }
    try { sm::definitelyGreaterThan(a, b, bad); } catch (const std::invalid_argument&) { refused++; }
    try { sm::definitelyLessThan(a, b, bad); } catch (const std::invalid_argument&) { refused++; }
    VM_CHECK(refused == 3, "comparison-bad-tolerance", "a tolerance of " << bad << " was accepted");
    VM_CHECK(refusedRelease(a, b, bad) == 3, "comparison-bad-tolerance", "a tolerance of " << bad << " was accepted in a release build");
    vm::event(eq ? "equal" : gt ? "greater" : "less");
    vm::nontrivial(vm::combine(vm::bits(a), vm::combine(vm::bits(b), vm::bits(eps))));
  });
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case is a pair of numbers with a tolerance, a coefficient triple, or a number to round, drawn over the whole exponent range with a bias to near-ties, double roots and zeros; distinct by bit pattern.");
  comparisons<double>("double");
  comparisons<float>("float");
  vm::run("quadratic", 15000, [](vm::Rng& r, uint64_t) {
    double a, b, c;
    double e = r.chance(1, 2) ? 3 : 60;
    switch (r.below(6)) {
      case 0: a = r.logmag(-e, e); b = r.logmag(-e, e); c = r.logmag(-e, e); break;
      case 1: { double x = r.logmag(-4, 4), y = r.chance(1, 3) ? x : r.logmag(-4, 4); a = r.logmag(-4, 4); b = -a * (x + y); c = a * x * y; break; }
      case 2: { int64_t x = r.range(-50, 50), y = r.range(-50, 50); a = r.pickl({1, -1, 2, 7}); b = -a * (x + y); c = a * x * y; break; }
      case 3: a = r.logmag(-3, 3); b = r.chance(1, 2) ? r.pickl({0.0, -0.0}) : r.logmag(-3, 3); c = r.chance(1, 2) ? r.pickl({0.0, -0.0}) : r.logmag(-3, 3); break;
      case 4: a = r.logmag(-3, 3); b = r.logmag(3, 9); c = r.logmag(-9, 3); break;   // cancellation
      default: { double x = r.logmag(-2, 2); a = r.logmag(-2, 2); b = -2 * a * x; c = a * x * x * (1 + r.logmag(-16, -12)); break; }  // nearly double
    }
    Q disc = (Q)b * b - (Q)4 * a * c, scale = (Q)b * b + qabs((Q)4 * a * c);
    std::ostringstream d; d << std::setprecision(17) << a << " x^2 + " << b << " x + " << c;
    std::pair<double, double> x;
    bool threw = false;
    try { x = sm::solveQuadratic(a, b, c); } catch (const std::runtime_error&) { threw = true; }
    const Q eps = 2.3e-16;
    if (disc > 4 * eps * scale) VM_CHECK(!threw, "quadratic-refused", d.str() << " has real roots and was refused");
    if (disc < -4 * eps * scale) VM_CHECK(threw, "quadratic-complex-accepted", d.str() << " has no real root; got " << x.first << ", " << x.second);
    if (scale == 0) VM_CHECK(!threw, "quadratic-refused", d.str());
    if (threw) { vm::event("no-real-roots"); return; }
    d << " gave " << x.first << ", " << x.second;
    // the two roots reproduce the coefficients (Vieta), to rounding
    Q s = (Q)x.first + x.second, p = (Q)x.first * x.second;
    Q sw = -(Q)b / a, pw = (Q)c / a;
    Q st = qabs(sw) + (Q)std::sqrt((double)qabs(pw));
    VM_CHECK(std::isfinite(x.first) && std::isfinite(x.second), "quadratic-not-finite", d.str());
    VM_CHECK(qabs(s - sw) <= 40 * eps * st + (Q)1e-290, "quadratic-sum", d.str() << ": the sum of the roots is off by " << (double)(s - sw));
    VM_CHECK(qabs(p - pw) <= 40 * eps * qabs(pw) + (Q)1e-290, "quadratic-product", d.str() << ": the product of the roots is off by " << (double)(p - pw));
    vm::event("real-roots");
    vm::nontrivial(vm::combine(vm::bits(a), vm::combine(vm::bits(b), vm::bits(c))));
    if (r.chance(1, 3000)) vm::sample(d.str());
  });
  vm::run("round", 15000, [](vm::Rng& r, uint64_t) {
    double x;
    switch (r.below(5)) {
      case 0: x = r.pickl({0.0, 0.5, -0.5, 0.49999999999999994, -0.49999999999999994, 1.5, 2.5, -1.5, -2.5, 4503599627370497.0, -4503599627370497.0, 9007199254740991.0, 4503599627370495.5}); break;
      case 1: x = (double)r.range(-100000, 100000) + 0.5; break;
      case 2: x = std::nextafter((double)r.range(-100000, 100000) + 0.5, r.chance(1, 2) ? 1e9 : -1e9); break;
      case 3: x = (double)(int64_t)(r.next() >> r.pickl({1, 2, 10, 12, 30})) * (r.chance(1, 2) ? 1 : -1) + r.pickl({0.0, 0.25, 0.5}); break;
      default: x = r.logmag(-10, 15); break;
    }
    Q q = x, fl = (Q)(__int128)q;             // towards zero; |x| < 2^64
    Q frac = qabs(q - fl);
    Q want = fl + (frac >= (Q)0.5 ? (q < 0 ? -1 : 1) : 0);
    VM_CHECK((Q)sm::round(x) == want, "round-double", "round(" << x << ") = " << sm::round(x));
    if (qabs(want) < (Q)2147483647) VM_CHECK((Q)sm::rint(x) == want, "rint-double", "rint(" << x << ") = " << sm::rint(x));
    if (qabs(want) < (Q)9.2e18) VM_CHECK((Q)(double)sm::lrint(x) == want, "lrint-double", "lrint(" << x << ") = " << sm::lrint(x));
    float f = (float)x;
    Q qf = f, ff = (Q)(__int128)qf;
    Q fr = qabs(qf - ff), wf = ff + (fr >= (Q)0.5 ? (qf < 0 ? -1 : 1) : 0);
    VM_CHECK((Q)sm::round(f) == wf, "round-float", "round(" << f << "f) = " << sm::round(f));
    if (qabs(wf) < (Q)2147483000) VM_CHECK((Q)sm::rint(f) == wf, "rint-float", "rint(" << f << "f) = " << sm::rint(f));
    if (qabs(wf) < (Q)9.2e18) VM_CHECK((Q)(float)sm::lrint(f) == wf, "lrint-float", "lrint(" << f << "f) = " << sm::lrint(f));
    VM_CHECK(sm::sgn(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "sgn", "sgn(" << x << ")");
    int k = (int)r.range(-3, 3);
    VM_CHECK(sm::sgn(k) == (k > 0) - (k < 0), "sgn", "sgn(" << k << ")");
    vm::nontrivial(vm::bits(x));
  });
  return vm::finish();
}
