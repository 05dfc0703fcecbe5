// T03: time conversions against integer arithmetic.
#include "vm.hpp"
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/boost/ptime.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>

using namespace sm::timing;
namespace {
int64_t anyTime(vm::Rng& r) {
  switch (r.below(7)) {
    case 0: return (int64_t)r.next();
    case 1: return r.range(-1000, 1000);
    case 2: return r.range(1000000000000000000ll, 2000000000000000000ll);
    case 3: { int64_t v = (int64_t)(r.next() >> r.range(1, 62)); return r.chance(1, 2) ? v : -v; }
    case 4: return r.pickl<int64_t>({0, 1, -1, INT64_MAX, INT64_MIN, INT64_MIN + 1, 999999999, 1000000000, -999999999, -1000000000, -1000000001});
    case 5: return r.range(-9000000000ll, 9000000000ll) * 1000000000ll + r.pickl<int64_t>({0, 1, -1, 999999999, 500000000});
    default: return r.range(-4000000000000ll, 4000000000000ll);
  }
}
int64_t ulpNs(double sec) {  // what one unit in the last place of the seconds is worth
  double a = std::fabs(sec);
  return (int64_t)std::ceil((std::nextafter(a, INFINITY) - a) * 1e9);
}
}
int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case converts one random time through every conversion; distinct when the time differs.");
  vm::run("nanoseconds", 60000, [](vm::Rng& r, uint64_t) {
    NsecTime n = anyTime(r);
    vm::nontrivial((uint64_t)n);
    auto tp = nsecToChrono(n);
    VM_CHECK(std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count() == n, "to-chrono", n << " ns became " << tp.time_since_epoch().count());
    VM_CHECK(chronoToNsec(tp) == n, "chrono-round-trip", n << " ns came back as " << chronoToNsec(tp));
    double s = nsecToSec(n);
    long double exact = (long double)n / 1e9L;
    VM_CHECK(std::fabs((long double)s - exact) <= std::fabs(exact) * 4.5e-16L, "to-seconds", n << " ns is " << s << " s");
    if (std::llabs(n) < 9223372036854000000ll && n != INT64_MIN) {
      NsecTime back = secToNsec(s);
      int64_t tol = std::llabs(n) < (1ll << 51) ? 0 : ulpNs(s) * 2 + 1;
      VM_CHECK(std::llabs(back - n) <= tol, "seconds-round-trip", n << " ns -> " << s << " s -> " << back << " ns");
      NsecTime m = anyTime(r);
      if (n < m) VM_CHECK(nsecToSec(n) <= nsecToSec(m) && nsecToChrono(n) < nsecToChrono(m), "order", n << " and " << m);
      vm::event("round-trips");
    }
    VM_CHECK(isValid(n) == (n != std::numeric_limits<int64_t>::min()), "valid", n << " is said to be " << (isValid(n) ? "valid" : "invalid"));
  });
  vm::run("seconds", 40000, [](vm::Rng& r, uint64_t) {
    double s = r.chance(1, 2) ? r.logmag(-9, 9.9) : r.pickl({0.0, -0.0, 1.0, -1.0, 0.1, 0.3, 1e-9, -1e-9, 0.999999999, -0.999999999, 1.5, 1374316800.25, -1374316800.25});
    NsecTime n = secToNsec(s);
    long double exact = (long double)s * 1e9L;
    // The product may be rounded once (half an ulp); from 2^52 ns on it is an integer and there is nothing more to round.
    const double product = (double)std::fabs(exact);
    const long double halfUlp = (std::nextafter(product, INFINITY) - product) / 2.0L;
    const long double tolerance = (product < 4503599627370496.0 ? 0.5L : 0.0L) + halfUlp * 1.001L;
    VM_CHECK(std::fabs((long double)n - exact) <= tolerance, "to-nanoseconds", s << " s became " << n << " ns");
    VM_CHECK(std::fabs(nsecToSec(n) - s) <= 0.51e-9 + std::fabs(s) * 4e-16, "nanoseconds-round-trip", s << " s -> " << n << " ns -> " << nsecToSec(n) << " s");
    vm::nontrivial(vm::bits(s));
    vm::event("seconds-converted");
  });
  vm::run("markers", 200, [](vm::Rng&, uint64_t) {
    NsecTime inv = getInvalidTime();
    VM_CHECK(inv == std::numeric_limits<NsecTime>::min(), "invalid-marker", inv);
    VM_CHECK(!isValid(inv), "invalid-marker", "the invalid time is valid");
    NsecTime a = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
    NsecTime n = nsecNow();
    NsecTime b = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
    if (a <= b) VM_CHECK(a <= n && n <= b, "now", n << " is not between " << a << " and " << b);
    VM_CHECK(isValid(n), "now", "the current time is invalid");
    vm::event("markers");
  });
  vm::run("ptime", 30000, [](vm::Rng& r, uint64_t i) {
    static const char* zones[] = {"UTC", "America/St_Johns", "Asia/Kathmandu", "<-12>12"};  // the conversions know no time zone
    if (i % 500 == 0) { setenv("TZ", zones[i / 500 % 4], 1); tzset(); vm::event("time-zones"); }
    namespace pt = boost::posix_time;
    static const pt::ptime epoch(boost::gregorian::date(1970, 1, 1));
    int64_t us;
    switch (r.below(4)) {
      case 0: us = r.range(0, 4102444800ll * 1000000); break;
      case 1: us = r.range(0, 250000000000ll) * 1000000 + r.pickl<int64_t>({0, 1, 999999, 500000}); break;   // to the year 9892
      case 2: us = r.range(0, 100) * 1000000 + r.range(0, 999999); break;
      default: us = -r.range(0, 17987443200ll) * 1000000 - r.range(0, 999999); break;                     // from 1400
    }
    pt::ptime p = epoch + pt::microseconds(us);
    timeval tv = sm::ptimeToTimeval(p);
    VM_CHECK((__int128)tv.tv_sec * 1000000 + tv.tv_usec == us, "timeval", us << " us since 1970 became " << tv.tv_sec << " s + " << tv.tv_usec << " us");
    VM_CHECK(tv.tv_usec >= 0 && tv.tv_usec < 1000000, "timeval-fraction", us << " us: " << tv.tv_sec << " s + " << tv.tv_usec << " us");
    vm::nontrivial((uint64_t)us);
    vm::event("calendar-times");
  });
  return vm::finish();
}
