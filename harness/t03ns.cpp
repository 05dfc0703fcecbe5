// T03: calendar times of nanosecond resolution, which posix_time has with this definition.
#define BOOST_DATE_TIME_POSIX_TIME_STD_CONFIG
#include "vm.hpp"
#include <sm/boost/ptime.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case converts one random calendar time; distinct when the time differs.");
  vm::run("ptime-nanoseconds", 30000, [](vm::Rng& r, uint64_t i) {
    static const char* zones[] = {"UTC", "America/St_Johns", "Asia/Kathmandu", "<-12>12"};  // the conversions know no time zone
    if (i % 500 == 0) { setenv("TZ", zones[i / 500 % 4], 1); tzset(); vm::event("time-zones"); }
    namespace pt = boost::posix_time;
    static const pt::ptime epoch(boost::gregorian::date(1970, 1, 1));
    int64_t ns;
    switch (r.below(4)) {
      case 0: ns = r.range(0, 9000000000000000000ll); break;
      case 1: ns = -r.range(0, 9000000000000000000ll); break;
      case 2: ns = r.range(-9000000000ll, 9000000000ll) * 1000000000 + r.pickl<int64_t>({0, 1, 999, 1000, 999999, 500000000, 999999000, 999999999}); break;
      default: ns = r.range(-3000000000ll, 3000000000ll); break;
    }
    pt::ptime p = epoch + pt::nanoseconds(ns);
    timeval tv = sm::ptimeToTimeval(p);
    // At most a microsecond is lost to the resolution of a timeval, and nothing of a time of whole microseconds.
    __int128 off = ((__int128)tv.tv_sec * 1000000 + tv.tv_usec) * 1000 - ns;
    VM_CHECK(off > -1000 && off < 1000 && (ns % 1000 != 0 || off == 0), "timeval", ns << " ns since 1970 became " << tv.tv_sec << " s + " << tv.tv_usec << " us");
    VM_CHECK(tv.tv_usec >= 0 && tv.tv_usec < 1000000, "timeval-fraction", ns << " ns: " << tv.tv_sec << " s + " << tv.tv_usec << " us");
    vm::nontrivial((uint64_t)ns);
    vm::event("nanosecond-times");
  });
  return vm::finish();
}
