// A virtual time source per thread: while a thread's clock is on, every way the
// code under test can ask for the time answers with that thread's virtual time.
#ifndef VM_VIRTUALCLOCK_HPP
#define VM_VIRTUALCLOCK_HPP
#include <cstdint>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
namespace vclock {
inline bool& on() { static thread_local bool v = false; return v; }
inline int64_t& us() { static thread_local int64_t v = 0; return v; }   // microseconds since the epoch
inline uint64_t& reads() { static thread_local uint64_t v = 0; return v; }
}
extern "C" {
int gettimeofday(struct timeval* tv, void*) noexcept {
  if (vclock::on()) {
    vclock::reads()++;
    int64_t s = vclock::us() / 1000000, r = vclock::us() % 1000000;
    if (r < 0) { r += 1000000; --s; }
    tv->tv_sec = s; tv->tv_usec = r;
    return 0;
  }
  return (int)syscall(SYS_gettimeofday, tv, nullptr);
}
int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (vclock::on() && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME)) {
    vclock::reads()++;
    ts->tv_sec = vclock::us() / 1000000; ts->tv_nsec = vclock::us() % 1000000 * 1000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
}
#endif
