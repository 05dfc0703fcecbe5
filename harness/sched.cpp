#include "sched.hpp"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

namespace {
std::atomic<uint64_t> g_seed{1}, g_points{0}, g_pert{0}, g_sig{0};
std::atomic<unsigned> g_intensity{0}, g_max{200}, g_epoch{0}, g_tid{0};
struct Local { uint64_t s = 0; unsigned epoch = ~0u; unsigned id = 0; };
thread_local Local t_l;
inline uint64_t mix(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ (x >> 31);
}
void point_(unsigned kind) {
  unsigned in = g_intensity.load(std::memory_order_relaxed);
  if (!in) return;
  Local& l = t_l;
  unsigned e = g_epoch.load(std::memory_order_relaxed);
  if (l.epoch != e) {
    l.epoch = e;
    l.id = g_tid.fetch_add(1, std::memory_order_relaxed);
    l.s = g_seed.load(std::memory_order_relaxed) + 0x9e3779b97f4a7c15ull * (l.id + 1);
  }
  uint64_t n = g_points.fetch_add(1, std::memory_order_relaxed);
  (void)n;
  // order-sensitive, approximate (relaxed) signature of the interleaving
  uint64_t old = g_sig.load(std::memory_order_relaxed);
  g_sig.store(mix(old * 31 + l.id * 7 + kind + 1), std::memory_order_relaxed);
  l.s += 0x9e3779b97f4a7c15ull;
  uint64_t r = mix(l.s);
  if (r % in) return;
  g_pert.fetch_add(1, std::memory_order_relaxed);
  r >>= 20;
  if (r % 3 == 0) { sched_yield(); return; }
  unsigned us = (r >> 4) % (g_max.load(std::memory_order_relaxed) + 1);
  if ((r & 12) == 0) us *= 8;
  timespec ts{0, (long)us * 1000};
  nanosleep(&ts, nullptr);
}
}  // namespace

namespace vm_sched {
void configure(uint64_t seed, unsigned intensity, unsigned maxUs) {
  g_seed = seed; g_max = maxUs; g_tid = 0; g_epoch++; g_sig = 0; g_intensity = intensity;
}
void off() { g_intensity = 0; }
void point() { point_(9); }
uint64_t points() { return g_points; }
uint64_t perturbed() { return g_pert; }
uint64_t signature() { return g_sig; }
}

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { point_(0); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); point_(1); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { point_(2); return __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { point_(3); return __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { point_(4); return __real_pthread_cond_broadcast(c); }
}
