// Runtime-monitor support shared by all monitors in this directory.
//
// A monitor is a set of named workloads; a workload is a sequence of cases, each
// with its own random generator that depends only on (seed, workload, index), so
// every case can be replayed on its own. Oracles report with vm::fail(key, text);
// what was observed is counted with vm::event / vm::nontrivial / vm::sample and
// ends up in the evidence file.
#ifndef VM_HPP
#define VM_HPP
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iomanip>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
extern "C" void __asan_handle_no_return() __attribute__((weak));
namespace vm {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h);
}
inline uint64_t combine(uint64_t a, uint64_t b) { return mix(a * 0x9e3779b97f4a7c15ull + b); }
inline uint64_t bits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  // [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  double normal() {
    double u = unit() + 1e-300, v = unit();
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  // magnitude log-uniform in [10^lo, 10^hi], random sign
  double logmag(double lo, double hi) {
    double m = std::pow(10.0, uniform(lo, hi));
    return (next() & 1) ? m : -m;
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <class T> T pickl(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  // Any double: specials, random bit patterns, ordinary values.
  double anyDouble(bool finite) {
    switch (below(8)) {
      case 0: return pickl({0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-300, -1e300});
      case 1: if (finite) return logmag(-5, 5); else return pickl({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()});
      case 2: return pickl({std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::min(), std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::epsilon()});
      case 3: { uint64_t u = next(); double d; std::memcpy(&d, &u, 8); if (finite && !std::isfinite(d)) return 3.25; return d; }
      case 4: return (double)range(-1000, 1000);
      case 5: return logmag(-20, 20);
      default: return uniform(-100, 100);
    }
  }
};

struct Failure { std::string key, workload, detail; uint64_t index; int count; };

struct State {
  uint64_t seed = 1;
  bool thorough = false;
  double scale = 1.0;
  std::string out, scratch, onlyWorkload;
  bool haveOnly = false;
  uint64_t onlyIndex = 0;
  double hangSeconds = 60;
  double budget = 1e9;
  std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
  std::mutex mu;
  std::atomic<bool> probing{false};  // what is counted for the evidence stays as it is
  bool leaks = true;
  std::map<std::string, uint64_t> events;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, Failure> failures;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> cases;
  std::atomic<uint64_t> progress{0};
  std::atomic<bool> done{false};
  std::string workload;
  uint64_t index = 0;
  char* status = nullptr;
  std::string rule;
};
inline State& st() { static State* s = new State; return *s; }

inline double elapsed() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - st().start).count();
}
inline bool thorough() { return st().thorough; }
inline const std::string& scratch() { return st().scratch; }
inline void tick() { st().progress.fetch_add(1, std::memory_order_relaxed); }
inline void event(const std::string& k, uint64_t n = 1) {
  if (st().probing) return;
  std::lock_guard<std::mutex> l(st().mu);
  st().events[k] += n;
}
inline void nontrivial(uint64_t h) {
  if (st().probing) return;
  std::lock_guard<std::mutex> l(st().mu);
  st().distinct.insert(h);
}
inline void sample(const std::string& s) {
  if (st().probing) return;
  std::lock_guard<std::mutex> l(st().mu);
  if (st().samples.size() < 12) st().samples.push_back(st().workload + "[" + std::to_string(st().index) + "] " + s);
}
inline void setRule(const std::string& r) { st().rule = r; }
inline void fail(const std::string& key, const std::string& detail) {
  if (st().probing) return;  // a repetition need not repeat what is done once per process
  std::lock_guard<std::mutex> l(st().mu);
  auto it = st().failures.find(key);
  if (it == st().failures.end()) {
    st().failures[key] = Failure{key, st().workload, detail, st().index, 1};
    std::fprintf(stderr, "FAIL %s (%s[%llu]): %s\n", key.c_str(), st().workload.c_str(), (unsigned long long)st().index, detail.c_str());
  } else {
    it->second.count++;
  }
}

inline std::string esc(const std::string& s) {
  std::ostringstream o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') o << '\\' << c;
    else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o << b; }
    else o << c;
  }
  return o.str();
}

inline void writeResult(bool complete, const std::string& note) {
  State& s = st();
  if (s.out.empty()) return;
  std::string tmp = s.out + ".tmp";
  FILE* f = std::fopen(tmp.c_str(), "w");
  if (!f) return;
  std::fprintf(f, "{\"complete\": %s, \"note\": \"%s\", \"wall_s\": %.3f, \"rule\": \"%s\",\n \"cases\": {", complete ? "true" : "false", esc(note).c_str(), elapsed(), esc(s.rule).c_str());
  const char* sep = "";
  for (auto& c : s.cases) { std::fprintf(f, "%s\"%s\": %llu", sep, esc(c.first).c_str(), (unsigned long long)c.second); sep = ", "; }
  std::fprintf(f, "},\n \"events\": {"); sep = "";
  for (auto& c : s.events) { std::fprintf(f, "%s\"%s\": %llu", sep, esc(c.first).c_str(), (unsigned long long)c.second); sep = ", "; }
  std::fprintf(f, "},\n \"distinct\": %llu,\n \"samples\": [", (unsigned long long)s.distinct.size()); sep = "";
  for (auto& c : s.samples) { std::fprintf(f, "%s\"%s\"", sep, esc(c.substr(0, 600)).c_str()); sep = ", "; }
  std::fprintf(f, "],\n \"failures\": ["); sep = "";
  for (auto& c : s.failures) {
    std::fprintf(f, "%s{\"key\": \"%s\", \"workload\": \"%s\", \"index\": %llu, \"count\": %d, \"detail\": \"%s\"}", sep, esc(c.second.key).c_str(), esc(c.second.workload).c_str(), (unsigned long long)c.second.index, c.second.count, esc(c.second.detail.substr(0, 4000)).c_str());
    sep = ",\n  ";
  }
  std::fprintf(f, "]}\n");
  std::fclose(f);
  std::rename(tmp.c_str(), s.out.c_str());
}

inline void setStatus(const std::string& w, uint64_t i) {
  if (st().status) std::snprintf(st().status, 256, "%s %llu\n", w.c_str(), (unsigned long long)i);
}

// Run `n` cases of a workload (scaled in the thorough tier by `thoroughFactor`).
// Leaks: what a case acquires (memory, file descriptors, threads) is released when it is over. The same case is run
// again and again (same seed: what is cached or registered once does not grow any more); growth in every one of the
// last repetitions is a leak.
inline int openFiles() { int n = 0; for (int fd = 0; fd < 256; ++fd) n += ::fcntl(fd, F_GETFD) != -1; return n; }
inline int threads() { int n = 0; if (DIR* d = ::opendir("/proc/self/task")) { while (dirent* e = ::readdir(d)) n += e->d_name[0] != '.'; ::closedir(d); } return n; }
inline void leakProbes(bool on) { st().leaks = on; }
inline void probeLeaks(const std::string& workload, uint64_t total, const std::function<void(Rng&, uint64_t)>& body) {
  State& s = st();
  if (!s.leaks || !__sanitizer_get_current_allocated_bytes) return;
  uint64_t cases = s.thorough ? 200 : 30; double from = elapsed(), most = s.thorough ? 60 : 3;
  for (uint64_t n = 0; n < cases && n < total && elapsed() - from < most; ++n) {
    uint64_t i = s.haveOnly ? s.onlyIndex : n;
    { std::lock_guard<std::mutex> l(s.mu); s.workload = workload; s.index = i; }
    setStatus(workload, i);
    bool bytes = true, fds = true, tasks = true; size_t grown = 0;
    for (int k = 0; k < 7 && (bytes || fds || tasks || k < 3); ++k) {
      tick();
      size_t b = __sanitizer_get_current_allocated_bytes(); int f = openFiles(), t = threads();
      s.probing = true;
      { Rng r(combine(combine(s.seed, hashStr(workload)), i)); try { body(r, i); } catch (...) {} }
      s.probing = false;
      if (k < 3) continue;
      size_t a = __sanitizer_get_current_allocated_bytes();
      bytes = bytes && a > b; fds = fds && openFiles() > f; tasks = tasks && threads() > t; grown = a > b ? a - b : 0;
    }
    event("leak-probes");
    if (bytes) fail("leak/memory/" + workload, std::to_string(grown) + " more bytes are allocated after each repetition of this case");
    if (fds) fail("leak/files/" + workload, "more file descriptors are open after each repetition of this case");
    if (tasks) fail("leak/threads/" + workload, "more threads run after each repetition of this case");
    if (s.haveOnly) break;
  }
}
inline void run(const std::string& workload, uint64_t n, const std::function<void(Rng&, uint64_t)>& body, double thoroughFactor = 20) {
  State& s = st();
  if (s.haveOnly && s.onlyWorkload != workload) return;
  uint64_t total = s.thorough ? (uint64_t)(n * thoroughFactor) : n;
  total = (uint64_t)(total * s.scale);
  if (total < 1) total = 1;
  for (uint64_t i = 0; i < total; ++i) {
    if (s.haveOnly) { if (i > 0) break; i = s.onlyIndex; }
    if (elapsed() > s.budget) { event("budget-stop:" + workload); break; }
    { std::lock_guard<std::mutex> l(s.mu); s.workload = workload; s.index = i; s.cases[workload]++; }
    setStatus(workload, i);
    tick();
    Rng r(combine(combine(s.seed, hashStr(workload)), i));
    // lets ASan collect the fake frames that exceptions leave behind; a full fake stack makes every call slow
    if (__asan_handle_no_return) __asan_handle_no_return();
    try {
      body(r, i);
    } catch (const std::exception& e) {
      fail("unexpected-exception/" + workload, std::string("an exception escaped: ") + e.what());
    } catch (...) {
      fail("unexpected-exception/" + workload, "an exception escaped (not a std::exception)");
    }
    if (s.haveOnly) break;
  }
  probeLeaks(workload, total, body);
  tick();
}

inline void init(int argc, char** argv) {
  State& s = st();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") s.seed = std::strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") s.thorough = (val() == "thorough");
    else if (a == "--out") s.out = val();
    else if (a == "--scratch") s.scratch = val();
    else if (a == "--budget") s.budget = std::atof(val().c_str());
    else if (a == "--hang") s.hangSeconds = std::atof(val().c_str());
    else if (a == "--scale") s.scale = std::atof(val().c_str());
    else if (a == "--case") { s.haveOnly = true; s.onlyWorkload = val(); s.onlyIndex = std::strtoull(val().c_str(), 0, 10); }
  }
  if (s.scratch.empty()) s.scratch = ".";
  if (!s.out.empty()) {
    int fd = ::open((s.out + ".status").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ::ftruncate(fd, 256) == 0) {
      void* p = ::mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) s.status = static_cast<char*>(p);
    }
    if (fd >= 0) ::close(fd);
  }
  std::thread([]() {
    State& s = st();
    uint64_t last = s.progress.load();
    double since = elapsed();
    while (!s.done.load()) {
      ::usleep(200000);
      uint64_t p = s.progress.load();
      double now = elapsed();
      if (p != last) { last = p; since = now; }
      else if (now - since > s.hangSeconds) {
        std::ostringstream o;
        o << "no progress for " << (now - since) << " s (the call under test does not return)";
        if (s.mu.try_lock()) s.mu.unlock(); else ::_exit(4);
        fail("hang/" + s.workload, o.str());
        writeResult(false, "hang");
        ::_exit(4);
      }
    }
  }).detach();
}

inline int finish() {
  State& s = st();
  s.done = true;
  setStatus("finished", 0);
  writeResult(true, "");
  std::fflush(nullptr);
  ::_exit(s.failures.empty() ? 0 : 3);
}

template <class T> inline std::string str(const T& v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }

}  // namespace vm

// VM_CHECK(cond, key, a << b << ...)
#define VM_CHECK(cond, key, msg)                                   \
  do {                                                             \
    if (!(cond)) {                                                 \
      std::ostringstream vm_o_;                                    \
      vm_o_ << std::setprecision(17) << msg;                       \
      ::vm::fail(key, vm_o_.str());                                \
    }                                                              \
  } while (0)

#endif
