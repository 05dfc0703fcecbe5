// T01: timer statistics against a shadow model on a virtual clock.
#include "vm.hpp"
#include "virtualclock.hpp"
#include <sm/timing/Timer.hpp>
#include <algorithm>
#include <deque>
#include <memory>

using sm::timing::Timer;
using sm::timing::Timing;
namespace {
typedef std::map<std::string, std::vector<int64_t>> Model;   // microseconds, since the last reset
Model g_model;
std::map<std::string, long double> g_absHistory;             // for the error bound of running sums

bool near(double a, long double b, long double tol) { return a == (double)b || std::fabs((long double)a - b) <= tol; }

void checkStats(const std::string& n, bool byHandle) {
  const auto& v = g_model[n];
  size_t h = Timing::getHandle(n);
#define Q(f) (byHandle ? Timing::f(h) : Timing::f(n))
  VM_CHECK(Q(getNumSamples) == v.size(), "num-samples", "timer " << n << ": " << Q(getNumSamples) << " samples reported, " << v.size() << " completed");
  if (v.empty()) { vm::event("queries-of-empty-timers"); return; }
  __int128 sum = 0;
  int64_t mn = v[0], mx = v[0];
  for (int64_t x : v) { sum += x; mn = std::min(mn, x); mx = std::max(mx, x); }
  long double total = (long double)sum * 1e-6L, mean = total / v.size(), var = 0;
  for (int64_t x : v) { long double d = x * 1e-6L - mean; var += d * d; }
  var /= v.size();
  long double eps = 1e-12L * v.size();
  VM_CHECK(near(Q(getTotalSeconds), total, total * eps + 1e-15L), "total", "timer " << n << ": total " << Q(getTotalSeconds) << " for " << (double)total);
  VM_CHECK(near(Q(getMeanSeconds), mean, mean * eps + 1e-15L), "mean", "timer " << n << ": mean " << Q(getMeanSeconds) << " for " << (double)mean << " of " << v.size());
  VM_CHECK(near(Q(getMinSeconds), mn * 1e-6L, mn * 1e-20L), "min", "timer " << n << ": min " << Q(getMinSeconds) << " for " << mn << " us");
  VM_CHECK(near(Q(getMaxSeconds), mx * 1e-6L, mx * 1e-20L), "max", "timer " << n << ": max " << Q(getMaxSeconds) << " for " << mx << " us");
  long double span = (mx - mn) * 1e-6L;
  double qv = Q(getVarianceSeconds);
  VM_CHECK(qv >= 0, "variance-negative", "timer " << n << ": variance " << qv);
  VM_CHECK(near(qv, var, 1e-9L * (var + span * span) + std::sqrt(var) * mean * v.size() * 2e-15L + 1e-26L + mean * mean * 1e-28L), "variance",
           "timer " << n << ": variance " << qv << " for " << (double)var << " of " << v.size() << " samples, mean " << (double)mean);
  __int128 w = 0;
  size_t k = std::min<size_t>(50, v.size());
  for (size_t i = v.size() - k; i < v.size(); ++i) w += v[i];
  if (w > 0) {
    long double m = (long double)w * 1e-6L / k;
    double hz = Q(getHz);
    VM_CHECK(near(1.0 / hz, m, 1e-12L * m + 1e-15L * (1 + total)), "rate", "timer " << n << ": rate " << hz << " for mean " << (double)m << " of the last " << k << " samples");
  }
#undef Q
  vm::event("statistics-compared");
  vm::nontrivial(vm::combine(vm::combine(v.size(), (uint64_t)sum), (uint64_t)mx * 31 + mn));
}

double hms(const std::string& s, bool* ok) {
  int h, m, n = -1; double sec;
  *ok = std::sscanf(s.c_str(), "%d:%d:%lf%n", &h, &m, &sec, &n) == 3 && n == (int)s.size() && m >= 0 && m < 60 && sec >= 0 && sec <= 60 && h >= 0;
  return h * 3600.0 + m * 60.0 + sec;
}

void checkTable(const std::string& text, int sort) {
  std::istringstream in(text);
  std::string line;
  std::set<std::string> seen;
  size_t widest = 0;
  for (auto& m : g_model) widest = std::max(widest, m.first.size());
  std::getline(in, line);
  VM_CHECK(line == "SM Timing", "table-title", line);
  std::getline(in, line);
  std::vector<double> keys;
  while (std::getline(in, line)) {
    size_t tab = line.find('\t');
    if (tab == std::string::npos) { vm::fail("table-row", "row without columns: " + line); continue; }
    std::string name = line.substr(0, tab);
    VM_CHECK(name.size() == widest, "table-alignment", "the name column is " << name.size() << " wide, the widest name " << widest);
    std::string trimmed = name.substr(0, name.find_last_not_of(' ') + 1);
    auto it = g_model.find(trimmed);
    if (it == g_model.end()) { vm::fail("table-name", "row for an unknown timer: '" + trimmed + "'"); continue; }
    VM_CHECK(seen.insert(trimmed).second, "table-duplicate", "two rows for " << trimmed);
    const auto& v = it->second;
    unsigned long count = 0; char a[64] = "", b[64] = "", c[64] = "", d[64] = "", e[64] = "";
    int fields = std::sscanf(line.c_str() + tab, " %lu %63[0-9:.] (%63[0-9:.] +- %63[0-9:.]) [%63[0-9:.],%63[0-9:.]]", &count, a, b, c, d, e);
    VM_CHECK(count == v.size(), "table-count", line << " for " << v.size() << " samples");
    if (v.empty()) { VM_CHECK(fields == 1, "table-row", "statistics of a timer without samples: " << line); continue; }
    if (fields != 6) { vm::fail("table-row", "unreadable row: " + line); continue; }
    __int128 sum = 0; int64_t mn = v[0], mx = v[0];
    for (int64_t x : v) { sum += x; mn = std::min(mn, x); mx = std::max(mx, x); }
    double total = (double)((long double)sum * 1e-6L), mean = total / v.size(), var = 0;
    for (int64_t x : v) var += (x * 1e-6 - mean) * (x * 1e-6 - mean);
    double sd = std::sqrt(var / v.size());
    double want[5] = {total, mean, sd, mn * 1e-6, mx * 1e-6};
    const char* got[5] = {a, b, c, d, e};
    const char* what[5] = {"total", "mean", "deviation", "min", "max"};
    for (int i = 0; i < 5; ++i) {
      bool ok; double g = hms(got[i], &ok);
      VM_CHECK(ok && std::fabs(g - want[i]) <= 1e-6 + 1e-9 * want[i] + (i == 2 ? 1e-6 * mean + 1e-7 * (mx - mn) * 1e-6 : 0), std::string("table-") + what[i],
               "timer " << trimmed << " shows " << got[i] << " for " << want[i] << " s in: " << line);
    }
    switch (sort) {
      case sm::timing::SORT_BY_TOTAL: keys.push_back(total); break;
      case sm::timing::SORT_BY_MEAN: keys.push_back(mean); break;
      case sm::timing::SORT_BY_STD: keys.push_back(sd); break;
      case sm::timing::SORT_BY_MIN: keys.push_back(mn * 1e-6); break;
      case sm::timing::SORT_BY_MAX: keys.push_back(mx * 1e-6); break;
      case sm::timing::SORT_BY_NUM_SAMPLES: keys.push_back(v.size()); break;
    }
  }
  VM_CHECK(seen.size() == g_model.size(), "table-missing", seen.size() << " rows for " << g_model.size() << " timers");
  for (size_t i = 1; i < keys.size(); ++i)
    VM_CHECK(keys[i] <= keys[i - 1] * (1 + 1e-9) + 1e-6, "table-order", "sort " << sort << ": " << keys[i - 1] << " before " << keys[i]);
  vm::event("tables-checked");
}

template <class F> void mustThrow(const char* what, F f) {
  bool thrown = false;
  try { f(); } catch (const sm::timing::TimerException&) { thrown = true; }
  VM_CHECK(thrown, std::string("accepted/") + what, what << " did not throw");
  vm::event("misuse-refused");
}

std::vector<std::string> g_names;
void resetAll() {
  for (auto& m : g_model) { Timing::reset(m.first); m.second.clear(); }
}
int64_t advance(vm::Rng& r, int profile) {
  switch (profile) {
    case 0: return r.range(0, 5);
    case 1: return r.range(1, 2000000);
    case 2: return (int64_t)std::llround(std::fabs(r.logmag(0, 11)));
    case 3: return 100000;                                    // equal samples
    case 4: return 1000000000 + r.range(0, 2);                // tiny spread around a large mean
    default: return r.pickl({0, 1, 59999999, 60000000, 60000001}) ;
  }
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case is a random history of up to 400 timer operations on a virtual clock; an observation is distinct when the multiset of intervals behind a compared timer (count, sum, extremes) differs.");
  vclock::on() = false;
  vm::run("histories", 1500, [](vm::Rng& r, uint64_t i) {
    static const char* zones[] = {"UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0"};
    setenv("TZ", zones[i % 3], 1); tzset();
    // around the changes of daylight saving time of 2023 in those zones, or any time
    vclock::us() = r.chance(1, 2) ? r.pickl({1679792400ll, 1698541200ll, 1678604400ll, 1699164000ll}) * 1000000 - r.range(0, 20000000)
                                  : r.range(0, 4000000000ll) * 1000000 + r.range(0, 999999);
    vclock::on() = true;
    resetAll();
    std::vector<std::string> names;
    int nNames = (int)r.range(1, 6);
    for (int k = 0; k < nNames; ++k) names.push_back(r.chance(1, 4) ? "timer " + std::to_string(r.below(60)) + std::string(r.below(20), 'x') : "t" + std::to_string(r.below(8)));
    struct Live { std::unique_ptr<Timer> t; std::string name; int64_t since; bool running; };
    std::vector<Live> live;
    int profile = (int)r.below(6);
    int ops = (int)r.range(5, 400);
    auto done = [&](Live& l) { g_model[l.name].push_back(vclock::us() - l.since); l.running = false; };
    for (int op = 0; op < ops; ++op) {
      if (r.chance(1, 40)) profile = (int)r.below(6);
      switch (r.below(12)) {
        case 0: case 1: {
          if (live.size() > 8) break;
          std::string n = r.pick(names);
          bool stopped = r.chance(1, 3);
          g_model[n];
          std::unique_ptr<Timer> t;
          switch (r.below(stopped ? 2 : 4)) {
            case 0: t.reset(new Timer(n, stopped)); break;
            case 1: t.reset(new Timer(Timing::getHandle(n), stopped)); break;
            case 2: t.reset(new Timer(n)); break;
            default: t.reset(new Timer(Timing::getHandle(n))); break;
          }
          VM_CHECK(t->isTiming() == !stopped, "is-timing", "a timer constructed " << (stopped ? "stopped" : "running") << " says otherwise");
          live.push_back(Live{std::move(t), n, vclock::us(), !stopped});
          break;
        }
        case 2: case 3: case 4: if (!live.empty()) {
          Live& l = live[r.below(live.size())];
          if (l.running) mustThrow("starting a running timer", [&] { l.t->start(); });
          else { l.t->start(); l.since = vclock::us(); l.running = true; }
          VM_CHECK(l.t->isTiming() == l.running, "is-timing", "after start");
          break;
        }
        // fall through
        case 5: case 6: case 7: if (!live.empty()) {
          Live& l = live[r.below(live.size())];
          if (!l.running) mustThrow("stopping a stopped timer", [&] { l.t->stop(); });
          else { l.t->stop(); done(l); vm::event("intervals"); }
          VM_CHECK(l.t->isTiming() == l.running, "is-timing", "after stop");
          break;
        }
        // fall through
        case 8: if (!live.empty()) {
          size_t k = r.below(live.size());
          if (r.chance(1, 3)) { try { std::unique_ptr<Timer> t(std::move(live[k].t)); throw 1; } catch (int) {} }
          else live[k].t.reset();
          if (live[k].running) { done(live[k]); vm::event("intervals-ended-by-destruction"); }
          live.erase(live.begin() + k);
          break;
        }
        // fall through
        case 9: if (r.chance(1, 6)) {
          std::string n = r.pick(names);
          g_model[n].clear();
          if (r.chance(1, 2)) Timing::reset(n); else Timing::reset(Timing::getHandle(n));
          vm::event("resets");
          break;
        }
        // fall through
        case 10: vclock::us() += advance(r, profile); break;
        case 11: checkStats(r.pick(names), r.chance(1, 2)); break;
      }
      if (r.chance(1, 2)) vclock::us() += advance(r, profile);
    }
    for (auto& n : names) { g_model[n]; checkStats(n, r.chance(1, 2)); }
    if (i % 8 == 0) {
      checkTable(Timing::print(), -1);
      int s = (int)r.below(6);
      checkTable(Timing::print((sm::timing::SortType)s), s);
      std::ostringstream o;
      Timing::print(o, (sm::timing::SortType)s);
      checkTable(o.str(), s);
    }
    while (!live.empty()) { Live& l = live.back(); if (l.running) done(l); live.pop_back(); }
    for (auto& n : names) checkStats(n, true);
    vm::sample("names " + std::to_string(names.size()) + ", operations " + std::to_string(ops));
    vclock::on() = false;
  });
  vm::run("names", 40, [](vm::Rng& r, uint64_t) {
    // many new names: the table of timers grows while others hold samples
    vclock::us() = 1000000000000ll; vclock::on() = true;
    resetAll();
    std::vector<std::string> fresh;
    for (int k = 0; k < 60; ++k) {
      std::string n = r.chance(1, 20) ? std::string(1, (char)('a' + r.below(26))) : "n" + std::to_string(r.below(400));
      g_model[n];
      size_t h = Timing::getHandle(n);
      VM_CHECK(Timing::getTag(h) == n, "tag-of-handle", "handle " << h << " of " << n << " names " << Timing::getTag(h));
      VM_CHECK(Timing::getHandle(n) == h, "handle-stable", n);
      fresh.push_back(n);
      const std::string& old = r.pick(fresh);
      Timer t(old);
      int64_t d = r.range(0, 3000000); vclock::us() += d; t.stop(); g_model[old].push_back(d);
    }
    std::set<size_t> handles;
    for (auto& m : g_model) handles.insert(Timing::getHandle(m.first));
    VM_CHECK(handles.size() == g_model.size(), "handles-distinct", handles.size() << " handles for " << g_model.size() << " names");
    for (auto& n : fresh) checkStats(n, r.chance(1, 2));
    checkTable(Timing::print(), -1);
    size_t bad = r.pickl<size_t>({g_model.size(), g_model.size() + r.below(1000), (size_t)-1});
    mustThrow("Timer of an unknown handle", [&] { Timer t(bad); });
    mustThrow("getTag of an unknown handle", [&] { Timing::getTag(bad); });
    mustThrow("getTotalSeconds of an unknown handle", [&] { Timing::getTotalSeconds(bad); });
    mustThrow("getMeanSeconds of an unknown handle", [&] { Timing::getMeanSeconds(bad); });
    mustThrow("getNumSamples of an unknown handle", [&] { Timing::getNumSamples(bad); });
    mustThrow("getVarianceSeconds of an unknown handle", [&] { Timing::getVarianceSeconds(bad); });
    mustThrow("getMinSeconds of an unknown handle", [&] { Timing::getMinSeconds(bad); });
    mustThrow("getMaxSeconds of an unknown handle", [&] { Timing::getMaxSeconds(bad); });
    mustThrow("getHz of an unknown handle", [&] { Timing::getHz(bad); });
    mustThrow("reset of an unknown handle", [&] { Timing::reset(bad); });
    vclock::on() = false;
  });
  vm::run("scale", 6, [](vm::Rng& r, uint64_t i) {
    // many samples of one timer, many timers alive at once
    vclock::us() = 1500000000000000ll; vclock::on() = true;
    resetAll();
    const int n = r.pickl<int>({300, 4097, 40000});
    const int profile = (int)r.below(6);
    const std::string name = "scale" + std::to_string(i % 6);
    for (int k = 0; k < n; ++k) {
      Timer t(name);
      int64_t d = advance(r, profile);
      vclock::us() += d;
      t.stop();
      g_model[name].push_back(d);
    }
    checkStats(name, r.chance(1, 2));
    std::vector<std::unique_ptr<Timer>> live;
    std::vector<int64_t> since;
    const int m = r.pickl<int>({50, 257, 1500});
    auto of = [&](int k) { return "live" + std::to_string(k % 23); };
    for (int k = 0; k < m; ++k) { g_model[of(k)]; live.emplace_back(new Timer(of(k))); since.push_back(vclock::us()); vclock::us() += r.range(0, 1000); }
    std::vector<int> order(m);
    for (int k = 0; k < m; ++k) order[k] = k;
    for (int k = m - 1; k > 0; --k) std::swap(order[k], order[r.below(k + 1)]);
    for (int k : order) { if (r.chance(1, 2)) live[k]->stop(); else live[k].reset(); g_model[of(k)].push_back(vclock::us() - since[k]); vclock::us() += r.range(0, 1000); }
    for (int k = 0; k < 23 && k < m; ++k) checkStats(of(k), r.chance(1, 2));
    checkTable(Timing::print(), -1);
    vm::event("samples-of-one-timer", n);
    vm::event("timers-alive-at-once", m);
    vclock::on() = false;
  });
  vm::run("time-strings", 20000, [](vm::Rng& r, uint64_t) {
    double s;
    switch (r.below(4)) {
      case 0: s = std::fabs(r.logmag(-7, 9)); break;
      case 1: s = r.range(0, 400) * 60.0 + r.pickl({0.0, 59.999999, 59.9999, 0.000001, 59.0}); break;
      case 2: s = r.range(0, 2000) * 3600.0 + r.range(0, 59) * 60 + r.range(0, 59); break;
      default: s = r.uniform(0, 10000); break;
    }
    std::string t = Timing::secondsToTimeString(s);
    bool ok; double g = hms(t, &ok);
    VM_CHECK(ok && std::fabs(g - s) <= 5.1e-7 + 1e-14 * s, "time-string", s << " s is shown as " << t);
    vm::nontrivial(vm::bits(s));
    vm::event("time-strings");
  });
  vm::run("dummy", 1, [](vm::Rng&, uint64_t) {
    sm::timing::DummyTimer a("dummy"), b("dummy2", true), c((size_t)99999), d((size_t)99999, false);
    a.start(); a.start(); b.stop(); c.stop();
    VM_CHECK(!a.isTiming() && !b.isTiming() && !d.isTiming(), "dummy", "a dummy timer is timing");
    vm::event("dummy-timers");
  });
  return vm::finish();
}
