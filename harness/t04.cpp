// T04: timestamp correction against the set of all measurements. The estimate must
// be the supporting line of the lower convex hull at the middle of the device time
// range: below every measurement, and touching the hull at the midpoint.
#include <iostream>
#include "vm.hpp"
#include <sm/timing/TimestampCorrector.hpp>
#include <algorithm>
#include <memory>

using sm::timing::TimestampCorrector;
typedef long double LD;
namespace {
template <class T> struct Pt { T x, y; };
// Value of the lower convex hull of pts (increasing x) at x = m; exact cross products.
template <class T> LD hullAt(const std::vector<Pt<T>>& pts, LD m, size_t* strict = nullptr) {
  std::vector<Pt<T>> h;
  for (auto& p : pts) {
    while (h.size() >= 2) {
      auto &a = h[h.size() - 2], &b = h.back();
      bool keep;
      if (std::is_integral<T>::value) {
        __int128 d = (__int128)(b.x - a.x) * (p.y - a.y) - (__int128)(b.y - a.y) * (p.x - a.x);
        keep = d > 0;
      } else keep = ((LD)b.x - a.x) * ((LD)p.y - a.y) - ((LD)b.y - a.y) * ((LD)p.x - a.x) > 0;
      if (keep) break;
      h.pop_back();
    }
    h.push_back(p);
  }
  if (strict) *strict = h.size();
  for (size_t i = 0; i + 1 < h.size(); ++i)
    if (m <= (LD)h[i + 1].x)
      return (LD)h[i].y + ((LD)h[i + 1].y - h[i].y) / ((LD)h[i + 1].x - h[i].x) * (m - (LD)h[i].x);
  return h.back().y;
}

template <class T> bool throwsNotInit(const TimestampCorrector<T>& c) {
  int n = 0;
  try { c.getSlope(); } catch (const typename TimestampCorrector<T>::NotInitializedException&) { n++; }
  try { c.getOffset(); } catch (const typename TimestampCorrector<T>::NotInitializedException&) { n++; }
  try { c.getLocalTime(T(1)); } catch (const typename TimestampCorrector<T>::NotInitializedException&) { n++; }
  return n == 3;
}

// exact: coordinates are integers small enough for exact cross products
template <class T> void check(const TimestampCorrector<T>& c, const std::vector<Pt<T>>& pts, bool exact, vm::Rng& r, T result, bool full) {
  const std::string k = std::is_integral<T>::value ? "/int" : "/double";
  auto& p = pts.back();
  LD ymax = 0, rangeY = 0, minSeg = INFINITY;
  for (auto& q : pts) { ymax = std::max(ymax, std::fabs((LD)q.y)); rangeY = std::max(rangeY, std::fabs((LD)q.y - (LD)pts[0].y)); }
  for (size_t i = 1; i < pts.size(); ++i) minSeg = std::min(minSeg, (LD)pts[i].x - pts[i - 1].x);
  LD range = std::max((LD)p.x - (LD)pts[0].x, rangeY);
  LD unit = std::is_integral<T>::value ? 1 : 0;
  LD tol = unit + 4e-16L * ymax + 1e-14L * range;
  if (!exact && pts.size() > 1) tol += std::is_integral<T>::value ? 1e-18L * range * range / minSeg : 5e-15L * range * range / minSeg;
  VM_CHECK((LD)result <= (LD)p.y + tol, "later-than-arrival" + k, "measurement (" << p.x << ", " << p.y << ") is corrected to " << result << ", later than its arrival, after " << pts.size() << " measurements");
  size_t h = c.convexHullSize();
  VM_CHECK(h >= 1 && h <= pts.size(), "hull-size" + k, h << " hull points of " << pts.size());
  T span = c.span();
  VM_CHECK(span == (h > 2 ? p.y - pts[0].y : T(0)), "span" + k, "span " << span << ", first arrival " << pts[0].y << ", last " << p.y << ", hull size " << h);
  if (pts.size() < 2) {
    VM_CHECK(result == p.y, "first-measurement" + k, result << " for " << p.y);
    VM_CHECK(throwsNotInit(c), "too-little-data" + k, "queries on one measurement did not throw");
    return;
  }
  if (h >= 3) {
    T g = c.getLocalTime(p.x);
    VM_CHECK(g == result, "estimate-differs-from-query" + k, "correctTimestamp said " << result << ", getLocalTime " << g);
  } else VM_CHECK(result == p.y, "few-points-estimate" + k, result << " for " << p.y);
  if (!full) return;
  for (auto& q : pts) {
    LD e = (LD)c.getLocalTime(q.x);
    if (e > (LD)q.y + tol) {
      VM_CHECK(false, "line-above-a-measurement" + k, "measurement (" << q.x << ", " << q.y << ") lies below the estimated line, at " << (double)e << "; " << pts.size() << " measurements, hull size " << h);
      break;
    }
  }
  LD m = (LD)(T)(((LD)pts[0].x + (LD)p.x) / 2);
  size_t strict;
  LD want = hullAt(pts, m, &strict);
  LD sl = c.getSlope();
  LD atMid;
  if (std::is_integral<T>::value) { T mi = pts[0].x + (p.x - pts[0].x) / 2; atMid = c.getLocalTime(mi); want = hullAt(pts, (LD)mi); }
  else atMid = c.getLocalTime((T)m);
  LD tolMid = tol + (std::is_integral<T>::value ? 0 : 4e-16L * std::fabs(m) * std::fabs(sl));
  if (h >= 3 || strict == 2)
    VM_CHECK(std::fabs(atMid - want) <= tolMid, "not-the-hull" + k, "at the middle of the range the estimate is " << (double)atMid << ", the hull " << (double)want << " (tolerance " << (double)tolMid << "), " << pts.size() << " measurements, hull size " << h);
  if (exact) VM_CHECK(h >= strict, "hull-size" + k, "hull has " << h << " points, the exact hull " << strict);
  // slope and offset describe the same line
  LD off = c.getOffset();
  T x = r.chance(1, 2) ? pts[r.below(pts.size())].x : (T)(p.x + (T)r.below(1000));
  LD line = off + sl * (LD)x, direct = c.getLocalTime(x);
  LD tolLine = tol + 1e-15L * (std::fabs((LD)x) + std::fabs((LD)pts[0].x)) * std::max<LD>(1, std::fabs(sl)) * 4 + 1e-15L * std::fabs(off) + unit;
  VM_CHECK(std::fabs(line - direct) <= tolLine, "slope-offset" + k, "offset + slope x = " << (double)line << ", getLocalTime " << (double)direct << " at " << x);
  vm::event("estimates-compared" + k);
  vm::nontrivial(vm::combine(vm::combine(h, pts.size()), vm::bits((double)atMid)));
}

template <class T> void history(vm::Rng& r, int scale) {
  // scale 0: small integers; 1: realistic
  TimestampCorrector<T> c;
  VM_CHECK(throwsNotInit(c) && c.convexHullSize() == 0 && c.span() == T(0), "empty", "queries on an empty corrector");
  std::vector<Pt<T>> pts;
  int n = (int)r.range(1, r.chance(1, 5) ? 200 : 30);
  const bool I = std::is_integral<T>::value;
  double second = scale == 0 ? 10 : I ? 1e9 : 1;
  if (scale == 2 || scale == 3) second = 1;   // nanoseconds apart, long after the epoch
  double period = scale == 0 ? (double)r.range(1, 20) : scale == 3 ? r.pickl({1.0, 1e3, 1e6, 1e9, 1e12}) : scale == 2 ? (double)r.pickl({1, 3, 20, 100, 500}) : second * r.pickl({0.001, 0.01, 0.033, 1.0, 60.0, 3600.0});
  double drift = scale == 0 ? r.pickl({1.0, 2.0, 0.0, -1.0, 0.5}) : 1 + r.pickl({0.0, 1e-6, -1e-6, 5e-5, 0.01});
  double jitter = r.pickl({0.0, 0.3, 3.0, 30.0}) * (scale == 0 ? 3 : 0.001 * second);
  LD x0 = scale == 3 ? std::ldexp((LD)r.range(-127, 126), 56) : scale == 2 ? 1.4e18L + (LD)r.below(1000000) : scale == 0 ? (LD)r.range(-100, 100) : second * r.pickl({0.0, 17.0, 1e5, 1.4e9});
  LD y0 = scale == 3 ? (LD)r.range(0, 1000000) : scale == 2 ? 1.4e18L : scale == 0 ? (LD)r.range(-100, 100) : second * r.pickl({0.0, 5.0, 1.4e9});
  LD x = x0;
  int shape = (int)r.below(5);
  bool exact = scale == 0;
  for (int i = 0; i < n; ++i) {
    double delay = 0;
    switch (shape) {
      case 0: delay = std::fabs(r.normal()) * jitter; break;
      case 1: delay = r.chance(1, 10) ? r.unit() * jitter * 50 : r.unit() * jitter; break;
      case 2: delay = (n - i) * jitter; break;         // every new point pops the hull
      case 3: delay = (double)i * i * jitter * 0.01; break;  // every point stays on the hull
      case 4: delay = r.chance(1, 15) ? -jitter * 100 * r.unit() : jitter * r.unit(); break;   // an early arrival wipes the hull
    }
    LD dy = drift * (double)(x - x0) + delay;
    Pt<T> p;
    p.x = (T)(scale == 0 ? std::floor(x) : x);
    p.y = (T)(scale == 0 ? std::floor(y0 + dy) : y0 + dy);
    if (!pts.empty() && !(p.x > pts.back().x)) { x += period; --i; if (period <= 0) break; continue; }
    if (!pts.empty() && r.chance(1, 25)) {   // time must move forward
      T bad = r.chance(1, 2) ? pts.back().x : pts.back().x - (T)r.below(50);
      bool thrown = false;
      try { c.correctTimestamp(bad, p.y); } catch (const typename TimestampCorrector<T>::TimeWentBackwardsException&) { thrown = true; }
      VM_CHECK(thrown, "time-went-backwards", "device time " << bad << " after " << pts.back().x << " was accepted");
      vm::event("backward-times-refused");
    }
    T res = c.correctTimestamp(p.x, p.y);
    pts.push_back(p);
    vm::event("measurements");
    check(c, pts, exact, r, res, n < 40 || i % 7 == 0 || i == n - 1);
    if (r.chance(1, 60)) {
      c.reset();
      pts.clear();
      VM_CHECK(throwsNotInit(c) && c.convexHullSize() == 0, "reset", "queries after a reset");
      if (r.chance(1, 2)) { x = x0 - period * r.below(100); }
      vm::event("resets");
    }
    x += scale == 0 ? (double)r.range(1, 20) : period * (r.chance(1, 30) ? r.uniform(1, 40) : r.chance(1, 3) ? r.uniform(0.9, 1.1) : 1.0);
  }
}

// The periodic variant answers like a plain corrector that saw a recent part of the history.
template <class T> void periodic(vm::Rng& r) {
  const double second = std::is_integral<T>::value ? 1e9 : 1;
  TimestampCorrector<T> c;
  std::vector<Pt<T>> pts;
  std::vector<std::unique_ptr<TimestampCorrector<T>>> plain;   // plain[k] saw measurements k..n
  std::set<size_t> S{0};
  int n = (int)r.range(3, 120);
  double period = second * r.pickl({0.01, 0.033, 1.0});
  T sw = (T)(period * r.pickl({1.0, 4.0, 10.0, 10.0, 25.0, 400.0}));
  double drift = 1 + r.pickl({0.0, 1e-5, 0.001});
  double jitter = period * r.pickl({0.0, 0.05, 0.4, 3.0});
  LD x = second * r.pickl({0.0, 100.0}), x0 = x, y0 = second * r.pickl({0.0, 1e6});
  LD maxStep = 0;
  int switches = 0;
  for (int i = 0; i < n; ++i) {
    if (i > 0 && r.chance(1, 80)) {
      c.reset();
      pts.clear(); plain.clear(); S = {0}; switches = 0; maxStep = 0;
      if (r.chance(1, 2)) x = x0;
      vm::event("periodic-resets");
    }
    Pt<T> p{(T)x, (T)(y0 + drift * (x - x0) + std::fabs(r.normal()) * jitter)};
    if (!pts.empty()) maxStep = std::max(maxStep, std::fabs((LD)p.y - (LD)pts.back().y));
    T res = c.correctTimestamp(p.x, p.y, sw);
    pts.push_back(p);
    plain.emplace_back(new TimestampCorrector<T>());
    std::vector<T> want;
    for (auto& q : plain) want.push_back(q->correctTimestamp(p.x, p.y));
    std::set<size_t> S2;
    for (size_t k : S) if (want[k] == res) S2.insert(k);
    if (S2.empty()) {
      std::ostringstream o;
      for (size_t k : S) o << " " << k;
      VM_CHECK(false, "periodic-estimate", "measurement " << i << " (" << p.x << ", " << p.y << ") is corrected to " << res << ", unlike a corrector that saw the measurements since any of:" << o.str() << " (period " << sw << ")");
      return;
    }
    S.clear();
    bool moved = false;
    for (size_t k : S2) {
      if (!(plain[k]->span() > sw)) { S.insert(k); continue; }
      moved = true;
      // any later start is possible, but not one that throws away much more than half a period
      for (size_t m = k + 1; m < pts.size(); ++m) {
        LD have = (LD)p.y - (LD)pts[m].y;
        if (have + 4 * maxStep * (2 + switches) < (LD)sw / 2) continue;
        S.insert(m);
      }
    }
    // a switch that keeps nothing at all starts afresh with the next measurement
    if (moved) { switches++; vm::event("corrector-switches"); if (S.empty()) S.insert(pts.size() - 1); }
    vm::event("periodic-estimates");
    x += period * (r.chance(1, 4) ? r.uniform(0.9, 1.5) : 1.0);
  }
  vm::nontrivial(vm::combine(switches, vm::bits((double)pts.back().y)));
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case feeds one measurement history (device times, arrival delays, drift, resets drawn from the seed); an observation is a comparison of the estimate with the exact hull of all measurements, distinct when hull size, history length or the estimate at the midpoint differs.");
  vm::run("double-exact", 3000, [](vm::Rng& r, uint64_t) { history<double>(r, 0); });
  vm::run("int-exact", 3000, [](vm::Rng& r, uint64_t) { history<int64_t>(r, 0); });
  vm::run("double", 3000, [](vm::Rng& r, uint64_t) { history<double>(r, 1); });
  vm::run("int", 3000, [](vm::Rng& r, uint64_t) { history<int64_t>(r, 1); });
  vm::run("int-late", 1500, [](vm::Rng& r, uint64_t) { history<int64_t>(r, 2); });
  // device counters anywhere in the range of their type
  vm::run("int-any-epoch", 1500, [](vm::Rng& r, uint64_t) { history<int64_t>(r, 3); });
  vm::run("periodic-double", 800, [](vm::Rng& r, uint64_t) { periodic<double>(r); });
  vm::run("periodic-int", 800, [](vm::Rng& r, uint64_t) { periodic<int64_t>(r); });
  return vm::finish();
}
