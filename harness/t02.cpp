// T02: timers under concurrent use. Every thread has its own virtual clock, so the
// exact interval of every sample is known and conservation can be checked exactly.
#include "vm.hpp"
#include "sched.hpp"
#include "virtualclock.hpp"
#include <sm/timing/Timer.hpp>

using sm::timing::Timer;
using sm::timing::Timing;
int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::leakProbes(false);  // every case registers timers of its own
  vm::setRule("A case is one concurrent execution of timer operations (threads, names and operations drawn from the seed, delays injected at the synchronisation calls); distinct when the order in which threads passed the synchronisation calls differs.");
  vm::run("concurrent", 300, [](vm::Rng& r, uint64_t idx) {
    int nThreads = (int)r.range(2, 6), ops = (int)r.range(10, 60);
    int nNames = (int)r.range(1, 4);
    std::vector<std::string> keep, wipe;
    for (int k = 0; k < nNames; ++k) { keep.push_back("k" + std::to_string(k)); wipe.push_back("w" + std::to_string(k)); }
    // names nobody has used yet: created concurrently
    bool fresh = r.chance(1, 2);
    if (fresh) keep.push_back("fresh-" + std::to_string(vm::st().seed) + "-" + std::to_string(idx));
    std::vector<uint64_t> seeds;
    for (int t = 0; t < nThreads; ++t) seeds.push_back(r.next());
    for (size_t k = 0; k < (size_t)nNames; ++k) { Timing::reset(keep[k]); Timing::reset(wipe[k]); }
    struct PerThread { std::map<std::string, std::vector<int64_t>> done; std::map<std::string, size_t> handle; uint64_t queries = 0, prints = 0, resets = 0; };
    std::vector<PerThread> per(nThreads);
    vm_sched::configure(r.next(), r.pickl({4u, 10u, 40u, 1000u}), r.pickl({20u, 100u}));
    std::atomic<int> ready{0};
    std::vector<std::thread> ths;
    for (int t = 0; t < nThreads; ++t)
      ths.emplace_back([&, t]() {
        vm::Rng q(seeds[t]);
        vclock::us() = 1600000000000000ll + t;
        vclock::on() = true;
        ready++;
        while (ready < nThreads) {}
        std::map<std::string, size_t> last;
        for (int op = 0; op < ops; ++op) {
          vm_sched::point();
          switch (q.below(8)) {
            case 0: case 1: case 2: {
              const std::string& n = q.chance(4, 5) ? q.pick(keep) : q.pick(wipe);
              int64_t d = q.range(0, 100000);
              if (q.chance(1, 2)) { Timer tm(n, q.chance(1, 2)); if (!tm.isTiming()) tm.start(); vclock::us() += d; if (q.chance(1, 2)) tm.stop(); }
              else { Timer tm(Timing::getHandle(n)); vclock::us() += d; }
              per[t].done[n].push_back(d);
              break;
            }
            case 3: case 4: {
              const std::string& n = q.pick(keep);
              size_t h = Timing::getHandle(n);
              per[t].handle[n] = h;
              size_t c = Timing::getNumSamples(h);
              VM_CHECK(c >= last[n], "samples-went-down", "timer " << n << " had " << last[n] << " samples, now " << c);
              VM_CHECK(c >= per[t].done[n].size(), "own-samples-missing", "timer " << n << " has " << c << " samples, this thread alone completed " << per[t].done[n].size());
              last[n] = c;
              if (c) {
                double mn = Timing::getMinSeconds(n), mx = Timing::getMaxSeconds(h), mean = Timing::getMeanSeconds(h), var = Timing::getVarianceSeconds(n), sum = Timing::getTotalSeconds(h), hz = Timing::getHz(h);
                VM_CHECK(mn >= 0 && mn <= 0.1 && mx >= 0 && mx <= 0.1 && mean >= 0 && mean <= 0.1 + 1e-9 && var >= 0 && var <= 0.01 && sum >= 0 && hz > 0, "impossible-statistics",
                         "min " << mn << " max " << mx << " mean " << mean << " var " << var << " sum " << sum << " hz " << hz);
              }
              VM_CHECK(Timing::getTag(h) == n, "tag-of-handle", "handle " << h << " of " << n);
              per[t].queries++;
              break;
            }
            case 5: { if (!q.chance(1, 4)) break; std::string s = q.chance(1, 2) ? Timing::print() : Timing::print((sm::timing::SortType)q.below(6)); VM_CHECK(s.size() > 20, "print", s); per[t].prints++; break; }
            case 6: { const std::string& n = q.pick(wipe); if (q.chance(1, 2)) Timing::reset(n); else Timing::reset(Timing::getHandle(n)); per[t].resets++; break; }
            case 7: { std::string n = "c" + std::to_string(q.below(20)); per[t].handle[n] = Timing::getHandle(n); break; }
          }
        }
        vclock::on() = false;
      });
    for (auto& t : ths) t.join();
    vm_sched::off();
    std::map<std::string, size_t> handles;
    for (auto& p : per)
      for (auto& h : p.handle) {
        auto it = handles.insert(h).first;
        VM_CHECK(it->second == h.second, "two-handles-for-one-name", "timer " << h.first << " has handles " << it->second << " and " << h.second);
      }
    std::set<size_t> hs;
    for (auto& h : handles) VM_CHECK(hs.insert(h.second).second, "one-handle-for-two-names", "handle " << h.second);
    for (auto& n : keep) {
      size_t count = 0; int64_t sum = 0, mn = INT64_MAX, mx = 0;
      for (auto& p : per) for (int64_t d : p.done[n]) { count++; sum += d; mn = std::min(mn, d); mx = std::max(mx, d); }
      VM_CHECK(Timing::getNumSamples(n) == count, "lost-samples", "timer " << n << " has " << Timing::getNumSamples(n) << " samples, " << count << " intervals were completed by " << nThreads << " threads");
      if (count) {
        VM_CHECK(std::fabs(Timing::getTotalSeconds(n) - sum * 1e-6) <= 1e-9, "lost-time", "timer " << n << " total " << Timing::getTotalSeconds(n) << " for " << sum << " us");
        VM_CHECK(std::fabs(Timing::getMinSeconds(n) - mn * 1e-6) <= 1e-12 && std::fabs(Timing::getMaxSeconds(n) - mx * 1e-6) <= 1e-12, "lost-extremes", "timer " << n);
      }
      vm::event("intervals", count);
    }
    for (auto& n : wipe) {
      size_t count = 0;
      for (auto& p : per) count += p.done[n].size();
      VM_CHECK(Timing::getNumSamples(n) <= count, "samples-from-nowhere", "timer " << n << " has " << Timing::getNumSamples(n) << " samples of " << count << " intervals");
    }
    for (auto& p : per) { vm::event("queries", p.queries); vm::event("prints", p.prints); vm::event("resets", p.resets); }
    vm::event("executions");
    vm::nontrivial(vm_sched::signature());
  }, 12);
  vm::event("synchronisation-calls", vm_sched::points());
  vm::event("delays-injected", vm_sched::perturbed());
  return vm::finish();
}
