// B01/B02: the job queue under perturbed schedules.
// mode "work" (B01): every accepted unit of work runs exactly once, waiting for an
//   empty queue returns only when all of it is done, results arrive in futures.
// mode "stop" (B02): stop / join / destroy at any moment.
#include "vm.hpp"
#include "sched.hpp"
#include <sm/boost/JobQueue.hpp>
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <boost/thread/future.hpp>
#include <stdexcept>

namespace {
struct Log {
  std::vector<std::atomic<int>> started, finished;
  std::atomic<int> running{0}, maxRunning{0};
  explicit Log(size_t n) : started(n), finished(n) { for (auto& a : started) a = 0; for (auto& a : finished) a = 0; }
  void run(int i, unsigned spin) {
    started[i].fetch_add(1);
    int r = running.fetch_add(1) + 1, m = maxRunning.load();
    while (m < r && !maxRunning.compare_exchange_weak(m, r)) {}
    for (volatile unsigned k = 0; k < spin * 50; k = k + 1) {}
    if (spin % 5 == 4) ::usleep(spin * 3);
    running.fetch_sub(1);
    finished[i].fetch_add(1);
  }
};

void perturb(vm::Rng& r) {
  unsigned in = r.pickl({1u, 2u, 3u, 8u, 1000u});
  vm_sched::configure(r.next(), in, r.pickl({20u, 100u, 300u}));
}
void observed(const char* what) {
  vm_sched::off();
  vm::nontrivial(vm_sched::signature());
  vm::event(std::string("executions:") + what);
}

void work() {
  vm::setRule("A case is one execution of the job queue (worker count, submitters, job sizes, nested submissions, delays injected at the synchronisation calls all drawn from the seed); it is non-trivial and distinct when the order in which threads passed the instrumented synchronisation calls differs.");
  vm::run("exactly-once", 350, [](vm::Rng& r, uint64_t) {
    int nThreads = (int)r.range(1, 6), nSub = (int)r.range(1, 4), per = (int)r.range(0, 25);
    int total = nSub * per;
    Log log(total + 1);
    std::vector<unsigned> spin(total + 1);
    for (auto& s : spin) s = r.below(20);
    bool startFirst = r.chance(2, 3);
    perturb(r);
    {
      sm::JobQueue q;
      if (startFirst) q.start(nThreads);
      if (startFirst && r.chance(1, 6)) { int more = (int)r.range(1, 3); q.start(more); nThreads += more; vm::event("started-twice"); }  // has no effect now; more threads would be fine
      std::vector<std::thread> subs;
      for (int s = 0; s < nSub; ++s)
        subs.emplace_back([&, s]() {
          for (int k = 0; k < per; ++k) {
            int id = s * per + k;
            q.scheduleWork([&log, &spin, id]() { log.run(id, spin[id]); });
          }
        });
      if (startFirst && r.chance(1, 2)) {  // a wait that overlaps the submissions
        q.waitForEmptyQueue();
        vm::event("waits-overlapping-submission");
      }
      for (auto& t : subs) t.join();
      if (!startFirst) {
        VM_CHECK(total == 0 || !q.empty(), "empty-before-start", "jobs were submitted, none could run, and the queue is empty");
        for (int i = 0; i < total; ++i) VM_CHECK(log.started[i] == 0, "ran-before-start", "job " << i << " ran before the queue was started");
        q.start(nThreads);
      }
      q.waitForEmptyQueue();
      int done = 0;
      for (int i = 0; i < total; ++i) done += log.finished[i].load();
      VM_CHECK(done == total, "wait-returned-early", "waiting for the empty queue returned with " << done << " of " << total << " jobs finished (" << nThreads << " threads)");
      VM_CHECK(q.empty(), "not-empty-after-wait", "the queue is not empty after the wait");
      VM_CHECK(log.maxRunning <= nThreads, "too-parallel", log.maxRunning << " jobs at once on " << nThreads << " threads");
      q.join();
    }
    for (int i = 0; i < total; ++i)
      VM_CHECK(log.started[i] == 1 && log.finished[i] == 1, "not-exactly-once", "job " << i << " of " << total << " started " << log.started[i] << " times, finished " << log.finished[i] << " times");
    vm::event("jobs", total);
    observed("exactly-once");
  });
  vm::run("many", 3, [](vm::Rng& r, uint64_t i) {
    const int nThreads = i % 3 == 0 ? 1 : i % 3 == 1 ? 40 : (int)r.range(2, 16), total = i % 3 == 0 ? 70000 : 20000;
    std::vector<std::atomic<unsigned char>> ran(total);
    for (auto& a : ran) a = 0;
    std::vector<int> order;
    std::vector<boost::unique_future<int>> results(100);
    {
      sm::JobQueue q;
      bool late = r.chance(1, 2);
      if (!late) q.start(nThreads);
      for (int k = 0; k < total; ++k) {
        if (k % (total / 100) == 7) q.scheduleFuture<int>([&ran, k]() { ran[k].fetch_add(1); return k; }, results[k / (total / 100)]);
        else q.scheduleWork([&ran, &order, nThreads, k]() { ran[k].fetch_add(1); if (nThreads == 1) order.push_back(k); });
      }
      if (late) q.start(nThreads);
      q.waitForEmptyQueue();
      int bad = 0;
      for (auto& a : ran) bad += a != 1;
      VM_CHECK(bad == 0, "not-exactly-once", bad << " of " << total << " jobs did not run exactly once before the wait for the empty queue returned (" << nThreads << " threads)");
      int k = 0;
      for (auto& f : results) { VM_CHECK(f.get() == k * (total / 100) + 7, "future-value", "the future of job " << k * (total / 100) + 7 << " of " << total); ++k; }
      VM_CHECK(std::is_sorted(order.begin(), order.end()), "not-in-order", "one worker ran " << total << " jobs in another order");
      q.join();
    }
    int bad = 0;
    for (auto& a : ran) bad += a != 1;
    VM_CHECK(bad == 0, "not-exactly-once", bad << " of " << total << " jobs did not run exactly once");
    vm::event("jobs", total);
    observed("many");
  });
  vm::run("fifo-single-worker", 80, [](vm::Rng& r, uint64_t) {
    int n = (int)r.range(1, 40);
    std::vector<int> order;
    bool late = r.chance(1, 2);
    perturb(r);
    {
      sm::JobQueue q;
      if (!late) q.start(1);
      for (int i = 0; i < n; ++i) q.scheduleWork([&order, i]() { order.push_back(i); });
      if (late) q.start(1);
      q.waitForEmptyQueue();
      q.join();
    }
    bool ok = (int)order.size() == n;
    for (int i = 0; ok && i < n; ++i) ok = order[i] == i;
    std::ostringstream o; for (int i : order) o << i << ' ';
    VM_CHECK(ok, "not-in-order", "one worker ran " << n << " jobs in the order " << o.str());
    vm::event("jobs", n);
    observed("fifo");
  });
  vm::run("nested", 120, [](vm::Rng& r, uint64_t) {
    int nThreads = (int)r.range(1, 5), roots = (int)r.range(1, 6), depth = (int)r.range(1, 3), fan = (int)r.range(1, 3);
    std::atomic<int> ran{0};
    std::atomic<int> scheduled{0};
    perturb(r);
    {
      sm::JobQueue q;
      q.start(nThreads);
      std::function<void(int)> job = [&](int d) {
        if (d > 0) for (int k = 0; k < fan; ++k) { scheduled++; q.scheduleWork([&job, d]() { job(d - 1); }); }
        vm_sched::point();
        ran++;
      };
      for (int i = 0; i < roots; ++i) { scheduled++; q.scheduleWork([&job, depth]() { job(depth); }); }
      q.waitForEmptyQueue();
      int want = 0, level = roots;
      for (int d = 0; d <= depth; ++d) { want += level; level *= fan; }
      VM_CHECK(ran == want && scheduled == want, "nested-not-finished", "the wait returned with " << ran << " of " << want << " jobs run");
    }
    vm::event("jobs", scheduled);
    observed("nested");
  });
  vm::run("rendezvous", 120, [](vm::Rng& r, uint64_t) {
    // as many jobs run at once as there are threads: jobs that only finish once all of them have started
    int nThreads = (int)r.range(1, 6), rounds = (int)r.range(1, 4), nSub = (int)r.range(1, 3), how = (int)r.below(4);
    unsigned idle = r.pickl({0u, 0u, 200u, 2000u});
    perturb(r);
    std::ostringstream what;
    what << nThreads << " threads, " << nSub << " submitters, submission kind " << how;
    bool gaveUp = false;
    {
      sm::JobQueue q;
      if (how != 3) q.start(nThreads);
      if (idle) ::usleep(idle);
      for (int round = 0; round < rounds && !gaveUp; ++round) {
        std::mutex m; std::condition_variable cv; int here = 0; std::atomic<bool> failed{false}; int most = 0;
        auto job = [&]() {
          std::unique_lock<std::mutex> l(m);
          ++here; most = std::max(most, here);
          cv.notify_all();
          // far longer than any injected delay
          if (!cv.wait_for(l, std::chrono::seconds(10), [&]() { return here >= nThreads || failed; })) { failed = true; cv.notify_all(); }
        };
        if (how == 1) q.scheduleWork([&]() { for (int i = 0; i < nThreads; ++i) q.scheduleWork(job); });  // from inside a job
        else if (how == 2) {
          std::vector<std::thread> subs;
          for (int s = 0; s < nSub; ++s) subs.emplace_back([&, s]() { for (int i = s; i < nThreads; i += nSub) q.scheduleWork(job); });
          for (auto& t : subs) t.join();
        } else for (int i = 0; i < nThreads; ++i) q.scheduleWork(job);
        if (how == 3 && round == 0) q.start(nThreads);
        q.waitForEmptyQueue();
        VM_CHECK(!failed, "not-parallel", "only " << most << " of " << nThreads << " jobs were running after 10 s (" << what.str() << ", round " << round << "): a thread of the pool stays idle while work waits");
        VM_CHECK(here == nThreads, "not-exactly-once", here << " of " << nThreads << " jobs ran");
        gaveUp = failed;
        vm::event("rendezvous");
      }
      // a job that waits for the result of another one, submitted later, has one as soon as there is a second thread
      if (nThreads > 1 && !gaveUp) {
        boost::unique_future<int> later, mine;
        boost::promise<int> relay;
        boost::unique_future<int> relayed = relay.get_future();
        q.scheduleFuture<int>([&]() -> int { if (!relayed.timed_wait(boost::posix_time::seconds(10))) return -1; return relayed.get() + 1; }, mine);
        if (r.chance(1, 2)) ::usleep(r.below(300));
        q.scheduleFuture<int>([&]() -> int { relay.set_value(41); return 1; }, later);
        int got = mine.get();
        VM_CHECK(got == 42, "not-parallel", "a job waiting for one that was submitted after it got " << got << " (" << what.str() << ")");
        VM_CHECK(later.get() == 1, "future-value", "the later job");
      }
    }
    vm::event("jobs", (uint64_t)nThreads * rounds);
    observed("rendezvous");
  });
  vm::run("captured-state", 80, [](vm::Rng& r, uint64_t) {
    // what a job captured is released once the job has run, and releasing it may use the queue
    int nThreads = (int)r.range(1, 4), n = (int)r.range(1, 12), how = (int)r.below(3);
    perturb(r);
    std::atomic<int> released{0}, ran{0}, more{0};
    int ranAtWait = 0, releasedAtWait = 0, moreAtWait = 0;
    {
      sm::JobQueue q;
      if (r.chance(2, 3)) q.start(nThreads); else how += 10;
      for (int i = 0; i < n; ++i) {
        std::shared_ptr<int> state(new int(i), [&, how](int* p) {
          delete p; released++;
          if (how % 10 == 1) q.empty();
          if (how % 10 == 2) q.scheduleWork([&more]() { more++; });
        });
        q.scheduleWork([state, &ran]() { ran++; });
      }
      if (how >= 10) q.start(nThreads);
      q.waitForEmptyQueue();
      ranAtWait = ran; releasedAtWait = released; moreAtWait = more;
      q.join();
    }
    VM_CHECK(ranAtWait == n, "wait-returned-early", ranAtWait << " of " << n << " jobs had run");
    VM_CHECK(releasedAtWait == n, "state-kept", "the wait returned and " << (n - releasedAtWait) << " of " << n << " jobs still hold what they captured");
    VM_CHECK(how % 10 != 2 || moreAtWait == n, "nested-not-finished", moreAtWait << " of the " << n << " jobs submitted while captured state was released had run");
    vm::event("captured-states-released", released);
    observed("captured-state");
  });
  vm::run("several-waiters", 80, [](vm::Rng& r, uint64_t) {
    int nThreads = (int)r.range(1, 4), n = (int)r.range(1, 30), waiters = (int)r.range(2, 4);
    Log log(n);
    std::vector<unsigned> spin(n);
    for (auto& s : spin) s = r.below(20);
    perturb(r);
    {
      sm::JobQueue q;
      for (int i = 0; i < n; ++i) q.scheduleWork([&log, &spin, i]() { log.run(i, spin[i]); });
      std::vector<std::thread> w;
      for (int k = 0; k < waiters; ++k)
        w.emplace_back([&]() {
          q.waitForEmptyQueue();
          int done = 0;
          for (int i = 0; i < n; ++i) done += log.finished[i].load();
          VM_CHECK(done == n, "wait-returned-early", "a waiter returned with " << done << " of " << n << " jobs finished");
        });
      q.start(nThreads);
      for (auto& t : w) t.join();
    }
    vm::event("jobs", n);
    observed("several-waiters");
  });
  vm::run("futures", 120, [](vm::Rng& r, uint64_t) {
    int nThreads = (int)r.range(1, 5), n = (int)r.range(1, 20);
    std::vector<boost::unique_future<int>> f(n);
    std::vector<boost::unique_future<std::string>> fs(n);
    uint64_t throwers = r.next();
    perturb(r);
    {
      sm::JobQueue q;
      bool late = r.chance(1, 3);
      if (!late) q.start(nThreads);
      for (int i = 0; i < n; ++i) {
        bool th = (throwers >> (i % 60)) & 1;
        q.scheduleFuture<int>([i, th]() -> int { if (th) throw std::runtime_error("job " + std::to_string(i)); return i * 7 - 3; }, f[i]);
        q.scheduleFuture<std::string>([i]() { return std::string((size_t)i * 3, 'a' + i % 26); }, fs[i]);
      }
      if (late) q.start(nThreads);
      for (int i = 0; i < n; ++i) {
        bool th = (throwers >> (i % 60)) & 1;
        bool threw = false; int v = 0; std::string what;
        try { v = f[i].get(); } catch (const std::exception& e) { threw = true; what = e.what(); }
        if (th) VM_CHECK(threw && what == "job " + std::to_string(i), "future-exception", "future " << i << ": the job threw, the future gave " << (threw ? what : std::to_string(v)));
        else VM_CHECK(!threw && v == i * 7 - 3, "future-value", "future " << i << " gave " << (threw ? what : std::to_string(v)));
        VM_CHECK(fs[i].get() == std::string((size_t)i * 3, 'a' + i % 26), "future-value", "string future " << i);
      }
    }
    vm::event("futures", 2 * n);
    observed("futures");
  });
}

void stopping() {
  vm::setRule("A case is one execution in which the queue is stopped, joined or destroyed at a drawn moment (right after start, while jobs run, while idle, from several threads) with delays injected at the synchronisation calls; distinct when the order in which threads passed those calls differs.");
  enum End { STOP_DESTROY, JOIN, DESTROY, JOIN_TWICE, TWO_JOINERS, STOP_JOIN, NEVER_STARTED_JOIN, STOP_IN_JOB, NENDS };
  vm::run("end", 700, [](vm::Rng& r, uint64_t) {
    int end = (int)r.below(NENDS);
    int nThreads = (int)r.range(1, 5), n = (int)r.pickl({0, 1, 3, 20});
    bool block = r.chance(1, 4);  // jobs that are in flight at the stop
    Log log(n + 1);
    std::vector<unsigned> spin(n + 1);
    for (auto& s : spin) s = block ? 14 + 5 * r.below(20) : r.below(10);
    unsigned pause = r.pickl({0u, 0u, 10u, 200u, 1500u});
    perturb(r);
    int startedAtEnd = 0;
    std::ostringstream what;
    what << "end " << end << ", threads " << nThreads << ", jobs " << n << ", pause " << pause;
    {
      std::unique_ptr<sm::JobQueue> q(new sm::JobQueue);
      if (end != NEVER_STARTED_JOIN) q->start(nThreads);
      if (end != NEVER_STARTED_JOIN && r.chance(1, 5)) q->start((int)r.range(1, 4));
      for (int i = 0; i < n; ++i) q->scheduleWork([&log, &spin, i]() { log.run(i, spin[i]); });
      if (end == STOP_IN_JOB) { sm::JobQueue* qp = q.get(); q->scheduleWork([qp]() { qp->stop(); qp->empty(); }); }
      if (pause) ::usleep(pause);
      switch (end) {
        case STOP_DESTROY: q->stop(); break;
        case JOIN: q->join(); break;
        case STOP_IN_JOB: if (pause % 20) q->join(); break;
        case DESTROY: break;
        case JOIN_TWICE: q->join(); q->join(); break;
        case TWO_JOINERS: { std::thread a([&]() { q->join(); }), b([&]() { q->join(); }); a.join(); b.join(); break; }
        case STOP_JOIN: { std::thread a([&]() { q->stop(); }); q->join(); a.join(); break; }
        case NEVER_STARTED_JOIN: q->join(); break;
      }
      if (end != STOP_DESTROY && end != DESTROY && end != STOP_IN_JOB) {
        // joined: nothing runs any more, and nothing starts afterwards
        VM_CHECK(log.running == 0, "running-after-join", log.running << " jobs still run after the join returned (" << what.str() << ")");
        for (int i = 0; i < n; ++i) startedAtEnd += log.started[i];
        for (int i = 0; i < n; ++i) VM_CHECK(log.started[i] == log.finished[i], "unfinished-after-join", "job " << i << " was started and not finished at the join (" << what.str() << ")");
        bool allRan = startedAtEnd == n;
        VM_CHECK(q->empty() == allRan, "remaining-work", (n - startedAtEnd) << " jobs have not run and empty() is " << q->empty() << " (" << what.str() << ")");
        if (r.chance(1, 2)) {
          q->scheduleWork([&log, n]() { log.run(n, 0); });
          ::usleep(300);
          VM_CHECK(log.started[n] == 0, "ran-after-join", "a job submitted after the join ran");
        }
        if (end != NEVER_STARTED_JOIN && r.chance(1, 4)) { vm::event("started-after-join"); q->start(nThreads); q->stop(); if (r.chance(1, 2)) q->join(); }  // whether it runs jobs again is not claimed
      }
    }
    VM_CHECK(log.running == 0, "running-after-destroy", log.running << " jobs still run after the queue is gone (" << what.str() << ")");
    int s = 0;
    for (int i = 0; i < n; ++i) {
      VM_CHECK(log.started[i] == log.finished[i] && log.started[i] <= 1, "not-at-most-once", "job " << i << " started " << log.started[i] << ", finished " << log.finished[i] << " (" << what.str() << ")");
      s += log.started[i];
    }
    if (s < n) vm::event("executions-with-work-left");
    if (s > 0 && s < n) vm::event("stopped-midway");
    vm::event("end-kind-" + std::to_string(end));
    vm::event("jobs-run", s);
    observed("end");
  });
  vm::run("several-joiners", 400, [](vm::Rng& r, uint64_t) {
    int nThreads = (int)r.range(1, 4), nJoin = (int)r.range(2, 5), n = (int)r.below(6);
    perturb(r);
    std::atomic<int> running{0}, ready{0}; std::atomic<bool> go{false};
    unsigned hold = r.below(400);
    sm::JobQueue q;
    q.start(nThreads);
    for (int i = 0; i < n; ++i) q.scheduleWork([&]() { running++; ::usleep(hold); running--; });
    std::vector<std::thread> w;
    for (int t = 0; t < nJoin; ++t) w.emplace_back([&]() {
      ready++;
      while (!go) {}
      q.join();
      VM_CHECK(running == 0, "running-after-join", running << " jobs still run after one of " << nJoin << " concurrent joins returned");
    });
    while (ready < nJoin) ::usleep(20);
    if (r.chance(1, 2)) ::usleep(r.below(300));
    go = true;
    for (auto& t : w) t.join();
    vm::event("concurrent-joins", nJoin);
    observed("several-joiners");
  });
  vm::run("idle-join", 250, [](vm::Rng& r, uint64_t) {
    // all workers idle or about to be: the moment at which a wakeup can get lost
    int nThreads = (int)r.range(1, 6);
    vm_sched::configure(r.next(), r.pickl({1u, 2u, 4u}), 400);
    sm::JobQueue q;
    q.start(nThreads);
    std::atomic<int> n{0};
    int jobs = r.below(3);
    for (int i = 0; i < jobs; ++i) q.scheduleWork([&n]() { n++; });
    if (r.chance(1, 2)) { q.waitForEmptyQueue(); VM_CHECK(n == jobs, "wait-returned-early", n << " of " << jobs); }
    else ::usleep(r.below(900));
    q.join();
    observed("idle-join");
  });
  vm::run("stop-only-ends-workers", 60, [](vm::Rng& r, uint64_t) {
    // after stop() no further job starts (beyond those already being taken)
    int nThreads = (int)r.range(1, 3), n = 60;
    std::atomic<int> started{0};
    std::atomic<bool> stopped{false};
    std::atomic<int> after{0};
    perturb(r);
    {
      sm::JobQueue q;
      q.start(nThreads);
      for (int i = 0; i < n; ++i) q.scheduleWork([&]() { if (stopped) after++; started++; ::usleep(60); });
      ::usleep(r.below(2000));
      q.stop();
      stopped = true;
      ::usleep(1500);
      // each worker may already have taken one job off the queue before the stop
      VM_CHECK(after <= nThreads, "started-after-stop", after << " jobs started after stop() returned, on " << nThreads << " threads");
    }
    vm::event("jobs-run", started);
    observed("stop");
  });
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  bool stop = false;
  for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "stop") stop = true;
  if (stop) stopping(); else work();
  vm::event("synchronisation-calls", vm_sched::points());
  vm::event("synchronisation-calls-delayed", vm_sched::perturbed());
  return vm::finish();
}
