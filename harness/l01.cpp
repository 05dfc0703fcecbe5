// sm_logging. Modes: "history" (L01), "deliver" (L02), "reconfig" (L03).
#include "vm.hpp"
#include "sched.hpp"
#include "l01.hpp"
#include <atomic>
#include <cstdlib>
#include <deque>
#include <iomanip>
#include <iostream>
#include <mutex>
#include <thread>
#include <sm/logging/Formatter.hpp>
#include <sm/logging/StdOutLogger.hpp>

std::vector<void (*)(Call&)>& onceSites();

namespace {
using namespace sm::logging;
struct S { std::ostringstream o; template <class T> S& operator<<(const T& v) { o << v; return *this; } operator std::string() const { return o.str(); } };

struct Event { std::string stream, file, function, message, time; Level level; int line; std::thread::id thread; };

struct VClock { static std::atomic<int64_t>& us() { static std::atomic<int64_t> v{int64_t(1792454400) * 1000000}; return v; } static double seconds() { return us() / 1000000.0; } };

// Records what it is given; can be made to throw.
class Capture : public Logger {
 public:
  enum Failure { NONE, STD, OTHER, CLOCK };
  ~Capture() override { alive_ = 0xdead; }
  std::vector<Event> take() { std::lock_guard<std::mutex> l(m_); std::vector<Event> e; e.swap(events_); return e; }
  std::atomic<int> failure{NONE};
  std::atomic<uint64_t> failed{0};
  bool recurse = false;
 protected:
  Time currentTimeImplementation() const override {
    if (failure == CLOCK) { const_cast<Capture*>(this)->failed++; throw std::runtime_error("no clock"); }
    return Time(std::chrono::duration_cast<Duration>(std::chrono::microseconds(VClock::us().load())));
  }
  void logImplementation(const LoggingEvent& e) override {
    if (alive_ != 0xa11fe) vm::fail("destroyed-logger", "a log statement used a logger that was destroyed");
    {
      std::lock_guard<std::mutex> l(m_);
      events_.push_back(Event{e.streamName, e.file, e.function, e.message, e.timestring, e.level, e.line, std::this_thread::get_id()});
    }
    if (recurse) { Call c; c.text = "recursive"; sitesAll()[0].run(c); SM_FATAL("recursive %d", 1); }
    if (failure == STD) {
      switch (failed++ % 5) {
        case 0: throw std::runtime_error("the disk is full");
        case 1: throw std::logic_error("not open");
        case 2: throw std::bad_alloc();
        case 3: throw std::exception();
        default: throw std::ios_base::failure("device");
      }
    }
    if (failure == OTHER) { failed++; throw 17; }
  }
 private:
  std::mutex m_;
  std::vector<Event> events_;
  volatile unsigned alive_ = 0xa11fe;
};
typedef boost::shared_ptr<Capture> CapturePtr;

const std::vector<std::string>& names() {   // fully qualified
  static const std::vector<std::string> n{"sm", "sm.a", "sm.b", "sm.b.c", "sm.sm", "raw", "sm.", "SM", "sm.A", "smx", "sm.smx", "sm.raw"};
  return n;
}
bool isPublic(const std::string& n) { return n == "sm" || n.substr(0, 3) == "sm."; }
// a way to say n to the public functions (which add the default prefix if it is missing)
std::string spelled(vm::Rng& r, const std::string& n) {
  if (n == "sm" || n == "sm.sm") return n;
  std::string s = n.substr(3);
  return (r.unit() < 0.5) && s != "sm" && s.substr(0, 3) != "sm." ? s : n;
}
const char* kLevelNames[] = {"all", "finest", "verbose", "finer", "trace", "fine", "debug", "info", "warn", "error", "fatal"};

struct Model {
  Level level = levels::Info;
  std::set<std::string> streams;
  bool enabled(Level l, const std::string& stream) const { return l >= level && (stream.empty() || streams.count(stream)); }
};
struct SiteState { bool done = false; double last = 0; };
std::map<const Site*, SiteState>& siteStates() { static std::map<const Site*, SiteState> s; return s; }

void reset(Model& m) {
  g_logging_globals.setLevel(levels::Info);
  for (auto& n : names()) g_logging_globals.disableNamedStream(n);
  g_logging_globals.enableNamedStream("sm");
  m = Model();
  m.streams = {"sm"};
}
std::string timeString(int64_t us) { std::ostringstream s; s << us / 1000000 << '.' << std::setw(6) << std::setfill('0') << us % 1000000; return s.str(); }
std::string timeString() { return timeString(VClock::us()); }

void checkEvent(const std::string& pre, const Event& e, const Site& s, const Call& c) {
  VM_CHECK(e.message == c.text, pre + "message", s.macro << " printed \"" << vm::esc(e.message.substr(0, 200)) << "\" (" << e.message.size() << " characters) for \"" << vm::esc(c.text.substr(0, 200)) << "\" (" << c.text.size() << ")");
  Level want = s.variable ? c.level : s.level;
  VM_CHECK(e.level == want, pre + "level", s.macro << " printed at level " << e.level << " instead of " << want);
  VM_CHECK(e.stream == s.stream, pre + "stream", s.macro << " printed to stream " << e.stream << " instead of " << s.stream);
  VM_CHECK(e.file == c.file && e.line == c.line && e.function == c.function, pre + "place", s.macro << " in " << c.file << ":" << c.line << " " << c.function << " printed as " << e.file << ":" << e.line << " " << e.function);
}

// Runs a statement and compares what it does with the model.
bool runSite(const Site& s, Call& c, const Model& m, Capture& logger) {
  SiteState& st = siteStates()[&s];
  Level l = s.variable ? c.level : s.level;
  bool on = !s.compiledOut && m.enabled(l, s.stream);
  double now = VClock::seconds();
  bool print = on && (s.kind == COND ? c.cond : s.kind == ONCE ? !st.done : s.kind == THROTTLE ? st.last + c.rate <= now : true);
  double last = st.last;
  s.run(c);
  if (print) { st.done = true; st.last = now; }
  std::vector<Event> ev = logger.take();
  auto throttling = [&]() -> std::string { if (s.kind != THROTTLE) return ""; return S() << " (last printed at " << last << ", rate " << c.rate << ", now " << now << ")"; };
  auto what = [&]() -> std::string { return S() << s.macro << " (level " << l << ", stream \"" << s.stream << "\", instance " << s.set << ") with level " << m.level << ", stream " << (s.stream.empty() ? "always on" : m.streams.count(s.stream) ? "on" : "off"); };
  const char* kind = s.kind == PLAIN ? "plain" : s.kind == COND ? "cond" : s.kind == ONCE ? "once" : "throttle";
  if (!print) VM_CHECK(ev.empty(), std::string("printed/") + kind, what() << " printed, but must not" << throttling());
  else VM_CHECK(!ev.empty(), std::string("silent/") + kind, what() << " did not print, but must" << throttling());
  VM_CHECK(ev.size() <= 1, "twice", what() << " printed " << ev.size() << " times");
  VM_CHECK(c.conds == (s.kind == COND && on ? 1 : 0), "condition-evaluated", what() << " evaluated its condition " << c.conds << " times");
  VM_CHECK(c.args == (print ? 1 : 0), "arguments-evaluated", what() << (print ? " (printed)" : " (suppressed)") << " evaluated its argument " << c.args << " times");
  if (print && !ev.empty()) checkEvent("event-", ev[0], s, c);
  vm::event(print ? "printed" : on ? "filtered" : s.compiledOut ? "compiled-out" : l < m.level ? "below-level" : "stream-off");
  return print;
}

void historyCase(vm::Rng& r, uint64_t n) {
  Model m;
  reset(m);
  CapturePtr loggers[2] = {CapturePtr(new Capture), CapturePtr(new Capture)};
  int cur = 0;
  setLogger(loggers[0]);
  auto& all = sitesAll();
  auto& warn = sitesWarn();
  int maxSet = (int)std::min<uint64_t>(3, n / 6);
  uint64_t h = 7;
  auto fill = [&](Call& c) {
    c.text = S() << "message " << n << "-" << r.below(100000);
    if ((r.unit() < 0.1)) c.text = "%s%d%n 100%";
    if ((r.unit() < 0.03)) c.text = "";
    c.cond = (r.unit() < 0.5);
    c.rate = (r.unit() < 0.2) ? 0 : (r.unit() < 0.1) ? 1e9 : r.range(0, 200) / 64.0;
    c.level = (Level)r.range(0, 10);
  };
  int steps = 150;
  for (int k = 0; k < steps; k++) {
    switch (r.below(12)) {
      case 0: {
        Level l = (Level)r.range(0, 11);
        if ((r.unit() < 0.5)) setLevel(l); else g_logging_globals.setLevel(l);
        m.level = l;
        vm::event("set-level");
        break;
      }
      case 1: case 2: {
        std::string name = r.pick(names());
        bool on = (r.unit() < 0.6);
        if (isPublic(name) && (r.unit() < 0.7)) {
          std::string s = spelled(r, name);
          if (on) enableNamedStream(s); else disableNamedStream(s);
        } else if (on) g_logging_globals.enableNamedStream(name);
        else g_logging_globals.disableNamedStream(name);
        if (on) m.streams.insert(name); else m.streams.erase(name);
        vm::event(on ? "enable" : "disable");
        break;
      }
      case 3: VClock::us() += (r.unit() < 0.2) ? 0 : (int64_t)r.range(0, 128) * 15625; if ((r.unit() < 0.02)) VClock::us() -= (int64_t)r.range(0, 64) * 15625; break;
      case 4: {
        int what = r.below(4);
        if (what == 0) { cur = 1 - cur; setLogger(loggers[cur]); vm::event("set-logger"); }
        else if (what == 1) { setLogger(boost::shared_ptr<Logger>()); vm::event("set-no-logger"); }   // has no effect
        else if (what == 2) { SM_INIT_LOGGING(); m.streams.insert("sm"); }
        else g_logging_globals.notifyLoggerLevelsChanged();
        VM_CHECK(getLogger() == loggers[cur], "get-logger", "getLogger is not the logger that was set");
        break;
      }
      case 5: {
        // levels by name
        std::string s = (r.unit() < 0.85) ? kLevelNames[r.below(11)] : r.pickl<std::string>({"", "none", "warning", "infos", " info", "count", "7"});
        Level want = levels::Info;
        bool known = false;
        for (int i = 0; i < 11; i++) if (s == kLevelNames[i]) { want = (Level)i; known = true; }
        std::string spelt = s;
        for (auto& c : spelt) if ((r.unit() < 0.4)) c = (char)toupper(c);
        Level got = levels::fromString(spelt);
        auto ev = loggers[cur]->take();
        VM_CHECK(got == want, "level-name", "levels::fromString(\"" << spelt << "\") is " << got << " instead of " << want);
        size_t wantEv = !known && m.enabled(levels::Error, "sm") ? 1 : 0;
        VM_CHECK(ev.size() == wantEv, "level-name-message", "levels::fromString(\"" << spelt << "\") printed " << ev.size() << " messages");
        if ((r.unit() < 0.5)) { setLevel(got); m.level = got; }
        break;
      }
      default: {
        bool fromWarn = (r.unit() < 0.15);
        auto& v = fromWarn ? warn : all;
        const Site* s = &r.pick(v);
        for (int t = 0; t < 20 && s->set > maxSet; t++) s = &r.pick(v);
        if (s->set > maxSet) break;
        Call c;
        fill(c);
        bool p = runSite(*s, c, m, *loggers[cur]);
        h = vm::combine(h, vm::combine((uint64_t)(s - &v[0]), p));
      }
    }
    if ((r.unit() < 0.03)) {
      // every statement that was used before follows the configuration
      for (auto* v : {&all, &warn})
        for (auto& s : *v) {
          if (s.set > maxSet || s.kind == ONCE || !(r.unit() < 0.5)) continue;
          Call c;
          fill(c);
          runSite(s, c, m, *loggers[cur]);
        }
      vm::event("sweeps");
    }
    if ((r.unit() < 0.2)) {
      VM_CHECK(getLevel() == m.level && g_logging_globals.getLevel() == m.level, "get-level", "getLevel is " << getLevel() << " after setLevel(" << m.level << ")");
      for (auto& name : names()) {
        VM_CHECK(g_logging_globals.isNamedStreamEnabled(name) == (m.streams.count(name) > 0), "stream-state", "isNamedStreamEnabled(" << name << ") is " << g_logging_globals.isNamedStreamEnabled(name));
        if (isPublic(name)) { std::string s = spelled(r, name); VM_CHECK(isNamedStreamEnabled(s) == (m.streams.count(name) > 0), "stream-state", "isNamedStreamEnabled(\"" << s << "\") is " << isNamedStreamEnabled(s) << ", stream " << name); }
      }
    }
    auto stray = loggers[1 - cur]->take();
    VM_CHECK(stray.empty(), "wrong-logger", "the logger that was replaced got " << stray.size() << " messages");
  }
  vm::sample(S() << "history " << n << ": " << steps << " steps, ends at level " << m.level << " with " << m.streams.size() << " streams on");
  vm::nontrivial(h);
}

struct Barrier {
  std::atomic<int> left; explicit Barrier(int n) : left(n) {}
  void wait() { left--; while (left > 0) std::this_thread::yield(); }
};

// Statements made by hand: locations of a user's own with logging globals of their own.
void locationsCase(vm::Rng& r, uint64_t n) {
  LoggingGlobals g;
  CapturePtr logger(new Capture);
  g.setLogger(logger);
  Model m;
  m.streams = {"sm"};
  struct Loc { LogLocation l; bool known = false; Level level = levels::Count; std::string stream; };
  std::deque<Loc> locs;
  bool down = false;
  uint64_t h = 3;
  for (int k = 0; k < 60; k++) {
    int op = (int)r.below(10);
    h = vm::combine(h, op);
    Level lv = (Level)r.range(0, 11);
    std::string name = r.chance(1, 5) ? "" : r.pick(names());
    Loc* some = locs.empty() ? nullptr : &locs[r.below(locs.size())];
    switch (op) {
      case 0: case 1: {   // initialised by the system
        locs.emplace_back();
        Loc& x = locs.back();
        VM_CHECK(!x.l._initialized && !x.l._loggerEnabled, "fresh-location", "a fresh location is initialised or enabled");
        g.initializeLogLocation(&x.l, name, lv);
        x.known = true; x.level = lv; x.stream = name;
        VM_CHECK(x.l._initialized, "initialised-location", "an initialised location is not marked as such");
        break;
      }
      case 2: {           // filled by hand and registered; follows at the next change
        locs.emplace_back();
        Loc& x = locs.back();
        x.l._level = lv; x.l._streamName = name; x.l._initialized = true;
        x.level = lv; x.stream = name;
        g.registerLogLocation(&x.l);
        if (r.chance(1, 2)) { g.checkLogLocationEnabled(&x.l); x.known = true; }
        break;
      }
      case 3: if (some) {  // initialised again: nothing changes
        g.initializeLogLocation(&some->l, name, lv);
        break;
      } break;
      case 4: if (some) {
        g.setLogLocationLevel(&some->l, lv);
        g.checkLogLocationEnabled(&some->l);
        some->level = lv; some->known = true;
      } break;
      case 5: case 6: { bool changed = lv != m.level; g.setLevel(lv); m.level = lv; if (changed) for (auto& x : locs) x.known = true; break; }
      case 7: { g.enableNamedStream(name); bool changed = m.streams.insert(name).second; if (changed) for (auto& x : locs) x.known = true; break; }
      case 8: if (m.streams.count(name)) { g.disableNamedStream(name); m.streams.erase(name); for (auto& x : locs) x.known = true; } else g.disableNamedStream(name); break;
      default: g.notifyLoggerLevelsChanged(); for (auto& x : locs) x.known = true;
    }
    if (r.chance(1, 60) && !down) { g.shutdown(); down = true; vm::event("shut-down"); }
    VM_CHECK(g.getLevel() == m.level, "get-level", g.getLevel() << " instead of " << m.level);
    for (auto& name : names()) VM_CHECK(g.isNamedStreamEnabled(name) == (bool)m.streams.count(name), "stream-enabled", name);
    for (auto& x : locs) {
      VM_CHECK(x.l._level == x.level && x.l._streamName == x.stream, "location-changed", "a location of level " << x.level << ", stream \"" << x.stream << "\" became " << x.l._level << ", \"" << x.l._streamName << "\"");
      bool on = m.enabled(x.level, x.stream);
      VM_CHECK(g.isEnabled(x.level, x.stream) == on, "is-enabled", "level " << x.level << ", stream \"" << x.stream << "\"");
      if (x.known) VM_CHECK(x.l._loggerEnabled == on, on ? "silent/location" : "printed/location", "a location of level " << x.level << ", stream \"" << x.stream << "\" with level " << m.level << " after operation " << op);
      vm::event("location-states");
    }
    if (r.chance(1, 4)) {   // printing itself does not ask whether the statement is enabled
      std::string t = S() << "text " << k << std::string(r.chance(1, 6) ? r.below(9000) : 0, 'x');
      bool stream = r.chance(1, 2);
      if (stream) { vectorstream ss; ss << t; g.print("sm.a", lv, ss, "f.cpp", k, "fun"); } else g.print("sm.a", lv, "f.cpp", k, "fun", "%s", t.c_str());
      auto ev = logger->take();
      VM_CHECK(ev.size() == (down ? 0 : 1), down ? "printed/shut-down" : "silent/print", ev.size() << " messages");
      if (ev.size() == 1) VM_CHECK(ev[0].message == t && ev[0].stream == "sm.a" && ev[0].level == lv && ev[0].line == k && ev[0].file == "f.cpp" && ev[0].function == "fun", "event-fields", ev[0].message.substr(0, 100));
    }
    if (r.chance(1, 6)) {
      std::string t = std::string(r.below(3) ? r.below(200) : 4090 + r.below(5000), 'y');
      g.formatToBuffer("%d:%s|%.3f", k, t.c_str(), 0.5);
      VM_CHECK(std::string(&g._globalCharBuffer[0]) == std::to_string(k) + ":" + t + "|0.500", "format-to-buffer", t.size());
      VM_CHECK(logger->take().empty(), "printed/format-to-buffer", "formatting printed");
    }
  }
  vm::nontrivial(vm::combine(h, n));
}

// Threads that reach a once / throttled statement together, and threads that log at different levels through one statement.
void raceCase(vm::Rng& r, uint64_t n) {
  Model m;
  reset(m);
  CapturePtr logger(new Capture);
  setLogger(logger);
  int T = (int)r.range(2, 6);
  uint64_t seed = r.next();
  vm_sched::configure(seed, (unsigned)r.range(4, 10), 60);
  std::vector<const Site*> throttled, dynamic;
  for (auto& s : sitesAll()) {
    if (s.kind == THROTTLE && !s.variable && s.level >= levels::Info && s.stream == "sm") throttled.push_back(&s);
    if (s.variable && s.kind == PLAIN && (s.stream == "" || s.stream == "sm")) dynamic.push_back(&s);
  }
  uint64_t h = 1;
  auto together = [&](const std::function<void(int, Call&)>& f) {
    std::vector<Call> calls(T);
    Barrier b(T);
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++) th.emplace_back([&, t] { b.wait(); f(t, calls[t]); });
    for (auto& t : th) t.join();
    return calls;
  };
  for (int k = 0; k < 3; k++) {
    auto& os = onceSites();
    size_t i = (size_t)(n * 3 + k);
    if (i < os.size()) {
      auto calls = together([&](int t, Call& c) { c.text = "once"; if (t % 2) vm_sched::point(); os[i](c); os[i](c); });
      auto ev = logger->take();
      int args = 0;
      for (auto& c : calls) args += c.args;
      VM_CHECK(ev.size() == 1 && args == 1, "once-raced", T << " threads reached a once statement: it printed " << ev.size() << " times and evaluated its argument " << args << " times");
      vm::event("once-races");
      h = vm::combine(h, ev.empty() ? 0 : std::hash<std::thread::id>()(ev[0].thread) % 7);
    }
  }
  for (int k = 0; k < 4; k++) {
    const Site* s = r.pick(throttled);
    VClock::us() += 64 * 15625;
    double now = VClock::seconds();
    SiteState& st = siteStates()[s];
    double rate = r.pickl<double>({1, 0.5, 2, 3});
    bool print = st.last + rate <= now;
    auto calls = together([&](int, Call& c) { c.text = "throttled"; c.rate = rate; s->run(c); s->run(c); });
    auto ev = logger->take();
    if (print) st.last = now;
    VM_CHECK(ev.size() == (print ? 1u : 0u), "throttle-raced", T << " threads reached " << s->macro << " (rate " << rate << ", last " << st.last << ", now " << now << "): it printed " << ev.size() << " times instead of " << print);
    vm::event(print ? "throttle-races" : "throttle-races-suppressed");
  }
  for (int k = 0; k < 2; k++) {
    const Site* s = r.pick(dynamic);
    m.level = (Level)r.range(3, 9);
    setLevel(m.level);
    int M = 30;
    uint64_t sd = r.next();
    auto level = [&](int t, int i) { return (Level)(vm::mix(sd + (uint64_t)t * 1000 + (t % 2 ? 0 : (uint64_t)i)) % 11); };
    together([&](int t, Call&) {
      for (int i = 0; i < M; i++) { Call c; c.level = level(t, i); c.text = S() << t << " " << i << " " << c.level; s->run(c); }
    });
    auto ev = logger->take();
    std::map<std::string, int> got;
    for (auto& e : ev) {
      got[e.message]++;
      VM_CHECK(std::to_string(e.level) == e.message.substr(e.message.rfind(' ') + 1), "level-of-another-thread", s->macro << ": a message of level " << e.message.substr(e.message.rfind(' ') + 1) << " was printed at level " << e.level);
    }
    for (int t = 0; t < T; t++)
      for (int i = 0; i < M; i++) {
        Level l = level(t, i);
        int g = got[(std::string)(S() << t << " " << i << " " << l)], want = m.enabled(l, s->stream) ? 1 : 0;
        VM_CHECK(g == want, g > want ? "printed/other-thread" : "silent/other-thread", s->macro << ": a message of level " << l << " was printed " << g << " times with level " << m.level << " while other threads logged through the same statement");
      }
    vm::event("shared-statement-messages", (uint64_t)T * M);
    setLevel(m.level = levels::Info);
  }
  vm_sched::off();
  vm::sample(S() << T << " threads raced for once and throttled statements and logged at different levels through one");
  vm::nontrivial(vm::combine(h, vm_sched::signature()));
}

// ------------------------------------------------------------ L02
std::string someText(vm::Rng& r, size_t len) {
  std::string s(len, 'x');
  int style = r.below(4);
  for (size_t i = 0; i < len; i++)
    s[i] = style == 0 ? (char)('a' + (i * 7 + len) % 26) : style == 1 ? (char)r.range(32, 126) : style == 2 ? (char)(1 + r.below(255)) : "%sdn{}$\n\t\\\""[r.below(11)];
  return s;
}
size_t someLength(vm::Rng& r) {
  static const size_t edges[] = {0, 1, 2, 4093, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 16384, 65535, 65536};
  return (r.unit() < 0.4) ? edges[r.below(15)] : (r.unit() < 0.7) ? r.below(300) : (r.unit() < 0.9) ? r.below(12000) : r.below(200000);
}
Event theOne(Capture& l, const char* what) {
  auto ev = l.take();
  VM_CHECK(ev.size() == 1, "not-once", what << " delivered " << ev.size() << " messages");
  return ev.empty() ? Event() : ev[0];
}
std::string printed(const char* fmt, ...) {
  va_list a, b; va_start(a, fmt); va_copy(b, a);
  std::vector<char> v(1 + vsnprintf(nullptr, 0, fmt, a));
  vsnprintf(v.data(), v.size(), fmt, b);
  va_end(a); va_end(b);
  return v.data();
}
struct Printable { int n; };
std::ostream& operator<<(std::ostream& o, const Printable& p) { return o << "<" << p.n << ">"; }

void messageCase(vm::Rng& r, uint64_t n) {
  Model m;
  reset(m);
  CapturePtr logger(new Capture);
  setLogger(logger);
  setLevel(levels::All);
  for (auto& s : {"a", "b", "b.c", "sm.sm", "sm.sm.a"}) enableNamedStream(s);
  g_logging_globals.enableNamedStream("raw");
  if (n == 0) {
    // a fresh buffer
    LoggingGlobals g;
    VM_CHECK(g.getLevel() == levels::Info && g.isNamedStreamEnabled("sm") && g.getLogger(), "defaults", "fresh logging globals are not at level Info with the default stream enabled");
  }
  uint64_t h = n;
  {
    // lengths around those that were ever printed, the first ones included, with buffers of their own
    static LoggingGlobals* g = nullptr;
    if (n % 20 == 0) { delete g; g = new LoggingGlobals; }
    g->setLogger(logger);
    static size_t longest = 4096;
    if (n % 20 == 0) longest = 4096;
    for (int k = 0; k < 6; k++) {
      size_t len = longest - 4 + (size_t)((n % 20 + k) % 9);
      if (r.chance(1, 12)) len += r.below(3000);
      if (vm::st().probing) len = std::min(len, longest);  // repetitions must not make the buffer grow
      std::string t = someText(r, len);
      g->print("sm", levels::Warn, "file", 3, "function", "%s", t.c_str());
      Event e = theOne(*logger, "print");
      VM_CHECK(e.message == t, "message", "a message of " << len << " characters was delivered with " << e.message.size() << ", the longest before was " << longest);
      longest = std::max(longest, len);
      vm::event("messages-near-the-longest");
    }
  }
  for (int k = 0; k < 40; k++) {
    const Site* s = &r.pick(sitesAll());
    if (s->kind == ONCE || s->stream == "sm.sm.a") continue;
    Call c;
    size_t len = someLength(r);
    c.text = someText(r, len);
    c.level = (Level)r.range(0, 10);
    VClock::us() += (int64_t)r.range(1, 100000000);
    s->run(c);
    Event e = theOne(*logger, s->macro);
    checkEvent("", e, *s, c);
    VM_CHECK(e.time == timeString(), "time", s->macro << " printed with time " << e.time << " at " << timeString());
    vm::event("messages");
    if (len >= 4096) vm::event("messages-beyond-the-buffer");
    h = vm::combine(h, len);
  }
  {
    // the clock a logger has if it is given none: that of the system, in UTC, whatever the time zone
    struct Real : StdOutLogger { std::string time; void logImplementation(const LoggingEvent& e) override { time = e.timestring; } };
    static char zones[][32] = {"TZ=UTC", "TZ=America/St_Johns", "TZ=Asia/Kathmandu", "TZ=<-12>12"};
    putenv(zones[r.below(4)]);  // unlike setenv, keeps no copy
    tzset();
    boost::shared_ptr<Real> real(new Real);
    auto us = [] { return (int64_t)std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count(); };
    auto was = getLogger();
    setLogger(real);
    int64_t a = us();
    SM_FATAL("now");
    double sec = real->currentTimeSecondsUtc();
    int64_t t = std::chrono::duration_cast<std::chrono::microseconds>(real->currentTime().time_since_epoch()).count();
    int64_t b = us();
    setLogger(was);
    logger->take();
    if (a <= b) {  // the system's clock was not set back
      VM_CHECK(real->time.size() == timeString(a).size() && timeString(a) <= real->time && real->time <= timeString(b), "real-time", "a message printed between " << timeString(a) << " and " << timeString(b) << " has time " << real->time);
      VM_CHECK(a / 1e6 <= sec && sec <= b / 1e6, "real-time", "currentTimeSecondsUtc() between " << a << " and " << b << " us is " << sec);
      VM_CHECK(a <= t && t <= b, "real-time", "currentTime() between " << a << " and " << b << " us is " << t << " us");
    }
    vm::event("real-clock");
  }
  {
    // several arguments
    int i = (int)r.next(); unsigned u = (unsigned)r.next(); double d = r.anyDouble(true); char ch = (char)r.range(32, 126); long long ll = (long long)r.next();
    std::string t = someText(r, someLength(r) / 3);
    SM_WARN("%d|%s|%.17g|%c|%x|%lld|%%|%10s|%-7d|", i, t.c_str(), d, ch, u, ll, t.c_str(), i);
    Event e = theOne(*logger, "a statement with several arguments");
    std::string want = printed("%d|%s|%.17g|%c|%x|%lld|%%|%10s|%-7d|", i, t.c_str(), d, ch, u, ll, t.c_str(), i);
    VM_CHECK(e.message == want, "message", "several arguments: got \"" << vm::esc(e.message.substr(0, 300)) << "\" instead of \"" << vm::esc(want.substr(0, 300)) << "\"");
    if (r.chance(1, 3)) {
      // text that the C library cannot convert: what is delivered is open, but it is one message, and the next one is whole
      wchar_t bad[3] = {L'x', (wchar_t)0xD800, 0};
      SM_WARN("%s|%ls|end", t.c_str(), bad);
      theOne(*logger, "a statement whose text cannot be converted");
      SM_WARN("%s", t.c_str());
      VM_CHECK(theOne(*logger, "a statement after one that cannot be converted").message == t, "message", "the message after one that cannot be converted is not whole");
      vm::event("unconvertible-messages");
    }
    SM_ERROR_STREAM(i << "|" << t << "|" << std::setprecision(17) << d << "|" << ch << "|" << std::hex << u << std::dec << "|" << Printable{i} << "|" << std::boolalpha << true << std::setw(9) << ll);
    Event e2 = theOne(*logger, "a stream statement with several arguments");
    std::ostringstream o;
    o << i << "|" << t << "|" << std::setprecision(17) << d << "|" << ch << "|" << std::hex << u << std::dec << "|" << Printable{i} << "|" << std::boolalpha << true << std::setw(9) << ll;
    VM_CHECK(e2.message == o.str(), "message", "stream: got \"" << vm::esc(e2.message.substr(0, 300)) << "\" instead of \"" << vm::esc(o.str().substr(0, 300)) << "\"");
    // stream state does not leak into the next statement
    SM_INFO_STREAM(255 << " " << 1.5 << " " << true);
    VM_CHECK(theOne(*logger, "a stream statement").message == "255 1.5 1", "message", "the format of one stream statement affects the next");
  }
  {
    // the caller's variables, whatever they are called
    bool enabled = (r.unit() < 0.5), hit = (r.unit() < 0.5);
    double now = r.unit(), last_hit = r.unit();
    std::string level = "lev", name = "nam", args = "arg", cond = "con";
    SM_INFO_STREAM(enabled << hit << " " << now << " " << last_hit << level << name << args << cond);
    std::ostringstream o;
    o << enabled << hit << " " << now << " " << last_hit << level << name << args << cond;
    Event e = theOne(*logger, "a statement");
    VM_CHECK(e.message == o.str(), "caller-variables", "got \"" << e.message << "\" instead of \"" << o.str() << "\"");
    SM_INFO_STREAM_COND(enabled, "enabled");
    auto ev = logger->take();
    VM_CHECK(ev.size() == (enabled ? 1u : 0u), "caller-variables", "SM_INFO_STREAM_COND(enabled, ...) printed " << ev.size() << " times with enabled = " << enabled);
    SM_INFO_STREAM_THROTTLE(0, now << " " << last_hit << " " << enabled);
    std::ostringstream o2;
    o2 << now << " " << last_hit << " " << enabled;
    VM_CHECK(theOne(*logger, "a throttled statement").message == o2.str(), "caller-variables", "a throttled statement printed other variables than the caller's");
    SM_INFO_THROTTLE(0, "%g %g %d", now, last_hit, (int)hit);
    VM_CHECK(theOne(*logger, "a throttled statement").message == printed("%g %g %d", now, last_hit, (int)hit), "caller-variables", "a throttled statement printed other variables than the caller's");
  }
  {
    // an argument that logs itself
    auto inner = [&] { SM_INFO("inner"); return 5; };
    SM_WARN_STREAM("outer " << inner());
    auto ev = logger->take();
    VM_CHECK(ev.size() == 2 && ev[0].message == "inner" && ev[1].message == "outer 5", "nested", "a statement whose argument logs delivered " << ev.size() << " messages");
    SM_WARN("outer %d", inner());
    ev = logger->take();
    VM_CHECK(ev.size() == 2 && ev[0].message == "inner" && ev[1].message == "outer 5", "nested", "a statement whose argument logs delivered " << ev.size() << " messages");
  }
  vm::nontrivial(h);
}

// the line that a format asks for
std::string formatted(const std::string& fmt, const LoggingEvent& e, const std::map<std::string, std::string>& extra, bool color) {
  static const char* sev[] = {"  ALL", "FINES", "VERBO", "FINER", "TRACE", " FINE", "DEBUG", " INFO", " WARN", "ERROR", "FATAL"};
  std::string out;
  for (size_t i = 0; i < fmt.size();) {
    size_t e2 = i + 2;
    while (e2 < fmt.size() && isalpha((unsigned char)fmt[e2])) e2++;
    if (fmt.compare(i, 2, "${") == 0 && e2 > i + 2 && e2 < fmt.size() && fmt[e2] == '}') {
      std::string t = fmt.substr(i + 2, e2 - i - 2);
      std::ostringstream tid; tid << boost::this_thread::get_id();
      out += t == "severity" ? sev[e.level] : t == "message" ? e.message : t == "time" ? e.timestring : t == "thread" ? tid.str() : t == "file" ? e.file : t == "line" ? std::to_string(e.line)
           : t == "function" ? e.function : t == "streamname" ? e.streamName : extra.count(t) ? extra.at(t) : "${" + t + "}";
      i = e2 + 1;
    } else out += fmt[i++];
  }
  if (color) {
    const char* c = e.level == levels::Fatal ? COLOR_LIGHT_RED : e.level == levels::Error ? COLOR_RED : e.level == levels::Warn ? COLOR_YELLOW : e.level == levels::Info ? COLOR_NORMAL : e.level == levels::Debug ? COLOR_GREEN : COLOR_LIGHT_GREEN;
    out = c + out + COLOR_NORMAL;
  }
  return out + "\n";
}
std::string someFormat(vm::Rng& r) {
  static const std::vector<std::string> p{"${severity}", "${message}", "${time}", "${thread}", "${file}", "${line}", "${function}", "${streamname}", "${host}", "${nothing}", "${Message}", " ", "[", "]: ", "$", "{", "}", "${", "${}", "${a1}", "$${line}", "${${message}}", "\\", "%s", "${message", "text", "\n", "${ line}", "${li}ne}", "^.*$", "|"};
  std::string f;
  int k = r.range(0, 9);
  for (int i = 0; i < k; i++) f += r.pick(p);
  return f;
}
void formatCase(vm::Rng& r, uint64_t n) {
  std::string fmt = n == 0 ? "" : someFormat(r), fmt2 = someFormat(r);
  bool env = (r.unit() < 0.5);
  if (env) setenv("SMCONSOLE_FORMAT", fmt.c_str(), 1); else unsetenv("SMCONSOLE_FORMAT");
  Formatter f;
  unsetenv("SMCONSOLE_FORMAT");
  std::string now = env ? fmt : "[${severity}] [${time}]: ${message}";
  VM_CHECK(f.doColor_, "defaults", "a formatter does not colour by default");
  auto check = [&] {
    std::string msg = someText(r, r.chance(1, 8) ? r.below(20000) : r.below(80)), file = "dir/file.cpp", fn = "void f(T) [with T = ${message}]", stream = r.pick(names());
    if (r.chance(1, 10)) file = std::string(r.below(5000), 'd') + "/" + file;
    if (r.chance(1, 10)) fn += std::string(r.below(5000), 'f');
    LoggingEvent e(stream.c_str(), (Level)r.range(0, 10), file.c_str(), (int)r.range(1, 100000), fn.c_str(), msg.c_str(), (r.unit() < 0.5) ? "12.500000" : "");
    std::ostringstream o;
    f.print(e, o);
    std::string want = formatted(now, e, f.extra_fixed_tokens_, f.doColor_);
    VM_CHECK(o.str() == want, "format", "format \"" << vm::esc(now) << "\" printed \"" << vm::esc(o.str()) << "\" instead of \"" << vm::esc(want) << "\"");
    vm::event("formatted-lines");
    vm::nontrivial(vm::hashStr(now));
    if (n % 500 == 3) vm::sample("format " + now);
  };
  check();
  f.doColor_ = (r.unit() < 0.5);
  check();
  f.extra_fixed_tokens_["host"] = r.pickl<std::string>({"", "here", "${message}", std::string(r.below(100), 'h'), std::string(r.below(20000), 'H')});
  check();
  f.init(fmt2.c_str());
  now = fmt2;
  check();
  f.extra_fixed_tokens_["host"] = "elsewhere";   // later changes count
  f.extra_fixed_tokens_["message"] = "not this";
  check();
  if (n % 4 == 0) {
    // a copy is a formatter of its own, whatever becomes of the original
    {
      std::unique_ptr<Formatter> original(new Formatter);
      original->init(now.c_str());
      original->doColor_ = f.doColor_;
      original->extra_fixed_tokens_["host"] = "the original's";
      if (r.chance(1, 2)) f = *original;
      else { std::unique_ptr<Formatter> other(new Formatter(*original)); f = *other; }
      if (r.chance(1, 2)) original->extra_fixed_tokens_["host"] = "changed";
      else original.reset();
      check();
    }
    check();
    f.extra_fixed_tokens_["host"] = "the copy's";
    check();
    vm::event("copied-formatters");
  }
}

// A stream buffer that is as unsynchronised as a file is, so that unprotected writes show.
struct PlainBuf : std::streambuf {
  std::string s;
  uint64_t writes = 0;
  int overflow(int c) override { writes++; if (c != EOF) s += (char)c; return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) override { writes++; s.append(p, (size_t)n); return n; }
};

void threadsCase(vm::Rng& r, uint64_t n) {
  Model m;
  reset(m);
  setLevel(levels::All);
  for (auto& s : {"a", "b", "b.c", "sm.sm", "sm.sm.a"}) enableNamedStream(s);
  g_logging_globals.enableNamedStream("raw");
  bool toStdout = (r.unit() < 0.5);
  CapturePtr logger(new Capture);
  boost::shared_ptr<StdOutLogger> out(new StdOutLogger);
  bool color = (r.unit() < 0.5);
  out->formatter.init("<<${severity}|${streamname}|${line}|${function}|${message}>>");
  out->formatter.doColor_ = color;
  if (toStdout) setLogger(out); else setLogger(logger);
  int failure = toStdout ? 0 : r.pickl<int>({Capture::NONE, Capture::NONE, Capture::STD, Capture::OTHER, Capture::CLOCK});
  logger->failure = failure;
  logger->recurse = !toStdout && (r.unit() < 0.1);
  int T = (int)r.range(1, 8), M = failure || logger->recurse ? 4 : (int)r.range(20, 60);
  if (failure) T = std::min(T, 4);
  vm_sched::configure(r.next(), (unsigned)r.range(4, 12), 40);
  uint64_t seed = r.next();
  std::vector<const Site*> sites;
  for (auto& s : sitesAll()) if (s.kind == PLAIN || s.kind == COND) sites.push_back(&s);
  std::vector<std::vector<std::pair<const Site*, Call>>> did(T);
  std::atomic<int> thrown{0};
  PlainBuf buf;
  std::streambuf* old = std::cout.rdbuf(&buf);
  {
    Barrier b(T);
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++)
      th.emplace_back([&, t] {
        vm::Rng q(seed + t);
        b.wait();
        for (int i = 0; i < M; i++) {
          const Site* s = sites[q.below(sites.size())];
          Call c;
          c.level = (Level)q.range(0, 10);
          c.text = S() << "t" << t << "#" << i << "#" << std::string((q.unit() < 0.1) ? q.below(9000) : q.below(60), (char)('A' + t)) << "!";
          try { s->run(c); } catch (...) { thrown++; }
          did[t].emplace_back(s, c);
        }
      });
    for (auto& t : th) t.join();
  }
  vm_sched::off();
  std::cout.rdbuf(old);
  vm::event("threads", T);
  if (n % 20 == 0) vm::sample(S() << T << " threads, " << M << " messages each, " << (toStdout ? "to stdout" : "recorded") << ", logger failure " << failure);
  if (toStdout) {
    std::multiset<std::string> want;
    for (auto& d : did)
      for (auto& sc : d) {
        LoggingEvent e(sc.first->stream.c_str(), sc.first->variable ? sc.second.level : sc.first->level, sc.second.file, sc.second.line, sc.second.function, sc.second.text.c_str(), "");
        want.insert(formatted("<<${severity}|${streamname}|${line}|${function}|${message}>>", e, {}, color));
      }
    std::istringstream in(buf.s);
    std::string line;
    uint64_t h = 0;
    while (std::getline(in, line)) {
      auto i = want.find(line + "\n");
      if (i == want.end()) { vm::fail("line", S() << "stdout has the line \"" << vm::esc(line.substr(0, 300)) << "\", which no statement printed (or printed already)"); break; }
      want.erase(i);
      h = vm::combine(h, (uint64_t)line[line.find('#') == std::string::npos ? 0 : line.find('#') - 1]);
    }
    VM_CHECK(want.empty(), "line-missing", want.size() << " lines did not reach stdout, e.g. \"" << vm::esc((want.empty() ? std::string() : *want.begin()).substr(0, 200)) << "\"");
    vm::event("stdout-lines", T * M);
    vm::nontrivial(h);
  } else {
    auto ev = logger->take();
    if (failure == Capture::CLOCK) {
      // no time to print with: nothing can be delivered
      VM_CHECK(logger->failed == (uint64_t)T * M, "not-offered", "a logger without a clock was asked " << logger->failed << " times for " << T * M << " messages");
      VM_CHECK(thrown == 0, "throws", "a statement threw because of a std::exception of the logger");
      vm::event("messages-with-failing-clock", T * M);
    } else {
      std::map<std::string, std::pair<const Site*, const Call*>> want;
      for (auto& d : did) for (auto& sc : d) want[sc.second.text] = {sc.first, &sc.second};
      std::map<std::string, int> got;
      std::vector<int> lastOf(T, -1);
      for (auto& e : ev) {
        auto i = want.find(e.message);
        if (e.message.compare(0, 9, "recursive") == 0) { vm::event("recursive-delivered"); continue; }
        if (i == want.end()) { vm::fail("unknown-message", S() << "a message was delivered that no statement printed: \"" << vm::esc(e.message.substr(0, 200)) << "\""); continue; }
        VM_CHECK(++got[e.message] == 1, "twice", "a message was delivered twice: " << e.message.substr(0, 100));
        checkEvent("", e, *i->second.first, *i->second.second);
        int t = atoi(e.message.c_str() + 1), k = atoi(e.message.c_str() + e.message.find('#') + 1);
        VM_CHECK(k > lastOf[t], "order", "message " << k << " of thread " << t << " was delivered after message " << lastOf[t]);
        lastOf[t] = k;
      }
      VM_CHECK(got.size() == want.size(), "lost", want.size() - got.size() << " of " << want.size() << " messages of " << T << " threads were lost (logger failure " << failure << ")");
      if (failure == Capture::STD) VM_CHECK(thrown == 0, "throws", "a statement threw because of a std::exception of the logger");
      uint64_t h = 0;
      for (auto& e : ev) h = vm::combine(h, (uint64_t)atoi(e.message.c_str() + 1));
      vm::nontrivial(h);
      vm::event(failure ? "messages-with-failing-logger" : "messages-of-threads", T * M);
    }
    // afterwards, this thread and the logger work as before
    logger->failure = Capture::NONE;
    logger->recurse = false;
    const Site* s = r.pick(sites);
    Call c;
    c.text = "after";
    s->run(c);
    Event e = theOne(*logger, "a statement after failures");
    checkEvent("after-", e, *s, c);
    if (failure || (r.unit() < 0.2)) {
      // in the thread in which the logger failed
      logger->failure = failure;
      try { Call x; x.text = "failing"; s->run(x); } catch (...) {}
      logger->take();
      logger->failure = Capture::NONE;
      Call y;
      y.text = "after failure";
      y.level = levels::Warn;
      s->run(y);
      checkEvent("after-failure-", theOne(*logger, "a statement after a failure in its thread"), *s, y);
      std::thread([&] { Call z; z.text = "other thread"; z.level = levels::Warn; s->run(z); }).join();
      theOne(*logger, "a statement of another thread after a failure");
    }
  }
}

// ------------------------------------------------------------ L03
std::atomic<uint64_t>& created() { static std::atomic<uint64_t> v{0}; return v; }
std::atomic<uint64_t>& delivered() { static std::atomic<uint64_t> v{0}; return v; }
class CountingLogger : public Logger {
 public:
  explicit CountingLogger(bool last = false) : lastWords_(last) { created()++; live()++; text_ = new std::string("a logger"); }
  ~CountingLogger() override {
    // what is released when a logger is replaced may use the logging system itself
    if (lastWords_) { getLogger(); getLevel(); isNamedStreamEnabled("a"); }
    live()--; delete text_; text_ = nullptr;
  }
  static std::atomic<int>& live() { static std::atomic<int> v{0}; return v; }
 protected:
  void logImplementation(const LoggingEvent& e) override {
    if (!text_ || text_->size() != 8) { vm::fail("destroyed-logger", "a log statement used a logger that was destroyed"); return; }
    inside_++;
    if (strncmp(e.message, "must ", 5) == 0) delivered()++;
    last_ = e.message;     // print calls are serialised
    inside_--;
  }
 private:
  bool lastWords_;
  std::string* text_;
  std::string last_;
  std::atomic<int> inside_{0};
};

void reconfigCase(vm::Rng& r, uint64_t n) {
  Model m;
  reset(m);
  setLogger(boost::shared_ptr<Logger>(new CountingLogger));
  delivered() = 0;
  auto& all = sitesAll();
  // every case has statements that were never executed before, as long as there are any
  static size_t nextFresh = 0;
  std::vector<const Site*> sites;
  for (int i = 0; i < 24; i++) sites.push_back(&all[(nextFresh + i) % all.size()]);
  nextFresh += 16;
  std::vector<const Site*> always;       // at level Fatal, no stream: printed whatever is configured
  for (auto& s : all) if (s.variable && s.kind == PLAIN && s.stream.empty()) always.push_back(&s);
  int loggers = (int)r.range(1, 4), levelers = (int)r.range(0, 2), streamers = (int)r.range(0, 3), replacers = (int)r.range(0, 2), readers = (int)r.range(0, 1);
  if (levelers + streamers + replacers == 0) streamers = levelers = 1;
  int ops = vm::thorough() ? 60 : 40;
  vm_sched::configure(r.next(), (unsigned)r.range(20, 200), 60);
  Barrier b(loggers + levelers + streamers + replacers + readers);
  std::vector<std::thread> th;
  uint64_t seed = r.next();
  std::vector<Level> lastLevel(levelers, levels::Info);
  std::vector<std::map<std::string, bool>> lastStream(streamers);
  std::vector<boost::shared_ptr<Logger>> lastLogger(replacers);
  std::atomic<uint64_t> musts{0};
  for (int t = 0; t < loggers; t++)
    th.emplace_back([&, t] {
      vm::Rng q(seed + 100 + t);
      b.wait();
      for (int i = 0; i < ops; i++) {
        Call c;
        if ((q.unit() < 0.3)) { c.text = "must print"; c.level = levels::Fatal; q.pick(always)->run(c); musts++; VM_CHECK(c.args == 1, "always-enabled", "a Fatal statement without a stream was suppressed"); }
        else { c.text = "may print"; c.level = (Level)q.range(0, 9); c.rate = q.unit(); c.cond = (q.unit() < 0.7); q.pick(sites)->run(c); }
      }
    });
  for (int t = 0; t < levelers; t++)
    th.emplace_back([&, t] {
      vm::Rng q(seed + 200 + t);
      b.wait();
      for (int i = 0; i < ops; i++) { Level l = (Level)q.range(0, 10); setLevel(l); lastLevel[t] = l; if ((q.unit() < 0.2)) std::this_thread::yield(); }
    });
  const std::vector<std::string> shared{"sm", "sm.a"};
  for (int t = 0; t < streamers; t++)
    th.emplace_back([&, t] {
      vm::Rng q(seed + 300 + t);
      const std::vector<std::string> own = t == 0 ? std::vector<std::string>{"sm.b", "raw"} : t == 1 ? std::vector<std::string>{"sm.b.c", "sm.sm"} : std::vector<std::string>{"x.y", "sm.sm.a"};
      b.wait();
      for (int i = 0; i < ops; i++) {
        std::string name = (q.unit() < 0.3) ? q.pick(shared) : q.pick(own);
        bool on = (q.unit() < 0.5);
        if (on) g_logging_globals.enableNamedStream(name); else g_logging_globals.disableNamedStream(name);
        lastStream[t][name] = on;
        if (std::find(own.begin(), own.end(), name) != own.end())
          VM_CHECK(g_logging_globals.isNamedStreamEnabled(name) == on, "own-stream", "stream " << name << " is not in the state that the only thread that changes it gave it");
      }
    });
  for (int t = 0; t < replacers; t++)
    th.emplace_back([&, t] {
      b.wait();
      for (int i = 0; i < ops; i++) { boost::shared_ptr<Logger> l(new CountingLogger(i % 3 == 0)); setLogger(l); lastLogger[t] = l; l.reset(); if (i % 4 == 0) lastLogger[t].reset(), setLogger(lastLogger[t] = boost::shared_ptr<Logger>(new CountingLogger)); }
    });
  for (int t = 0; t < readers; t++)
    th.emplace_back([&, t] {
      vm::Rng q(seed + 500 + t);
      b.wait();
      for (int i = 0; i < ops; i++) {
        if ((q.unit() < 0.3)) { auto l = getLogger(); VM_CHECK(l.get() != nullptr && l->currentTimeSecondsUtc() > 0, "no-logger", "getLogger returned no logger"); }
        else if ((q.unit() < 0.5)) VM_CHECK(getLevel() >= levels::All && getLevel() <= levels::Fatal, "level", "getLevel returned a level that was never set");
        else isNamedStreamEnabled("a");
      }
    });
  for (auto& t : th) t.join();
  vm_sched::off();
  vm::event("threads", th.size());
  if (n % 20 == 0) vm::sample(S() << loggers << " threads log, " << levelers << " set the level, " << streamers << " switch streams, " << replacers << " replace the logger, " << readers << " read the configuration");
  vm::event("operations", th.size() * (uint64_t)ops);
  VM_CHECK(delivered() == musts, "lost", musts << " messages were printed at level Fatal without a stream, " << delivered() << " reached a logger");
  // the configuration is one that some order of the operations gives
  bool ok = levelers == 0 && getLevel() == levels::Info;
  for (auto l : lastLevel) ok = ok || getLevel() == l;
  VM_CHECK(ok, "final-level", "the level is " << getLevel() << ", which no thread set last");
  m.level = getLevel();
  m.streams.clear();
  std::set<std::string> all_names(names().begin(), names().end());
  all_names.insert({"x.y", "sm.sm.a"});
  for (auto& name : all_names) {
    bool on = g_logging_globals.isNamedStreamEnabled(name), touched = false, possible = false;
    for (auto& ls : lastStream) if (ls.count(name)) { touched = true; possible = possible || ls[name] == on; }
    if (!touched) possible = on == (name == "sm");
    VM_CHECK(possible, "final-stream", "stream " << name << " is " << (on ? "on" : "off") << ", which no thread did last");
    if (on) m.streams.insert(name);
  }
  if (replacers) {
    bool isOne = false;
    for (auto& l : lastLogger) isOne = isOne || getLogger() == l;
    VM_CHECK(isOne, "final-logger", "the logger is not the last one that a thread set");
  }
  lastLogger.clear();
  // and every statement follows it
  CapturePtr cap(new Capture);
  setLogger(cap);
  VM_CHECK(CountingLogger::live() == 0, "kept-logger", CountingLogger::live() << " loggers that were replaced are still alive");
  for (auto* v : {&sites, &always})
    for (auto* s : *v) {
      if (s->kind == ONCE || s->kind == THROTTLE) continue;
      Call c;
      c.level = (Level)r.range(0, 10);
      c.text = "final";
      Level l = s->variable ? c.level : s->level;
      s->run(c);
      auto ev = cap->take();
      bool want = m.enabled(l, s->stream);
      VM_CHECK((ev.size() == 1) == want && (ev.size() <= 1), want ? "stale/silent" : "stale/printed", s->macro << " (level " << l << ", stream \"" << s->stream << "\") printed " << ev.size() << " times with level " << m.level << ", stream " << (m.streams.count(s->stream) ? "on" : "off") << ", after concurrent changes");
    }
  static uint64_t seenPoints = 0; vm::event("schedule-points", vm_sched::points() - seenPoints); seenPoints = vm_sched::points();
  vm::nontrivial(vm_sched::signature());
  g_logging_globals.disableNamedStream("x.y");
  g_logging_globals.disableNamedStream("sm.sm.a");
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  std::string mode;
  for (int i = 1; i < argc; i++) if (argv[i] == std::string("history") || argv[i] == std::string("deliver") || argv[i] == std::string("race") || argv[i] == std::string("threads") || argv[i] == std::string("reconfig")) mode = argv[i];
  if (mode == "history" || mode == "race") {
    vm::setRule("a distinct case is a history of statements and configuration changes with its prints (history), or the order in which threads passed the synchronisation points (race)");
  } else if (mode == "reconfig") vm::setRule("a distinct case is the order in which the threads passed the synchronisation points");
  else vm::setRule("a distinct case is a sequence of message lengths (message), a format (format), or an order in which messages of the threads were delivered (threads)");
  if (mode == "history") {
    vm::run("history", 900, historyCase, 20);
    vm::run("locations", 400, locationsCase, 20);
    vm::leakProbes(false);  // once per process
    vm::run("race", 100, raceCase, 10);
  } else if (mode == "race") {
    vm::leakProbes(false);  // once per process
    vm::run("race", 100, raceCase, 10);
  } else if (mode == "threads") {
    vm::run("threads", 150, threadsCase, 15);
  } else if (mode == "deliver") {
    vm::run("message", 400, messageCase, 15);
    vm::run("format", 4000, formatCase, 20);
    vm::run("threads", 150, threadsCase, 15);
  } else { vm::leakProbes(false); vm::run("reconfig", 120, reconfigCase, 20); }  // every case has statements that are executed for the first time
  setLogger(boost::shared_ptr<Logger>(new StdOutLogger));
  return vm::finish();
}
