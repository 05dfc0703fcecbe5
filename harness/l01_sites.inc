// Included with SITES (function name), SETS (instances of every statement) and, as the case may be, SMCONSOLE_MIN_SEVERITY.
#include "l01.hpp"
namespace {
#define ADD(VAR, LEVEL, STREAM, KIND, ...) \
  v.push_back(Site{#__VA_ARGS__, VAR, LEVEL, STREAM, KIND, (int)(LEVEL) < SMCONSOLE_MIN_SEVERITY && !(VAR) && IS_LEVEL_MACRO, N, \
    [](Call& c) { (void)c; c.at(__FILE__, __LINE__, __PRETTY_FUNCTION__); __VA_ARGS__; }});
// the 16 statements of one level
#define LEVEL_SITES(M, L, A, B) \
  ADD(false, L, "sm", PLAIN, SM_##M("%s", c.arg())) \
  ADD(false, L, "sm", PLAIN, SM_##M##_STREAM(c.arg())) \
  ADD(false, L, "sm." A, PLAIN, SM_##M##_NAMED(A, "%s", c.arg())) \
  ADD(false, L, "sm." B, PLAIN, SM_##M##_STREAM_NAMED(B, c.arg())) \
  ADD(false, L, "sm", COND, SM_##M##_COND(c.test(), "%s", c.arg())) \
  ADD(false, L, "sm", COND, SM_##M##_STREAM_COND(c.test(), c.arg())) \
  ADD(false, L, "sm." B, COND, SM_##M##_COND_NAMED(c.test(), B, "%s", c.arg())) \
  ADD(false, L, "sm." A, COND, SM_##M##_STREAM_COND_NAMED(c.test(), A, c.arg())) \
  ADD(false, L, "sm", ONCE, SM_##M##_ONCE("%s", c.arg())) \
  ADD(false, L, "sm", ONCE, SM_##M##_STREAM_ONCE(c.arg())) \
  ADD(false, L, "sm." A, ONCE, SM_##M##_ONCE_NAMED(A, "%s", c.arg())) \
  ADD(false, L, "sm." B, ONCE, SM_##M##_STREAM_ONCE_NAMED(B, c.arg())) \
  ADD(false, L, "sm", THROTTLE, SM_##M##_THROTTLE(c.rate, "%s", c.arg())) \
  ADD(false, L, "sm", THROTTLE, SM_##M##_STREAM_THROTTLE(c.rate, c.arg())) \
  ADD(false, L, "sm." B, THROTTLE, SM_##M##_THROTTLE_NAMED(c.rate, B, "%s", c.arg())) \
  ADD(false, L, "sm." A, THROTTLE, SM_##M##_STREAM_THROTTLE_NAMED(c.rate, A, c.arg()))
template <int N> void addSites(std::vector<Site>& v) {
  using namespace sm::logging::levels;
#define IS_LEVEL_MACRO true
  LEVEL_SITES(ALL, All, "a", "b")
  LEVEL_SITES(FINEST, Finest, "a", "b.c")
  LEVEL_SITES(VERBOSE, Verbose, "b", "b.c")
  LEVEL_SITES(FINER, Finer, "b.c", "a")
  LEVEL_SITES(TRACE, Trace, "a", "sm")
  LEVEL_SITES(FINE, Fine, "b", "a")
  LEVEL_SITES(DEBUG, Debug, "a", "b")
  LEVEL_SITES(INFO, Info, "a", "b.c")
  LEVEL_SITES(WARN, Warn, "b", "sm.a")
  LEVEL_SITES(ERROR, Error, "a", "b.c")
  LEVEL_SITES(FATAL, Fatal, "b", "a")
#undef IS_LEVEL_MACRO
#define IS_LEVEL_MACRO false
  ADD(true, All, "", PLAIN, SM_LOG(c.level, "", "%s", c.arg()))
  ADD(true, All, "raw", PLAIN, SM_LOG(c.level, "raw", "%s", c.arg()))
  ADD(true, All, "", PLAIN, SM_LOG_STREAM(c.level, "", c.arg()))
  ADD(true, All, "sm.a", PLAIN, SM_LOG_STREAM(c.level, std::string("sm.") + "a", c.arg()))
  ADD(true, All, "sm", PLAIN, SM_LOG_STREAM_NAME(SMCONSOLE_DEFAULT_NAME, c.level, c.arg()))
  ADD(true, All, "raw", PLAIN, SM_LOG_STREAM_NAME("raw", c.level, c.arg()))
  ADD(true, All, "", COND, SM_LOG_COND(c.test(), c.level, "", "%s", c.arg()))
  ADD(true, All, "sm.b", COND, SM_LOG_STREAM_COND(c.test(), c.level, "sm.b", c.arg()))
  ADD(true, All, "", ONCE, SM_LOG_ONCE(c.level, "", "%s", c.arg()))
  ADD(true, All, "raw", ONCE, SM_LOG_STREAM_ONCE(c.level, "raw", c.arg()))
  ADD(true, All, "raw", THROTTLE, SM_LOG_THROTTLE(c.rate, c.level, "raw", "%s", c.arg()))
  ADD(true, All, "", THROTTLE, SM_LOG_STREAM_THROTTLE(c.rate, c.level, "", c.arg()))
  ADD(false, Debug, "", PLAIN, SM_LOG(Debug, "", "%s", c.arg()))
  ADD(false, Warn, "raw", PLAIN, SM_LOG_STREAM(Warn, "raw", c.arg()))
  // two statements on one line, statements as a branch without braces
  ADD(false, Error, "sm", PLAIN, if (c.line) SM_ERROR("%s", c.arg()); else SM_WARN_STREAM(c.arg()))
#undef IS_LEVEL_MACRO
}
template <int N> struct AddSets { static void go(std::vector<Site>& v) { addSites<N>(v); AddSets<N - 1>::go(v); } };
template <> struct AddSets<-1> { static void go(std::vector<Site>&) {} };
}
std::vector<Site>& SITES() {
  static std::vector<Site> v;
  if (v.empty()) AddSets<SETS - 1>::go(v);
  return v;
}
