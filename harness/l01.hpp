// Log statements ("sites") of every kind, for the logging monitors (l01*.cpp).
#ifndef L01_HPP
#define L01_HPP
#include <string>
#include <vector>
#include <sm/logging.hpp>

// One execution of a log statement: what it is given, and what it did.
struct Call {
  std::string text;            // the message
  bool cond = true;            // for conditional statements
  double rate = 0;             // for throttled statements
  sm::logging::Level level = sm::logging::levels::All;   // for statements whose level is a variable
  int args = 0, conds = 0;     // evaluations of the message arguments / the condition
  const char* file = nullptr; int line = 0; const char* function = nullptr;   // where the statement is
  const char* arg() { ++args; return text.c_str(); }
  bool test() { ++conds; return cond; }
  void at(const char* f, int l, const char* fn) { file = f; line = l; function = fn; }
};
enum Kind { PLAIN, COND, ONCE, THROTTLE };
struct Site {
  const char* macro;
  bool variable;               // level is Call::level
  sm::logging::Level level;
  std::string stream;
  Kind kind;
  bool compiledOut;            // below SMCONSOLE_MIN_SEVERITY
  int set;                     // which instance
  void (*run)(Call&);
};
std::vector<Site>& sitesAll();      // with SMCONSOLE_MIN_SEVERITY at its default
std::vector<Site>& sitesWarn();     // with SMCONSOLE_MIN_SEVERITY = WARN
#endif
