// Fresh ONCE statements for threads to race for.
#include "l01.hpp"
namespace {
template <int N> struct Once {
  static void go(std::vector<void (*)(Call&)>& v) {
    v.push_back([](Call& c) { SM_LOG_ONCE(sm::logging::levels::Fatal, "", "%s", c.arg()); });
    v.push_back([](Call& c) { SM_FATAL_STREAM_ONCE(c.arg()); });
    Once<N - 1>::go(v);
  }
};
template <> struct Once<0> { static void go(std::vector<void (*)(Call&)>&) {} };
}
std::vector<void (*)(Call&)>& onceSites() {
  static std::vector<void (*)(Call&)> v;
  if (v.empty()) Once<150>::go(v);
  return v;
}
