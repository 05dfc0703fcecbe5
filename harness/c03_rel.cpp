// The comparisons as a release build sees them, where the debug assertions are not there.
#ifndef NDEBUG
#define NDEBUG
#endif
#include <sm/numerical_comparisons.hpp>
template <class T> int refused(T a, T b, T bad) {
  int n = 0;
  try { sm::approximatelyEqual(a, b, bad); } catch (const std::invalid_argument&) { n++; }
  try { sm::definitelyGreaterThan(a, b, bad); } catch (const std::invalid_argument&) { n++; }
  try { sm::definitelyLessThan(a, b, bad); } catch (const std::invalid_argument&) { n++; }
  return n;
}
int refusedRelease(double a, double b, double bad) { return refused(a, b, bad); }
int refusedRelease(float a, float b, float bad) { return refused(a, b, bad); }
