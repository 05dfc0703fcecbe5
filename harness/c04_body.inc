// Included once per build mode (debug, release, release with assertions always on).
#include "c04.hpp"
#include <sm/assert_macros.hpp>
#include <sm/eigen/assert_macros.hpp>
#include <Eigen/Core>
#include <sm/logging/console.hpp>
#include <sm/logging/assert.h>
#include <sys/wait.h>
#include <sys/resource.h>
namespace {
SM_DEFINE_EXCEPTION(Ex, std::runtime_error)
SM_DEFINE_EXCEPTION(ExArg, std::invalid_argument)
int g_msg = 0, g_op = 0;
std::string note() { ++g_msg; return "note-" + std::to_string(g_msg) + "-end"; }
template <class T> T op(T x) { ++g_op; return x; }
template <class T> std::string ts(const T& x) { std::stringstream s; s << x; return s.str(); }
void judge(const char* name, bool dbg, bool active, bool holds, int threw, const std::string& what, int line, const char* fn, const char* exName, std::vector<std::string> values, const char* desc) {
  std::ostringstream d; d << MODE << " " << name << " with " << desc << ": ";
  for (auto& v : values) d << v << " ";
  d << "-> " << (threw == 1 ? "threw" : threw == 2 ? "threw another type" : "no exception") << " \"" << what << "\"";
  bool expect = active && !holds;
  std::string k = std::string("assert/") + name;
  VM_CHECK(threw != 2, k + "/type", d.str());
  VM_CHECK((threw != 0) == expect, k + (expect ? "/missed" : "/spurious"), d.str());
  VM_CHECK(g_msg == (expect ? 1 : 0), k + "/message-evaluated", "the message was evaluated " << g_msg << " times; " << d.str());
  if (!active) VM_CHECK(g_op == 0, k + "/evaluated-in-release", d.str());
  if (active) VM_CHECK(g_op >= 1 || values.empty(), k + "/not-evaluated", d.str());
  if (threw && expect) {
    auto has = [&](const std::string& s) { return what.find(s) != std::string::npos; };
    VM_CHECK(has("note-1-end"), k + "/message-missing", d.str());
    VM_CHECK(has(std::string(__FILE__) + ":" + std::to_string(line)), k + "/place-missing", d.str());
    VM_CHECK(has(fn), k + "/function-missing", d.str());
    VM_CHECK(has(exName), k + "/exception-name-missing", d.str());
    for (auto& v : values) VM_CHECK(has(v), k + "/value-missing", "value " << v << "; " << d.str());
    vm::event(std::string(MODE) + ":fired");
  }
  vm::event(std::string(MODE) + ":evaluated");
}
#define TRY(NAME, DBG, HOLDS, VALUES, DESC, ...) do {                                          \
    g_msg = 0; g_op = 0; int threw_ = 0; std::string what_; int line_ = __LINE__;              \
    try { if (true) { NAME(Ex, __VA_ARGS__, note()) } }                                        \
    catch (const Ex& e) { threw_ = 1; what_ = e.what(); }                                      \
    catch (const std::exception& e) { threw_ = 2; what_ = e.what(); }                          \
    judge(#NAME, DBG, !(DBG) || ACTIVE, HOLDS, threw_, what_, line_, __FUNCTION__, "Ex", VALUES, DESC); } while (0)
#define V1 (std::vector<std::string>{ts(a)})
#define V2 (std::vector<std::string>{ts(a), ts(b)})
#define V3 (std::vector<std::string>{ts(a), ts(b), ts(c)})
#define R1(OP) (std::vector<std::string>{ts(a) + " " OP " 0"})
#define R2(OP) (std::vector<std::string>{ts(a) + " " OP " " + ts(b)})
#define R3(L, U) (std::vector<std::string>{ts(b) + " " L " " + ts(a) + " " U " " + ts(c)})
#define V0 (std::vector<std::string>{})
#define BOTH(NAME, HOLDS, VALUES, DESC, ...) do { TRY(NAME, false, HOLDS, VALUES, DESC, __VA_ARGS__); TRY(NAME##_DBG, true, HOLDS, VALUES, DESC, __VA_ARGS__); } while (0)

template <class T> void relational(T a, T b, T c, const char* desc) {
  BOTH(SM_ASSERT_LT, a < b, R2("<"), desc, op(a), op(b));
  BOTH(SM_ASSERT_LE, a <= b, R2("<="), desc, op(a), op(b));
  BOTH(SM_ASSERT_GT, a > b, R2(">"), desc, op(a), op(b));
  BOTH(SM_ASSERT_GE, a >= b, R2(">="), desc, op(a), op(b));
  BOTH(SM_ASSERT_EQ, a == b, R2("=="), desc, op(a), op(b));
  BOTH(SM_ASSERT_NE, a != b, R2("!="), desc, op(a), op(b));
  BOTH(SM_ASSERT_GE_LT, (b <= a && a < c), R3("<=", "<"), desc, op(a), op(b), op(c));
  BOTH(SM_ASSERT_GT_LE, (b < a && a <= c), R3("<", "<="), desc, op(a), op(b), op(c));
  BOTH(SM_ASSERT_GE_LE, (b <= a && a <= c), R3("<=", "<="), desc, op(a), op(b), op(c));
  BOTH(SM_ASSERT_NEAR, std::fabs((double)b - (double)a) <= std::fabs((double)c), V2, desc, op(a), op(b), op(c));
  BOTH(SM_ASSERT_POSITIVE, a > 0, R1(">"), desc, op(a));
  BOTH(SM_ASSERT_NONNEGATIVE, a >= 0, R1(">="), desc, op(a));
  BOTH(SM_ASSERT_NEGATIVE, a < 0, R1("<"), desc, op(a));
  BOTH(SM_ASSERT_NONPOSITIVE, a <= 0, R1("<="), desc, op(a));
  BOTH(SM_ASSERT_ZERO, a == 0, R1("=="), desc, op(a));
  // operands that are expressions, not names
  BOTH(SM_ASSERT_LT, (a > b ? a : b) < c, V0, desc, op(a) > b ? a : b, c);
  BOTH(SM_ASSERT_TRUE, (a < b || b < c), V0, desc, op(a) < b || b < c);
  BOTH(SM_ASSERT_FALSE, !(a < b && b < c), V0, desc, (op(a) < b && b < c));
  BOTH(SM_ASSERT_TRUE, a == b, V0, desc, op(a) == b);
}
void modeRun() {
  vm::run(std::string("macros-") + MODE, 700, [](vm::Rng& r, uint64_t) {
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    auto g = [&]() -> double { switch (r.below(6)) { case 0: return r.pickl({nan, inf, -inf}); case 1: return r.pickl({0.0, -0.0, 1.0, -1.0}); case 2: return r.logmag(-3, 3); default: return (double)r.range(-3, 3); } };
    double a = g(), b = g(), c = g();
    relational<double>(a, b, c, "doubles");
    relational<int>((int)r.range(-3, 3), (int)r.range(-3, 3), (int)r.range(-3, 3), "ints");
    BOTH(SM_ASSERT_FINITE, std::isfinite(a), V1, "doubles", op(a));
    BOTH(SM_ASSERT_NOTNAN, !std::isnan(a), V0, "doubles", op(a));
    std::string s1(r.below(2), 'p'), s2(r.below(2), 'p');
    { std::string a = "\"" , b; (void)a; (void)b; BOTH(SM_ASSERT_EQ, s1 == s2, V0, "strings", op(s1), op(s2)); }
    int x = 3; int* p = r.chance(1, 2) ? &x : nullptr; int* q = nullptr;
    BOTH(SM_ASSERT_NOTNULL, p != nullptr, V0, "pointers", op(p));
    TRY(SM_ASSERT_NOTNULL, false, (p ? p : q) != nullptr, V0, "a conditional pointer", op(p) ? p : q);
    TRY(SM_ASSERT_NULL, false, p == nullptr, V0, "pointers", op(p));
    TRY(SM_ASSERT_NULL, false, (p ? q : p) == nullptr, V0, "a conditional pointer", op(p) ? q : p);
    vm::nontrivial(vm::combine(vm::bits(a), vm::combine(vm::bits(b), vm::hashStr(MODE, vm::bits(c)))));
    // throwing unconditionally
    int threw = 0, line = 0; std::string what;
    try { line = __LINE__; SM_THROW(ExArg, "thrown " << a << ' ' << x); } catch (const ExArg& e) { threw = 1; what = e.what(); } catch (...) { threw = 2; }
    VM_CHECK(threw == 1 && what.find("thrown " + ts(a) + " 3") != std::string::npos && what.find(std::string(__FILE__) + ":" + std::to_string(line)) != std::string::npos && what.find("ExArg") != std::string::npos, "throw", what);
    threw = 0; what.clear();
    try { SM_THROW_DBG(ExArg, "thrown " << a); } catch (const ExArg& e) { threw = 1; what = e.what(); }
    VM_CHECK(threw == (ACTIVE ? 1 : 0), "throw-debug", MODE << " " << threw);
    sm::source_file_pos sfp("some_fn", "dir/file.cc", (int)r.below(100000));
    threw = 0; what.clear();
    try { SM_THROW_SFP(Ex, sfp, "sfp " << b); } catch (const Ex& e) { threw = 1; what = e.what(); }
    std::string place = "dir/file.cc:" + std::to_string(sfp.line) + ": some_fn()";
    VM_CHECK(threw == 1 && what.find(place) != std::string::npos && what.find("sfp " + ts(b)) != std::string::npos && sfp.toString() == place && std::string(sfp) == place, "throw-at", what);
    bool cond = r.chance(1, 2);
    threw = 0; what.clear();
    try { sm::sm_assert_throw<ExArg>(cond, "the message", SM_SOURCE_FILE_POS); line = __LINE__; } catch (const ExArg& e) { threw = 1; what = e.what(); }
    VM_CHECK(threw == !cond, "assert-function", "condition " << cond << " threw " << threw);
    if (!cond) VM_CHECK(what.find("the message") != std::string::npos && what.find(__FILE__) != std::string::npos, "assert-function", what);
    // the logging assertions
    int ran = 0; double y = a;
    SM_ASSERT_CMD(y > 0, ran++);
    VM_CHECK(ran == (LOGASSERT ? !(y > 0) : 0), "assert-command", MODE << ": with " << y << " > 0 the command ran " << ran << " times");
    ran = 0;
    SM_ASSERT_CMD(x == 3 && y > 0, { ran++; });
    VM_CHECK(ran == (LOGASSERT ? !(y > 0) : 0), "assert-command", MODE << ": a conjunction, " << ran);
  });
  vm::run(std::string("matrices-") + MODE, 400, [](vm::Rng& r, uint64_t) {
    int rows = (int)r.below(5), cols = (int)r.below(5);
    Eigen::MatrixXd m(rows, cols);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m(i, j) = r.logmag(-300, 300);
    bool finite = true;
    if (rows && cols && r.chance(1, 2)) { m(r.below(rows), r.below(cols)) = r.pickl({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()}); finite = false; }
    int t1 = 0, t2 = 0; g_msg = 0; std::string what;
    try { SM_ASSERT_MAT_IS_FINITE(Ex, m, note()); } catch (const Ex& e) { t1 = 1; what = e.what(); }
    VM_CHECK(t1 == !finite && g_msg == !finite, "assert-matrix", MODE << " finite " << finite << " threw " << t1);
    if (t1) VM_CHECK(what.find("note-1") != std::string::npos && what.find(__FILE__) != std::string::npos, "assert-matrix-text", what);
    try { SM_ASSERT_MAT_IS_FINITE_DBG(Ex, m, note()); } catch (const Ex& e) { t2 = 1; }
    VM_CHECK(t2 == (LOGASSERT ? !finite : 0), "assert-matrix-debug", MODE << " finite " << finite << " threw " << t2);
    vm::nontrivial(vm::combine(rows * 10 + cols, finite));
  });
  vm::run(std::string("trap-") + MODE, 12, [](vm::Rng& r, uint64_t i) {
    int v = (int)r.range(-1, 1); int kind = (int)(i % 3);
    ::fflush(nullptr);
    pid_t pid = ::fork();
    if (pid == 0) {
      rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
      if (kind == 0) { SM_ASSERT(v > 0); }
      else if (kind == 1) { SM_ASSERT_MSG(v > 0, "value %d", v); }
      else if (v <= 0) { SM_BREAK(); }
      ::_exit(7);
    }
    int st = 0; ::waitpid(pid, &st, 0);
    bool stopped = WIFSIGNALED(st) && WTERMSIG(st) == SIGTRAP, passed = WIFEXITED(st) && WEXITSTATUS(st) == 7;
    bool expect = LOGASSERT && !(v > 0);
    VM_CHECK(expect ? stopped : passed, "assert-trap", MODE << " kind " << kind << " value " << v << " status " << st);
    vm::event(expect ? "trapped" : "passed-through");
  }, 2);
}
}  // namespace
