// An embedded Python with the extension module of sm_python, for the monitors of Y01 and Y02.
#pragma once
#include "pyeigen.hpp"
#include "vm.hpp"
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/BoostPropertyTree.hpp>

extern "C" PyObject* PyInit_libsm_python();

namespace y {
namespace bp = boost::python;
typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4; typedef Eigen::Matrix3d M3; typedef Eigen::Matrix4d M4; typedef Eigen::VectorXd VX; typedef Eigen::MatrixXd MX;

inline bp::object& mod() { static bp::object* m = new bp::object; return *m; }
// The pending Python exception as text, cleared.
inline std::string error() {
  PyObject *t, *v, *b;
  PyErr_Fetch(&t, &v, &b);
  if (!t) return "no exception";
  PyErr_NormalizeException(&t, &v, &b);
  std::string s = ((PyTypeObject*)t)->tp_name;
  if (v) if (PyObject* str = PyObject_Str(v)) { if (const char* c = PyUnicode_AsUTF8(str)) s += std::string(": ") + c; Py_DECREF(str); }
  Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
  PyErr_Clear();
  return s;
}
template <class F> bool attempt(const char* what, F f) {
  try { f(); return true; } catch (const bp::error_already_set&) { vm::fail(std::string("python-raises/") + what, error()); return false; }
}

// Does the same in C++ and in Python: both succeed or both throw.
template <class F, class G> void both(const std::string& what, F cpp, G py) {
  std::string threw;
  try { cpp(); } catch (const std::exception& e) { threw = e.what(); if (threw.empty()) threw = "an exception"; }
  try { py(); VM_CHECK(threw.empty(), "python/" + what, "no exception, but C++ throws: " << threw); }
  catch (const bp::error_already_set&) { std::string e = error(); VM_CHECK(!threw.empty(), "python-raises/" + what, e); }
  vm::event("calls");
}

template <class A, class B> bool bitsEq(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (Eigen::Index j = 0; j < a.cols(); ++j) for (Eigen::Index i = 0; i < a.rows(); ++i) if (vm::bits(a(i, j)) != vm::bits(b(i, j)) && !(std::isnan(a(i, j)) && std::isnan(b(i, j)))) return false;
  return true;
}
template <class T, int R, int C> bool eq(const Eigen::Matrix<T, R, C>& a, const Eigen::Matrix<T, R, C>& b) { return bitsEq(a, b) || (a.size() == 0 && b.size() == 0); }  // a list does not carry the columns of no rows
inline bool eq(double a, double b) { return vm::bits(a) == vm::bits(b) || (std::isnan(a) && std::isnan(b)); }
inline bool eq(int64_t a, int64_t b) { return a == b; }
inline bool eq(long long a, long long b) { return a == b; }
inline bool eq(int a, int b) { return a == b; }
inline bool eq(size_t a, size_t b) { return a == b; }
inline bool eq(bool a, bool b) { return a == b; }
inline bool eq(const std::string& a, const std::string& b) { return a == b; }
inline bool eq(const sm::kinematics::Transformation& a, const sm::kinematics::Transformation& b) { return bitsEq(a.q(), b.q()) && bitsEq(a.t(), b.t()); }
inline bool eq(const sm::kinematics::UncertainTransformation& a, const sm::kinematics::UncertainTransformation& b) { return bitsEq(a.q(), b.q()) && bitsEq(a.t(), b.t()) && bitsEq(a.U(), b.U()); }
inline bool eq(const sm::kinematics::HomogeneousPoint& a, const sm::kinematics::HomogeneousPoint& b) { return bitsEq(a.toHomogeneous(), b.toHomogeneous()); }
inline bool eq(const sm::kinematics::UncertainHomogeneousPoint& a, const sm::kinematics::UncertainHomogeneousPoint& b) { return bitsEq(a.toHomogeneous(), b.toHomogeneous()) && bitsEq(a.U4(), b.U4()); }
inline bool eq(const sm::kinematics::UncertainVector<1>& a, const sm::kinematics::UncertainVector<1>& b) { return eq(a.mean(), b.mean()) && eq(a.covariance(), b.covariance()); }
template <int D> bool eq(const sm::kinematics::UncertainVector<D>& a, const sm::kinematics::UncertainVector<D>& b) { return bitsEq(a.mean(), b.mean()) && bitsEq(a.covariance(), b.covariance()); }

template <class T, int R, int C> std::string show(const Eigen::Matrix<T, R, C>& a) { std::ostringstream o; o << std::setprecision(17) << a.format(Eigen::IOFormat(17, Eigen::DontAlignCols, ", ", "; ", "", "", "[", "]")); return o.str(); }
template <class T> std::enable_if_t<std::is_arithmetic<T>::value, std::string> show(T a) { return vm::str(a); }
inline std::string show(const std::string& s) { return "\"" + vm::esc(s) + "\""; }
inline std::string show(const sm::kinematics::Transformation& a) { return "T(" + show(V4(a.q())) + ", " + show(V3(a.t())) + ")"; }
inline std::string show(const sm::kinematics::UncertainTransformation& a) { return "T(" + show(V4(a.q())) + ", " + show(V3(a.t())) + ", " + show(Eigen::Matrix<double, 6, 6>(a.U())) + ")"; }
inline std::string show(const sm::kinematics::HomogeneousPoint& a) { return "P(" + show(V4(a.toHomogeneous())) + ")"; }
inline std::string show(const sm::kinematics::UncertainHomogeneousPoint& a) { return "P(" + show(V4(a.toHomogeneous())) + ", " + show(M4(a.U4())) + ")"; }
inline std::string show(const sm::kinematics::UncertainVector<1>& a) { return "V(" + show(a.mean()) + ", " + show(a.covariance()) + ")"; }
template <int D> std::string show(const sm::kinematics::UncertainVector<D>& a) { return "V(" + show(Eigen::Matrix<double, D, 1>(a.mean())) + ", " + show(Eigen::Matrix<double, D, D>(a.covariance())) + ")"; }

template <class R> struct Value { R v; };
// Calls a Python function and judges it by what the C++ function returns, or throws, for the same arguments.
template <class F, class... A> void sameWith(bp::object in, const std::string& cls, const char* name, F cpp, const A&... a) {
  typedef std::decay_t<decltype(cpp())> R;
  std::string what = cls.empty() ? name : cls + "." + name;
  std::unique_ptr<R> want;
  std::string threw;
  try { want.reset(new R(cpp())); } catch (const std::exception& e) { threw = e.what(); }
  try {
    bp::object o = in.attr(name)(a...);
    if (!want) { vm::fail("python/" + what, "no exception, but C++ throws: " + threw); return; }
    R got = bp::extract<R>(o)();
    VM_CHECK(eq(got, *want), "python/" + what, show(got) << " instead of " << show(*want));
  } catch (const bp::error_already_set&) {
    std::string e = error();
    VM_CHECK(!want, "python/" + what, "raises " << e << ", but C++ returns " << show(*want));
  }
  vm::event("calls");
  if (want) vm::sample(what + " is " + show(*want)); else vm::sample(what + " raises");
}
template <class F, class... A> void sameIn(bp::object in, const std::string& cls, const char* name, F cpp, const A&... a) { sameWith(in, cls, name, cpp, a...); }
template <class F, class... A> void same(const char* name, F cpp, const A&... a) { sameWith(mod(), "", name, cpp, a...); }

inline void start() {
  setenv("PYTHONMALLOC", "malloc", 1);  // every Python object a block of its own, so that the sanitizer sees its end
  setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  unsetenv("PYTHONPATH"); unsetenv("PYTHONHOME"); unsetenv("PYTHONSTARTUP");
  PyImport_AppendInittab("libsm_python", &PyInit_libsm_python);
  Py_InitializeEx(0);
  pyeigen::registerAll();
  try { mod() = bp::import("libsm_python"); } catch (const bp::error_already_set&) { vm::fail("python-import", error()); std::exit(vm::finish()); }
}
}  // namespace y
