// sm_python: the Python module computes what the C++ library computes.
#include "y.hpp"
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/property_tree.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/property_tree.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/random.hpp>
#include <sm/Id.hpp>
#include <sm/python/Id.hpp>
#include <sm/python/stl_converters.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <cstdlib>
#include <set>

using namespace y;
namespace smk = sm::kinematics;

namespace {
typedef Eigen::Matrix<double, 6, 1> V6;
typedef Eigen::Matrix<double, 6, 6> M6;
double num(vm::Rng& r) { return r.chance(1, 12) ? r.pickl({0.0, 1.0, -1.0, 1e-9, 3.141592653589793, -1.5707963267948966, 100.0}) : r.chance(1, 6) ? r.logmag(-8, 3) : r.uniform(-3, 3); }
template <int R, int C> Eigen::Matrix<double, R, C> rnd(vm::Rng& r) { Eigen::Matrix<double, R, C> m; for (int i = 0; i < m.size(); ++i) m.data()[i] = num(r); return m; }
V3 v3(vm::Rng& r) { return rnd<3, 1>(r); }
V4 v4(vm::Rng& r) { return rnd<4, 1>(r); }
V4 quat(vm::Rng& r) { V4 q; do { for (int i = 0; i < 4; ++i) q[i] = r.uniform(-1, 1); } while (q.norm() < 0.1); return q / q.norm(); }
M3 rot(vm::Rng& r) { return smk::quat2r(quat(r)); }
M4 trans(vm::Rng& r) { return smk::rt2Transform(rot(r), v3(r)); }
template <int N> Eigen::Matrix<double, N, N> cov(vm::Rng& r) { Eigen::Matrix<double, N, N> A = rnd<N, N>(r); return A * A.transpose(); }

void rotations(vm::Rng& r, uint64_t) {
  double a = num(r), b = num(r), c = num(r);
  V3 v = v3(r); M3 R = rot(r);
  same("Rx", [&] { return smk::Rx(a); }, a); same("Ry", [&] { return smk::Ry(a); }, a); same("Rz", [&] { return smk::Rz(a); }, a);
  same("Cx", [&] { return smk::Cx(a); }, a); same("Cy", [&] { return smk::Cy(a); }, a); same("Cz", [&] { return smk::Cz(a); }, a);
  same("rph2R", [&] { return smk::rph2R(a, b, c); }, a, b, c); same("rph2R", [&] { return smk::rph2R(v); }, v);
  same("rph2C", [&] { return smk::rph2C(a, b, c); }, a, b, c); same("rph2C", [&] { return smk::rph2C(v); }, v);
  same("C2rph", [&] { return smk::C2rph(R); }, R); same("R2rph", [&] { return smk::R2rph(R); }, R);
  same("crossMx", [&] { return M3(smk::crossMx(a, b, c)); }, a, b, c); same("crossMx", [&] { return M3(smk::crossMx(v)); }, v);
  same("axisAngle2R", [&] { return smk::axisAngle2R(a, b, c); }, a, b, c); same("axisAngle2R", [&] { return smk::axisAngle2R(v); }, v);
  same("R2AxisAngle", [&] { return smk::R2AxisAngle(R); }, R);
  double big = r.logmag(-3, 7);
  same("angleMod", [&] { return smk::angleMod(big); }, big); same("deg2rad", [&] { return smk::deg2rad(big); }, big); same("rad2deg", [&] { return smk::rad2deg(big); }, big);
  vm::nontrivial(vm::combine(vm::bits(a), vm::bits(v[0])));
}
void quaternions(vm::Rng& r, uint64_t) {
  V4 q = quat(r), p = quat(r); V3 v = v3(r); M3 R = rot(r);
  double t = r.chance(1, 5) ? r.pickl({0.0, 1.0, -0.5, 1.5}) : r.unit();
  same("quat2r", [&] { return smk::quat2r(q); }, q); same("r2quat", [&] { return smk::r2quat(R); }, R);
  same("axisAngle2quat", [&] { return V4(smk::axisAngle2quat(v)); }, v); same("quat2AxisAngle", [&] { return V3(smk::quat2AxisAngle<double>(q)); }, q);
  same("quatPlus", [&] { return smk::quatPlus(q); }, q); same("quatOPlus", [&] { return smk::quatOPlus(q); }, q);
  same("quatInv", [&] { return smk::quatInv(q); }, q); same("qeps", [&] { return V3(smk::qeps(q)); }, q); same("qeta", [&] { return (double)smk::qeta(q); }, q);
  same("quatJacobian", [&] { return smk::quatJacobian(q); }, q); same("updateQuat", [&] { return smk::updateQuat(q, v); }, q, v);
  same("quatIdentity", [&] { return smk::quatIdentity(); });
  same("quatS", [&] { return smk::quatS(q); }, q); same("quatInvS", [&] { return smk::quatInvS(q); }, q);
  same("quatRotate", [&] { return smk::quatRotate(q, v); }, q, v);
  same("qplus", [&] { return smk::qplus(q, p); }, q, p); same("qoplus", [&] { return smk::qoplus(q, p); }, q, p);
  same("qlog", [&] { return V3(smk::qlog(q)); }, q); same("qexp", [&] { return V4(smk::qexp(v)); }, v); same("qslerp", [&] { return V4(smk::qslerp(q, p, t)); }, q, p, t);
  int n = r.range(1, 5); VX x = VX::NullaryExpr(n, [&](Eigen::Index) { return num(r); }), z = VX::NullaryExpr(r.chance(1, 30) ? n + 1 : n, [&](Eigen::Index) { return num(r); });
  same("lerp", [&] { return smk::lerp(x, z, t); }, x, z, t);
  uint64_t s = r.next(); std::srand((unsigned)s); sm::random::seed(s); V4 want = smk::quatRandom();
  std::srand((unsigned)s); sm::random::seed(s); same("quatRandom", [&] { return want; });
  vm::nontrivial(vm::combine(vm::bits(q[0]), vm::bits(v[0])));
}
void transformations(vm::Rng& r, uint64_t) {
  M4 T = trans(r); M3 R = rot(r); V3 v = v3(r); V4 h = v4(r); V6 d = rnd<6, 1>(r);
  same("rt2Transform", [&] { return smk::rt2Transform(R, v); }, R, v); same("transform2C", [&] { return smk::transform2C(T); }, T);
  same("transform2rho", [&] { return smk::transform2rho(T); }, T); same("transform2rhoHomogeneous", [&] { return smk::transform2rhoHomogeneous(T); }, T);
  same("boxPlus", [&] { return smk::boxPlus(d); }, d); same("boxMinus", [&] { return smk::boxMinus(h); }, h); same("boxTimes", [&] { return smk::boxTimes(T); }, T);
  same("inverseTransform", [&] { return smk::inverseTransform(T); }, T);
  same("toTEuler", [&] { return smk::toTEuler(d[0], d[1], d[2], d[3], d[4], d[5]); }, d[0], d[1], d[2], d[3], d[4], d[5]);
  same("toTEuler", [&] { return smk::toTEuler(d); }, d); same("fromTEuler", [&] { return V6(smk::fromTEuler(T)); }, T);
  auto tuple = [&](const char* name, void (*f)(const M4&, const V4&, V4&, Eigen::Matrix<double, 4, 6>&)) {
    V4 o; Eigen::Matrix<double, 4, 6> B; f(T, h, o, B);
    attempt(name, [&] {
      bp::object t = mod().attr(name)(T, h);
      VM_CHECK(bp::len(t) == 2 && eq(bp::extract<V4>(t[0])(), o) && eq(bp::extract<Eigen::Matrix<double, 4, 6>>(t[1])(), B), std::string("python/") + name, "the pair returned for " << T << " and " << h.transpose());
    });
  };
  tuple("transformationAndJacobian", &smk::transformationAndJacobian); tuple("inverseTransformationAndJacobian", &smk::inverseTransformationAndJacobian);
  h[3] = r.chance(1, 3) ? 1 : r.uniform(0.2, 3);
  same("toHomogeneousJacobian", [&] { return smk::toHomogeneousJacobian(v); }, v); same("toHomogeneous", [&] { return smk::toHomogeneous(v); }, v);
  same("fromHomogeneousJacobian", [&] { return smk::fromHomogeneousJacobian(h); }, h); same("fromHomogeneous", [&] { return smk::fromHomogeneous(h); }, h);
  int n = r.range(1, 5), rows = r.chance(1, 20) ? 2 : 3; MX P = MX::NullaryExpr(rows, n, [&](Eigen::Index, Eigen::Index) { return num(r); }), H = MX::NullaryExpr(rows + 1, n, [&](Eigen::Index, Eigen::Index) { return r.uniform(0.1, 2); });
  same("toHomogeneousColumns", [&] { return smk::toHomogeneousColumns(P); }, P); same("fromHomogeneousColumns", [&] { return smk::fromHomogeneousColumns(H); }, H);
  vm::nontrivial(vm::combine(vm::bits(T(0, 0)), vm::bits(d[0])));
}
template <class K> void parameters(vm::Rng& r, const char* name) {
  K k; V3 p = v3(r), d = v3(r); M3 R = rot(r);
  bp::object o; attempt(name, [&] { o = mod().attr(name)(); });
  sameIn(o, name, "parametersToRotationMatrix", [&] { return k.parametersToRotationMatrix(p); }, p);
  sameIn(o, name, "rotationMatrixToParameters", [&] { return k.rotationMatrixToParameters(R); }, R);
  sameIn(o, name, "parametersToSMatrix", [&] { return k.parametersToSMatrix(p); }, p);
  bool threw = false; Eigen::Matrix<double, 3, 6> J; V3 w = V3::Zero();
  try { w = k.angularVelocityAndJacobian(p, d, &J); } catch (const std::exception&) { threw = true; }
  bool pthrew = false;
  try {
    bp::object t = o.attr("angularVelocityAndJacobian")(p, d);
    VM_CHECK(bp::len(t) == 2 && eq(bp::extract<V3>(t[0])(), w) && eq(bp::extract<Eigen::Matrix<double, 3, 6>>(t[1])(), J), std::string("python/") + name, "angularVelocityAndJacobian of " << p.transpose() << ", " << d.transpose());
  } catch (const bp::error_already_set&) { std::string e = error(); pthrew = true; VM_CHECK(threw, std::string("python/") + name, "angularVelocityAndJacobian raised " << e); }
  VM_CHECK(threw == pthrew, std::string("python/") + name, "angularVelocityAndJacobian does not report an error");
  vm::nontrivial(vm::combine(vm::hashStr(name), vm::bits(p[0])));
}
void parameterisations(vm::Rng& r, uint64_t) {
  parameters<smk::EulerAnglesZYX>(r, "EulerAnglesZYX"); parameters<smk::EulerAnglesYawPitchRoll>(r, "EulerAnglesYawPitchRoll");
  parameters<smk::RotationVector>(r, "RotationVector"); parameters<smk::EulerRodriguez>(r, "EulerRodriguez");
}

// An object and its twin in Python, made the same way.
template <class T> struct Twin { T c; bp::object p; };
template <class T> void judge(const Twin<T>& t, const char* what) {
  attempt(what, [&] { T x = bp::extract<T>(t.p)(); VM_CHECK(eq(x, t.c), std::string("python/") + what, show(x) << " instead of " << show(t.c)); });
}
template <class T, class... A> Twin<T> make(const char* cls, const A&... a) {
  Twin<T> t{T(a...), bp::object()};
  attempt(cls, [&] { t.p = mod().attr(cls)(a...); });
  judge(t, cls);
  return t;
}
template <class R, class A, class B, class F> void op(const Twin<A>& a, const Twin<B>& b, char o, const char* what, F f) {
  R want = f(a.c, b.c);
  attempt(what, [&] {
    bp::object g = o == '*' ? a.p * b.p : o == '+' ? a.p + b.p : o == '-' ? a.p - b.p : bp::object(bp::handle<>(PyNumber_TrueDivide(a.p.ptr(), b.p.ptr())));
    R got = bp::extract<R>(g)();
    VM_CHECK(eq(got, want), std::string("python/") + what, show(a.c) << " " << o << " " << show(b.c) << " is " << show(got) << " instead of " << show(want));
  });
}
Twin<smk::Transformation> makeT(vm::Rng& r) {
  switch (r.below(4)) {
    case 0: return make<smk::Transformation>("Transformation");
    case 1: return make<smk::Transformation>("Transformation", trans(r));
    default: return make<smk::Transformation>("Transformation", quat(r), v3(r));
  }
}
Twin<smk::UncertainTransformation> makeUT(vm::Rng& r) {
  Twin<smk::Transformation> T = makeT(r); M6 U = cov<6>(r); double a = std::abs(num(r)), b = std::abs(num(r));
  const char* n = "UncertainTransformation"; typedef smk::UncertainTransformation X;
  switch (r.below(10)) {
    case 0: return make<X>(n, trans(r), U); case 1: return make<X>(n, trans(r), a, b);
    case 2: return make<X>(n, quat(r), v3(r), U); case 3: return make<X>(n, quat(r), v3(r), a, b);
    case 4: { Twin<X> t{X(T.c, a, b), bp::object()}; attempt(n, [&] { t.p = mod().attr(n)(T.p, a, b); }); judge(t, n); return t; }
    case 5: { Twin<X> t{X(T.c), bp::object()}; attempt(n, [&] { t.p = mod().attr(n)(T.p); }); judge(t, n); return t; }
    case 6: return make<X>(n, trans(r)); case 7: return make<X>(n, quat(r), v3(r));
    case 8: return make<X>(n);
    default: { Twin<X> t{X(T.c, U), bp::object()}; attempt(n, [&] { t.p = mod().attr(n)(T.p, U); }); judge(t, n); return t; }
  }
}
V4 hom(vm::Rng& r) { V4 h = v4(r); h[3] = r.chance(1, 3) ? 1 : r.pickl({-1.0, 1.0}) * r.uniform(0.2, 3); return h; }
Twin<smk::HomogeneousPoint> makeP(vm::Rng& r) {
  switch (r.below(5)) { case 0: return make<smk::HomogeneousPoint>("HomogeneousPoint"); case 1: case 2: return make<smk::HomogeneousPoint>("HomogeneousPoint", v3(r)); default: return make<smk::HomogeneousPoint>("HomogeneousPoint", hom(r)); }
}
Twin<smk::UncertainHomogeneousPoint> makeUP(vm::Rng& r) {
  typedef smk::UncertainHomogeneousPoint X; const char* n = "UncertainHomogeneousPoint";
  Twin<smk::HomogeneousPoint> p = makeP(r); M3 U3 = cov<3>(r); M4 U4 = cov<4>(r);
  switch (r.below(9)) {
    case 0: return make<X>(n); case 1: return make<X>(n, v3(r)); case 2: return make<X>(n, hom(r)); case 3: return make<X>(n, v3(r), U3); case 4: return make<X>(n, hom(r), U4); case 5: return make<X>(n, V4(hom(r).normalized()), U3);
    case 6: { Twin<X> t{X(p.c), bp::object()}; attempt(n, [&] { t.p = mod().attr(n)(p.p); }); judge(t, n); return t; }
    case 7: { Twin<X> t{X(p.c, U4), bp::object()}; attempt(n, [&] { t.p = mod().attr(n)(p.p, U4); }); judge(t, n); return t; }
    default: { p.c.normalize(); attempt(n, [&] { p.p.attr("normalize")(); }); judge(p, n); Twin<X> t{X(p.c, U3), bp::object()}; attempt(n, [&] { t.p = mod().attr(n)(p.p, U3); }); judge(t, n); return t; }
  }
}
template <class T> void poseMembers(const Twin<T>& t, const char* n) {
  sameIn(t.p, n, "T", [&] { return t.c.T(); }); sameIn(t.p, n, "C", [&] { return t.c.C(); }); sameIn(t.p, n, "t", [&] { return V3(t.c.t()); }); sameIn(t.p, n, "q", [&] { return V4(t.c.q()); });
  sameIn(t.p, n, "T3x4", [&] { return t.c.T3x4(); }); sameIn(t.p, n, "S", [&] { return t.c.S(); }); sameIn(t.p, n, "inverse", [&] { return t.c.inverse(); });
  attempt(n, [&] { t.p.attr("checkTransformationIsValid")(); });
}
template <class T> void drawPose(Twin<T>& t, vm::Rng& r, const char* n) {
  uint64_t s = r.next(); double a = r.uniform(0.1, 9), b = r.uniform(0.1, 3); bool two = r.chance(1, 2);
  auto seed = [&] { std::srand((unsigned)s); sm::random::seed(s); };
  seed(); if (two) t.c.setRandom(a, b); else t.c.setRandom();
  seed(); attempt(n, [&] { if (two) t.p.attr("setRandom")(a, b); else t.p.attr("setRandom")(); });
  judge(t, (std::string(n) + ".setRandom").c_str());
}
void poses(vm::Rng& r, uint64_t) {
  auto A = makeT(r), B = makeT(r); auto UA = makeUT(r), UB = makeUT(r);
  poseMembers(A, "Transformation"); poseMembers(UA, "UncertainTransformation");
  sameIn(UA.p, "UncertainTransformation", "U", [&] { return M6(UA.c.U()); });
  op<smk::Transformation>(A, B, '*', "Transformation*Transformation", [](const smk::Transformation& a, const smk::Transformation& b) { return a * b; });
  op<smk::UncertainTransformation>(A, UB, '*', "Transformation*UncertainTransformation", [](const smk::Transformation& a, const smk::UncertainTransformation& b) { return a * b; });
  op<smk::UncertainTransformation>(UA, UB, '*', "UncertainTransformation*UncertainTransformation", [](const smk::UncertainTransformation& a, const smk::UncertainTransformation& b) { return a * b; });
  op<smk::UncertainTransformation>(UA, B, '*', "UncertainTransformation*Transformation", [](const smk::UncertainTransformation& a, const smk::Transformation& b) { return a * b; });
  auto P = makeP(r); auto UP = makeUP(r);
  op<smk::HomogeneousPoint>(A, P, '*', "Transformation*HomogeneousPoint", [](const smk::Transformation& a, const smk::HomogeneousPoint& b) { return a * b; });
  op<smk::UncertainHomogeneousPoint>(A, UP, '*', "Transformation*UncertainHomogeneousPoint", [](const smk::Transformation& a, const smk::UncertainHomogeneousPoint& b) { return a * b; });
  op<smk::UncertainHomogeneousPoint>(UA, P, '*', "UncertainTransformation*HomogeneousPoint", [](const smk::UncertainTransformation& a, const smk::HomogeneousPoint& b) { return a * b; });
  op<smk::UncertainHomogeneousPoint>(UA, UP, '*', "UncertainTransformation*UncertainHomogeneousPoint", [](const smk::UncertainTransformation& a, const smk::UncertainHomogeneousPoint& b) { return a * b; });
  V3 v = v3(r); Twin<V3> tv{v, bp::object(v)};
  op<V3>(A, tv, '*', "Transformation*vector", [](const smk::Transformation& a, const V3& b) { return V3(a * b); });
  double s0 = num(r), s1 = num(r), s = r.chance(1, 2) ? r.uniform(std::min(s0, s1), std::max(s0, s1)) : num(r);
  attempt("interpolateTransformations", [&] {
    smk::Transformation g = bp::extract<smk::Transformation>(mod().attr("interpolateTransformations")(A.p, s0, B.p, s1, s))(), w = smk::interpolateTransformations(A.c, s0, B.c, s1, s);
    VM_CHECK(eq(g, w), "python/interpolateTransformations", show(g) << " instead of " << show(w));
    g = bp::extract<smk::Transformation>(mod().attr("slerpTransformations")(A.p, B.p, s))(); w = smk::slerpTransformations(A.c, B.c, s);
    VM_CHECK(eq(g, w), "python/slerpTransformations", show(g) << " instead of " << show(w));
  });
  // changes
  M6 U = cov<6>(r);
  if (r.chance(1, 2)) { UA.c.setU(U); attempt("setU", [&] { UA.p.attr("setU")(U); }); } else both("setUOplus", [&] { UA.c.setUOplus(U); }, [&] { UA.p.attr("setUOplus")(U); });
  judge(UA, "UncertainTransformation.setU");
  if (r.chance(1, 3)) { A.c.setIdentity(); attempt("setIdentity", [&] { A.p.attr("setIdentity")(); }); judge(A, "Transformation.setIdentity"); UA.c.setIdentity(); attempt("setIdentity", [&] { UA.p.attr("setIdentity")(); }); judge(UA, "UncertainTransformation.setIdentity"); }
  else { drawPose(A, r, "Transformation"); drawPose(UA, r, "UncertainTransformation"); }
  vm::nontrivial(vm::combine(vm::bits(A.c.q()[0]), vm::bits(UA.c.U()(0, 0))));
}
void points(vm::Rng& r, uint64_t) {
  auto A = makeP(r), B = makeP(r); auto UA = makeUP(r), UB = makeUP(r);
  typedef smk::HomogeneousPoint H; typedef smk::UncertainHomogeneousPoint U;
  sameIn(A.p, "HomogeneousPoint", "toEuclidean", [&] { return V3(A.c.toEuclidean()); }); sameIn(A.p, "HomogeneousPoint", "toHomogeneous", [&] { return V4(A.c.toHomogeneous()); });
  sameIn(UA.p, "UncertainHomogeneousPoint", "toEuclidean", [&] { return V3(UA.c.toEuclidean()); }); sameIn(UA.p, "UncertainHomogeneousPoint", "toHomogeneous", [&] { return V4(UA.c.toHomogeneous()); });
  sameIn(UA.p, "UncertainHomogeneousPoint", "U4", [&] { return M4(UA.c.U4()); }); sameIn(UA.p, "UncertainHomogeneousPoint", "U3", [&] { return UA.c.U3(); }); sameIn(UA.p, "UncertainHomogeneousPoint", "U_av_form", [&] { return UA.c.U_av_form(); });
  op<H>(A, B, '+', "HomogeneousPoint+HomogeneousPoint", [](const H& a, const H& b) { return a + b; }); op<H>(A, B, '-', "HomogeneousPoint-HomogeneousPoint", [](const H& a, const H& b) { return a - b; });
  op<U>(A, UB, '+', "HomogeneousPoint+UncertainHomogeneousPoint", [](const H& a, const U& b) { return a + b; }); op<U>(A, UB, '-', "HomogeneousPoint-UncertainHomogeneousPoint", [](const H& a, const U& b) { return a - b; });
  op<U>(UA, B, '+', "UncertainHomogeneousPoint+HomogeneousPoint", [](const U& a, const H& b) { return a + b; }); op<U>(UA, B, '-', "UncertainHomogeneousPoint-HomogeneousPoint", [](const U& a, const H& b) { return a - b; });
  op<U>(UA, UB, '+', "UncertainHomogeneousPoint+UncertainHomogeneousPoint", [](const U& a, const U& b) { return a + b; }); op<U>(UA, UB, '-', "UncertainHomogeneousPoint-UncertainHomogeneousPoint", [](const U& a, const U& b) { return a - b; });
  switch (r.below(5)) {
    case 0: A.c.setZero(); UA.c.setZero(); attempt("setZero", [&] { A.p.attr("setZero")(); UA.p.attr("setZero")(); }); break;
    case 1: A.c.normalize(); UA.c.normalize(); attempt("normalize", [&] { A.p.attr("normalize")(); UA.p.attr("normalize")(); }); break;
    case 2: { unsigned s = (unsigned)r.next(); std::srand(s); A.c.setRandom(); UA.c.setRandom(); std::srand(s); attempt("setRandom", [&] { A.p.attr("setRandom")(); UA.p.attr("setRandom")(); }); break; }
    case 3: { M4 c = cov<4>(r); UA.c.setU(c); attempt("setU", [&] { UA.p.attr("setU")(c); }); break; }
    default: {
      M3 c = cov<3>(r);
      if (r.chance(2, 3)) { UA.c.normalize(); attempt("normalize", [&] { UA.p.attr("normalize")(); }); }
      both("setUOplus", [&] { UA.c.setUOplus(c); }, [&] { UA.p.attr("setUOplus")(c); });
    }
  }
  judge(A, "HomogeneousPoint, changed"); judge(UA, "UncertainHomogeneousPoint, changed");
  vm::nontrivial(vm::combine(vm::bits(A.c.toHomogeneous()[0]), vm::bits(UA.c.U4()(0, 0))));
}
// The vectors of dimension 1 hold plain numbers instead of 1 x 1 matrices.
template <int D> struct Rnd { static Eigen::Matrix<double, D, 1> value(vm::Rng& r) { return rnd<D, 1>(r); } static Eigen::Matrix<double, D, D> covariance(vm::Rng& r) { return cov<D>(r); } };
template <> struct Rnd<1> { static double value(vm::Rng& r) { return num(r); } static double covariance(vm::Rng& r) { return cov<1>(r)(0, 0); } };
template <int D> void vectorMembers(Twin<smk::UncertainVector<D>>& a, vm::Rng& r, const char* n) {
  typedef smk::UncertainVector<D> X; typedef typename X::value_t M; typedef typename X::covariance_t C;
  M m = Rnd<D>::value(r); C c = Rnd<D>::covariance(r);
  sameIn(a.p, n, "v", [&] { return M(a.c.v()); }); sameIn(a.p, n, "mean", [&] { return M(a.c.mean()); }); sameIn(a.p, n, "E", [&] { return C(a.c.E()); }); sameIn(a.p, n, "covariance", [&] { return C(a.c.covariance()); });
  Twin<X> b = r.chance(1, 5) ? make<X>(n) : r.chance(1, 4) ? make<X>(n, Rnd<D>::value(r)) : make<X>(n, M(Rnd<D>::value(r)), C(Rnd<D>::covariance(r)));
  Twin<M> tm{m, bp::object(m)};
  std::string s(n);
  op<X>(a, b, '+', (s + "+").c_str(), [](const X& x, const X& z) { return X(x + z); }); op<X>(a, b, '-', (s + "-").c_str(), [](const X& x, const X& z) { return X(x - z); });
  op<X>(a, tm, '+', (s + "+vector").c_str(), [](const X& x, const M& z) { return X(x + z); }); op<X>(a, tm, '-', (s + "-vector").c_str(), [](const X& x, const M& z) { return X(x - z); });
  sameWith(a.p, n, "dot", [&] { return a.c.dot(b.c); }, b.p); sameIn(a.p, n, "dotV", [&] { return a.c.dot(m); }, m);
  a.c.setMean(m); a.c.setCovariance(c); attempt(n, [&] { a.p.attr("setMean")(m); a.p.attr("setCovariance")(c); });
  judge(a, n);
}
template <int D> void vectors(vm::Rng& r) {
  typedef smk::UncertainVector<D> X; typedef smk::UncertainVector<1> S;
  static const std::string n = "UncertainVector" + std::to_string(D);
  auto a = make<X>(n.c_str(), Eigen::Matrix<double, D, 1>(rnd<D, 1>(r)), Eigen::Matrix<double, D, D>(cov<D>(r)));
  vectorMembers<D>(a, r, n.c_str());
  auto s = make<S>("UncertainScalar", Rnd<1>::value(r), Rnd<1>::covariance(r));
  op<X>(a, s, '*', (n + "*UncertainScalar").c_str(), [](const X& x, const S& z) { return X(x * z); });
  double d = num(r); Twin<double> td{d, bp::object(d)};
  op<X>(a, td, '*', (n + "*number").c_str(), [](const X& x, double z) { return X(x * z); });
  sameIn(a.p, n.c_str(), "normalized", [&] { return X(a.c.normalized()); });
  a.c.normalize(); attempt(n.c_str(), [&] { a.p.attr("normalize")(); }); judge(a, (n + ".normalize").c_str());
  vm::nontrivial(vm::combine(D, vm::bits(a.c.mean()[0])));
}
void uncertain(vm::Rng& r, uint64_t i) {
  typedef smk::UncertainVector<1> S; typedef double M;
  auto a = make<S>("UncertainScalar", Rnd<1>::value(r), Rnd<1>::covariance(r)), b = make<S>("UncertainScalar", r.uniform(0.2, 3), Rnd<1>::covariance(r));
  op<S>(a, b, '*', "UncertainScalar*", [](const S& x, const S& z) { return S(x * z); }); op<S>(a, b, '/', "UncertainScalar/", [](const S& x, const S& z) { return S(x / z); });
  M m = r.uniform(0.2, 3); Twin<M> tm{m, bp::object(m)};
  op<S>(a, tm, '*', "UncertainScalar*value", [](const S& x, const M& z) { return S(x * z); }); op<S>(a, tm, '/', "UncertainScalar/value", [](const S& x, const M& z) { return S(x / z); });
  vectorMembers<1>(a, r, "UncertainScalar");
  switch (i % 5) { case 0: vectors<2>(r); break; case 1: vectors<3>(r); break; case 2: vectors<4>(r); break; case 3: vectors<5>(r); break; default: vectors<6>(r); }
}
void randomNumbers(vm::Rng& r, uint64_t) {
  uint64_t s = r.next(); std::vector<int> plan; std::vector<double> want, got;
  double lo = num(r), hi = lo + std::abs(num(r)) + 1e-3; int ilo = r.range(-50, 50), ihi = ilo + r.range(1, 100);
  for (int k = 0; k < 12; ++k) plan.push_back(r.below(6));
  sm::random::seed(s);
  for (int p : plan) want.push_back(p == 0 ? sm::random::normal() : p == 1 ? sm::random::randn() : p == 2 ? sm::random::uniform() : p == 3 ? sm::random::rand() : p == 4 ? sm::random::randLU(lo, hi) : sm::random::randLUi(ilo, ihi));
  attempt("random", [&] {
    mod().attr("seed")(s);
    for (int p : plan) got.push_back(bp::extract<double>(p == 0 ? mod().attr("normal")() : p == 1 ? mod().attr("randn")() : p == 2 ? mod().attr("uniform")() : p == 3 ? mod().attr("rand")() : p == 4 ? mod().attr("randLU")(lo, hi) : mod().attr("randLUi")(ilo, ihi))());
  });
  for (size_t k = 0; k < got.size(); ++k) VM_CHECK(vm::bits(got[k]) == vm::bits(want[k]), "python/random", "draw " << k << " of kind " << plan[k] << " is " << vm::str(got[k]) << ", in C++ " << vm::str(want[k]));
  vm::nontrivial(s);
}
void times(vm::Rng& r, uint64_t) {
  int64_t t = r.chance(1, 2) ? (int64_t)r.next() >> r.below(40) : (int64_t)1700000000000000000 + (int64_t)(r.next() >> 10); double s = r.logmag(-9, 9);
  same("nsecToSec", [&] { return sm::timing::nsecToSec(t); }, t); same("secToNsec", [&] { return sm::timing::secToNsec(s); }, s);
  attempt("nsecNow", [&] {
    int64_t a = sm::timing::nsecNow(), b = bp::extract<int64_t>(mod().attr("nsecNow")())(), c = sm::timing::nsecNow();
    VM_CHECK(b >= a && b <= c, "python/nsecNow", b << " between " << a << " and " << c);
  });
  int n = r.range(1, 5); MX A = MX::NullaryExpr(n, n, [&](Eigen::Index, Eigen::Index) { return num(r); }); A = A * A.transpose().eval() + 1e-3 * MX::Identity(n, n);
  MX S; sm::eigen::computeMatrixSqrt(A, S); same("computeMatrixSqrt", [&] { return S; }, A);
  MX W = MX::Ones(n, n + 1); same("computeMatrixSqrt", [&]() -> MX { throw std::runtime_error("not square"); }, W);
  vm::nontrivial(vm::combine((uint64_t)t, vm::bits(s)));
}
void configured(vm::Rng& r, uint64_t) {
  sm::BoostPropertyTree t; bp::object p; attempt("BoostPropertyTree", [&] { p = mod().attr("BoostPropertyTree")(); });
  auto put = [&](const std::string& k, double v) { if (r.chance(1, 40)) return; t.setDouble(k, v); attempt("setDouble", [&] { p.attr("setDouble")(k, v); }); };
  V4 q = quat(r); V3 v = v3(r);
  const char* xyz[] = {"x", "y", "z", "w"};
  for (int i = 0; i < 3; ++i) { put(xyz[i], v[i]); put(std::string("t_a_b_a/") + xyz[i], v[i]); }
  for (int i = 0; i < 4; ++i) { put(std::string("q/") + xyz[i], q[i]); put(std::string("q_a_b/") + xyz[i], q[i]); }
  const sm::ConstPropertyTree& c = t;
  sameWith(mod(), "", "vector3FromPropertyTree", [&] { return sm::eigen::vector3FromPropertyTree(c); }, p);
  attempt("getChild", [&] { bp::object child = p.attr("getChild")("q"); sameWith(mod(), "", "quaternionFromPropertyTree", [&] { return sm::eigen::quaternionFromPropertyTree(sm::ConstPropertyTree(c, "q")); }, child); });
  sameWith(mod(), "", "transformationFromPropertyTree", [&] { return smk::transformationFromPropertyTree(c); }, p);
  vm::nontrivial(vm::combine(vm::bits(q[0]), vm::bits(v[0])));
}
}  // namespace

SM_DEFINE_ID(FrameId);
SM_DEFINE_ID(PointId);
// The converters a user's own module is made of: ids as Python integers, containers as lists and dictionaries.
void converters(vm::Rng& r, uint64_t) {
  static bp::object echo, value, makeDict, makeList;
  static bool once = [] {
    for (int i = 0; i < 2; ++i) { sm::python::Id_python_converter<FrameId>::register_converter(); sm::python::Id_python_converter<PointId>::register_converter(); }
    echo = bp::make_function(+[](FrameId f) { return f; });
    value = bp::make_function(+[](const PointId& f) { return std::to_string(f.getId()); });
    return true;
  }();
  (void)once;
  uint64_t v = r.chance(1, 4) ? r.pickl<uint64_t>({0, 1, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 63) - 1, 1ull << 63, (1ull << 63) + 1, ~0ull - 1, ~0ull}) : r.next() >> r.below(64);
  attempt("id", [&] {
    bp::object py = bp::object(FrameId(v));
    VM_CHECK(PyLong_Check(py.ptr()), "python/id-type", py.ptr()->ob_type->tp_name);
    std::string text = bp::extract<std::string>(bp::str(py))();
    VM_CHECK(text == std::to_string(v), "python/id-to-python", v << " became " << text);
    bp::object again = echo(bp::object(bp::handle<>(PyLong_FromUnsignedLongLong(v))));
    VM_CHECK(bp::extract<FrameId>(again)().getId() == v && bp::extract<uint64_t>(again)() == v, "python/id-round-trip", v);
    Py_ssize_t refs = Py_REFCNT(again.ptr());
    VM_CHECK(v < 1000 || refs == 1, "python/id-references", refs << " references to a new integer");
    std::string seen = bp::extract<std::string>(value(py))();
    VM_CHECK(seen == std::to_string(v), "python/id-from-python", v << " became " << seen);
    vm::event("ids");
  });
  // No id is that: an exception, not another id.
  for (const char* bad : {"-1", "-9223372036854775809", "18446744073709551616", "340282366920938463463374607431768211455", "1.0", "'1'", "None", "[1]"}) {
    try {
      std::string got = bp::extract<std::string>(value(bp::eval(bad)))();
      vm::fail("python/id-from-nonsense", std::string(bad) + " became the id " + got);
    } catch (const bp::error_already_set&) { std::string e = error(); VM_CHECK(e.find("SystemError") == std::string::npos, "python-raises/id", bad << ": " << e); vm::event("refused-ids"); }
  }
  attempt("containers", [&] {
    std::vector<double> x(r.below(6)); for (auto& e : x) e = num(r);
    std::map<std::string, int> m; for (int n = (int)r.below(5); n > 0; --n) m[std::string(r.below(3), 'k') + (char)('a' + r.below(4))] = (int)r.range(-9, 9);
    bp::list l; l.append(std::string("first")); sm::python::stlToList(x.begin(), x.end(), l);
    VM_CHECK(bp::len(l) == (Py_ssize_t)x.size() + 1 && bp::extract<std::string>(l[0])() == "first", "python/list", bp::len(l) << " entries");
    for (size_t i = 0; i < x.size(); ++i) VM_CHECK(eq((double)bp::extract<double>(l[i + 1])(), x[i]), "python/list", "entry " << i);
    bp::dict d; d["aa"] = 77; d["other"] = 78; sm::python::stlToDict(m.begin(), m.end(), d);
    size_t n = m.size() + 1 + (m.count("aa") ? 0 : 1);
    VM_CHECK((size_t)bp::len(d) == n && bp::extract<int>(d["other"])() == 78, "python/dict", bp::len(d) << " entries instead of " << n);
    for (const auto& e : m) VM_CHECK(d.has_key(e.first) && bp::extract<int>(d[e.first])() == e.second, "python/dict", e.first);
    std::map<int, std::string> k{{(int)r.range(-5, 5), "x"}}; bp::dict dk; sm::python::stlToDict(k.rbegin(), k.rend(), dk);
    VM_CHECK(bp::len(dk) == 1 && bp::extract<std::string>(dk[k.begin()->first])() == "x", "python/dict", "keys that are no strings");
    vm::event("containers");
  });
  vm::nontrivial(v);
}
int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::leakProbes(false);  // Python keeps the strings and the code of what it has evaluated
  vm::setRule("a distinct case is a set of arguments given to a group of functions, or a pair of objects made and changed the same way from Python and from C++");
  start();
  vm::run("rotations", 700, rotations);
  vm::run("quaternions", 600, quaternions);
  vm::run("transformations", 600, transformations);
  vm::run("parameterisations", 500, parameterisations);
  vm::run("poses", 700, poses);
  vm::run("points", 700, points);
  vm::run("uncertain-vectors", 700, uncertain);
  vm::run("random", 400, randomNumbers);
  vm::run("time-and-eigen", 400, times);
  vm::run("configuration", 300, configured);
  vm::run("converters", 400, converters);
  return vm::finish();
}
