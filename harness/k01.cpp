// K01: every conversion between rotation representations; K02: quaternion algebra.
#include "k.hpp"
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
namespace smk = sm::kinematics;
using namespace k;

namespace {
const double TOL = 4e-12;


D3 kin(const smk::RotationalKinematics& K, const W3& p) {
  D3 S, C = K.parametersToRotationMatrix(p, &S), C2 = K.parametersToRotationMatrix(p);
  VM_CHECK(diff(C, C2) == 0, "asking-for-S-changes-C", show(C) << " / " << show(C2) << " for " << show(p));
  VM_CHECK(diff(S, K.parametersToSMatrix(p)) == 0, "two-answers-for-S", show(S) << " for " << show(p));
  return C;
}
struct R { const char* name; std::function<D3(const W3&)> to; std::function<W3(const D3&)> from; std::function<M3(const V3&)> ref; int kind; };   // kind 0 rotation vector, 1 Rodrigues, 2 Euler
std::vector<R> reps() {
  std::vector<R> v;
  v.push_back({"axisAngle", [](const W3& p) { return smk::axisAngle2R(p); }, [](const D3& C) { return smk::R2AxisAngle(C); }, [](const V3& p) { return passive(p); }, 0});
  v.push_back({"axisAngle-xyz", [](const W3& p) { return smk::axisAngle2R(p[0], p[1], p[2]); }, [](const D3& C) { return smk::R2AxisAngle(C); }, [](const V3& p) { return passive(p); }, 0});
  v.push_back({"quaternion-log", [](const W3& p) { return smk::quat2r(smk::axisAngle2quat(p)); }, [](const D3& C) { return smk::quat2AxisAngle(W4(smk::r2quat(C).normalized())); }, [](const V3& p) { return passive(p); }, 0});
  v.push_back({"RotationVector", [](const W3& p) { return kin(smk::RotationVector(), p); }, [](const D3& C) { return smk::RotationVector().rotationMatrixToParameters(C); }, [](const V3& p) { return passive(p); }, 0});
  v.push_back({"EulerRodriguez", [](const W3& p) { return kin(smk::EulerRodriguez(), p); }, [](const D3& C) { return smk::EulerRodriguez().rotationMatrixToParameters(C); },
               [](const V3& p) { L n = len(p); return n == 0 ? M3(M3::Identity()) : passive(V3(p / n * 2 * atanl(n))); }, 1});
  v.push_back({"rph2R", [](const W3& p) { return smk::rph2R(p); }, [](const D3& C) { return smk::R2rph(C); }, [](const V3& p) { return M3(rz(p[2]) * ry(p[1]) * rx(p[0])); }, 2});
  v.push_back({"rph2R-xyz", [](const W3& p) { return smk::rph2R(p[0], p[1], p[2]); }, [](const D3& C) { return smk::R2rph(C); }, [](const V3& p) { return M3(rz(p[2]) * ry(p[1]) * rx(p[0])); }, 2});
  v.push_back({"rph2C", [](const W3& p) { return smk::rph2C(p); }, [](const D3& C) { return smk::C2rph(C); }, [](const V3& p) { return M3(rz(-p[2]) * ry(-p[1]) * rx(-p[0])); }, 2});
  v.push_back({"rph2C-xyz", [](const W3& p) { return smk::rph2C(p[0], p[1], p[2]); }, [](const D3& C) { return smk::C2rph(C); }, [](const V3& p) { return M3(rz(-p[2]) * ry(-p[1]) * rx(-p[0])); }, 2});
  v.push_back({"YawPitchRoll", [](const W3& p) { return kin(smk::EulerAnglesYawPitchRoll(), p); }, [](const D3& C) { return smk::EulerAnglesYawPitchRoll().rotationMatrixToParameters(C); }, [](const V3& p) { return M3(rz(p[0]) * ry(p[1]) * rx(p[2])); }, 2});
  v.push_back({"EulerAnglesZYX", [](const W3& p) { return kin(smk::EulerAnglesZYX(), p); }, [](const D3& C) { return smk::EulerAnglesZYX().rotationMatrixToParameters(C); }, [](const V3& p) { return M3(rz(-p[0]) * ry(-p[1]) * rx(-p[2])); }, 2});
  v.push_back({"EulerAnglesZXY", [](const W3& p) { return kin(smk::EulerAnglesZXY(), p); }, [](const D3& C) { return smk::EulerAnglesZXY().rotationMatrixToParameters(C); }, [](const V3& p) { return M3(rz(p[0]) * rx(p[1]) * ry(p[2])); }, 2});
  return v;
}
W3 params(vm::Rng& r, int kind, const char** what) {
  if (kind == 0) { V3 v = axis(r) * angle(r, what); if (r.chance(1, 10)) { v = axis(r) * r.uniform(0, 60); *what = "several-turns"; } return v.cast<double>(); }
  if (kind == 1) { *what = "rodrigues"; return W3((axis(r) * (r.chance(1, 8) ? 0 : fabsl(r.logmag(-17, 17)))).cast<double>()); }
  W3 p;
  bool g = false;
  for (int i = 0; i < 3; ++i) {
    if (r.chance(1, 3)) { p[i] = (double)middle(r); g = true; }
    else if (r.chance(1, 5)) p[i] = 0;
    else if (r.chance(1, 5)) p[i] = r.logmag(-17, -1);
    else p[i] = r.uniform(-7, 7);
  }
  *what = g ? "gimbal-angles" : "euler-angles";
  return p;
}
void toMatrix(vm::Rng& r, const R& x) {
  const char* what = "";
  W3 p = params(r, x.kind, &what);
  D3 C = x.to(p);
  M3 ref = x.ref(p.cast<L>());
  double e = diff(C, ref);
  VM_CHECK(e <= TOL, std::string("matrix/") + x.name, x.name << " of " << show(p) << " (" << what << ") is off by " << e << ": " << show(C) << " instead of " << show(ref));
  VM_CHECK(proper(C, TOL), std::string("improper/") + x.name, show(C));
  vm::event(std::string("to-matrix-") + what);
  vm::nontrivial(vm::combine(vm::bits(p[0]), vm::bits(p[1])));
}
void fromMatrix(vm::Rng& r, const R& x) {
  const char* what = "";
  M3 ref = qmat(rotation(r, &what));
  double noise; D3 C = rounded(ref, r, &noise);
  W3 p = x.from(C);
  bool fin = finite(p);
  VM_CHECK(fin, std::string("nan/") + x.name, x.name << " parameters of " << show(C) << " (" << what << ") are " << show(p));
  if (!fin) return;
  double e = diff(x.to(p), ref), e2 = diff(x.ref(p.cast<L>()), ref);
  VM_CHECK(e <= TOL + 40 * noise, std::string("round-trip/") + x.name, x.name << " parameters " << show(p) << " of " << show(C) << " (" << what << ", noise " << noise << ") describe a rotation that differs by " << e);
  VM_CHECK(e2 <= TOL + 40 * noise, std::string("parameters/") + x.name, x.name << " parameters " << show(p) << " of " << show(C) << " (" << what << ", noise " << noise << ") describe a rotation that differs by " << e2);
  if (x.kind == 0) VM_CHECK(p.norm() <= M_PI * 2 + 1e-12, std::string("range/") + x.name, "rotation vector of length " << p.norm());
  if (x.kind == 2) {
    int m = std::string(x.name).compare(0, 3, "rph") == 0 ? 1 : 1;
    VM_CHECK(std::fabs(p[m]) <= M_PI / 2 + 1e-15 && p.cwiseAbs().maxCoeff() <= M_PI + 1e-15, std::string("range/") + x.name, "angles " << show(p));
  }
  vm::event(std::string("from-matrix-") + what);
  vm::nontrivial(vm::combine(vm::bits(C(0)), vm::bits(C(5))));
}
void matrixQuaternion(vm::Rng& r) {
  const char* what = "";
  V4 q = rotation(r, &what); M3 ref = qmat(q);
  double noise; D3 C = rounded(ref, r, &noise);
  W4 g = smk::r2quat(C);
  VM_CHECK(finite(g) && std::fabs(g.norm() - 1) <= 1e-14 + 8 * noise, "not-unit/r2quat", "quaternion " << show(g) << " of norm " << vm::str(g.norm()) << " for " << show(C) << " (" << what << ")");
  VM_CHECK(g[3] >= 0, "negative-scalar/r2quat", show(g));
  double e = std::min(diff(g, q), diff(g, V4(-q)));
  VM_CHECK(e <= TOL + 40 * noise, "r2quat", "quaternion " << show(g) << " instead of +-" << show(q) << " (" << what << ")");
  W4 d = unit(q, r);
  D3 B = smk::quat2r(d);
  VM_CHECK(diff(B, ref) <= TOL, "quat2r", show(B) << " for " << show(d) << " instead of " << show(ref));
  vm::event(std::string("quaternions-") + what);
}
void quaternionVector(vm::Rng& r) {
  const char* what = "";
  V4 q = rotation(r, &what);
  W4 d = unit(q, r);
  if (r.chance(1, 30)) d = r.chance(1, 2) ? W4(0, 0, 0, -1) : W4(0, 0, 0, 1);
  if (r.chance(1, 30)) d = W4(r.logmag(-320, -150), r.chance(1, 2) ? 0 : r.logmag(-320, -150), 0, r.chance(1, 2) ? 1 : -1);
  W3 v = smk::quat2AxisAngle(d);
  bool fin = finite(v);
  VM_CHECK(fin, "nan/quat2AxisAngle", "rotation vector of " << show(d) << " is " << show(v));
  if (!fin) return;
  V4 dl = d.cast<L>(); dl /= dl.norm();
  double e = diff(k::qexp(V3(v.cast<L>())), dl);
  VM_CHECK(e <= 1e-14, "quat2AxisAngle", "the exponential of the rotation vector " << show(v) << " of " << show(d) << " is off by " << e);
  Eigen::Vector4f f = d.cast<float>(); f /= f.norm();
  if (f.head<3>().norm() > 0 || f[3] > 0) {
    Eigen::Vector3f vf = smk::quat2AxisAngle<float>(f);
    V4 fl = f.cast<L>(); fl /= fl.norm();
    double ef = diff(k::qexp(V3(vf.cast<L>())), fl);
    VM_CHECK(ef <= 4e-6, "quat2AxisAngle-float", "rotation vector " << show(vf) << " of " << show(f) << " off by " << ef);
  }
  vm::event(std::string("logs-") + what);
}
void angleAxis4(vm::Rng& r) {
  V3 e = axis(r); double a = r.chance(1, 5) ? r.logmag(-17, 0) : r.uniform(-14, 14);
  if (r.chance(1, 10)) a = r.chance(1, 2) ? M_PI : -M_PI;
  W3 d = e.cast<double>();
  D3 C = smk::axisAngle2R(a, d[0], d[1], d[2]);
  M3 ref = passive(V3(e * (L)a));
  VM_CHECK(diff(C, ref) <= TOL, "axisAngle-angle-axis", "rotation by " << vm::str(a) << " about " << show(d) << " is " << show(C) << " instead of " << show(ref));
  vm::event(a < 0 ? "negative-angles" : "angle-axis");
}
void elementary(vm::Rng& r) {
  double a = r.chance(1, 4) ? r.logmag(-20, 0) : r.chance(1, 4) ? M_PI / 2 * (double)r.range(-8, 8) : r.chance(1, 4) ? r.uniform(-1e6, 1e6) : r.uniform(-10, 10);
  struct { const char* n; D3 c; M3 r; } t[] = {{"Rx", smk::Rx(a), rx(a)}, {"Ry", smk::Ry(a), ry(a)}, {"Rz", smk::Rz(a), rz(a)}, {"Cx", smk::Cx(a), rx(-(L)a)}, {"Cy", smk::Cy(a), ry(-(L)a)}, {"Cz", smk::Cz(a), rz(-(L)a)}};
  for (auto& x : t) VM_CHECK(diff(x.c, x.r) <= TOL, std::string("elementary/") + x.n, x.n << "(" << vm::str(a) << ") = " << show(x.c));
  // Angles of any size: exactly the remainder with 2*pi as a double is not asked for, but not more error than that of 2*pi times the turns.
  for (double x : {a, r.logmag(0, 15)}) {
    double m = smk::angleMod(x);
    L n = std::round(((L)x - (L)m) / (2 * PI));
    double tol = 1e-14 + 4e-16 * std::fabs(x);
    VM_CHECK(std::fabs(m) <= M_PI * (1 + 1e-12) + tol && std::fabs((double)((L)x - (L)m - n * 2 * PI)) <= tol, "angleMod", "angleMod(" << vm::str(x) << ") = " << vm::str(m));
  }
  double deg = smk::rad2deg(a), rad = smk::deg2rad(a);
  VM_CHECK(std::fabs(deg - a * 180 / M_PI) <= 1e-12 * std::fabs(deg) && std::fabs(rad - a * M_PI / 180) <= 1e-12 * std::fabs(rad), "degrees", "rad2deg(" << vm::str(a) << ") = " << vm::str(deg) << ", deg2rad = " << vm::str(rad));
  W3 u(r.normal(), r.logmag(-5, 5), r.normal()), w(r.normal(), r.normal(), r.logmag(-5, 5));
  Eigen::VectorXd ux = u; Eigen::Vector3f uf = u.cast<float>();
  D3 X = smk::crossMx(u), X2 = smk::crossMx(ux), X3 = smk::crossMx(u[0], u[1], u[2]); Eigen::Matrix3f Xf = smk::crossMx(uf);
  M3 ref = cross(V3(u.cast<L>()));
  VM_CHECK(diff(X, ref) == 0 && diff(X2, ref) == 0 && diff(X3, ref) == 0 && diff(Xf, cross(V3(uf.cast<L>()))) == 0, "crossMx", show(X) << " for " << show(u));
  vm::event("elementary-angles");
}

// ------------------------------------------------------------------------------------------ K02
void product(vm::Rng& r) {
  V4 a = rotation(r), b = rotation(r);
  W4 q = unit(a, r), p = unit(b, r);
  if (r.chance(1, 6)) { p = smk::quatInv(q); if (r.chance(1, 2)) p = -p; b = p.cast<L>(); }
  V4 ref = qmul(V4(q.cast<L>()), V4(p.cast<L>()));
  W4 g[4] = {smk::qplus(q, p), smk::quatPlus(q) * p, smk::qoplus(p, q), smk::quatOPlus(p) * q};
  const char* n[4] = {"qplus", "quatPlus", "qoplus", "quatOPlus"};
  for (int i = 0; i < 4; ++i) VM_CHECK(diff(g[i], ref) <= 1e-14, std::string("product/") + n[i], n[i] << " of " << show(q) << " and " << show(p) << " is " << show(g[i]) << " instead of " << show(ref));
  VM_CHECK(diff(M3(qmat(V4(g[0].cast<L>()))), M3(qmat(V4(q.cast<L>())) * qmat(V4(p.cast<L>())))) <= 1e-13, "product-is-not-composition", show(q) << " " << show(p));
  D3 C = smk::quat2r(q);
  VM_CHECK(diff(C, qmat(V4(q.cast<L>()))) <= 1e-14, "quat2r", show(q));
  // non-unit operands: the product stays bilinear
  double s = r.logmag(-3, 3), t = r.logmag(-3, 3);
  VM_CHECK(diff(W4(smk::qplus(W4(s * q), W4(t * p)) / (s * t)), ref) <= 1e-13, "product/scaled", show(q) << show(p) << s << " " << t);
  W4 inv = smk::quatInv(q), inv2 = q; smk::invertQuat(inv2);
  VM_CHECK(diff(inv, inv2) == 0 && diff(W4(smk::qplus(q, inv)), W4(smk::quatIdentity())) <= 1e-14 && diff(W4(smk::qplus(inv, q)), W4(0, 0, 0, 1)) <= 1e-14, "inverse", "q q^-1 = " << show(smk::qplus(q, inv)) << " for " << show(q));
  W3 v; for (int i = 0; i < 3; ++i) v[i] = r.logmag(-6, 6);
  W3 w = smk::quatRotate(q, v);
  V3 wr = qmat(V4(q.cast<L>())) * v.cast<L>();
  VM_CHECK(diff(w, wr) <= 1e-14 * (1e-300 + v.norm()) * 4, "rotate", "quatRotate(" << show(q) << ", " << show(v) << ") = " << show(w) << " instead of " << show(wr));
  VM_CHECK(smk::qeps(q) == q.head<3>() && smk::qeta(q) == q[3], "parts", show(q));
  W3 dq = (axis(r) * angle(r)).cast<double>();
  W4 u = smk::updateQuat(q, dq);
  V4 ur = qmul(k::qexp(V3(dq.cast<L>())), V4(q.cast<L>()));
  VM_CHECK(diff(u, ur) <= 1e-14, "update", "updateQuat(" << show(q) << ", " << show(dq) << ") = " << show(u) << " instead of " << show(ur));
  Eigen::Matrix<double, 3, 4> S = smk::quatS(q); Eigen::Matrix<double, 4, 3> iS = smk::quatInvS(q);
  VM_CHECK(diff(D3(S * iS), D3(D3::Identity())) <= 1e-14, "S-inverse", show(q));
  W4 rnd = smk::quatRandom();
  VM_CHECK(std::fabs(rnd.norm() - 1) <= 1e-15 * 4, "random-not-unit", show(rnd));
  vm::event("products"); vm::nontrivial(vm::combine(vm::bits(q[0]), vm::bits(p[1])));
}
void expLog(vm::Rng& r) {
  const char* what = "";
  L a = angle(r, &what);
  if (r.chance(1, 5)) { a = fabsl(r.logmag(-300, -3)); what = "vanishing"; }
  W3 v = (axis(r) * a).cast<double>();
  W4 q = r.chance(1, 2) ? smk::axisAngle2quat(v) : smk::qexp(v);
  V4 ref = k::qexp(V3(v.cast<L>()));
  double n = (double)len(V3(v.cast<L>()));
  VM_CHECK(diff(V3(q.cast<L>().head<3>()), V3(ref.head<3>())) <= 1e-15 * n + 1e-320 && std::fabs((double)(q[3] - ref[3])) <= 1e-15, "exp", "exp(" << show(v) << ") = " << show(q) << " instead of " << show(ref));
  if (n < 2 * M_PI - 1e-13) {
    W3 b = r.chance(1, 2) ? smk::quat2AxisAngle(q) : smk::qlog(q);
    // near a full turn the axis is only known to about eps / (2 pi - |v|)
    double tol = n < 3 ? 2e-15 * n + 1e-320 : 4e-15 * (1 + 4 / (2 * M_PI - n));
    VM_CHECK(diff(b, v) <= tol, "log-of-exp", "log(exp(" << show(v) << ")) = " << show(b) << ", off by " << diff(b, v) << " with tolerance " << tol << " (" << what << ")");
  }
  V4 g = rotation(r); W4 d = unit(g, r);
  if (d.head<3>().norm() == 0 && d[3] < 0 && r.chance(9, 10)) d = -d;
  W3 l = smk::qlog(d); W4 back = smk::qexp(l);
  V4 dl = d.cast<L>(); dl /= dl.norm();
  VM_CHECK(finite(l) && diff(back, dl) <= 4e-15, "exp-of-log", "exp(log(" << show(d) << ")) = " << show(back) << ", log = " << show(l));
  vm::event(std::string("exponentials-") + what); vm::nontrivial(vm::combine(vm::bits(v[0]), vm::bits(v[2])));
}
void slerp(vm::Rng& r) {
  V4 a = rotation(r), b = rotation(r); const char* what = "general";
  switch (r.below(7)) {
    case 0: b = a; what = "equal"; break;
    case 1: b = -a; what = "antipodal"; break;
    case 2: b = qmul(a, k::qexp(V3(axis(r) * fabsl(r.logmag(-17, -2))))); what = "close"; break;
    case 3: b = -qmul(a, k::qexp(V3(axis(r) * fabsl(r.logmag(-17, -2))))); what = "close-antipodal"; break;
    case 4: b = qmul(a, k::qexp(V3(axis(r) * (PI - fabsl(r.logmag(-17, -2)))))); what = "near-half-turn"; break;
    case 5: b = qmul(a, k::qexp(V3(axis(r) * PI))); what = "half-turn"; break;
  }
  W4 q0 = unit(a, r), q1 = unit(b, r);
  if (r.chance(1, 2)) { q0 /= q0.norm(); q1 /= q1.norm(); }
  double t = r.chance(1, 8) ? 0 : r.chance(1, 8) ? 1 : r.chance(1, 8) ? r.uniform(-3, 0) : r.chance(1, 8) ? r.uniform(1, 4) : r.chance(1, 6) ? std::fabs(r.logmag(-17, 0)) : r.chance(1, 6) ? 1 - std::fabs(r.logmag(-17, 0)) : r.unit();
  t = std::min(std::max(t, -3.), 4.);
  W4 g;
  try { g = smk::qslerp(q0, q1, t); } catch (const std::exception& e) { vm::fail("slerp-throws", std::string(e.what()) + " for " + show(q0) + " and " + show(q1) + " at " + vm::str(t)); return; }
  bool fin = finite(g);
  VM_CHECK(fin && std::fabs(g.norm() - 1) <= 1e-14, "slerp/not-unit", show(g) << " between " << show(q0) << " and " << show(q1) << " at " << vm::str(t));
  if (!fin) return;
  V4 A = q0.cast<L>(), B = q1.cast<L>(), G = g.cast<L>(); A /= A.norm(); B /= B.norm(); G /= G.norm();
  M3 CA = qmat(A), CG = qmat(G);
  if (t <= 0) VM_CHECK(diff(CG, CA) <= 1e-14, "slerp/start", show(g) << " instead of " << show(q0));
  else if (t >= 1) VM_CHECK(diff(CG, M3(qmat(B))) <= 1e-14, "slerp/end", show(g) << " instead of " << show(q1));
  else {
    V4 d = qmul(qconj(A), B); L dot = d[3];
    if (dot < 0) d = -d;
    V3 l = k::qlog(d);
    bool ambiguous = fabsl(dot) < 1e-14L;
    if (!ambiguous) {
      V4 ref = qmul(A, k::qexp(V3(l * (L)t)));
      VM_CHECK(diff(CG, M3(qmat(ref))) <= 1e-13, "slerp/path", "between " << show(q0) << " and " << show(q1) << " (" << what << ") at " << vm::str(t) << ": " << show(g) << " instead of +-" << show(ref));
    } else {
      V4 e = qmul(qconj(A), G); if (e[3] < 0) e = -e;
      L th = len(k::qlog(e)), want = len(l) * (L)t;
      VM_CHECK(fabsl(th - want) <= 1e-13L, "slerp/speed", "angle " << (double)th << " instead of " << (double)want << " at " << t);
      e = qmul(qconj(G), B); if (e[3] < 0) e = -e;
      th = len(k::qlog(e)); want = len(l) * (1 - (L)t);
      VM_CHECK(fabsl(th - want) <= 1e-13L, "slerp/speed", "remaining angle " << (double)th << " instead of " << (double)want << " at " << t);
    }
  }
  vm::event(std::string("slerps-") + what); vm::nontrivial(vm::combine(vm::bits(q0[0]), vm::bits(t)));
  int n = (int)r.range(0, 6);
  Eigen::VectorXd x(n), y(n);
  double m = 0;
  for (int i = 0; i < n; ++i) { x[i] = r.logmag(-5, 5); y[i] = r.logmag(-5, 5); m = std::max(m, std::fabs(x[i]) + std::fabs(y[i])); }
  Eigen::VectorXd z = smk::lerp(x, y, t), want = t <= 0 ? x : t >= 1 ? y : Eigen::VectorXd(x + t * (y - x));
  VM_CHECK(z.size() == n && diff(z, want) <= (t <= 0 || t >= 1 ? 0 : 1e-15 * m * 4), "lerp", show(z) << " instead of " << show(want));
  if (r.chance(1, 50)) { bool threw = false; try { smk::lerp(x, Eigen::VectorXd(n + 1), t); } catch (const std::runtime_error&) { threw = true; } VM_CHECK(threw, "lerp-sizes", "interpolating vectors of different sizes was accepted"); }
}
// a long chain of updates stays a rotation and equals the product of the exact factors
void chain(vm::Rng& r) {
  V4 ref = rotation(r); W4 q = unit(ref, r); ref = q.cast<L>(); ref /= ref.norm();
  int n = (int)r.range(2, vm::thorough() ? 5000 : 400);
  for (int i = 0; i < n; ++i) {
    switch (r.below(3)) {
      case 0: { W3 d = (axis(r) * angle(r)).cast<double>(); q = smk::updateQuat(q, d); ref = qmul(k::qexp(V3(d.cast<L>())), ref); break; }
      case 1: { W4 p = unit(rotation(r), r); q = smk::qplus(q, p); V4 pl = p.cast<L>(); ref = qmul(ref, V4(pl / pl.norm())); break; }
      case 2: q = smk::quatInv(q); ref = qconj(ref); break;
    }
  }
  VM_CHECK(std::fabs(q.norm() - 1) <= 1e-15 * n, "chain/norm", "norm " << vm::str(q.norm()) << " after " << n << " operations");
  VM_CHECK(diff(q, ref) <= 2e-15 * n, "chain/drift", show(q) << " instead of " << show(ref) << " after " << n << " operations");
  vm::event("chain-operations", n); vm::nontrivial(vm::bits(q[1]));
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "representations" || std::string(argv[i]) == "quaternions") mode = argv[i];
  if (mode == "representations") {
    vm::setRule("every conversion of a rotation or of rotation parameters gives, to rounding, the rotation an extended-precision reference gives");
    static std::vector<R> v = reps();
    for (auto& x : v) {
      vm::run(std::string("to-matrix/") + x.name, 12000, [&](vm::Rng& r, uint64_t) { toMatrix(r, x); });
      vm::run(std::string("from-matrix/") + x.name, 12000, [&](vm::Rng& r, uint64_t) { fromMatrix(r, x); });
    }
    vm::run("matrix-quaternion", 60000, [](vm::Rng& r, uint64_t) { matrixQuaternion(r); });
    vm::run("quaternion-vector", 60000, [](vm::Rng& r, uint64_t) { quaternionVector(r); });
    vm::run("angle-axis", 40000, [](vm::Rng& r, uint64_t) { angleAxis4(r); });
    vm::run("elementary", 40000, [](vm::Rng& r, uint64_t) { elementary(r); });
  } else {
    vm::setRule("quaternion operations agree with the same operations in extended precision and with rotation matrices");
    vm::run("product", 60000, [](vm::Rng& r, uint64_t) { product(r); });
    vm::run("exp-log", 80000, [](vm::Rng& r, uint64_t) { expLog(r); });
    vm::run("slerp", 80000, [](vm::Rng& r, uint64_t) { slerp(r); });
    vm::run("chain", 400, [](vm::Rng& r, uint64_t) { chain(r); });
  }
  return vm::finish();
}
