// K04: analytic Jacobians; K06: first-order uncertainty propagation.
#include "k.hpp"
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/transformations.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/boost/serialization.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
namespace smk = sm::kinematics;
using namespace k;

namespace {
template <class A, class B> void close(const A& got, const B& want, double tol, const std::string& key, const std::string& where) {
  double e = diff(got, want);
  VM_CHECK(e <= tol, key, show(got) << " instead of " << show(want) << ", off by " << e << " (tolerance " << tol << ") at " << where);
}
V3 vee(const M3& X) { return V3(X(2, 1) - X(1, 2), X(0, 2) - X(2, 0), X(1, 0) - X(0, 1)) / 2; }

M4 rigid(const M3& C, const V3& t) { M4 m = M4::Identity(); m.topLeftCorner<3, 3>() = C; m.topRightCorner<3, 1>() = t; return m; }
M4 perturb(const VX& d, const M4& T) { V3 rot = d.tail<3>(); M4 P = rigid(passive(rot), V3(d.head<3>())); return P * T; }
#ifndef COVARIANCES
// -------------------------------------------------------------------------------------- K04
struct Kin { const char* name; const smk::RotationalKinematics* k; std::function<M3(const V3&)> ref; int kind; };
// the angular velocity of passive matrices: dC/dt C^T = -omega^x
MX omegaMap(const Kin& x, const V3& p) {
  M3 C = x.ref(p);
  return jacobian([&](const VX& q) { M3 D = x.ref(V3(q)) * C.transpose(); return VX(-vee(D)); }, VX(p));
}
void kinematics(vm::Rng& r, const Kin& x) {
  W3 p; const char* what = "general";
  if (x.kind == 0) { V3 v = axis(r) * angle(r, &what); if (r.chance(1, 6)) { v = axis(r) * fabsl(r.logmag(-300, -2)); what = "vanishing"; } p = v.cast<double>(); }
  else if (x.kind == 1) { p = (axis(r) * (r.chance(1, 8) ? 0 : fabsl(r.logmag(-17, 3)))).cast<double>(); what = p.norm() < 1e-3 ? "small" : "general"; }
  else { for (int i = 0; i < 3; ++i) p[i] = r.chance(1, 3) ? (double)middle(r) : r.chance(1, 5) ? 0 : r.uniform(-7, 7); }
  W3 pd; for (int i = 0; i < 3; ++i) pd[i] = r.chance(1, 6) ? 0 : r.normal() * (r.chance(1, 4) ? 1000 : 1);
  std::string w = show(p) + " (" + what + "), rate " + show(pd);
  V3 pl = p.cast<L>(), dl = pd.cast<L>();
  D3 S = x.k->parametersToSMatrix(p), S2; x.k->parametersToRotationMatrix(p, &S2);
  MX Sref = omegaMap(x, pl);
  // the difference quotient loses digits when parameters are large compared with the change of the rotation
  double tol = x.kind == 1 ? 1e-9 : 2e-12;
  close(S, Sref, tol, std::string("S-matrix/") + x.name, w);
  close(S2, S, 0, std::string("S-matrix-twice/") + x.name, w);
  Eigen::Matrix<double, 3, 6> J; J.setConstant(7);
  W3 om = x.k->angularVelocityAndJacobian(p, pd, &J), om2 = x.k->angularVelocityAndJacobian(p, pd, nullptr);
  double m = pd.cwiseAbs().maxCoeff();
  close(om, VX(Sref * dl), tol * (1 + 3 * m), std::string("angular-velocity/") + x.name, w);
  close(om2, om, 0, std::string("angular-velocity-twice/") + x.name, w);
  // derivative of S(p) pdot, with S differentiated through the reference
  auto f = [&](const VX& z) { V3 q = z.head<3>(); return VX(omegaMap(x, q) * z.tail<3>()); };
  VX z(6); z << pl, dl;
  MX Jr(3, 6); Jr.rightCols(3) = Sref;
  Jr.leftCols(3) = jacobian([&](const VX& q) { VX zz(6); zz << q, dl; return f(zz); }, VX(pl), 1e-3L);
  close(J, Jr, (x.kind == 1 ? 1e-8 : 1e-10) * (1 + m), std::string("angular-velocity-jacobian/") + x.name, w);
  vm::event(std::string("kinematics-") + what); vm::nontrivial(vm::combine(vm::bits(p[0]), vm::bits(p[2])));
}
void inverseS(vm::Rng& r) {
  const char* what; V3 v = axis(r) * angle(r, &what); if (r.chance(1, 6)) { v = axis(r) * fabsl(r.logmag(-300, -2)); what = "vanishing"; }
  if (len(v) > 2 * PI - 0.05L) return;
  W3 p = v.cast<double>();
  smk::RotationVector K; D3 I = K.parametersToInverseSMatrix(p);
  Kin x{"RotationVector", &K, [](const V3& q) { return passive(q); }, 0};
  MX S = omegaMap(x, V3(p.cast<L>()));
  double cond = (double)(1 / (2 * PI - len(v)));
  close(M3(I.cast<L>() * M3(S)), M3(M3::Identity()), 1e-11 * (1 + cond), "inverse-S-matrix", show(p) + " (" + what + ")");
  vm::event(std::string("inverse-S-") + what);
}
void expLog(vm::Rng& r) {
  const char* what; V3 v = axis(r) * angle(r, &what); if (r.chance(1, 6)) { v = axis(r) * fabsl(r.logmag(-300, -2)); what = "vanishing"; }
  W3 p = v.cast<double>(); V3 pl = p.cast<L>(); std::string w = show(p) + " (" + what + ")";
  MX Je = jacobian([](const VX& q) { return VX(k::qexp(V3(q))); }, VX(pl));
  close(smk::quatExpJacobian<double>(p), Je, 2e-12, "exp-jacobian", w);
  Eigen::Vector3f pf = p.cast<float>();
  MX Jef = jacobian([](const VX& q) { return VX(k::qexp(V3(q))); }, VX(pf.cast<L>()));
  close(smk::quatExpJacobian<float>(pf), Jef, 3e-6, "exp-jacobian-float", w);
  // exp(p + d) = exp(E(p) d) exp(p)
  auto left = [](const V3& c) { V4 q0 = k::qexp(c); return jacobian([q0](const VX& q) { V4 d = qmul(k::qexp(V3(q)), qconj(q0)); return VX(2 * d.head<3>() * (d[3] < 0 ? -1 : 1)); }, VX(c)); };
  MX E = left(pl);
  close(smk::expDiffMat<double>(p), E, 2e-12, "expDiffMat", w);
  close(smk::expDiffMat<float>(pf), left(V3(pf.cast<L>())), 3e-6, "expDiffMat-float", w);
  if (len(pl) < 2 * PI - 0.05L) {
    MX Li = MX(M3(E).inverse());
    double c = (double)(1 / (2 * PI - len(pl)));
    close(smk::logDiffMat<double>(p), Li, 1e-11 * (1 + c * c), "logDiffMat", w);
    if (len(pl) < 5) close(smk::logDiffMat<float>(pf), MX(M3(left(V3(pf.cast<L>()))).inverse()), 3e-5, "logDiffMat-float", w);
    // the logarithm at q = exp(p), along the unit sphere: q(d) = exp(d) q
    W4 q = k::qexp(pl).cast<double>(); q /= q.norm(); V4 ql = q.cast<L>(); ql /= ql.norm();
    bool pole = q.head<3>().norm() < 1e-6 && q[3] < 0;
    if (!pole) {
      MX T = jacobian([&](const VX& d) { return VX(qmul(k::qexp(V3(d)), ql)); }, VX(VX::Zero(3)));           // 4x3
      V3 base = k::qlog(ql);
      MX Lr = jacobian([&](const VX& d) { V3 l = k::qlog(V4(qmul(k::qexp(V3(d)), ql)));
        // stay on the branch of the base point
        if (len(V3(l - base)) > 3) { L n = len(l); if (n > 0) l *= (n - 2 * PI) / n; }
        return VX(l); }, VX(VX::Zero(3)), 1e-4L);
      Eigen::Matrix<double, 3, 4> J2 = smk::quatLogJacobian2<double>(q);
      close(MX(J2.cast<L>() * T), Lr, 1e-10 * (1 + c * c), "log-jacobian2", w);
      double s = q.head<3>().norm();
      if (s > 1e-3 && 1 - std::fabs(q[3]) > 1e-7) {   // not differentiable at the identity as a function on R^4
        Eigen::Matrix<double, 3, 4> J1 = smk::quatLogJacobian(q);
        close(MX(J1.cast<L>() * T), Lr, 1e-10 * (1 + c * c) / (s * s), "log-jacobian", w);
        vm::event("log-jacobians-away-from-identity");
      }
      Eigen::Vector4f qf = q.cast<float>(); qf /= qf.norm();
      if (len(pl) < 5) close(MX(smk::quatLogJacobian2<float>(qf).cast<L>() * T), Lr, 1e-3, "log-jacobian2-float", w);
    }
  }
  Eigen::Matrix<double, 4, 3> V = smk::quatV<double>(); Eigen::Matrix<float, 4, 3> Vf = smk::quatV<float>();
  Eigen::Matrix<double, 4, 3> Vr = Eigen::Matrix<double, 4, 3>::Zero(); Vr.topRows<3>() = 0.5 * D3::Identity();
  close(V, Vr, 0, "quatV", ""); close(Vf, Vr, 0, "quatV", "");
  vm::event(std::string("exp-log-") + what); vm::nontrivial(vm::combine(vm::bits(p[0]), vm::bits(p[1])));
}
void updates(vm::Rng& r) {
  W4 q = unit(rotation(r), r); double s = r.chance(1, 2) ? 1 : r.logmag(-3, 3); W4 p = s * q; V4 pl = p.cast<L>();
  MX T = jacobian([&](const VX& d) { return VX(qmul(k::qexp(V3(d)), pl)); }, VX(VX::Zero(3)));
  double a = std::fabs(s);
  close(smk::quatJacobian(p), T, 1e-12 * a, "update-jacobian", show(p));
  close(smk::quatInvS(p), T, 1e-12 * a, "inverse-S-of-quaternion", show(p));
  // omega = S(q) qdot for unit quaternions
  V3 om = V3(r.normal(), r.normal(), r.normal()); VX qd = jacobian([&](const VX& t) { return VX(qmul(k::qexp(V3(om * t[0])), V4(q.cast<L>()))); }, VX(VX::Zero(1))).col(0);
  close(MX(smk::quatS(q).cast<L>() * qd), MX(om), 1e-11, "S-of-quaternion", show(q));
  smk::HomogeneousPoint H(p); smk::HomogeneousPoint::homogeneous_jacobian_t Jh; smk::HomogeneousPoint::euclidean_jacobian_t Je;
  W4 back = H.toHomogeneousAndJacobian(Jh);
  close(back, p, 0, "value-with-jacobian", show(p)); close(Jh, T, 1e-12 * a, "homogeneous-jacobian", show(p));
  if (std::fabs(q[3]) > 1e-3) {
    W3 e = H.toEuclideanAndJacobian(Je); double w = q[3];
    close(e, V3(pl.head<3>() / pl[3]), 1e-14 / std::fabs(w), "euclidean-value-with-jacobian", show(p));
    MX Er = jacobian([&](const VX& d) { V4 x = qmul(k::qexp(V3(d)), pl); return VX(x.head<3>() / x[3]); }, VX(VX::Zero(3)), 1e-5L);
    close(Je, Er, 1e-11 / (w * w) / std::fabs(w), "euclidean-jacobian", show(p));
    Eigen::Matrix<double, 3, 4> F, F2 = smk::fromHomogeneousJacobian(p); smk::fromHomogeneous(p, &F);
    L h = 1e-5L * fabsl(pl[3]);
    MX Fr = jacobian([](const VX& x) { return VX(x.head<3>() / x[3]); }, VX(pl), h);
    close(F, Fr, 1e-9 * (1 + Fr.cwiseAbs().maxCoeff()) / std::fabs(w), "fromHomogeneous-jacobian", show(p)); close(F2, F, 0, "fromHomogeneous-jacobian-twice", show(p));
  }
  W3 v(r.logmag(-3, 3), r.normal(), r.normal()); Eigen::Matrix<double, 4, 3> G, G2 = smk::toHomogeneousJacobian(v), Gr = Eigen::Matrix<double, 4, 3>::Zero(); Gr.topRows<3>().setIdentity(); smk::toHomogeneous(v, &G);
  close(G, Gr, 0, "toHomogeneous-jacobian", show(v)); close(G2, Gr, 0, "toHomogeneous-jacobian", show(v));
  D4 N; Eigen::Vector4d u = smk::normalizeAndJacobian<4>(p, N); close(u, V4(pl / pl.norm()), 1e-15, "normalize-value", show(p)); close(smk::normalize<4>(p), u, 1e-15, "normalize-twice", show(p));
  close(N, jacobian([](const VX& x) { return VX(x / x.norm()); }, VX(pl), (L)(1e-4 * a)), 1e-11 / a, "normalize-jacobian", show(p));
  vm::event("quaternion-updates"); vm::nontrivial(vm::combine(vm::bits(q[0]), vm::bits(s)));
}
// left perturbation of a transformation used by the library: T(d) = [C(d_rot), .] T, translation first
void transformations(vm::Rng& r) {
  double ts = std::pow(10., r.uniform(-3, 4)), ps = std::pow(10., r.uniform(-3, 4));
  V3 t(r.normal() * ts, r.normal() * ts, r.normal() * ts); t = V3(t.cast<double>().cast<L>());
  M3 C = qmat(rotation(r)); D4 T = rigid(C, t).cast<double>(); M4 Tl = T.cast<L>();
  W4 v; v << r.normal() * ps, r.normal() * ps, r.normal() * ps, r.chance(1, 3) ? 1 : r.chance(1, 4) ? 0 : r.normal();
  V4 vl = v.cast<L>(); double mag = ts + ps + 1;
  W4 out; Eigen::Matrix<double, 4, 6> B; smk::transformationAndJacobian(T, v, out, B);
  V4 ref = Tl * vl; std::string w = show(T) + " applied to " + show(v);
  close(out, ref, 1e-14 * mag * 4, "transform-value", w);
  MX Br = jacobian([&](const VX& d) { return VX(perturb(d, Tl) * vl); }, VX(VX::Zero(6)));
  close(B, Br, 1e-11 * mag, "transform-jacobian", w);
  close(smk::boxMinus(out), B, 0, "boxMinus", w);
  W4 out2; Eigen::Matrix<double, 4, 6> B2; smk::inverseTransformationAndJacobian(T, v, out2, B2);
  M4 Ti = Tl.inverse(); V4 ref2 = Ti * vl;
  close(out2, ref2, 1e-14 * mag * 8, "inverse-transform-value", w);
  MX Br2 = jacobian([&](const VX& d) { M4 P = perturb(d, Tl); M3 c = P.topLeftCorner<3, 3>(); M4 I = rigid(M3(c.transpose()), V3(-(c.transpose() * P.topRightCorner<3, 1>()))); return VX(I * vl); }, VX(VX::Zero(6)));
  close(B2, Br2, 1e-11 * mag, "inverse-transform-jacobian", w);
  // in place
  { W4 x = v; Eigen::Matrix<double, 4, 6> J; smk::transformationAndJacobian(T, x, x, J); close(x, ref, 1e-14 * mag * 4, "transform-value", w + " in place"); close(J, Br, 1e-11 * mag, "transform-jacobian", w + " in place"); }
  { W4 x = v; Eigen::Matrix<double, 4, 6> J; smk::inverseTransformationAndJacobian(T, x, x, J); close(x, ref2, 1e-14 * mag * 8, "inverse-transform-value", w + " in place"); close(J, Br2, 1e-11 * mag, "inverse-transform-jacobian", w + " in place"); }
  // boxPlus: first-order change of the perturbation; boxTimes: moving it through T
  Eigen::Matrix<double, 6, 1> d; for (int i = 0; i < 6; ++i) d[i] = r.normal();
  MX Pr = jacobian([&](const VX& s) { M4 P = perturb(VX(d.cast<L>() * s[0]), M4(M4::Identity())); return VX(Eigen::Map<VX>(P.data(), 16)); }, VX(VX::Zero(1)));
  D4 bp = -smk::boxPlus(d);
  close(Eigen::Matrix<double, 16, 1>(Eigen::Map<Eigen::Matrix<double, 16, 1>>(bp.data())), Pr, 1e-11, "boxPlus", show(d));
  close(smk::boxMinus(v), MX(jacobian([&](const VX& x) { return VX(-smk::boxPlus(Eigen::Matrix<double, 6, 1>(x.cast<double>())).cast<L>() * vl); }, VX(VX::Zero(6)), 0.5L)), 1e-11 * mag, "boxMinus-boxPlus", show(v));
  Eigen::Matrix<double, 6, 6> X = smk::boxTimes(T);
  MX Xr = jacobian([&](const VX& s) { M4 P = Tl * perturb(s, M4(M4::Identity())) * Ti; VX o(6); M3 c = P.topLeftCorner<3, 3>(); o << P.topRightCorner<3, 1>(), -vee(c); return o; }, VX(VX::Zero(6)));
  close(X, Xr, 1e-11 * (1 + ts), "boxTimes", show(T));
  // Transformation::S turns oplus into that perturbation
  smk::Transformation K(T); M4 Kl = K.T().cast<L>(); M3 Cl = Kl.topLeftCorner<3, 3>(); V3 tl = K.t().cast<L>(); M4 Ki = rigid(M3(Cl.transpose()), V3(-(Cl.transpose() * tl)));
  MX Sr = jacobian([&](const VX& s) { M4 P = rigid(M3(passive(V3(s.tail<3>())) * Cl), V3(tl + s.head<3>())) * Ki; VX o(6); M3 c = P.topLeftCorner<3, 3>(); o << P.topRightCorner<3, 1>(), -vee(c); return o; }, VX(VX::Zero(6)));
  close(K.S(), Sr, 1e-11 * (1 + ts), "oplus-S", show(T));
  vm::event("transformation-jacobians"); vm::nontrivial(vm::combine(vm::bits(T(0)), vm::bits(v[1])));
}

#else
// -------------------------------------------------------------------------------------- K06
template <int N> Eigen::Matrix<double, N, N> cov(vm::Rng& r, double s = 1) {
  int rank = r.chance(1, 3) ? (int)r.range(0, N) : N;
  Eigen::MatrixXd B = Eigen::MatrixXd::Zero(N, std::max(rank, 1));
  if (rank) for (int i = 0; i < N; ++i) for (int j = 0; j < rank; ++j) B(i, j) = r.normal() * s;
  if (r.chance(1, 6)) for (int i = 0; i < N; ++i) for (int j = 0; j < B.cols(); ++j) if (i != j) B(i, j) = 0;
  Eigen::MatrixXd U = B * B.transpose(); U = (0.5 * (U + U.transpose())).eval();
  return U;
}
template <class A> void covariance(const A& got, const MX& want, double rel, const std::string& key, const std::string& where) {
  double m = want.cwiseAbs().maxCoeff(), e = diff(got, want);
  VM_CHECK(e <= rel * m + 1e-300, key, show(got) << " instead of " << show(want) << " (relative error " << e / m << ") " << where);
  VM_CHECK(diff(got, A(got.transpose())) <= 1e-14 * m + 1e-300, key + "/asymmetric", show(got));
  // positive semidefinite up to rounding
  MX s = (got.template cast<L>() + got.transpose().template cast<L>()) / 2 + (1e-12L * (m + 1e-290L)) * MX::Identity(got.rows(), got.rows());
  for (int kk = 0; kk < s.rows(); ++kk) {   // elimination without pivoting: all pivots positive
    if (!(s(kk, kk) > 0)) { vm::fail(key + "/indefinite", show(got) + " " + where); break; }
    for (int i = kk + 1; i < s.rows(); ++i) { L f = s(i, kk) / s(kk, kk); for (int j = kk; j < s.cols(); ++j) s(i, j) -= f * s(kk, j); }
  }
  vm::event("covariances-compared");
}
MX prop(const MX& J, const MX& U) { return J * U * J.transpose(); }
template <class M> MX l(const M& m) { return m.template cast<L>(); }
struct UT { smk::UncertainTransformation T; M4 M; MX U; };
UT transform(vm::Rng& r, double ts) {
  W4 q = unit(rotation(r), r); q /= q.norm(); W3 t(r.normal() * ts, r.normal() * ts, r.normal() * ts);
  Eigen::Matrix<double, 6, 6> U = cov<6>(r, std::pow(10., r.uniform(-4, 1)));
  smk::Transformation base(q, t); UT x;
  switch (r.below(6)) {
    case 0: x.T = smk::UncertainTransformation(base, U); break;
    case 1: x.T = smk::UncertainTransformation(q, t, U); break;
    case 2: x.T = smk::UncertainTransformation(base.T(), U); break;
    case 3: x.T = smk::UncertainTransformation(base); x.T.setU(U); break;
    case 4: { double a = std::fabs(r.logmag(-4, 2)), b = std::fabs(r.logmag(-4, 2)); U.setZero(); U.diagonal() << a, a, a, b, b, b;
      x.T = r.chance(1, 3) ? smk::UncertainTransformation(base, a, b) : r.chance(1, 2) ? smk::UncertainTransformation(q, t, a, b) : smk::UncertainTransformation(base.T(), a, b); break; }
    default: x.T = r.chance(1, 3) ? smk::UncertainTransformation(base) : r.chance(1, 2) ? smk::UncertainTransformation(q, t) : smk::UncertainTransformation(base.T()); U.setZero();
  }
  VM_CHECK(diff(x.T.U(), U) == 0, "transformation/covariance-at-construction", show(x.T.U()) << " instead of " << show(U));
  x.M = x.T.T().cast<L>(); M3 c = x.M.topLeftCorner<3, 3>(); for (int j = 0; j < 2; ++j) c = (1.5L * c - 0.5L * c * c.transpose() * c).eval(); x.M.topLeftCorner<3, 3>() = c;
  x.U = l(U);
  return x;
}
VX logT(const M4& P) { VX o(6); M3 c = P.topLeftCorner<3, 3>(); o << P.topRightCorner<3, 1>(), -vee(c); return o; }
M4 inv(const M4& T) { M3 c = T.topLeftCorner<3, 3>(); return rigid(M3(c.transpose()), V3(-(c.transpose() * T.topRightCorner<3, 1>()))); }
void uncertainTransformations(vm::Rng& r) {
  double ts = std::pow(10., r.uniform(-3, 3));
  UT a = transform(r, ts), b = transform(r, ts);
  VX z6 = VX::Zero(6), z12 = VX::Zero(12);
  // composition, inverse: the perturbation of the result as a function of those of the operands
  M4 ab = a.M * b.M;
  MX J = jacobian([&](const VX& d) { return logT(M4(perturb(d.head<6>(), a.M) * perturb(d.tail<6>(), b.M) * inv(ab))); }, z12);
  MX U = MX::Zero(12, 12); U.topLeftCorner(6, 6) = a.U; U.bottomRightCorner(6, 6) = b.U;
  smk::UncertainTransformation P = a.T * b.T;
  covariance(P.U(), prop(J, U), 1e-9, "transformation/product", show(a.T.T()) + show(b.T.T()));
  const smk::Transformation &ca = a.T, &cb = b.T;
  smk::Transformation certainA = a.T.toTransformation(), certainB = b.T.toTransformation();
  close(P.T(), (certainA * certainB).T(), 0, "transformation/product-mean", show(P.T()));
  smk::UncertainTransformation P1 = certainA * b.T, P2 = a.T * certainB, P3 = ca * b.T;
  MX Ub = U, Ua = U; Ub.topLeftCorner(6, 6).setZero(); Ua.bottomRightCorner(6, 6).setZero();
  covariance(P1.U(), prop(J, Ub), 1e-9, "transformation/certain-times-uncertain", show(a.T.T()));
  covariance(P2.U(), prop(J, Ua), 1e-9, "transformation/uncertain-times-certain", show(a.T.T()));
  covariance(P3.U(), prop(J, U), 1e-9, "transformation/virtual-product", show(a.T.T()));
  close(P1.T(), P.T(), 0, "transformation/product-mean", ""); close(P2.T(), P.T(), 0, "transformation/product-mean", ""); close(P3.T(), P.T(), 0, "transformation/product-mean", "");
  smk::UncertainTransformation I = a.T.inverse();
  MX Ji = jacobian([&](const VX& d) { return logT(M4(inv(perturb(d, a.M)) * a.M)); }, z6);
  covariance(I.U(), prop(Ji, a.U), 1e-9, "transformation/inverse", show(a.T.T()));
  close(I.T(), certainA.inverse().T(), 0, "transformation/inverse-mean", "");
  // the "oplus" form
  MX S = jacobian([&](const VX& d) { M3 c = a.M.topLeftCorner<3, 3>(); return logT(M4(rigid(M3(passive(V3(d.tail<3>())) * c), V3(a.M.topRightCorner<3, 1>() + d.head<3>())) * inv(a.M))); }, z6);
  double big = 1 + ts * ts * 1e-3;
  Eigen::Matrix<double, 6, 6> O = a.T.UOplus();
  { MX want = prop(MX(S.inverse()), a.U); covariance(O, want, 1e-9, "transformation/oplus-covariance", show(a.T.T())); }
  smk::UncertainTransformation Q = a.T; Eigen::Matrix<double, 6, 6> W = cov<6>(r); Q.setUOplus(W);
  covariance(Q.U(), prop(S, l(W)), 1e-9, "transformation/set-oplus-covariance", show(a.T.T())); (void)big; (void)cb;
  close(Q.T(), a.T.T(), 0, "transformation/set-changes-mean", "");
  // points
  W4 p; double ps = std::pow(10., r.uniform(-3, 3)); p << r.normal() * ps, r.normal() * ps, r.normal() * ps, r.chance(1, 2) ? 1 : r.chance(1, 4) ? 0 : r.normal() + 0.1;  // 0: a direction
  Eigen::Matrix4d Up = cov<4>(r, std::pow(10., r.uniform(-4, 1)));
  smk::HomogeneousPoint h(p); smk::UncertainHomogeneousPoint uh(p, Up); V4 pl = p.cast<L>();
  MX Jp = jacobian([&](const VX& d) { return VX(perturb(d.head<6>(), a.M) * (pl + V4(d.tail<4>()))); }, VX(VX::Zero(10)));
  MX U10 = MX::Zero(10, 10); U10.topLeftCorner(6, 6) = a.U; U10.bottomRightCorner(4, 4) = l(Up);
  MX onlyT = U10, onlyP = U10; onlyT.bottomRightCorner(4, 4).setZero(); onlyP.topLeftCorner(6, 6).setZero();
  smk::UncertainHomogeneousPoint r1 = a.T * uh, r2 = a.T * h, r3 = certainA * uh, r4 = ca * uh;
  std::string w = show(a.T.T()) + " times " + show(p);
  covariance(r1.U4(), prop(Jp, U10), 1e-9, "point/uncertain-transformation", w);
  covariance(r2.U4(), prop(Jp, onlyT), 1e-9, "point/uncertain-transformation-of-certain", w);
  covariance(r3.U4(), prop(Jp, onlyP), 1e-9, "point/certain-transformation", w);
  covariance(r4.U4(), prop(Jp, U10), 1e-9, "point/virtual-transformation", w);
  W4 mean = (certainA * h).toHomogeneous();
  close(r1.toHomogeneous(), mean, 0, "point/transformed-mean", w); close(r2.toHomogeneous(), mean, 0, "point/transformed-mean", w); close(r3.toHomogeneous(), mean, 0, "point/transformed-mean", w);
  W3 pv = p.head<3>(); W4 pw = p; close(a.T * pv, certainA * pv, 0, "point/plain-vector", w); close(a.T * pw, certainA * pw, 0, "point/plain-vector", w);
  smk::UncertainVector3 uv(pv, Eigen::Matrix3d(Up.topLeftCorner<3, 3>())), ur = a.T.rotate(uv);
  M3 C = a.M.topLeftCorner<3, 3>();
  close(ur.mean(), V3(C * pv.cast<L>()), 1e-14 * (1e-300 + pv.norm()) * 4, "vector/rotated-mean", w);
  covariance(ur.covariance(), prop(MX(C), MX(l(Up).topLeftCorner(3, 3))), 1e-9, "vector/rotated", w);
  vm::nontrivial(vm::combine(vm::bits(a.T.q()[0]), vm::bits(p[0])));
}
void uncertainPoints(vm::Rng& r) {
  auto pt = [&](W4& p) { double s = std::pow(10., r.uniform(-2, 2)); for (int i = 0; i < 3; ++i) p[i] = r.normal() * s; p[3] = r.chance(1, 3) ? 1 : (r.chance(1, 2) ? 1 : -1) * r.uniform(0.2, 4); };
  W4 a, b; pt(a); pt(b); V4 al = a.cast<L>(), bl = b.cast<L>();
  Eigen::Matrix4d Ua = cov<4>(r), Ub = cov<4>(r);
  smk::UncertainHomogeneousPoint A(a, Ua), B(b, Ub); smk::HomogeneousPoint ca(a), cb(b);
  if (r.chance(1, 5)) { Eigen::Matrix3d U3 = cov<3>(r); A = smk::UncertainHomogeneousPoint(W3(a.head<3>()), U3); a[3] = 1; al[3] = 1; ca = smk::HomogeneousPoint(a); Ua.setZero(); Ua.topLeftCorner<3, 3>() = U3; close(A.U4(), Ua, 0, "point/euclidean-covariance", show(a)); close(A.U3(), U3, 1e-14 * (1e-300 + U3.norm()), "point/euclidean-covariance", show(a)); }
  else if (r.chance(1, 2)) A = smk::UncertainHomogeneousPoint(smk::HomogeneousPoint(a), Ua);
  else { A = smk::UncertainHomogeneousPoint(a); A.setU(Ua); }
  MX U = MX::Zero(8, 8); U.topLeftCorner(4, 4) = l(Ua); U.bottomRightCorner(4, 4) = l(Ub);
  MX onlyA = U, onlyB = U; onlyA.bottomRightCorner(4, 4).setZero(); onlyB.topLeftCorner(4, 4).setZero();
  VX x(8); x << al, bl; std::string w = show(a) + " and " + show(b);
  for (int sign = 1; sign >= -1; sign -= 2) {
    auto f = [&](const VX& y) { V4 p = y.head<4>(), q = y.tail<4>(); VX o(4); o << p.head<3>() * q[3] + sign * q.head<3>() * p[3], p[3] * q[3]; return o; };
    MX J = jacobian(f, x, 1e-3L);
    std::string n = sign > 0 ? "point/sum" : "point/difference";
    smk::UncertainHomogeneousPoint r1 = sign > 0 ? A + B : A - B, r2 = sign > 0 ? A + cb : A - cb, r3 = sign > 0 ? ca + B : ca - B;
    const smk::HomogeneousPoint& va = A; smk::UncertainHomogeneousPoint r4 = sign > 0 ? va + B : va - B;
    covariance(r1.U4(), prop(J, U), 1e-11, n, w); covariance(r2.U4(), prop(J, onlyA), 1e-11, n + "-with-certain", w);
    covariance(r3.U4(), prop(J, onlyB), 1e-11, n + "-of-certain", w); covariance(r4.U4(), prop(J, U), 1e-11, n + "-virtual", w);
    W4 m = f(x).cast<double>();
    double tol = 1e-14 * (a.norm() * b.norm());
    close(r1.toHomogeneous(), m, tol, n + "-mean", w); close(r2.toHomogeneous(), m, tol, n + "-mean", w); close(r3.toHomogeneous(), m, tol, n + "-mean", w);
  }
  // Euclidean covariance, normalisation, angular-velocity form
  MX E = jacobian([](const VX& y) { return VX(y.head<3>() / y[3]); }, VX(al), 1e-4L);
  covariance(A.U3(), prop(E, l(A.U4())), 1e-9, "point/euclidean-covariance", show(a));
  smk::UncertainHomogeneousPoint N = A; N.normalize();
  MX Nj = jacobian([](const VX& y) { return VX(y / y.norm()); }, VX(al), (L)(1e-4 * a.norm()));
  covariance(N.U4(), prop(Nj, l(A.U4())), 1e-9, "point/normalised", show(a)); close(N.toHomogeneous(), V4(al / al.norm()), 1e-15 * 4, "point/normalised-mean", show(a));
  // normalising does not change the Euclidean uncertainty
  { MX want = prop(E, l(A.U4())); double m = want.cwiseAbs().maxCoeff(), c = (a.norm() / std::fabs(a[3])); VM_CHECK(diff(N.U3(), want) <= 1e-12 * (m + c * c * l(A.U4()).cwiseAbs().maxCoeff() / (a[3] * a[3])) * (1 + c * c), "point/normalisation-changes-euclidean-covariance", show(N.U3()) << " instead of " << show(want)); }
  Eigen::Matrix3d Uav = cov<3>(r); smk::UncertainHomogeneousPoint O(N), O2(N.toHomogeneous(), Uav), O3(smk::HomogeneousPoint(N.toHomogeneous()), Uav); O.setUOplus(Uav);
  V4 nl = N.toHomogeneous().cast<L>();
  MX T = jacobian([&](const VX& d) { return VX(qmul(k::qexp(V3(d)), nl)); }, VX(VX::Zero(3)));
  covariance(O.U4(), prop(T, l(Uav)), 1e-9, "point/oplus-covariance", show(a)); close(O2.U4(), O.U4(), 0, "point/oplus-constructor", show(a)); close(O3.U4(), O.U4(), 0, "point/oplus-constructor", show(a));
  close(O.U_av_form(), Uav, 1e-13 * (1e-300 + Uav.norm()), "point/oplus-round-trip", show(a));
  smk::UncertainHomogeneousPoint R; R.setRandom(); VM_CHECK(diff(R.U4(), Eigen::Matrix4d(R.U4().transpose())) <= 1e-15 * 8 && R.U4().determinant() > 0, "point/random-covariance", show(R.U4()));
  vm::nontrivial(vm::combine(vm::bits(a[0]), vm::bits(b[0])));
}
// random draws have a covariance; archives give back the uncertain object bit by bit; equality notices every change
template <class T> void reload(vm::Rng& r, const T& x, T& y) {
  std::stringstream s;
  if (r.chance(1, 2)) { { boost::archive::binary_oarchive o(s); o << boost::serialization::make_nvp("x", x); } boost::archive::binary_iarchive i(s); i >> boost::serialization::make_nvp("x", y); vm::event("archives-binary"); }
  else { { boost::archive::text_oarchive o(s); o << boost::serialization::make_nvp("x", x); } boost::archive::text_iarchive i(s); i >> boost::serialization::make_nvp("x", y); vm::event("archives-text"); }
}
template <class M> void semidefinite(const M& U, const std::string& key) {
  double m = U.cwiseAbs().maxCoeff();
  VM_CHECK(finite(U) && diff(U, M(U.transpose())) <= 1e-15 * 8 * (1 + m), key, "not symmetric: " << show(U));
  double least = Eigen::SelfAdjointEigenSolver<M>(U).eigenvalues().minCoeff();
  VM_CHECK(least >= -1e-13 * (1 + m), key, "eigenvalue " << least << " of " << show(U));
}
void kept(vm::Rng& r) {
  typedef Eigen::Matrix<double, 6, 6> D6;
  smk::UncertainTransformation R; R.setRandom(); semidefinite(R.U(), "transformation/random-covariance"); R.setRandom(r.uniform(0, 3), r.uniform(0, 3)); semidefinite(R.U(), "transformation/random-covariance");
  UT a = transform(r, std::pow(10., r.uniform(-3, 3))); smk::UncertainTransformation V; V.setRandom(); reload(r, a.T, V);
  VM_CHECK(V.isBinaryEqual(a.T) && diff(a.T.U(), V.U()) == 0 && diff(a.T.T(), V.T()) == 0, "transformation/serialization", show(a.T.U()) << " came back as " << show(V.U()));
  D6 M = a.T.U(); int i = (int)r.below(36); M(i) = changed(r, M(i), 1); V = a.T; V.setU(M); VM_CHECK(!V.isBinaryEqual(a.T) && !a.T.isBinaryEqual(V), "transformation/equality", "covariance entry " << i);
  V = a.T; VM_CHECK(V.isBinaryEqual(a.T), "transformation/equality", "a copy differs"); int j = (int)r.below(7); double& c = j < 4 ? V.qptr()[j] : V.tptr()[j - 4]; c = changed(r, c, 1e6); VM_CHECK(!V.isBinaryEqual(a.T), "transformation/equality", "component " << j);
  W4 p; for (int n = 0; n < 4; ++n) p[n] = r.logmag(-3, 3); Eigen::Matrix4d U = cov<4>(r); smk::UncertainHomogeneousPoint X(p, U), Y; Y.setRandom(); reload(r, X, Y);
  VM_CHECK(Y.isBinaryEqual(X) && diff(X.U4(), Y.U4()) == 0 && diff(X.toHomogeneous(), Y.toHomogeneous()) == 0, "point/serialization", show(X.U4()) << " came back as " << show(Y.U4()));
  Eigen::Matrix4d N = U; i = (int)r.below(16); N(i) = changed(r, N(i), 1e7); VM_CHECK(!smk::UncertainHomogeneousPoint(p, N).isBinaryEqual(X), "point/equality", "covariance entry " << i);
  W4 q = p; { double& d = q[r.below(4)]; d = changed(r, d, 1e7); } VM_CHECK(!smk::UncertainHomogeneousPoint(q, U).isBinaryEqual(X) && smk::UncertainHomogeneousPoint(p, U).isBinaryEqual(X), "point/equality", show(q));
  vm::nontrivial(vm::bits(p[0]));
}
template <int N> void uncertainVectors(vm::Rng& r) {
  typedef smk::UncertainVector<N> V; typedef typename V::value_t T; typedef smk::UncertainVector<1> S;
  T a, b; double sa = std::pow(10., r.uniform(-2, 2)), sb = std::pow(10., r.uniform(-2, 2)); for (int i = 0; i < N; ++i) { a[i] = r.normal() * sa; b[i] = r.normal() * sb; }
  typename V::covariance_t Ea = cov<N>(r), Eb = cov<N>(r); double s = r.logmag(-2, 2), vs = r.chance(1, 4) ? 0 : std::fabs(r.logmag(-3, 3));
  V A(a, Ea), B(b, Eb); S Sc(s, vs); std::string w = show(a) + " and " + show(b) + " and " + vm::str(s);
  V A0; A0.setMean(a); A0.setCovariance(Ea); VM_CHECK(A0.isBinaryEqual(A) && diff(A.v(), A.mean()) == 0 && diff(A.E(), A.covariance()) == 0 && diff(A.E(), Ea) == 0, "vector/accessors", w);
  VM_CHECK(V(a).E().norm() == 0 && V().E().norm() == 0 && V().v().norm() == 0, "vector/certain", w);
  MX U = MX::Zero(2 * N + 1, 2 * N + 1); U.block(0, 0, N, N) = l(Ea); U.block(N, N, N, N) = l(Eb); U(2 * N, 2 * N) = vs;
  VX x(2 * N + 1); x << a.template cast<L>(), b.template cast<L>(), (L)s;
  MX onlyA = U, onlyS = U, noB = U, noS = U; onlyA.block(N, N, N + 1, N + 1).setZero(); onlyS.topLeftCorner(2 * N, 2 * N).setZero(); noB.block(N, N, N, N).setZero(); noS(2 * N, 2 * N) = 0;
  auto judge = [&](const V& got, const MX& u, const std::function<VX(const VX&)>& f, const char* key) {
    MX J = jacobian(f, x, 1e-3L); covariance(got.E(), prop(J, u), 1e-10, std::string("vector/") + key, w);
    VX m = f(x); close(got.v(), m, 1e-14 * (double)(m.cwiseAbs().maxCoeff() + x.cwiseAbs().maxCoeff()), std::string("vector/") + key + "-mean", w);
  };
  auto scalar = [&](const S& got, const MX& u, const std::function<VX(const VX&)>& f, const char* key, L h = 1e-3L) {
    MX J = jacobian(f, x, h); MX want = prop(J, u); L m = f(x)[0];
    VM_CHECK(std::fabs(got.E() - (double)want(0, 0)) <= 1e-10 * (double)want(0, 0) + 1e-300, std::string("scalar/") + key, got.E() << " instead of " << (double)want(0, 0) << " at " << w);
    VM_CHECK(std::fabs(got.v() - (double)m) <= 1e-13 * ((double)fabsl(m) + a.norm() * b.norm()), std::string("scalar/") + key + "-mean", got.v() << " instead of " << (double)m << " at " << w);
    vm::event("covariances-compared");
  };
  judge(A + B, noS, [](const VX& y) { return VX(y.head(N) + y.segment(N, N)); }, "sum");
  judge(A - B, noS, [](const VX& y) { return VX(y.head(N) - y.segment(N, N)); }, "difference");
  judge(A + b, onlyA, [](const VX& y) { return VX(y.head(N) + y.segment(N, N)); }, "sum-with-certain");
  judge(A - b, onlyA, [](const VX& y) { return VX(y.head(N) - y.segment(N, N)); }, "difference-with-certain");
  judge(A * s, onlyA, [](const VX& y) { return VX(y.head(N) * y[2 * N]); }, "scaled-by-certain");
  MX US = noB; judge(A * Sc, US, [](const VX& y) { return VX(y.head(N) * y[2 * N]); }, "scaled");
  judge(Sc * A, US, [](const VX& y) { return VX(y.head(N) * y[2 * N]); }, "scaled-from-left");
  judge(Sc * T(a), onlyS, [](const VX& y) { return VX(y.head(N) * y[2 * N]); }, "certain-scaled-from-left");
  if (a.norm() > 1e-3) {
    auto nf = [](const VX& y) { return VX(y.head(N) / y.head(N).norm()); };
    MX J = jacobian(nf, x, (L)(1e-3 * a.norm())); MX want = prop(J, onlyA);
    V n1 = A.normalized(), n2 = A; n2.normalize();
    double m = (double)want.cwiseAbs().maxCoeff(), ref = Ea.cwiseAbs().maxCoeff() / a.squaredNorm();
    VM_CHECK(diff(n1.E(), want) <= 1e-10 * (m + ref) && diff(n2.E(), want) <= 1e-10 * (m + ref), "vector/normalised", show(n1.E()) << " / " << show(n2.E()) << " instead of " << show(want) << " at " << w);
    VM_CHECK(diff(n1.v(), nf(x)) <= 1e-15 * 4 && diff(n2.v(), nf(x)) <= 1e-15 * 4, "vector/normalised-mean", show(n1.v()));
  }
  scalar(A.dot(B), noS, [](const VX& y) { VX o(1); o << y.head(N).dot(y.segment(N, N)); return o; }, "dot");
  scalar(A.dot(b), onlyA, [](const VX& y) { VX o(1); o << y.head(N).dot(y.segment(N, N)); return o; }, "dot-with-certain");
  typename V::linear_operator_t M; for (int i = 0; i < N * N; ++i) M(i) = r.normal();
  judge(::operator*(M, A), onlyA, [&](const VX& y) { return VX(l(M) * y.head(N)); }, "linear-map");
  V Z = A; Z.setZero(); VM_CHECK(Z.v().norm() == 0 && Z.E().norm() == 0, "vector/zero", show(Z.v()));
  V R; R.setRandom(); VM_CHECK(finite(R.v()) && diff(R.E(), typename V::covariance_t(R.E().transpose())) <= 1e-15 * 8, "vector/random", show(R.E()));
  if (r.chance(1, 20)) {
    std::stringstream ss; { boost::archive::text_oarchive o(ss); const V& cA = A; o << cA; } V L2; { boost::archive::text_iarchive i(ss); i >> L2; }
    VM_CHECK(L2.isBinaryEqual(A), "vector/serialization", show(A.v()) << show(A.E()) << " came back as " << show(L2.v()) << show(L2.E()));
    vm::event("vectors-archived");
  }
  V D = A; T dv = a; { double& c = dv[r.below(N)]; c = changed(r, c, 1e9); } D.setMean(dv); VM_CHECK(!D.isBinaryEqual(A), "vector/equality", w);
  D = A; typename V::covariance_t dE = Ea; { double& c = dE((int)r.below(N * N)); c = changed(r, c, 1e9); } D.setCovariance(dE); VM_CHECK(!D.isBinaryEqual(A), "vector/equality", w);
  vm::nontrivial(vm::combine(vm::bits(a[0]), vm::bits(b[0])));
}
void uncertainScalars(vm::Rng& r) {
  typedef smk::UncertainVector<1> S;
  double a = r.logmag(-3, 3), b = r.logmag(-3, 3), ea = r.chance(1, 5) ? 0 : std::fabs(r.logmag(-4, 2)), eb = r.chance(1, 5) ? 0 : std::fabs(r.logmag(-4, 2));
  S A(a, ea), B; B.setMean(b); B.setCovariance(eb);
  struct { const char* n; S got; double v, da, db, eb; } t[] = {
      {"sum", A + B, a + b, 1, 1, eb}, {"difference", A - B, a - b, 1, -1, eb}, {"product", A * B, a * b, b, a, eb}, {"dot", A.dot(B), a * b, b, a, eb}, {"quotient", A / B, a / b, 1 / b, -a / b / b, eb},
      {"sum-with-certain", A + b, a + b, 1, 1, 0}, {"difference-with-certain", A - b, a - b, 1, -1, 0}, {"product-with-certain", A * b, a * b, b, a, 0}, {"dot-with-certain", A.dot(b), a * b, b, a, 0}, {"quotient-with-certain", A / b, a / b, 1 / b, -a / b / b, 0}};
  for (auto& x : t) {
    double want = x.da * x.da * ea + x.db * x.db * x.eb;
    VM_CHECK(std::fabs(x.got.covariance() - want) <= 1e-14 * want && std::fabs(x.got.v() - x.v) <= 1e-15 * (std::fabs(x.v) + std::fabs(a) * 0), std::string("scalar/") + x.n, x.got.v() << " +- " << x.got.E() << " instead of " << x.v << " +- " << want << " for " << a << "+-" << ea << " and " << b << "+-" << x.eb);
    VM_CHECK(x.got.mean() == x.got.v(), "scalar/accessors", x.got.v());
  }
  S Z = A; Z.setZero(); VM_CHECK(Z.v() == 0 && Z.E() == 0 && S().E() == 0 && S(a).E() == 0 && S(a).v() == a, "scalar/zero", Z.v());
  S C = A; VM_CHECK(C.isBinaryEqual(A), "scalar/equality", a); C.setCovariance(changed(r, ea, 1)); VM_CHECK(!C.isBinaryEqual(A), "scalar/equality", ea); C = A; C.setMean(changed(r, a, 1e4)); VM_CHECK(!C.isBinaryEqual(A), "scalar/equality", a);
  S R; R.setRandom(); VM_CHECK(R.E() >= 0 && std::isfinite(R.v()), "scalar/random", R.v());
  vm::event("covariances-compared", 10); vm::nontrivial(vm::bits(a));
}
#endif
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
#ifndef COVARIANCES
    vm::setRule("every analytic Jacobian equals the fourth-order difference quotient of an extended-precision reference");
    static smk::RotationVector rv; static smk::EulerRodriguez er; static smk::EulerAnglesYawPitchRoll ypr; static smk::EulerAnglesZYX zyx; static smk::EulerAnglesZXY zxy;
    static std::vector<Kin> v = {
        {"RotationVector", &rv, [](const V3& p) { return passive(p); }, 0},
        {"EulerRodriguez", &er, [](const V3& p) { return M3(M3::Identity() + 2 / (1 + p.squaredNorm()) * (cross(p) * cross(p) - cross(p))); }, 1},
        {"YawPitchRoll", &ypr, [](const V3& p) { return M3(rz(p[0]) * ry(p[1]) * rx(p[2])); }, 2},
        {"EulerAnglesZYX", &zyx, [](const V3& p) { return M3(rz(-p[0]) * ry(-p[1]) * rx(-p[2])); }, 2},
        {"EulerAnglesZXY", &zxy, [](const V3& p) { return M3(rz(p[0]) * rx(p[1]) * ry(p[2])); }, 2}};
    for (auto& x : v) vm::run(std::string("kinematics/") + x.name, 2500, [&](vm::Rng& r, uint64_t) { kinematics(r, x); });
    vm::run("inverse-S", 8000, [](vm::Rng& r, uint64_t) { inverseS(r); });
    vm::run("exp-log", 6000, [](vm::Rng& r, uint64_t) { expLog(r); });
    vm::run("updates", 8000, [](vm::Rng& r, uint64_t) { updates(r); });
    vm::run("transformations", 6000, [](vm::Rng& r, uint64_t) { transformations(r); });
#else
    vm::setRule("the covariance of every result equals first-order propagation through difference quotients of the operation in extended precision");
    vm::run("transformations", 3000, [](vm::Rng& r, uint64_t) { uncertainTransformations(r); });
    vm::run("points", 6000, [](vm::Rng& r, uint64_t) { uncertainPoints(r); });
    vm::run("archives", 1500, [](vm::Rng& r, uint64_t) { kept(r); });
    vm::run("vectors-2", 4000, [](vm::Rng& r, uint64_t) { uncertainVectors<2>(r); });
    vm::run("vectors-3", 4000, [](vm::Rng& r, uint64_t) { uncertainVectors<3>(r); });
    vm::run("vectors-4", 3000, [](vm::Rng& r, uint64_t) { uncertainVectors<4>(r); });
    vm::run("vectors-6", 2000, [](vm::Rng& r, uint64_t) { uncertainVectors<6>(r); });
    vm::run("scalars", 30000, [](vm::Rng& r, uint64_t) { uncertainScalars(r); });
#endif
  return vm::finish();
}
