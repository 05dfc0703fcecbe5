// K03: rigid transformations; K05: homogeneous points.
#include "k.hpp"
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/property_tree.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <sm/boost/serialization.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
namespace smk = sm::kinematics;
using namespace k;

namespace {
struct Rig { M3 C; V3 t; };   // p_a = C p_b + t
Rig operator*(const Rig& a, const Rig& b) { return Rig{a.C * b.C, a.C * b.t + a.t}; }
Rig inverse(const Rig& a) { return Rig{a.C.transpose(), -(a.C.transpose() * a.t)}; }
M4 mat(const Rig& a) { M4 m = M4::Identity(); m.topLeftCorner<3, 3>() = a.C; m.topRightCorner<3, 1>() = a.t; return m; }

V3 vec(vm::Rng& r, double lo = -9, double hi = 9) { V3 v; for (int i = 0; i < 3; ++i) v[i] = r.chance(1, 8) ? 0 : r.chance(1, 2) ? r.normal() : r.logmag(lo, hi); return V3(v.cast<double>().cast<L>()); }
smk::Transformation make(vm::Rng& r, Rig& g) {
  V4 q = rotation(r); W4 d = unit(q, r); V3 t = vec(r);
  V4 e = d.cast<L>(); e /= e.norm();
  g = Rig{qmat(e), t};
  switch (r.below(4)) {
    case 0: return smk::Transformation(d, t.cast<double>());
    case 1: { double s = std::pow(10., r.uniform(-5, 5)); return smk::Transformation(W4(s * d), t.cast<double>()); }   // normalised by the constructor
    case 2: { D4 T = mat(g).cast<double>(); g.C = T.topLeftCorner<3, 3>().cast<L>(); return smk::Transformation(T); }
    default: { D4 T = mat(g).cast<double>(); smk::Transformation x; x.set(T); return x; }
  }
}
void judge(const smk::Transformation& T, const Rig& g, double tolC, double tolT, const char* key) {
  D4 M = T.T(); Eigen::Matrix<double, 3, 4> M3x4 = T.T3x4();
  bool ok = finite(M) && finite(T.q());
  VM_CHECK(ok, std::string("nan/") + key, show(M));
  if (!ok) return;
  VM_CHECK(std::fabs(T.q().norm() - 1) <= std::max(tolC, 1e-14), std::string("not-unit/") + key, show(T.q()));
  VM_CHECK(diff(D3(M.topLeftCorner<3, 3>()), g.C) <= tolC, std::string("rotation/") + key, show(D3(M.topLeftCorner<3, 3>())) << " instead of " << show(g.C));
  VM_CHECK(diff(W3(M.topRightCorner<3, 1>()), g.t) <= tolT, std::string("translation/") + key, show(W3(M.topRightCorner<3, 1>())) << " instead of " << show(g.t) << ", tolerance " << tolT);
  VM_CHECK(M(3, 0) == 0 && M(3, 1) == 0 && M(3, 2) == 0 && M(3, 3) == 1, std::string("last-row/") + key, show(M));
  VM_CHECK(diff(M3x4, Eigen::Matrix<double, 3, 4>(M.topRows<3>())) == 0 && diff(T.C(), D3(M.topLeftCorner<3, 3>())) == 0 && diff(T.t(), W3(M.topRightCorner<3, 1>())) == 0, std::string("accessors/") + key, show(M) << show(M3x4) << show(T.C()) << show(T.t()));
}
double big(const V3& v) { return (double)v.cwiseAbs().maxCoeff(); }

void basics(vm::Rng& r) {
  Rig a, b; smk::Transformation A = make(r, a), B = make(r, b);
  judge(A, a, 1e-14 * 2, 0, "construction"); judge(B, b, 1e-14 * 2, 0, "construction");
  a.C = qmat(V4(A.q().cast<L>() / (L)A.q().cast<L>().norm())); b.C = qmat(V4(B.q().cast<L>() / (L)B.q().cast<L>().norm()));
  double ta = big(a.t), tb = big(b.t);
  judge(A * B, a * b, 2e-14, 2e-14 * (ta + tb), "product");
  judge(A.inverse(), inverse(a), 2e-14, 2e-14 * ta, "inverse");
  judge(A * A.inverse(), Rig{M3::Identity(), V3::Zero()}, 2e-14, 4e-14 * ta, "product-with-inverse");
  judge(A.inverse() * A, Rig{M3::Identity(), V3::Zero()}, 2e-14, 4e-14 * ta, "product-with-inverse");
  judge(smk::Transformation(), Rig{M3::Identity(), V3::Zero()}, 0, 0, "identity");
  smk::Transformation I = A; I.setIdentity(); judge(I, Rig{M3::Identity(), V3::Zero()}, 0, 0, "set-identity");
  smk::Transformation copy = A; VM_CHECK(copy.isBinaryEqual(A) && A.isBinaryEqual(copy), "copy-differs", show(A.T()));
  // application
  V3 p = vec(r); W3 pd = p.cast<double>(); double w = r.chance(1, 3) ? 1 : r.chance(1, 3) ? 0 : r.logmag(-4, 4); double tp = big(p), tol = 2e-14 * (tp + ta * std::max(1., std::fabs(w)));
  V3 rp = a.C * p, tr = rp + a.t;
  VM_CHECK(diff(A * pd, tr) <= tol, "apply/vector3", show(A * pd) << " instead of " << show(tr));
  W4 h(pd[0], pd[1], pd[2], w); W4 hh = A * h; V3 hr = rp + (L)w * a.t;
  VM_CHECK(diff(W3(hh.head<3>()), hr) <= tol && hh[3] == w, "apply/vector4", show(hh) << " instead of " << show(hr) << " " << w);
  VM_CHECK(diff(W4(A.T() * h), hh) <= tol, "apply/matrix", show(hh));
  if (h.norm() > 0) {
    smk::HomogeneousPoint H(h), G = A * H;
    VM_CHECK(diff(W3(G.toHomogeneous().head<3>()), hr) <= tol && G.toHomogeneous()[3] == w, "apply/homogeneous-point", show(G.toHomogeneous()));
    if (w != 0) VM_CHECK(diff(G.toEuclidean(), V3(hr / (L)w)) <= 2 * tol / std::fabs(w), "apply/homogeneous-point-euclidean", show(G.toEuclidean()));
  }
  VM_CHECK(diff(A.rotate(pd), rp) <= 2e-14 * tp, "rotate/vector3", show(A.rotate(pd)));
  W4 rh = A.rotate(h); VM_CHECK(diff(W3(rh.head<3>()), rp) <= 2e-14 * tp && rh[3] == w, "rotate/vector4", show(rh));
  VM_CHECK(diff(W3((A * B) * pd), W3(A * (B * pd))) <= 6e-14 * (tp + ta + tb), "associative", show(A.T()) << show(B.T()) << show(pd));
  // small update
  Eigen::Matrix<double, 6, 1> dt; V3 dr = axis(r) * angle(r), dp = vec(r, -3, 3); dt.head<3>() = dp.cast<double>(); dt.tail<3>() = dr.cast<double>();
  smk::Transformation O = A; O.oplus(dt);
  Rig o{passive(V3(dt.tail<3>().cast<L>())) * a.C, a.t + dp};
  judge(O, o, 2e-14, 2e-15 * (ta + big(dp)), "oplus");
  // the raw pointers alias the state
  VM_CHECK(A.qptr()[0] == A.q()[0] && A.qptr()[3] == A.q()[3] && A.tptr()[2] == A.t()[2], "pointers", show(A.q()));
  vm::event("transformations", 6); vm::nontrivial(vm::combine(vm::bits(A.q()[0]), vm::bits(B.t()[1])));
}
void freeFunctions(vm::Rng& r) {
  Rig a; smk::Transformation A = make(r, a);
  D3 C = A.C(); W3 t = A.t(); double ta = t.cwiseAbs().maxCoeff();
  a.C = C.cast<L>();
  D4 T = smk::rt2Transform(C, t);
  VM_CHECK(diff(T, mat(a)) == 0 && diff(smk::transform2C(T), C) == 0 && diff(smk::transform2rho(T), t) == 0 && diff(smk::transform2rhoHomogeneous(T), W4(t[0], t[1], t[2], 1)) == 0, "rt2Transform", show(T));
  D4 I = smk::inverseTransform(T);
  VM_CHECK(diff(I, mat(inverse(a))) <= 1e-14 * (1 + ta), "inverseTransform", show(I));
  Eigen::Matrix<double, 6, 1> e = smk::fromTEuler(T);
  bool fin = finite(e);
  VM_CHECK(fin, "nan/fromTEuler", show(e) << " for " << show(T));
  if (fin) {
    D4 B = smk::toTEuler(e), B2 = smk::toTEuler(e[0], e[1], e[2], e[3], e[4], e[5]);
    VM_CHECK(diff(B, T) <= 4e-12 && diff(B, B2) == 0, "euler-round-trip", show(e) << " gives " << show(B) << " instead of " << show(T));
    M3 ref = rz(-(L)e[5]) * ry(-(L)e[4]) * rx(-(L)e[3]);
    VM_CHECK(diff(D3(B.topLeftCorner<3, 3>()), ref) <= 1e-14, "toTEuler-convention", show(e) << " gives " << show(B));
  }
  vm::event("matrix-functions");
}
void interpolate(vm::Rng& r) {
  Rig a, b; smk::Transformation A = make(r, a), B = make(r, b);
  if (r.chance(1, 5)) { Eigen::Matrix<double, 6, 1> d; for (int i = 0; i < 6; ++i) d[i] = r.logmag(-12, 0); B = A; B.oplus(d); }
  double s0 = r.chance(1, 4) ? 0 : r.chance(1, 3) ? 1.5e9 + r.uniform(0, 1) : r.uniform(-100, 100), ds = r.chance(1, 6) ? 0 : r.chance(1, 3) ? 1 : std::pow(10., r.uniform(-6, 6)), s1 = s0 + ds;
  double u = r.chance(1, 6) ? 0 : r.chance(1, 6) ? 1 : r.chance(1, 6) ? r.uniform(-2, 0) : r.chance(1, 6) ? r.uniform(1, 3) : r.unit(), s = r.chance(1, 8) ? s1 : s0 + u * (s1 - s0);
  smk::Transformation I, S;
  try {
    I = s1 == s0 || r.chance(1, 2) ? smk::interpolateTransformations(A, s0, B, s1, s) : smk::interpolateTransformations(B, s1, A, s0, s);
    S = smk::slerpTransformations(A, B, u);
  } catch (const std::exception& e) { vm::fail("interpolation-throws", e.what()); return; }
  auto at = [&](double x, Rig& g) {
    if (x <= 0) { g = Rig{qmat(V4(A.q().cast<L>())), A.t().cast<L>()}; return; }
    if (x >= 1) { g = Rig{qmat(V4(B.q().cast<L>())), B.t().cast<L>()}; return; }
    V4 qa = A.q().cast<L>(), qb = B.q().cast<L>(); qa /= qa.norm(); qb /= qb.norm();
    V4 d = qmul(qconj(qa), qb); if (d[3] < 0) d = -d;
    g = Rig{qmat(qmul(qa, k::qexp(V3(k::qlog(d) * (L)x)))), V3(A.t().cast<L>() * (1 - (L)x) + B.t().cast<L>() * (L)x)};
  };
  V4 dd = qmul(qconj(V4(A.q().cast<L>())), V4(B.q().cast<L>()));
  bool ambiguous = fabsl(dd[3]) < 1e-9L;
  double tt = std::max(A.t().cwiseAbs().maxCoeff(), B.t().cwiseAbs().maxCoeff());
  Rig g;
  double x = s1 > s0 ? (double)(((L)s - (L)s0) / ((L)s1 - (L)s0)) : (s <= s0 ? 0 : 1);
  if (!ambiguous || x <= 0 || x >= 1) { at(x, g); judge(I, g, 1e-13 + 4e-16, 1e-14 * tt, "interpolation"); }
  if (!ambiguous || u <= 0 || u >= 1) { at(u, g); judge(S, g, 1e-13, 1e-14 * tt, "slerp"); }
  if (s <= std::min(s0, s1)) VM_CHECK(diff(I.T(), A.T()) <= 1e-15, "interpolation-start", show(I.T()) << " instead of " << show(A.T()));
  if (s >= std::max(s0, s1) && s1 > s0) VM_CHECK(diff(I.T(), B.T()) <= 1e-15, "interpolation-end", show(I.T()) << " instead of " << show(B.T()));
  vm::event(x <= 0 ? "interpolations-before" : x >= 1 ? "interpolations-after" : "interpolations-between"); vm::nontrivial(vm::bits(s));
}
void randomDraws(vm::Rng& r, uint64_t) {
  double tm = r.chance(1, 6) ? 0 : std::fabs(r.logmag(-6, 6)), rm = r.chance(1, 6) ? 0 : std::min(M_PI, std::fabs(r.logmag(-8, 0.5)));
  smk::Transformation A; A.setRandom(tm, rm);
  bool fin = finite(A.T());
  VM_CHECK(fin, "nan/random", "setRandom(" << tm << ", " << rm << ") gives " << show(A.T()));
  if (fin) {
    VM_CHECK(A.t().norm() <= tm * (1 + 1e-14), "random-translation", "length " << A.t().norm() << " with bound " << tm);
    L a = len(k::qlog(V4(A.q().cast<L>()))); a = std::min(a, 2 * PI - a);
    VM_CHECK((double)a <= rm + 1e-15, "random-rotation", "angle " << (double)a << " with bound " << rm);
    VM_CHECK(proper(A.C(), 1e-14), "random-improper", show(A.C()));
  }
  A.setRandom(); VM_CHECK(finite(A.T()) && proper(A.C(), 1e-14), "random-improper", show(A.T()));
  smk::UncertainTransformation U; U.setRandom(); VM_CHECK(finite(U.T()) && proper(U.C(), 1e-14) && finite(U.U()) && diff(U.U(), Eigen::Matrix<double, 6, 6>(U.U().transpose())) <= 1e-14, "random-uncertain", show(U.U()));
  U.setRandom(tm, rm); VM_CHECK(finite(U.T()) && proper(U.C(), 1e-14) && U.t().norm() <= tm * (1 + 1e-14), "random-uncertain-bounded", show(U.T()));
  vm::event("random-draws");
}
template <class T> void reload(vm::Rng& r, const T& x, T& y) {
  std::stringstream s;
  switch (r.below(3)) {
    case 0: { { boost::archive::binary_oarchive o(s); o << boost::serialization::make_nvp("x", x); } boost::archive::binary_iarchive i(s); i >> boost::serialization::make_nvp("x", y); vm::event("archives-binary"); break; }
    case 1: { { boost::archive::text_oarchive o(s); o << boost::serialization::make_nvp("x", x); } boost::archive::text_iarchive i(s); i >> boost::serialization::make_nvp("x", y); vm::event("archives-text"); break; }
    default: { { boost::archive::xml_oarchive o(s); o << boost::serialization::make_nvp("x", x); } boost::archive::xml_iarchive i(s); i >> boost::serialization::make_nvp("x", y); vm::event("archives-xml"); }
  }
}
Eigen::Matrix<double, 6, 6> cov6(vm::Rng& r) { Eigen::Matrix<double, 6, 6> B; for (int i = 0; i < 36; ++i) B(i) = r.normal(); return B * B.transpose(); }
void serialize(vm::Rng& r) {
  Rig a; smk::Transformation A = make(r, a), B; B.setRandom(); reload(r, A, B);
  VM_CHECK(B.isBinaryEqual(A) && diff(A.T(), B.T()) == 0, "serialization/transformation", show(A.T()) << " came back as " << show(B.T()));
  smk::UncertainTransformation U(A, cov6(r)), V; V.setRandom(); reload(r, U, V);
  VM_CHECK(V.isBinaryEqual(U) && diff(U.U(), V.U()) == 0 && diff(U.T(), V.T()) == 0, "serialization/uncertain-transformation", show(U.T()) << show(U.U()) << " came back as " << show(V.T()) << show(V.U()));
  smk::Transformation base = U.toTransformation(); VM_CHECK(base.isBinaryEqual(A), "toTransformation", show(base.T()));
  // equality notices any change
  smk::UncertainTransformation W = U; Eigen::Matrix<double, 6, 6> M = U.U(); int i = (int)r.below(36); M(i) = changed(r, M(i), 1); W.setU(M);
  VM_CHECK(!W.isBinaryEqual(U), "equality/covariance", "covariance entry " << i);
  smk::Transformation Z = A; int j = (int)r.below(7); double& c = j < 4 ? Z.qptr()[j] : Z.tptr()[j - 4]; c = changed(r, c, 1e6);
  VM_CHECK(!Z.isBinaryEqual(A) && !A.isBinaryEqual(Z), "equality/mean", "component " << j);
}
void fromTree(vm::Rng& r) {
  sm::BoostPropertyTree pt; V4 q = rotation(r); double s = std::pow(10., r.uniform(-3, 3)); W4 d = (q * (L)s).cast<double>(); W3 t = vec(r).cast<double>();
  const char* c[] = {"x", "y", "z", "w"};
  sm::PropertyTree root(pt); sm::PropertyTree sub(root, "frame");
  for (int i = 0; i < 4; ++i) sub.setDouble(std::string("q_a_b/") + c[i], d[i]);
  for (int i = 0; i < 3; ++i) sub.setDouble(std::string("t_a_b_a/") + c[i], t[i]);
  smk::Transformation T = smk::transformationFromPropertyTree(sm::ConstPropertyTree(sub));
  V4 e = d.cast<L>(); e /= e.norm();
  judge(T, Rig{qmat(e), t.cast<L>()}, 2e-14, 0, "property-tree");
  vm::event("configured-transformations");
}
// a history of operations against the same history on extended-precision matrices
void history(vm::Rng& r) {
  Rig g; smk::Transformation T = make(r, g);
  g.C = qmat(V4(T.q().cast<L>() / T.q().cast<L>().norm()));
  int n = (int)r.range(3, vm::thorough() ? 2000 : 200); double scale = big(g.t), tol = 1e-15;
  for (int i = 0; i < n; ++i) {
    Rig h; smk::Transformation H = make(r, h); h.C = qmat(V4(H.q().cast<L>() / H.q().cast<L>().norm()));
    // keep translations bounded so that one tolerance covers the history
    switch (r.below(6)) {
      case 0: T = T * H; g = g * h; break;
      case 1: T = H * T; g = h * g; break;
      case 2: T = T.inverse(); g = inverse(g); break;
      case 3: { Eigen::Matrix<double, 6, 1> d; d.head<3>() = h.t.cast<double>(); d.tail<3>() = (axis(r) * angle(r)).cast<double>(); T.oplus(d); g = Rig{passive(V3(d.tail<3>().cast<L>())) * g.C, g.t + h.t}; break; }
      case 4: { smk::Transformation Z; reload(r, T, Z); T = Z; break; }
      case 5: { D4 m = T.T(); T.set(m); break; }
    }
    scale += big(h.t); tol += 4e-15;
    M3 c = g.C; for (int j = 0; j < 2; ++j) c = (1.5L * c - 0.5L * c * c.transpose() * c).eval(); g.C = c;
  }
  judge(T, g, 2 * tol, 4 * tol * scale, "history");
  if (r.chance(1, 2)) {
    Rig h; smk::Transformation H = make(r, h);
    try { smk::Transformation S = smk::slerpTransformations(T, H, r.unit()); VM_CHECK(finite(S.T()) && proper(S.C(), 1e-13), "history/slerp", show(S.T())); }
    catch (const std::exception& e) { vm::fail("history/slerp-throws", std::string(e.what()) + " after " + vm::str(n) + " operations, norm " + vm::str(T.q().norm())); }
  }
  vm::event("history-operations", n); vm::nontrivial(vm::bits(T.q()[2]));
}

// ------------------------------------------------------------------------------------------ K05
struct P { V3 v; double w; };   // Euclidean value and scale of representation
smk::HomogeneousPoint point(vm::Rng& r, P& p) {
  p.v = vec(r, -6, 6); W3 d = p.v.cast<double>();
  p.w = r.chance(1, 3) ? 1 : r.logmag(-5, 5);
  smk::HomogeneousPoint h;
  switch (r.below(6)) {
    case 0: p.w = 1; return smk::HomogeneousPoint(d);
    case 1: p.w = 1; h = d; return h;
    case 2: p.w = 1; h.set(d); return h;
    case 3: { W4 x; x << d * p.w, p.w; p.v = x.head<3>().cast<L>() / (L)p.w; return smk::HomogeneousPoint(x); }
    case 4: { W4 x; x << d * p.w, p.w; p.v = x.head<3>().cast<L>() / (L)p.w; h = x; return h; }
    default: { W4 x; x << d * p.w, p.w; p.v = x.head<3>().cast<L>() / (L)p.w; Eigen::VectorXd y = x; if (r.chance(1, 2)) h.set(y); else h.set(x); return h; }
  }
}
void judgeP(const smk::HomogeneousPoint& h, const V3& v, double scale, const char* key) {
  bool fin = finite(h.toHomogeneous());
  VM_CHECK(fin && h.toHomogeneous()[3] != 0, std::string("point-lost/") + key, show(h.toHomogeneous()));
  if (!fin || h.toHomogeneous()[3] == 0) return;
  W3 e = h.toEuclidean();
  VM_CHECK(diff(e, v) <= 4e-15 * (scale + big(v)), std::string("point/") + key, show(e) << " instead of " << show(v) << " (" << show(h.toHomogeneous()) << ")");
}
void points(vm::Rng& r) {
  P a, b; smk::HomogeneousPoint A = point(r, a), B = point(r, b);
  judgeP(A, a.v, 0, "creation"); judgeP(B, b.v, 0, "creation");
  V3 sum = a.v + b.v, dif = a.v - b.v; double sc = big(a.v) + big(b.v);
  judgeP(A + B, sum, sc, "sum"); judgeP(B + A, sum, sc, "sum"); judgeP(A - B, dif, sc, "difference");
  smk::UncertainHomogeneousPoint UA(A), UB(B);
  VM_CHECK(UA.U4().norm() == 0, "certain-point-with-uncertainty", show(UA.U4()));
  judgeP(A + UB, sum, sc, "sum-with-uncertain"); judgeP(A - UB, dif, sc, "difference-with-uncertain");
  judgeP(UA + B, sum, sc, "uncertain-sum"); judgeP(UA - B, dif, sc, "uncertain-difference");
  judgeP(UA + UB, sum, sc, "uncertain-sum"); judgeP(UA - UB, dif, sc, "uncertain-difference");
  const smk::HomogeneousPoint& base = UA; judgeP(base + UB, sum, sc, "virtual-sum"); judgeP(base - UB, dif, sc, "virtual-difference");
  smk::HomogeneousPoint N = A; N.normalize(); judgeP(N, a.v, 0, "normalised");
  VM_CHECK(std::fabs(N.toHomogeneous().norm() - 1) <= 1e-15 * 4, "not-normalised", show(N.toHomogeneous()));
  smk::UncertainHomogeneousPoint UN = UA; UN.normalize(); judgeP(UN, a.v, 0, "uncertain-normalised");
  smk::HomogeneousPoint& virt = UN; virt.normalize(); judgeP(UN, a.v, 0, "virtual-normalised");
  double s = r.logmag(-3, 3); smk::HomogeneousPoint S = A; S.scale(s); judgeP(S, V3(a.v * (L)s), 0, "scaled");
  VM_CHECK(!A.atInfinity() && !A.isVector(), "finite-point-at-infinity", show(A.toHomogeneous()));
  // direction and back
  smk::HomogeneousPoint D = A; D.convertToVector();
  VM_CHECK(D.isVector() && D.atInfinity() && diff(W3(D.toHomogeneous().head<3>()), W3(A.toHomogeneous().head<3>())) == 0, "direction", show(D.toHomogeneous()));
  if (a.v.norm() > 0) {
    D.convertToPoint();
    V3 u = A.toHomogeneous().head<3>().cast<L>(); u /= len(u);
    judgeP(D, u, 0, "direction-to-point");
  }
  smk::HomogeneousPoint Z = A; Z.setZero(); judgeP(Z, V3(V3::Zero()), 0, "zero"); judgeP(smk::HomogeneousPoint(), V3(V3::Zero()), 0, "default"); judgeP(smk::UncertainHomogeneousPoint(), V3(V3::Zero()), 0, "uncertain-default");
  smk::HomogeneousPoint Q; Q.setRandom(); VM_CHECK(finite(Q.toHomogeneous()) && std::fabs(Q.toHomogeneous().norm() - 1) <= 1e-15 * 4, "random-point", show(Q.toHomogeneous()));
  // perturbation: the quaternion update on the representation
  W3 dp = (axis(r) * angle(r)).cast<double>(); smk::HomogeneousPoint O = A; O.oplus(dp);
  V4 x = A.toHomogeneous().cast<L>(); V4 want = qmul(k::qexp(V3(dp.cast<L>())), x);
  VM_CHECK(diff(O.toHomogeneous(), want) <= 1e-14 * (double)x.cwiseAbs().maxCoeff(), "oplus", show(O.toHomogeneous()) << " instead of " << show(want));
  // transformation of a scaled representation
  V4 q = rotation(r); W4 qd = unit(q, r); qd /= qd.norm(); W3 t = vec(r, -3, 3).cast<double>(); smk::Transformation T(qd, t); smk::UncertainTransformation UT(T);
  V3 tv = qmat(V4(T.q().cast<L>())) * a.v + t.cast<L>(); double ts = 4 * (big(a.v) + t.cwiseAbs().maxCoeff());
  judgeP(T * A, tv, ts, "transformed"); judgeP(T * UA, tv, ts, "transformed"); judgeP(UT * A, tv, ts, "transformed"); judgeP(UT * UA, tv, ts, "transformed");
  vm::event("points", 2); vm::nontrivial(vm::combine(vm::bits(A.toHomogeneous()[0]), vm::bits(B.toHomogeneous()[3])));
}
void pointsAtInfinity(vm::Rng& r) {
  V3 d = vec(r, -6, 6); if (d.norm() == 0) d[0] = 1; W4 h; h << d.cast<double>(), 0;
  smk::HomogeneousPoint A(h); VM_CHECK(A.atInfinity() && A.isVector(), "infinity", show(h));
  V4 q = rotation(r); W4 qd = unit(q, r); smk::Transformation T(qd, vec(r).cast<double>());
  smk::HomogeneousPoint B = T * A;
  V3 want = qmat(V4(T.q().cast<L>())) * d;
  VM_CHECK(B.atInfinity() && diff(W3(B.toHomogeneous().head<3>()), want) <= 1e-14 * big(d), "transformed-direction", show(B.toHomogeneous()) << " instead of " << show(want));
  A.normalize(); VM_CHECK(A.atInfinity() && diff(W3(A.toHomogeneous().head<3>()), V3(d / len(d))) <= 1e-15 * 4, "normalised-direction", show(A.toHomogeneous()));
  A.setZero(); VM_CHECK(!A.atInfinity() && A.toEuclidean().norm() == 0, "zero", "setZero on a direction gives " << show(A.toHomogeneous()));
  vm::event("directions");
}
void pointErrors(vm::Rng& r) {
  int n = (int)r.pickl<int>({0, 1, 2, 5, 7}); smk::HomogeneousPoint A(W3(1, 2, 3)); bool threw = false;
  try { A.set(Eigen::VectorXd(Eigen::VectorXd::Ones(n))); } catch (const smk::HomogeneousPoint::Exception&) { threw = true; }
  VM_CHECK(threw && diff(A.toHomogeneous(), W4(1, 2, 3, 1)) == 0, "wrong-size-accepted", n << " components: " << show(A.toHomogeneous()));
  threw = false; W4 notUnit(0.3, 0.2, 0.1, r.uniform(2, 9));
  smk::UncertainHomogeneousPoint U(notUnit);
  try { U.setUOplus(Eigen::Matrix3d::Identity()); } catch (const smk::HomogeneousPoint::Exception&) { threw = true; }
  VM_CHECK(threw, "oplus-covariance-of-scaled-point", "accepted for " << show(notUnit));
  vm::event("rejections", 2);
}
void functions(vm::Rng& r) {
  V3 v = vec(r, -6, 6); W3 d = v.cast<double>();
  Eigen::Matrix<double, 4, 3> J; W4 h = smk::toHomogeneous(d, r.chance(1, 2) ? &J : nullptr);
  VM_CHECK(diff(h, W4(d[0], d[1], d[2], 1)) == 0, "toHomogeneous", show(h));
  double w = r.logmag(-5, 5); W4 x = w * h; W3 e = smk::fromHomogeneous(x);
  VM_CHECK(diff(e, v) <= 2e-15 * big(v), "fromHomogeneous", show(e) << " from " << show(x));
  int rows = (int)r.range(1, 6), cols = (int)r.range(1, 9);
  Eigen::MatrixXd M(rows, cols); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) M(i, j) = r.logmag(-5, 5);
  Eigen::MatrixXd H = smk::toHomogeneousColumns(M);
  VM_CHECK(H.rows() == rows + 1 && H.cols() == cols && diff(Eigen::MatrixXd(H.topRows(rows)), M) == 0 && (H.row(rows).array() == 1).all(), "toHomogeneousColumns", show(H));
  Eigen::MatrixXd S = H; for (int j = 0; j < cols; ++j) S.col(j) *= r.logmag(-4, 4);
  Eigen::MatrixXd B = smk::fromHomogeneousColumns(S);
  double err = 0; for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) err = std::max(err, std::fabs(B(i, j) - M(i, j)) / std::fabs(M(i, j)));
  VM_CHECK(B.rows() == rows && B.cols() == cols && err <= 2e-15, "fromHomogeneousColumns", show(S) << " gives " << show(B));
  V3 u = vec(r, -5, 5); double w2 = r.logmag(-4, 4); W4 y; y << u.cast<double>() * w2, w2; V3 uu = y.head<3>().cast<L>() / (L)w2, xv = x.head<3>().cast<L>() / (L)x[3];
  judgeP(smk::HomogeneousPoint(W4(smk::toHomogeneousPlus(y) * x)), V3(xv + uu), big(xv) + big(uu), "plus-matrix");
  judgeP(smk::HomogeneousPoint(W4(smk::toHomogeneousMinus(y) * x)), V3(xv - uu), big(xv) + big(uu), "minus-matrix");
  vm::event("functions"); vm::nontrivial(vm::bits(x[1]));
}
void pointArchives(vm::Rng& r) {
  P a; smk::HomogeneousPoint A = point(r, a), B; B.setRandom(); reload(r, A, B);
  VM_CHECK(B.isBinaryEqual(A) && diff(A.toHomogeneous(), B.toHomogeneous()) == 0, "serialization/point", show(A.toHomogeneous()) << " came back as " << show(B.toHomogeneous()));
  D4 U; for (int i = 0; i < 16; ++i) U(i) = r.logmag(-5, 5);
  smk::UncertainHomogeneousPoint X(A, U), Y; Y.setRandom(); reload(r, X, Y);
  VM_CHECK(Y.isBinaryEqual(X) && diff(X.U4(), Y.U4()) == 0 && diff(X.toHomogeneous(), Y.toHomogeneous()) == 0, "serialization/uncertain-point", show(X.U4()) << " came back as " << show(Y.U4()));
  D4 M = U; int i = (int)r.below(16); M(i) = changed(r, M(i), 1e7); smk::UncertainHomogeneousPoint Z(A, M); VM_CHECK(!Z.isBinaryEqual(X), "equality/covariance", "entry " << i);
  W4 h = A.toHomogeneous(); { double& c = h[r.below(4)]; c = changed(r, c, 1e13); } VM_CHECK(!smk::HomogeneousPoint(h).isBinaryEqual(A), "equality/point", show(h));
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  std::string mode;
  for (int i = 1; i < argc; ++i) { std::string s = argv[i]; if (s == "transformations" || s == "points") mode = s; }
  if (mode == "transformations") {
    vm::setRule("operations on transformations agree with 4x4 matrix algebra in extended precision, and copies through archives are identical");
    vm::run("basics", 40000, [](vm::Rng& r, uint64_t) { basics(r); });
    vm::run("matrix-functions", 40000, [](vm::Rng& r, uint64_t) { freeFunctions(r); });
    vm::run("interpolate", 40000, [](vm::Rng& r, uint64_t) { interpolate(r); });
    vm::run("random-draws", 10000, randomDraws);
    vm::run("serialize", 1500, [](vm::Rng& r, uint64_t) { serialize(r); });
    vm::run("configuration", 2000, [](vm::Rng& r, uint64_t) { fromTree(r); });
    vm::run("history", 150, [](vm::Rng& r, uint64_t) { history(r); });
  } else {
    vm::setRule("operations on homogeneous points give the Euclidean result, whatever the scale of the representation");
    vm::run("points", 40000, [](vm::Rng& r, uint64_t) { points(r); });
    vm::run("directions", 20000, [](vm::Rng& r, uint64_t) { pointsAtInfinity(r); });
    vm::run("rejections", 300, [](vm::Rng& r, uint64_t) { pointErrors(r); });
    vm::run("functions", 30000, [](vm::Rng& r, uint64_t) { functions(r); });
    vm::run("archives", 1500, [](vm::Rng& r, uint64_t) { pointArchives(r); });
  }
  return vm::finish();
}
