// Extended-precision reference for rotations, quaternions and rigid transformations, written from the
// documented conventions (passive rotation matrices, quaternions stored x y z w) and sharing no code
// with sm_kinematics.
#ifndef K_HPP
#define K_HPP
#include "vm.hpp"
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/Geometry>
#include <Eigen/Eigenvalues>
#include <cmath>
#include <functional>

namespace k {
typedef long double L;
typedef Eigen::Matrix<L, 3, 3> M3;
typedef Eigen::Matrix<L, 4, 4> M4;
typedef Eigen::Matrix<L, 3, 1> V3;
typedef Eigen::Matrix<L, 4, 1> V4;
typedef Eigen::Matrix<L, 6, 1> V6;
typedef Eigen::Matrix<L, Eigen::Dynamic, 1> VX;
typedef Eigen::Matrix<L, Eigen::Dynamic, Eigen::Dynamic> MX;
typedef Eigen::Matrix3d D3; typedef Eigen::Matrix4d D4; typedef Eigen::Vector3d W3; typedef Eigen::Vector4d W4;
const L PI = 3.14159265358979323846264338327950288L;

// another number: the next one, or one far away
inline double changed(vm::Rng& r, double x, double far) { switch (r.below(3)) { case 0: return std::nextafter(x, INFINITY); case 1: return std::nextafter(x, -INFINITY); default: return x + far; } }
inline M3 cross(const V3& v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
inline L len(const V3& v) { L s = v.cwiseAbs().maxCoeff(); return s == 0 ? 0 : s * (v / s).norm(); }
// active rotation by |v| about v
inline M3 active(const V3& v) {
  L a = len(v);
  if (a == 0) return M3::Identity();
  V3 e = v / a; L s = sinl(a), h = sinl(a / 2);
  M3 X = cross(e);
  return M3::Identity() + s * X + 2 * h * h * X * X;
}
inline M3 passive(const V3& v) { return active(-v); }
inline M3 rx(L a) { return active(V3(a, 0, 0)); }
inline M3 ry(L a) { return active(V3(0, a, 0)); }
inline M3 rz(L a) { return active(V3(0, 0, a)); }
inline V4 qexp(const V3& v) { L a = len(v); V3 e = a == 0 ? V3(V3::Zero()) : V3(v / a * sinl(a / 2)); if (a != 0 && a < 1e-15L) e = v / 2; return V4(e[0], e[1], e[2], cosl(a / 2)); }
// Hamilton-free definition through matrices: the product of q and p is the quaternion of C(q) C(p)
inline M3 qmat(const V4& q) {   // passive matrix of a unit quaternion
  V3 e = q.head<3>(); L w = q[3];
  return (w * w - e.dot(e)) * M3::Identity() + 2 * e * e.transpose() - 2 * w * cross(e);
}
inline V4 qmul(const V4& q, const V4& p) {   // C(qmul(q,p)) = C(q) C(p)
  V3 a = q.head<3>(), b = p.head<3>();
  V3 v = q[3] * b + p[3] * a - a.cross(b);
  return V4(v[0], v[1], v[2], q[3] * p[3] - a.dot(b));
}
inline V4 qconj(const V4& q) { return V4(-q[0], -q[1], -q[2], q[3]); }
// rotation vector in [0, 2 pi) of a unit quaternion, without identifying q and -q
inline V3 qlog(const V4& q) {
  V3 e = q.head<3>(); L n = len(e);
  if (n == 0) return V3::Zero();
  return e / n * (2 * atan2l(n, q[3]));
}
template <class A, class B> inline double diff(const A& a, const B& b) {
  double m = 0;
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) {
    double d = (double)fabsl((L)a(i, j) - (L)b(i, j));
    if (!(d <= 1e300)) return HUGE_VAL;
    m = std::max(m, d);
  }
  return m;
}
template <class A> inline bool finite(const A& a) { for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) if (!std::isfinite((double)a(i, j))) return false; return true; }
template <class A> inline std::string show(const A& a) {
  std::ostringstream o; o << std::setprecision(17) << "[";
  for (int i = 0; i < a.rows(); ++i) { if (i) o << "; "; for (int j = 0; j < a.cols(); ++j) o << (j ? " " : "") << (double)a(i, j); }
  return o.str() + "]";
}
inline bool proper(const D3& C, double tol) { M3 c = C.cast<L>(); return finite(C) && diff(M3(c * c.transpose()), M3(M3::Identity())) <= tol && c.determinant() > 0; }

// -- generators ---------------------------------------------------------------------------------
inline V3 axis(vm::Rng& r) {
  V3 v;
  switch (r.below(5)) {
    case 0: v = V3::Zero(); v[r.below(3)] = r.chance(1, 2) ? 1 : -1; return v;
    case 1: for (int i = 0; i < 3; ++i) v[i] = (L)r.range(-1, 1); break;
    case 2: for (int i = 0; i < 3; ++i) v[i] = r.normal() * (r.chance(1, 2) ? 1 : std::pow(10., r.uniform(-17, 0))); break;
    default: for (int i = 0; i < 3; ++i) v[i] = r.normal();
  }
  if (!(len(v) > 0)) return V3(0, 0, 1);
  v /= len(v);
  return v / len(v);
}
inline L angle(vm::Rng& r, const char** what = nullptr) {   // 0 .. 2 pi, both halves
  const char* w; L a;
  switch (r.below(10)) {
    case 0: a = 0; w = "zero"; break;
    case 1: a = fabsl(r.logmag(-18, -1)); w = "tiny"; break;
    case 2: a = PI; w = "half-turn"; break;
    case 3: a = PI - fabsl(r.logmag(-18, -2)); w = "just-under-half-turn"; break;
    case 4: a = PI + fabsl(r.logmag(-18, -2)); w = "just-over-half-turn"; break;
    case 5: a = 2 * PI - fabsl(r.logmag(-15, -1)); w = "almost-full-turn"; break;
    case 6: a = PI / 2 * r.range(0, 3); w = "quarter-turns"; break;
    case 7: a = fabsl(r.logmag(-8, -2)); w = "small"; break;
    default: a = r.unit() * 2 * PI; w = "general";
  }
  if (what) *what = w;
  return a;
}
// angle of an Euler middle axis: general or at or near +-90 degrees
inline L middle(vm::Rng& r) {
  switch (r.below(4)) {
    case 0: return (r.chance(1, 2) ? 1 : -1) * PI / 2;
    case 1: return (r.chance(1, 2) ? 1 : -1) * (PI / 2 - fabsl(r.logmag(-17, -1)));
    case 2: return 0;
    default: return (r.unit() - 0.5L) * PI;
  }
}
// a rotation as a unit quaternion in extended precision
inline V4 rotation(vm::Rng& r, const char** what = nullptr) {
  V4 q;
  if (r.chance(1, 4)) {   // near gimbal lock of some Euler sequence
    L a = r.chance(1, 3) ? PI / 2 * r.range(-2, 2) : (r.unit() * 2 - 1) * PI, c = r.chance(1, 3) ? PI / 2 * r.range(-2, 2) : (r.unit() * 2 - 1) * PI, m = middle(r);
    int i = (int)r.below(3), j = (i + 1 + (int)r.below(2)) % 3, kk = 3 - i - j;
    V3 x = V3::Zero(), y = x, z = x; x[i] = a; y[j] = m; z[kk] = c;
    q = qmul(qmul(k::qexp(x), k::qexp(y)), k::qexp(z));
    if (what) *what = "gimbal";
  } else q = k::qexp(V3(axis(r) * angle(r, what)));
  q /= q.norm();
  if (r.chance(1, 2)) q = -q;
  return q;
}
// rounds to double, optionally with noise of a few ulps as products of many matrices have
inline D3 rounded(const M3& C, vm::Rng& r, double* noise = nullptr) {
  double n = r.chance(1, 2) ? 0 : std::pow(10., r.uniform(-16.5, -14));
  D3 c;
  for (int i = 0; i < 9; ++i) c(i) = (double)(C(i) + n * r.uniform(-1, 1));
  if (r.chance(1, 4)) for (int i = 0; i < 9; ++i) if (std::fabs(c(i)) < 1e-15 || r.chance(1, 20)) c(i) = std::nextafter(c(i), r.chance(1, 2) ? 2 : -2);
  if (noise) *noise = n;
  return c;
}
inline W4 unit(const V4& q, vm::Rng& r) {   // a double quaternion as users make them
  W4 d = q.cast<double>();
  if (r.chance(1, 2)) d /= d.norm(); else if (r.chance(1, 2)) d.normalize();
  return d;
}

// -- differentiation ----------------------------------------------------------------------------
// Jacobian of f: R^n -> R^m at x in extended precision, O(h^4) central differences
inline MX jacobian(const std::function<VX(const VX&)>& f, const VX& x, L h = 2e-4L) {
  VX f0 = f(x);
  MX J(f0.size(), x.size());
  for (int j = 0; j < x.size(); ++j) {
    auto at = [&](L d) { VX y = x; y[j] += d; return VX(f(y)); };
    J.col(j) = (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
  }
  return J;
}
}  // namespace k
#endif
