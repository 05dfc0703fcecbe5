// K07: point-set alignment.  The oracle is Horn's closed form evaluated in extended precision with a
// Jacobi eigenvalue iteration (its largest eigenvalue gives the least squared error any rotation can
// reach), plus random competing transformations, plus the transformation the points were made with.
#include "k.hpp"
#include <sm/kinematics/three_point_methods.hpp>
using namespace k;
typedef Eigen::MatrixXd DX;

// eigenvalues (diagonal) and eigenvectors (columns) of a symmetric matrix, by cyclic Jacobi rotations
template <int N> static void jacobiEigen(Eigen::Matrix<L, N, N>& A, Eigen::Matrix<L, N, N>& V) {
  V.setIdentity();
  for (int sweep = 0; sweep < 60; ++sweep) {
    L off = 0, all = 0;
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { all += A(i, j) * A(i, j); if (i != j) off += A(i, j) * A(i, j); }
    if (off <= all * 1e-40L) break;
    for (int p = 0; p < N; ++p) for (int q = p + 1; q < N; ++q) {
      if (A(p, q) == 0) continue;
      L th = (A(q, q) - A(p, p)) / (2 * A(p, q));
      L t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
      for (int i = 0; i < N; ++i) { L x = A(i, p), y = A(i, q); A(i, p) = c * x - s * y; A(i, q) = s * x + c * y; }
      for (int i = 0; i < N; ++i) { L x = A(p, i), y = A(q, i); A(p, i) = c * x - s * y; A(q, i) = s * x + c * y; }
      for (int i = 0; i < N; ++i) { L x = V(i, p), y = V(i, q); V(i, p) = c * x - s * y; V(i, q) = s * x + c * y; }
    }
  }
}
// largest value of sum w a.(C b) over proper rotations C, and the eigenvalue gap to the runner-up
static L best(const MX& a, const MX& b, const VX& w, L& gap) {
  M3 B = M3::Zero();
  for (int i = 0; i < a.cols(); ++i) B += w[i] * V3(b.col(i)) * V3(a.col(i)).transpose();   // S_xy = sum b_x a_y
  M4 K;   // Horn 1987, rotating b onto a; quaternion order w x y z
  K << B(0,0)+B(1,1)+B(2,2), B(1,2)-B(2,1), B(2,0)-B(0,2), B(0,1)-B(1,0),
       0, B(0,0)-B(1,1)-B(2,2), B(0,1)+B(1,0), B(2,0)+B(0,2),
       0, 0, -B(0,0)+B(1,1)-B(2,2), B(1,2)+B(2,1),
       0, 0, 0, -B(0,0)-B(1,1)+B(2,2);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) K(i, j) = K(j, i);
  M4 V;
  jacobiEigen<4>(K, V);
  L m = K(0, 0), m2 = -HUGE_VALL; int at = 0;
  for (int i = 1; i < 4; ++i) if (K(i, i) > m) { m = K(i, i); at = i; }
  for (int i = 0; i < 4; ++i) if (i != at) m2 = std::max(m2, K(i, i));
  gap = m - m2;
  return m;
}
static L gain(const MX& a, const MX& b, const VX& w, const M3& C) {
  L s = 0;
  for (int i = 0; i < a.cols(); ++i) s += w[i] * V3(a.col(i)).dot(V3(C * V3(b.col(i))));
  return s;
}
static M3 nearRotation(vm::Rng& r, const M3& C) {
  if (r.chance(1, 4)) return qmat(rotation(r));
  return M3(active(V3(axis(r) * fabsl(r.logmag(-9, 0)))) * C);
}

static const char* shapeName[] = {"general", "planar", "minimal", "axis-aligned", "square", "symmetric-cross", "flat", "duplicates", "almost-collinear", "simplex"};
static MX shape(vm::Rng& r, int kind) {
  int n = kind == 2 ? 3 : r.chance(1, 600) ? (int)r.range(100, 3000) : (int)r.range(3, r.chance(1, 10) ? 60 : 12);
  MX p(3, n);
  auto rnd = [&] { return (L)r.uniform(-1, 1); };
  for (int i = 0; i < n; ++i) p.col(i) = V3(rnd(), rnd(), rnd());
  switch (kind) {
    case 1: for (int i = 0; i < n; ++i) p(2, i) = 0; break;
    case 3: for (int i = 0; i < n; ++i) p.col(i) = V3(r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)); p.col(0) = V3(0, 0, 0); p.col(1) = V3(1, 0, 0); p.col(2) = V3(0, 1, 0); break;
    case 4: p.resize(3, 4); p << 1, -1, -1, 1, 1, 1, -1, -1, 0, 0, 0, 0; break;
    case 5: p.resize(3, 6); p << 1, -1, 0, 0, 0, 0, 0, 0, 1, -1, 0, 0, 0, 0, 0, 0, 1, -1; break;
    case 6: for (int i = 0; i < n; ++i) p(2, i) *= fabsl(r.logmag(-12, -2)); break;
    case 7: for (int i = 3; i < n; ++i) p.col(i) = p.col(r.below(3)); break;
    case 8: for (int i = 0; i < n; ++i) { p(1, i) *= 1e-3L; p(2, i) *= 1e-3L; } break;
    case 9: p.resize(3, 4); p << 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1; break;
    default: break;
  }
  if (r.chance(1, 2)) p = qmat(rotation(r)) * p;
  return p;
}

static void svdCase(vm::Rng& r, bool noisy) {
  int kind = (int)r.below(10);
  MX p1 = shape(r, kind);
  int n = (int)p1.cols();
  L scale = r.chance(1, 2) ? 1 : fabsl(r.logmag(-6, 6));
  L away = r.chance(1, 2) ? 0 : scale * fabsl(r.logmag(-1, 6));
  p1 *= scale;
  p1.colwise() += V3(axis(r) * away);
  DX b = p1.cast<double>();
  p1 = b.cast<L>();
  const char* what = "";
  M3 C = qmat(rotation(r, &what));
  V3 t = axis(r) * (r.chance(1, 3) ? 0 : scale * fabsl(r.logmag(-2, 4)));
  MX p0 = C * p1; p0.colwise() += t;
  L sigma = 0; bool mirrored = false;
  if (noisy) {
    mirrored = r.chance(1, 3);
    if (mirrored) { V3 m = axis(r); V3 c = p0.rowwise().mean(); for (int i = 0; i < n; ++i) { V3 d = p0.col(i) - c; p0.col(i) = c + d - 2 * m * m.dot(d); } }
    sigma = scale * (r.chance(1, 8) ? 0 : r.chance(1, 4) ? 3 : fabsl(r.logmag(-6, 0)));
    for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) p0(j, i) += sigma * r.normal();
  }
  DX a = p0.cast<double>();
  p0 = a.cast<L>();
  std::ostringstream ctx; ctx << "threePointSvd, " << shapeName[kind] << " points" << (mirrored ? " (mirrored)" : "") << ", " << n << " of them, scale " << (double)scale << ", distance from the origin " << (double)away << ", rotation " << what << ", noise " << (double)sigma;
  vm::event(std::string("shape-") + shapeName[kind]);
  if (mirrored) vm::event("mirrored");
  if (away > 0) vm::event("far-from-origin");
  D4 T = sm::kinematics::threePointSvd(a, b);
  vm::event(noisy ? "svd-noisy" : "svd-exact");
  bool fin = finite(T);
  VM_CHECK(fin, "svd-finite", ctx.str() << ": " << show(T));
  if (!fin) return;
  VM_CHECK(T(3,0) == 0 && T(3,1) == 0 && T(3,2) == 0 && T(3,3) == 1, "svd-last-row", ctx.str() << ": " << show(T));
  D3 R = T.topLeftCorner<3, 3>();
  VM_CHECK(proper(R, 1e-13), "svd-proper", ctx.str() << ": not a proper rotation: " << show(R));
  // oracle
  V3 c0 = p0.rowwise().mean(), c1 = p1.rowwise().mean();
  MX A = p0, Bm = p1; A.colwise() -= c0; Bm.colwise() -= c1;
  VX w = VX::Ones(n);
  L gap, g = best(A, Bm, w, gap), SA = A.squaredNorm(), SB = Bm.squaredNorm(), S = SA + SB;
  L least = S - 2 * g;   // least sum of squared distances
  auto cost = [&](const M3& Q, const V3& x) { L s = 0; for (int i = 0; i < n; ++i) { V3 d = V3(p0.col(i)) - Q * V3(p1.col(i)) - x; s += d.squaredNorm(); } return s; };
  M3 Rl = R.cast<L>(); V3 tl(T(0, 3), T(1, 3), T(2, 3));
  L got = cost(Rl, tl);
  L far = std::max(c0.norm(), c1.norm()), rms = sqrtl(S / n);
  L tol = 1e-12L * S + n * (2e-15L * far) * (2e-14L * far) + n * 1e-13L * far * sqrtl(std::max(least, (L)0) / n) + 4 * n * (1e-15L * far) * rms;
  VM_CHECK(got <= least + tol, "svd-optimal", ctx.str() << ": squared error " << (double)got << ", the best rigid transformation has " << (double)least << ", tolerance " << (double)tol);
  for (int i = 0; i < 4; ++i) {
    M3 Q = nearRotation(r, Rl); V3 x = c0 - Q * c1;
    if (r.chance(1, 3)) x += axis(r) * (rms * fabsl(r.logmag(-8, 0)));
    L other = cost(Q, x);
    VM_CHECK(other >= got - tol, "svd-competitor", ctx.str() << ": another transformation has the smaller squared error " << (double)other << " < " << (double)got);
  }
  L cond = (S + far * sqrtl(n * S)) / gap;   // how far rounding of the points can turn the result
  if (!noisy && cond < 1e10L) {
    vm::event("recovered");
    VM_CHECK(diff(Rl, C) <= 3e-14L * cond, "svd-recovers-rotation", ctx.str() << ": returned " << show(R) << " for " << show(C) << " (error " << diff(Rl, C) << ", condition " << (double)cond << ")");
    VM_CHECK(diff(tl, t) <= 3e-14L * cond * far + 1e-14L * (far + rms + t.norm()), "svd-recovers-translation", ctx.str() << ": returned " << show(tl) << " for " << show(t));
  }
  if (gap > 1e-6L * S) vm::nontrivial(vm::combine(vm::hashStr(shapeName[kind]), vm::combine((uint64_t)(noisy * 2 + mirrored), vm::hashStr(what))));
  if (gap > 1e-6L * S && r.chance(1, 4)) {   // the order of the correspondences does not matter
    std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i;
    for (int i = n - 1; i > 0; --i) std::swap(o[i], o[r.below(i + 1)]);
    DX a2(3, n), b2(3, n); for (int i = 0; i < n; ++i) { a2.col(i) = a.col(o[i]); b2.col(i) = b.col(o[i]); }
    D4 T2 = sm::kinematics::threePointSvd(a2, b2);
    VM_CHECK(diff(T2.topLeftCorner<3,3>(), R) <= 1e-13L * cond, "svd-order", ctx.str() << ": a different order of the points gives " << show(T2) << " instead of " << show(T));
    D4 Ti = sm::kinematics::threePointSvd(b, a);
    VM_CHECK(diff(Ti.topLeftCorner<3,3>(), R.transpose()) <= 1e-13L * cond, "svd-swap", ctx.str() << ": exchanging the point sets gives " << show(Ti) << ", not the inverse of " << show(T));
  }
}

static void qCase(vm::Rng& r, bool noisy) {
  int n = r.chance(1, 600) ? (int)r.range(100, 3000) : (int)r.range(2, r.chance(1, 10) ? 40 : 8), kind = (int)r.below(5);
  static const char* kinds[] = {"general", "coplanar", "axes", "narrow-cone", "two-directions"};
  MX u(3, n);
  for (int i = 0; i < n; ++i) u.col(i) = axis(r);
  if (kind == 1) for (int i = 0; i < n; ++i) { V3 v = u.col(i); v[2] = 0; if (!(v.norm() > 1e-3L)) v = V3(1, 0, 0); u.col(i) = v / v.norm(); }
  if (kind == 2) for (int i = 0; i < n; ++i) { V3 v = V3::Zero(); v[i % 3] = r.chance(1, 2) ? 1 : -1; u.col(i) = v; }
  if (kind == 3) { V3 c = axis(r); for (int i = 0; i < n; ++i) { V3 v = c + 0.02L * V3(u.col(i)); u.col(i) = v / v.norm(); } }
  if (kind == 4) { V3 c = axis(r), d = axis(r); for (int i = 0; i < n; ++i) u.col(i) = (i & 1) ? c : d; }
  const char* what = "";
  M3 C = qmat(rotation(r, &what));
  MX v = C * u;
  L sigma = noisy ? (r.chance(1, 4) ? 1 : fabsl(r.logmag(-6, 0))) : 0;
  bool mirrored = noisy && r.chance(1, 4);
  for (int i = 0; i < n; ++i) { V3 x = v.col(i); if (mirrored) x = -x; for (int j = 0; j < 3; ++j) x[j] += sigma * r.normal(); if (!(x.norm() > 1e-3L)) x = V3(0, 0, 1); v.col(i) = x / x.norm(); }
  DX a = v.cast<double>(), b = u.cast<double>();
  Eigen::VectorXd w = Eigen::VectorXd::Ones(n);
  int wk = (int)r.below(5); L ws = r.chance(1, 3) ? fabsl(r.logmag(-8, 8)) : 1;
  if (wk == 1) for (int i = 0; i < n; ++i) w[i] = r.unit();
  if (wk == 2) for (int i = 0; i < n; ++i) w[i] = (double)fabsl(r.logmag(-4, 4));
  if (wk == 3) for (int i = 0; i < n; ++i) w[i] = (double)r.range(1, 4);
  if (wk == 4) for (int i = 0; i < n; ++i) w[i] = (i >= 2 && r.chance(1, 3)) ? 0 : 1;
  if (wk) w *= (double)ws;
  if (noisy && wk == 4) for (int i = 2; i < n; ++i) if (w[i] == 0) a.col(i) = axis(r).cast<double>();   // ignored pairs may be anything
  std::ostringstream ctx; ctx << "qMethod, " << kinds[kind] << " directions" << (mirrored ? " (mirrored)" : "") << ", " << n << " of them, rotation " << what << ", noise " << (double)sigma << ", weights " << show(w);
  vm::event(std::string("directions-") + kinds[kind]); vm::event("weights-" + std::to_string(wk));
  D3 R = wk || r.chance(1, 2) ? sm::kinematics::qMethod(a, b, w) : sm::kinematics::qMethod(a, b);
  vm::event(noisy ? "q-noisy" : "q-exact");
  bool fin = finite(R);
  VM_CHECK(fin, "q-finite", ctx.str() << ": " << show(R));
  if (!fin) return;
  VM_CHECK(proper(R, 1e-13), "q-proper", ctx.str() << ": not a proper rotation: " << show(R));
  MX A = a.cast<L>(), B = b.cast<L>(); VX wl = w.cast<L>();
  L W = wl.sum(), gap, g = best(A, B, wl, gap), got = gain(A, B, wl, R.cast<L>());
  L tol = 1e-12L * W;
  VM_CHECK(got >= g - tol, "q-optimal", ctx.str() << ": weighted squared error " << (double)(2 * (W - got)) << ", the best rotation has " << (double)(2 * (W - g)));
  for (int i = 0; i < 4; ++i) {
    L o = gain(A, B, wl, nearRotation(r, R.cast<L>()));
    VM_CHECK(o <= got + tol, "q-competitor", ctx.str() << ": another rotation has the smaller weighted squared error " << (double)(2 * (W - o)));
  }
  L cond = W / gap;
  if (!noisy && gap > 0 && cond < 1e8L) {
    vm::event("q-recovered");
    VM_CHECK(diff(R, C) <= 3e-14L * cond, "q-recovers", ctx.str() << ": returned " << show(R) << " for " << show(C));
  }
  if (gap > 1e-6L * W) vm::nontrivial(vm::combine(vm::hashStr(kinds[kind]), vm::combine((uint64_t)(noisy * 16 + mirrored * 8 + wk), vm::hashStr(what))));
  if (wk == 3 && gap > 1e-6L * W && ws == 1) {   // an integer weight counts like that many copies
    int m = (int)w.sum(), at = 0; DX a2(3, m), b2(3, m);
    for (int i = 0; i < n; ++i) for (int j = 0; j < (int)w[i]; ++j, ++at) { a2.col(at) = a.col(i); b2.col(at) = b.col(i); }
    D3 R2 = sm::kinematics::qMethod(a2, b2);
    vm::event("weights-as-copies");
    VM_CHECK(diff(R2, R) <= 1e-13L * cond, "q-copies", ctx.str() << ": repeating the pairs instead of weighting them gives " << show(R2) << " instead of " << show(R));
  }
}

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("distinct combinations of point-set shape, rotation class, mirroring and weighting for which the best alignment is unique, each judged against the extended-precision optimum");
  vm::run("svd-exact", 25000, [](vm::Rng& r, uint64_t) { svdCase(r, false); }, 20);
  vm::run("svd-noisy", 25000, [](vm::Rng& r, uint64_t) { svdCase(r, true); }, 20);
  vm::run("q-exact", 25000, [](vm::Rng& r, uint64_t) { qCase(r, false); }, 20);
  vm::run("q-noisy", 25000, [](vm::Rng& r, uint64_t) { qCase(r, true); }, 20);
  return vm::finish();
}
