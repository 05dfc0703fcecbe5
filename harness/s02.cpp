// S02: threads that only share what they read get what they would get alone.
// Every case draws objects that are shared and only read (through const access), and a plan of operations per thread: questions to the shared objects, and
// whole life cycles of objects of the thread's own (with files of its own). The threads run their plans at the same time; afterwards the same plans are run
// one after the other and have to give the same text, digit by digit. ThreadSanitizer watches meanwhile.
#include "vm.hpp"
#include <sm/BoostPropertyTree.hpp>
#include <sm/BoostPropertyTreeLoader.hpp>
#include <sm/MatrixArchive.hpp>
#include <sm/hash_id.hpp>
#include <sm/Id.hpp>
#include <sm/boost/serialization.hpp>
#include <sm/boost/ptime.hpp>
#include <sm/eigen/NumericalDiff.hpp>
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/property_tree.hpp>
#include <sm/eigen/serialization.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/UncertainVector.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/property_tree.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/three_point_methods.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/numerical_comparisons.hpp>
#include <sm/serialization_macros.hpp>
#include <sm/string_routines.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <sm/timing/TimestampCorrector.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/ValueStore.hpp>
#include <sm/value_store/VerboseValueStore.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include <boost/serialization/vector.hpp>
#include <thread>

namespace smk = sm::kinematics; namespace vs = sm::value_store;
namespace {
typedef Eigen::Vector3d V3; typedef Eigen::Vector4d V4; typedef Eigen::Matrix3d M3; typedef Eigen::Matrix4d M4; typedef Eigen::MatrixXd MX; typedef Eigen::Matrix<double, 6, 6> M6;

// What a thread saw: text, so that a difference can be shown.
struct Out {
  std::ostringstream s;
  Out() { s << std::hexfloat; }
  template <class T> Out& operator()(const Eigen::DenseBase<T>& m) { s << '['; for (Eigen::Index j = 0; j < m.cols(); ++j) for (Eigen::Index i = 0; i < m.rows(); ++i) s << m.derived().coeff(i, j) << ' '; s << ']'; return *this; }
  Out& operator()(const std::string& t) { s << '"' << t << '"'; return *this; }
  Out& operator()(const char* t) { return (*this)(std::string(t)); }
  Out& operator()(double d) { s << d << ' '; return *this; }
  Out& operator()(int i) { s << i << ' '; return *this; }
  Out& operator()(size_t i) { s << i << ' '; return *this; }
  Out& operator()(long i) { s << i << ' '; return *this; }
  Out& operator()(bool b) { s << (b ? "yes " : "no "); return *this; }
};
V3 v3(vm::Rng& r) { return V3(r.normal(), r.normal(), r.normal()); }
V4 quat(vm::Rng& r) { return V4(r.normal(), r.normal(), r.normal(), r.normal()).normalized(); }
template <int N> Eigen::Matrix<double, N, N> cov(vm::Rng& r) { typedef Eigen::Matrix<double, N, N> M; M b = M::NullaryExpr([&](Eigen::Index, Eigen::Index) { return r.normal(); }); return b * b.transpose(); }
MX mx(vm::Rng& r, int rows, int cols) { return MX::NullaryExpr(rows, cols, [&](Eigen::Index, Eigen::Index) { return r.normal(); }); }

struct Data {  // C++ value with deep comparison
  int i; std::string s; std::vector<double> v; boost::shared_ptr<MX> p;
  bool isBinaryEqual(const Data& o) const { return SM_CHECKMEMBERSSAME(o, i) && SM_CHECKMEMBERSSAME(o, s) && SM_CHECKMEMBERSSAME(o, v) && SM_CHECKMEMBERSSAME(o, p); }
  template <class A> void serialize(A& a, const unsigned) { a & BOOST_SERIALIZATION_NVP(i); a & BOOST_SERIALIZATION_NVP(s); a & BOOST_SERIALIZATION_NVP(v); a & BOOST_SERIALIZATION_NVP(p); }
};
Data data(vm::Rng& r) { Data d; d.i = (int)r.below(9); d.s = std::string(r.below(4), 'x'); d.v.assign(r.below(3), r.normal()); if (r.chance(2, 3)) d.p.reset(new MX(mx(r, 2, 2))); return d; }
void fill(sm::PropertyTree t, vm::Rng& r, int depth) {
  for (int k = 0; k < 4; ++k) {
    std::string key = std::string("k") + char('a' + k);
    switch (k) { case 0: t.setInt(key, (int)r.below(1000)); break; case 1: t.setDouble(key, r.normal()); break; case 2: t.setBool(key, r.chance(1, 2)); break; default: t.setString(key, "t" + std::to_string(r.below(50))); }
    if (depth && r.chance(1, 2)) fill(sm::PropertyTree(t, "s" + std::to_string(k)), r, depth - 1);
  }
}
void writeTree(const sm::ConstPropertyTree& t, Out& o, int depth) {
  for (int k = 0; k < 4; ++k) {
    std::string key = std::string("k") + char('a' + k);
    o(t.doesKeyExist(key));
    if (!t.doesKeyExist(key)) continue;
    switch (k) { case 0: o(t.getInt(key)); break; case 1: o(t.getDouble(key)); break; case 2: o(t.getBool(key)); break; default: o(t.getString(key)); }
    if (depth && t.doesKeyExist("s" + std::to_string(k))) writeTree(sm::ConstPropertyTree(t, "s" + std::to_string(k)), o, depth - 1);
  }
  for (auto& c : t.getChildren()) o(c.key);
}
void writeStore(const vs::ValueStore& t, Out& o, int depth) {
  for (int k = 0; k < 4; ++k) {
    std::string key = std::string("k") + char('a' + k);
    o(t.hasKey(key));
    if (!t.hasKey(key)) continue;
    switch (k) { case 0: o(t.getInt(key).get()); break; case 1: o(t.getDouble(key).get()); break; case 2: o(t.getBool(key).get()); break; default: o(t.getString(key).get()); }
  }
  o(t.isEmpty())(t.isChildSupported());
  if (depth) for (auto& c : t.getChildren()) { o(c.getKey()); writeStore(c.getValueStore(), o, depth - 1); }
}
std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }

// What the threads of a case share, and only read.
struct Shared {
  smk::Transformation T; smk::UncertainTransformation U; smk::HomogeneousPoint h; smk::UncertainHomogeneousPoint uh; smk::UncertainVector<3> uv;
  V4 q, p; V3 a; M3 C; MX A, P0, P1;
  sm::MatrixArchive ma; sm::BoostPropertyTree tree; Data d; sm::HashId id; std::vector<std::string> keys;
  std::unique_ptr<sm::timing::TimestampCorrector<double>> clock;
  std::shared_ptr<vs::ValueStore> store; std::string treeFile, archiveFile, dataFile;
  std::vector<std::unique_ptr<smk::RotationalKinematics>> rot;
  explicit Shared(vm::Rng& r)
      : T(quat(r), v3(r)), U(quat(r), v3(r), cov<6>(r)), h(V4(r.normal(), r.normal(), r.normal(), 1.5)), uh(V4(r.normal(), r.normal(), r.normal(), 0.7), cov<4>(r)), uv(v3(r), cov<3>(r)), q(quat(r)), p(quat(r)), a(v3(r)),
        C(smk::quat2r(quat(r))), A(mx(r, 4, 4)), P0(mx(r, 3, 6)), d(data(r)) {
    A = A * A.transpose().eval(); P1 = C * P0;
    for (int k = 0; k < 5; ++k) ma.setMatrix("m" + std::to_string(k), mx(r, (int)r.below(4), (int)r.below(5)));
    ma.setScalar("scalar", r.normal()); ma.setVector("vector", V3(v3(r))); ma.setString("text", std::string(r.below(40), 't'));
    fill(tree, r, 2);
    id.randomize();
    clock.reset(new sm::timing::TimestampCorrector<double>);
    for (int k = 0; k < 40; ++k) clock->correctTimestamp(k, 100 + k * 1.01 + 0.1 * r.uniform(0, 1));
    sm::BoostPropertyTree other; fill(other, r, 2);
    auto layers = std::make_shared<vs::LayeredValueStore>();
    layers->add(vs::ValueStoreRef(tree).getValueStoreSharedPtr()); layers->add(vs::ValueStoreRef(other).getValueStoreSharedPtr());
    layers->add(std::make_shared<vs::PrefixedValueStore>(vs::ValueStoreRef(other).getValueStoreSharedPtr(), r.chance(1, 2) ? vs::PrefixedValueStore::PrefixMode::ADD : vs::PrefixedValueStore::PrefixMode::REMOVE, "s1"));
    store = layers;
    treeFile = vm::scratch() + "/shared.info"; archiveFile = vm::scratch() + "/shared.ama"; dataFile = vm::scratch() + "/shared.ba";
    tree.saveInfo(treeFile); ma.save(archiveFile); sm::boost_serialization::save(d, dataFile);
    rot.emplace_back(new smk::RotationVector); rot.emplace_back(new smk::EulerRodriguez); rot.emplace_back(new smk::EulerAnglesZYX); rot.emplace_back(new smk::EulerAnglesZXY); rot.emplace_back(new smk::EulerAnglesYawPitchRoll);
  }
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
struct Op { const char* name; void (*f)(const Shared&, vm::Rng&, Out&, const std::string& tmp); };
const Op OPS[] = {
    {"Transformation", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) {
       smk::Transformation X(quat(r), v3(r)); o(s.T.T())(s.T.C())(s.T.t())(s.T.q())(s.T.T3x4())(s.T.S())(s.T.inverse().T())((s.T * X).T())((X * s.T).T())(s.T * v3(r))(s.T * V4(r.normal(), r.normal(), r.normal(), 1))((s.T * s.h).toHomogeneous());
       X.oplus(Eigen::Matrix<double, 6, 1>::Constant(r.normal() * 0.1)); o(X.T())(smk::interpolateTransformations(s.T, 0, X, 1, r.uniform(0, 1)).T())(smk::slerpTransformations(s.T, X, r.uniform(0, 1)).T()); s.T.checkTransformationIsValid(); o(s.T.isBinaryEqual(X)); }},
    {"UncertainTransformation", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) {
       smk::UncertainTransformation X(quat(r), v3(r), cov<6>(r)); o(s.U.U())(s.U.UOplus())(s.U.inverse().U())((s.U * X).U())((X * s.U).U())((s.T * s.U).U())((s.U * s.uh).U4())((s.T * s.uh).U4())((s.U * s.h).U4())(s.U.toTransformation().T()); X.setUOplus(cov<6>(r)); o(X.U())(s.U.isBinaryEqual(X)); }},
    {"points", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) {
       smk::UncertainHomogeneousPoint X(V4(r.normal(), r.normal(), r.normal(), 0.9), cov<4>(r)); o(s.h.toEuclidean())(s.h.toHomogeneous())(s.uh.U4())(s.uh.U3())(s.uh.U_av_form())(s.uh.toEuclidean())((s.uh + X).U4())((X - s.uh).U4())((s.h + X).U4())(s.h.atInfinity())(s.h.isVector());
       X.normalize(); o(X.U4()); X.setUOplus(cov<3>(r)); o(X.U4()); smk::HomogeneousPoint::euclidean_jacobian_t J; o(s.h.toEuclideanAndJacobian(J))(J); }},
    {"UncertainVector", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) {
       smk::UncertainVector<3> X(v3(r), cov<3>(r)); auto y = s.uv + X; o(y.mean())(y.covariance()); auto d = s.uv.dot(X); o(d.mean())(d.covariance()); smk::UncertainVector<3> copy = s.uv; auto n = copy.normalized(); o(n.mean())(n.covariance()); X.normalize(); o(X.mean()); auto w = s.uv - X; o(w.covariance()); }},
    {"quaternions", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) {
       V4 x = quat(r); V3 v = v3(r); o(smk::quat2r(s.q))(smk::r2quat(s.C))(smk::axisAngle2quat(v))(smk::quat2AxisAngle(x))(smk::quatPlus(s.q))(smk::qplus(s.q, x))(smk::quatOPlus(x))(smk::qoplus(x, s.q))(smk::quatInv(s.q))(smk::quatRotate(s.q, v))(smk::quatIdentity())(smk::quatJacobian(x));
       o(smk::updateQuat(s.q, v))(smk::quatS(s.q))(smk::quatInvS(x))(smk::qslerp(s.q, x, r.uniform(0, 1)))(smk::quatLogJacobian(x))(smk::quatExpJacobian<double>(v))(smk::quatLogJacobian2<double>(x))(smk::quatV<double>())(smk::logDiffMat<double>(v))(smk::expDiffMat<double>(v));
       Eigen::Vector3f vf = v.cast<float>(); o(smk::quatExpJacobian<float>(vf))(smk::quatV<float>())(smk::expDiffMat<float>(vf))(smk::logDiffMat<float>(vf))(smk::quat2AxisAngle<float>(Eigen::Vector4f(x.cast<float>()))); V3 tiny = v * 1e-9; o(smk::axisAngle2quat(tiny))(smk::expDiffMat<double>(tiny))(smk::lerp(s.A.col(0), s.A.col(1), 0.3)); }},
    {"rotations", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) {
       double x = r.normal(); V3 v = v3(r); o(smk::Rx(x))(smk::Ry(x))(smk::Rz(x))(smk::rph2R(v))(smk::R2rph(s.C))(smk::Cx(x))(smk::rph2C(v))(smk::C2rph(s.C))(smk::crossMx(v))(smk::R2AxisAngle(s.C))(smk::axisAngle2R(v)); for (auto& k : s.rot) { M3 S; o(k->parametersToRotationMatrix(v, &S))(S)(k->rotationMatrixToParameters(s.C))(k->parametersToSMatrix(v)); Eigen::Matrix<double, 3, 6> J; J.setZero(); o(k->angularVelocityAndJacobian(v, s.a, &J))(J); } }},
    {"transformations", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) {
       M4 T = smk::rt2Transform(s.C, v3(r)); Eigen::Matrix<double, 6, 1> d; for (int k = 0; k < 6; ++k) d[k] = r.normal() * 0.3; V4 v(r.normal(), r.normal(), r.normal(), 1), w; Eigen::Matrix<double, 4, 6> B; o(smk::transform2C(T))(smk::transform2rho(T))(smk::boxPlus(d))(smk::boxMinus(v))(smk::inverseTransform(T))(smk::fromTEuler(T))(smk::toTEuler(d))(smk::boxTimes(T)); smk::transformationAndJacobian(T, v, w, B); o(w)(B);
       o(smk::toHomogeneous(v3(r)))(smk::fromHomogeneous(v))(smk::toHomogeneousColumns(s.P0))(smk::fromHomogeneousColumns(smk::toHomogeneousColumns(s.P1)))(smk::toHomogeneousPlus(v))(smk::toHomogeneousMinus(v)); }},
    {"alignment", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) { MX n = s.P1 + 0.01 * mx(r, 3, 6); o(smk::threePointSvd(s.P0, n))(smk::qMethod(s.P0, n))(smk::qMethod(s.P0, n, Eigen::VectorXd::LinSpaced(6, 0.5, 2))); }},
    {"eigen", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) {
       MX S; sm::eigen::computeMatrixSqrt(s.A, S); o(S); V3 x = v3(r); std::function<V3(const V3&)> f = [&s](const V3& y) { return V3(s.C * y.cwiseAbs2()); }; o(sm::eigen::numericalDiff<V3, V3>(f, x));
       std::stringstream ss; { boost::archive::text_oarchive a(ss); a << s.A << s.P0; } MX B, D; { boost::archive::text_iarchive a(ss); a >> B >> D; } o(B)(D); }},
    {"reading an archive of matrices", [](const Shared& s, vm::Rng& r, Out& o, const std::string& tmp) {
       for (auto& m : s.ma) o(m.first)(m.second); o(s.ma.getScalar("scalar"))(s.ma.getString("text"))(s.ma.getMatrix("m" + std::to_string(r.below(5))))(s.ma.size())(s.ma.sizeStrings()); Eigen::VectorXd v; s.ma.getVector("vector", v); o(v); for (auto& t : s.ma.getStrings()) o(t.first)(t.second);
       try { s.ma.getMatrix("none"); } catch (const sm::MatrixArchiveException&) { o("missing"); } s.ma.save(tmp + ".ama"); o(slurp(tmp + ".ama")); }},
    {"archives of matrices", [](const Shared& s, vm::Rng& r, Out& o, const std::string& tmp) {
       sm::MatrixArchive a; a.load(s.archiveFile); for (auto& m : a) o(m.first)(m.second); a.clear("m1"); a.setMatrix("x", mx(r, 3, 2)); a.save(tmp + ".ama"); sm::MatrixArchive b; b.setScalar("y", r.normal()); b.append(tmp + ".ama"); sm::MatrixArchive c; c.load(tmp + ".ama"); for (auto& m : c) o(m.first)(m.second);
       std::string cut = slurp(tmp + ".ama"); cut.resize(r.below(cut.size())); std::ofstream(tmp + ".cut", std::ios::binary) << cut; try { c.load(tmp + ".cut"); o("loaded")(c.size()); } catch (const std::exception&) { o("refused"); } }},
    {"reading a tree", [](const Shared& s, vm::Rng&, Out& o, const std::string& tmp) { const sm::ConstPropertyTree t(s.tree); writeTree(t, o, 2); o(t.getInt("none", 3))(t.getString("no/ne", "default")); try { t.getInt("none"); } catch (const std::exception& e) { o("missing"); } s.tree.saveInfo(tmp + ".info"); o(slurp(tmp + ".info"))(s.tree.asInfoString()); }},
    {"trees", [](const Shared& s, vm::Rng& r, Out& o, const std::string& tmp) {
       sm::BoostPropertyTree t; t.loadInfo(s.treeFile); writeTree(t, o, 2); fill(sm::PropertyTree(t, "own"), r, 1); t.saveXml(tmp + ".xml"); sm::BoostPropertyTree u; u.loadXml(tmp + ".xml"); writeTree(u, o, 2); sm::BoostPropertyTree w; w.loadString("a=1,b{c=2.5,d=text}"); u.update(w); o(u.getDouble("b/c")); t.saveInfo(tmp + ".info"); u.saveInfo(tmp + "2.info"); t.saveIni(tmp + ".ini"); t.saveJson(tmp + ".json"); o(slurp(tmp + ".json")); { sm::BoostPropertyTree j; j.loadJson(tmp + ".json"); writeTree(j, o, 1); } { sm::BoostPropertyTree j; j.load(tmp + ".xml"); writeTree(j, o, 1); }
       o(slurp(tmp + "2.info")); sm::BoostPropertyTree v("name/space"); v.setDouble("z", r.normal()); o(v.getDouble("z")); sm::BoostPropertyTreeLoader l; auto m = l.readFilesAndMergeIntoPropertyTree(tmp + ".info," + tmp + "2.info"); writeTree(m, o, 2); o(t.getInt("kz", 7))(t.getInt("kz")); try { u.loadXml(tmp + ".none"); } catch (const std::exception&) { o("no file"); } }},
    {"configured values", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) {
       sm::BoostPropertyTree t; V4 q = quat(r); const char* n[] = {"x", "y", "z", "w"}; for (int k = 0; k < 4; ++k) t.setDouble(std::string("q_a_b/") + n[k], q[k]); for (int k = 0; k < 3; ++k) t.setDouble(std::string("t_a_b_a/") + n[k], r.normal()); o(smk::transformationFromPropertyTree(t).T()); }},
    {"reading a store", [](const Shared& s, vm::Rng&, Out& o, const std::string&) { writeStore(*s.store, o, 2); vs::ValueStoreRef ref(s.store); o(ref.getInt("ka").get())(ref.getDouble("kb").get()); writeStore(ref.getChild("s0").getValueStore(), o, 1); try { ref.getInt("none"); } catch (const std::exception&) { o("missing"); } std::string log; vs::VerboseValueStore v(s.store, [&log](const std::string& l) { log += l + "\n"; }); o(v.getInt("ka").get())(log); }},
    {"stores", [](const Shared& s, vm::Rng& r, Out& o, const std::string& tmp) {
       vs::ValueStoreRef ref = vs::ValueStoreRef::fromFile(s.treeFile); writeStore(ref.getValueStore(), o, 2); auto hnd = ref.getDouble("kb"); hnd.update(r.normal()); o(ref.getDouble("kb").get())(hnd.get()); vs::ValueStoreRef f = vs::ValueStoreRef::fromString("ka=3,s1{kb=2.5}"); writeStore(f.getValueStore(), o, 2); if (ref.canSave()) { ref.saveTo(tmp + "3.info"); o(slurp(tmp + "3.info")); }
       auto e = vs::ExtendibleValueStoreRef(); e.addInt("n/ka", 4); e.addString("n/kd", "x"); writeStore(e.getValueStore(), o, 2); vs::LayeredValueStore l(ref, f); writeStore(l, o, 1); }},
    {"serialized objects", [](const Shared& s, vm::Rng& r, Out& o, const std::string& tmp) {
       Data a, b = data(r); sm::boost_serialization::load(a, s.dataFile); o(a.isBinaryEqual(s.d))(b.isBinaryEqual(s.d))(SM_CHECKSAME(a.v, s.d.v)); sm::boost_serialization::save(b, tmp + ".ba"); Data c; sm::boost_serialization::load(c, tmp + ".ba"); o(c.isBinaryEqual(b)); sm::boost_serialization::save_xml(b, "b", tmp + ".bx"); Data e; sm::boost_serialization::load_xml(e, "b", tmp + ".bx"); o(e.i)(e.s);
       std::stringstream ss; { boost::archive::binary_oarchive x(ss); x << s.U << s.uh; } smk::UncertainTransformation u; smk::UncertainHomogeneousPoint p; { boost::archive::binary_iarchive x(ss); x >> u >> p; } o(u.isBinaryEqual(s.U))(p.isBinaryEqual(s.uh)); try { sm::boost_serialization::load(c, tmp + ".none"); } catch (const std::exception&) { o("no file"); } }},
    {"strings", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) {
       std::string t = "a/b/" + std::to_string(r.below(1000)) + "$(HOME_OF_NOTHING)c$(HOME)/"; o(sm::replace(t, '/', '.'))(sm::replace_reverse(t, '/', '.', 1))(sm::leading_pad(t, 30, '0'))(sm::substituteEnvVars(t))(sm::ensureTrailingBackslash(t))(sm::padded(r.normal(), 12, 3))(sm::padded(7, 5)); }},
    {"ids", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) { o(s.id.hexString() == s.id.hexString())(s.id == s.id)(s.id < s.id); sm::HashId x, y; x.randomize(); y.randomize(); o(x != y); std::string h(32, 'a'); h[r.below(32)] = 'f'; o(y.fromHexString(h))(y.hexString())(y.hashToSizeT()); }},
    {"clocks", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) {
       o(s.clock->getLocalTime(r.uniform(0, 60)))(s.clock->getSlope())(s.clock->getOffset())(s.clock->convexHullSize())(s.clock->span()); sm::timing::TimestampCorrector<double> c; for (int k = 0; k < 60; ++k) o(c.correctTimestamp(k, k + r.uniform(0, 1), 20.0));
       o((long)sm::timing::secToNsec(r.normal()))(sm::timing::nsecToSec((long)r.below(1u << 30) * 1000)); timeval tv = sm::ptimeToTimeval(boost::posix_time::ptime(boost::gregorian::date(2020, 1, 1 + (int)r.below(20)), boost::posix_time::microseconds(r.below(1000000)))); o((long)tv.tv_sec)((long)tv.tv_usec); }},
    {"comparisons", [](const Shared& s, vm::Rng& r, Out& o, const std::string&) { double a = r.normal(), b = a + r.pickl({0.0, 1e-9, 1e-3}); o(sm::approximatelyEqual(a, b))(sm::definitelyLessThan(a, b)); try { SM_ASSERT_LT(std::runtime_error, b, a - 10, "no " << a); } catch (const std::runtime_error& e) { o("asserted"); } }},
};
const int NOPS = sizeof(OPS) / sizeof(*OPS);

void execute(const Shared& s, const std::vector<std::pair<int, uint64_t>>& plan, const std::string& tmp, std::vector<std::string>& out) {
  for (auto& step : plan) {
    Out o; vm::Rng r(step.second);
    try { OPS[step.first].f(s, r, o, tmp); } catch (const std::exception& e) { o("threw")(e.what()); }
    out.push_back(o.s.str());
  }
}
void together(vm::Rng& r, uint64_t) {
  Shared s(r);
  int n = (int)r.range(2, 6), steps = (int)r.range(3, 10);
  std::vector<std::vector<std::pair<int, uint64_t>>> plan(n); std::vector<std::vector<std::string>> got(n), want(n);
  int focus = r.chance(1, 2) ? (int)r.below(NOPS) : -1;  // half of the cases let all threads do the same
  for (auto& p : plan) for (int k = 0; k < steps; ++k) p.push_back({focus >= 0 && r.chance(2, 3) ? focus : (int)r.below(NOPS), r.next()});
  std::atomic<int> ready{0};
  std::vector<std::thread> t;
  for (int k = 0; k < n; ++k) t.emplace_back([&, k] { ready++; while (ready < n) std::this_thread::yield(); execute(s, plan[k], vm::scratch() + "/own" + std::to_string(k), got[k]); });
  for (auto& x : t) x.join();
  uint64_t h = (uint64_t)n;
  for (int k = 0; k < n; ++k) {
    execute(s, plan[k], vm::scratch() + "/own" + std::to_string(k), want[k]);
    for (int i = 0; i < steps; ++i) {
      const char* name = OPS[plan[k][i].first].name;
      VM_CHECK(got[k][i] == want[k][i], std::string("together/") + name, "one of " << n << " threads got " << got[k][i].substr(0, 400) << "\nalone the same calls give " << want[k][i].substr(0, 400));
      vm::event(std::string("together: ") + name);
      h = vm::combine(h, vm::hashStr(got[k][i]));
    }
  }
  vm::nontrivial(h);
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case draws shared objects that are only read and a plan of operations for 2-6 threads; it is non-trivial when all plans were executed at the same time and again one after the other and compared; distinct by the hash of what the threads saw.");
  vm::run("together", 400, together, 15);
  return vm::finish();
}
