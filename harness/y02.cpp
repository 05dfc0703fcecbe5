// Y02: the stateful classes of the Python module keep the same state, and give the same answers, as their C++ twins.
#include "y.hpp"
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <boost/archive/text_oarchive.hpp>
#include <sm/BoostPropertyTreeLoader.hpp>
#include <sm/MatrixArchive.hpp>
#include <sm/boost/serialization.hpp>
#include <sm/logging.hpp>
#include <sm/logging/LoggingEvent.hpp>
#include <sm/timing/Timer.hpp>
#include <sm/timing/TimestampCorrector.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/ValueStore.hpp>
using namespace y;
namespace smk = sm::kinematics;

namespace {
std::string tmp(const std::string& n) { return vm::scratch() + "/" + n; }
std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return i ? o.str() : "(no file)"; }
void spit(const std::string& f, const std::string& s) { std::ofstream(f, std::ios::binary) << s; }
double num(vm::Rng& r) { return r.chance(1, 4) ? r.pickl({0.0, 1.0, -1.0, 0.5, 1e-9, 3.25e7}) : r.chance(1, 2) ? r.uniform(-3, 3) : (r.chance(1, 2) ? 1 : -1) * r.logmag(-6, 6); }
// What f writes to the standard output of C++.
template <class F> std::string printed(F f) {
  std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf());
  try { f(); } catch (...) { std::cout.rdbuf(old); throw; }
  std::cout.rdbuf(old);
  return o.str();
}
std::string pystr(const bp::object& o) { return bp::extract<std::string>(bp::str(o))(); }

// ---- archives ----
void judgeArchive(const sm::MatrixArchive& a, const bp::object& p, const char* after) {
  attempt("MatrixArchive.asDict", [&] {
    bp::dict d = bp::extract<bp::dict>(p.attr("asDict")())(); bp::dict s = bp::extract<bp::dict>(p.attr("stringsAsDict")())(); bp::list n = bp::extract<bp::list>(p.attr("getNameList")())();
    size_t k = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++k) {
      VM_CHECK(d.has_key(it->first), "python/MatrixArchive.asDict", "after " << after << " there is no " << it->first);
      if (d.has_key(it->first)) { MX m = bp::extract<MX>(d[it->first])(); VM_CHECK(eq(m, it->second) || (m.size() == 0 && it->second.size() == 0), "python/MatrixArchive.asDict", "after " << after << ", " << it->first << " is " << show(m) << " instead of " << show(it->second)); }
      VM_CHECK((long)k < bp::len(n) && bp::extract<std::string>(n[k])() == it->first, "python/MatrixArchive.getNameList", "after " << after << ", name " << k << " is not " << it->first);
    }
    VM_CHECK((size_t)bp::len(d) == k && (size_t)bp::len(n) == k, "python/MatrixArchive.asDict", "after " << after << ", " << bp::len(d) << " entries and " << bp::len(n) << " names for " << k << " matrices");
    for (auto& e : a.getStrings()) VM_CHECK(s.has_key(e.first) && bp::extract<std::string>(s[e.first])() == e.second, "python/MatrixArchive.stringsAsDict", "after " << after << ", " << e.first << " is not " << show(e.second));
    VM_CHECK((size_t)bp::len(s) == a.getStrings().size(), "python/MatrixArchive.stringsAsDict", "after " << after << ", " << bp::len(s) << " strings instead of " << a.getStrings().size());
  });
  sameIn(p, "MatrixArchive", "size", [&] { return a.size(); });
}
void archives(vm::Rng& r, uint64_t) {
  sm::MatrixArchive c; bp::object p; attempt("MatrixArchive", [&] { p = mod().attr("MatrixArchive")(); });
  std::vector<std::string> names{"a", "b", "vec", "s", "", std::string(c.maxNameSize(), 'n'), std::string(c.maxNameSize() + 1, 'n'), "with space", "@", "\xc3\xa9"};
  const std::string n = "MatrixArchive", fc = tmp("c.ama"), fp = tmp("p.ama");
  sameIn(p, n, "isSystemLittleEndian", [&] { return c.isSystemLittleEndian(); }); sameIn(p, n, "maxNameSize", [&] { return c.maxNameSize(); });
  uint64_t h = 0;
  ::unlink(fc.c_str()); ::unlink(fp.c_str());
  for (int k = 0, steps = r.range(4, 14); k < steps; ++k) {
    std::string name = r.chance(4, 5) ? names[r.below(4)] : r.pick(names); int what = r.below(14); std::string label;
    switch (what) {
      case 0: { MX m = MX::NullaryExpr(r.range(0, 4), r.range(1, 4), [&](Eigen::Index, Eigen::Index) { return num(r); }); if (m.rows() == 0) m.resize(0, 0); label = "setMatrix"; both("MatrixArchive.setMatrix", [&] { c.setMatrixXd(name, m); }, [&] { p.attr("setMatrix")(name, m); }); break; }
      case 1: { VX v = VX::NullaryExpr(r.range(0, 5), [&](Eigen::Index) { return num(r); }); label = "setVector"; both("MatrixArchive.setVector", [&] { c.setVectorXd(name, v); }, [&] { p.attr("setVector")(name, v); }); break; }
      case 2: { double d = num(r); label = "setScalar"; both("MatrixArchive.setScalar", [&] { c.setScalar(name, d); }, [&] { p.attr("setScalar")(name, d); }); break; }
      case 3: case 4: { std::string s = r.pickl<std::string>({"", "text", "two\nlines", "\xe2\x82\xac", std::string(300, 'x')}); label = "setString"; both("MatrixArchive.setString", [&] { c.setString(name, s); }, [&] { p.attr("setString")(name, s); }); break; }
      case 5: sameIn(p, n, "getMatrix", [&] { MX m; c.getMatrix(name, m); return m; }, name); break;
      case 6: sameIn(p, n, "getVector", [&] { VX v; c.getVector(name, v); return v; }, name); break;
      case 7: sameIn(p, n, "getScalar", [&] { return c.getScalar(name); }, name); break;
      case 8: sameIn(p, n, "getString", [&] { return c.getString(name); }, name); break;
      case 9: label = "clearOne"; both("MatrixArchive.clearOne", [&] { c.clear(name); }, [&] { p.attr("clearOne")(name); }); break;
      case 10: if (r.chance(1, 3)) { label = "clear"; c.clear(); attempt("MatrixArchive.clear", [&] { p.attr("clear")(); }); } break;
      case 11: case 12: {
        bool more = what == 12; label = more ? "append" : "save";
        both("MatrixArchive." + label, [&] { more ? c.append(fc) : c.save(fc); }, [&] { p.attr(label.c_str())(fp); });
        VM_CHECK(slurp(fc) == slurp(fp), "python/MatrixArchive." + label, "the file written from Python differs from the one written from C++");
        both("MatrixArchive." + label, [&] { c.save(tmp("none/x")); }, [&] { p.attr("save")(tmp("none/x")); });
        break;
      }
      default: label = "load"; both("MatrixArchive.load", [&] { c.load(fc); }, [&] { p.attr("load")(fc); });
    }
    h = vm::combine(h, what);
    judgeArchive(c, p, label.c_str());
  }
  vm::nontrivial(vm::combine(h, r.next()));
}

// ---- property trees ----
const std::vector<std::string> KEYS{"a", "b", "a/x", "a/y", "deep/er/key", "dot.ted", "b/x"};
template <class T> std::string str(const T& t) { std::ostringstream o; o << t; return o.str(); }
struct Tree { sm::BoostPropertyTree c; bp::object p; };
std::string filled(vm::Rng& r) {
  std::string s;
  for (const std::string k : {"a", "b", "dot.ted"}) if (r.chance(2, 3)) s += "<" + k + ">" + r.pickl<std::string>({"1", "-7", "0.25", "true", "text", "", "1e3"}) + (r.chance(1, 2) ? "<x>" + std::to_string(r.range(-9, 9)) + "</x><y>" + r.pickl<std::string>({"false", "1.5", "why"}) + "</y>" : "") + "</" + k + ">";
  return s;
}
Tree newTree(vm::Rng& r) {
  Tree t; std::string f = tmp("tree.xml"), ns;
  if (r.chance(1, 4)) { ns = r.pickl<std::string>({"ns", "n/m"}); t.c = sm::BoostPropertyTree(ns); }
  attempt("BoostPropertyTree", [&] { t.p = ns.empty() ? mod().attr("BoostPropertyTree")() : mod().attr("BoostPropertyTree")(ns); });
  if (ns.empty() && r.chance(2, 3)) { spit(f, "<?xml version=\"1.0\"?>" + filled(r)); both("BoostPropertyTree.loadXml", [&] { t.c.loadXml(f); }, [&] { t.p.attr("loadXml")(f); }); }
  return t;
}
template <class T> void getters(const T& c, const bp::object& p, const std::string& cls, vm::Rng& r) {
  std::string k = r.pick(KEYS); int i = r.range(-99, 99); bool b = r.chance(1, 2); double d = num(r); std::string s = r.pickl<std::string>({"", "default", "3"});
  T m(c);  // the overloads with a default want an object that is not const
  sameIn(p, cls, "doesKeyExist", [&] { return c.doesKeyExist(k); }, k);
  switch (r.below(8)) {
    case 0: sameIn(p, cls, "getInt", [&] { return c.getInt(k); }, k); break;
    case 1: sameIn(p, cls, "getBool", [&] { return c.getBool(k); }, k); break;
    case 2: sameIn(p, cls, "getDouble", [&] { return c.getDouble(k); }, k); break;
    case 3: sameIn(p, cls, "getString", [&] { return c.getString(k); }, k); break;
    case 4: sameIn(p, cls, "getIntDefault", [&] { return ((const sm::ConstPropertyTree&)c).getInt(k, i); }, k, i); break;
    case 5: sameIn(p, cls, "getBoolDefault", [&] { return ((const sm::ConstPropertyTree&)c).getBool(k, b); }, k, b); break;
    case 6: sameIn(p, cls, "getDoubleDefault", [&] { return ((const sm::ConstPropertyTree&)c).getDouble(k, d); }, k, d); break;
    default: sameIn(p, cls, "getStringDefault", [&] { return ((const sm::ConstPropertyTree&)c).getString(k, s); }, k, s);
  }
}
void judgeTree(const Tree& t, const std::string& after) {
  std::string c = tmp("jc.info"), p = tmp("jp.info");
  ::unlink(c.c_str()); ::unlink(p.c_str());
  both("BoostPropertyTree.saveInfo", [&] { t.c.saveInfo(c); }, [&] { t.p.attr("saveInfo")(p); });
  VM_CHECK(slurp(c) == slurp(p), "python/PropertyTree", "after " << after << " the tree in Python is\n" << slurp(p) << "\ninstead of\n" << slurp(c));
}
void changeTree(sm::PropertyTree c, const bp::object& p, vm::Rng& r, std::string& label) {
  std::string k = r.pick(KEYS); int i = r.range(-99, 99); bool b = r.chance(1, 2); double d = num(r); std::string s = r.pickl<std::string>({"", "value", "42", "\xc3\xbc"});
  const std::string n = "PropertyTree";
  switch (r.below(8)) {
    case 0: label = "setInt"; c.setInt(k, i); attempt("setInt", [&] { p.attr("setInt")(k, i); }); break;
    case 1: label = "setBool"; c.setBool(k, b); attempt("setBool", [&] { p.attr("setBool")(k, b); }); break;
    case 2: label = "setDouble"; c.setDouble(k, d); attempt("setDouble", [&] { p.attr("setDouble")(k, d); }); break;
    case 3: label = "setString"; c.setString(k, s); attempt("setString", [&] { p.attr("setString")(k, s); }); break;
    case 4: label = "getOrCreateInt"; sameIn(p, n, "getOrCreateInt", [&] { return c.getInt(k, i); }, k, i); break;
    case 5: label = "getOrCreatetBool"; sameIn(p, n, "getOrCreatetBool", [&] { return c.getBool(k, b); }, k, b); break;
    case 6: label = "getOrCreateDouble"; sameIn(p, n, "getOrCreateDouble", [&] { return c.getDouble(k, d); }, k, d); break;
    default: label = "getOrCreateString"; sameIn(p, n, "getOrCreateString", [&] { return c.getString(k, s); }, k, s);
  }
}
void trees(vm::Rng& r, uint64_t) {
  Tree t = newTree(r), u = newTree(r); uint64_t h = 0;
  for (int k = 0, steps = r.range(4, 12); k < steps; ++k) {
    int what = r.below(9); std::string label;
    switch (what) {
      case 0: case 1: changeTree(t.c, t.p, r, label); break;
      case 2: getters<sm::BoostPropertyTree>(t.c, t.p, "BoostPropertyTree", r); break;
      case 3: {  // the children outlive every other handle on their tree
        std::string key = r.pick(KEYS); bp::object p; sm::PropertyTree c(t.c, key);
        if (r.chance(1, 2)) attempt("PropertyTree.getChild", [&] { p = t.p.attr("getChild")(key); }); else attempt("PropertyTree", [&] { p = mod().attr("PropertyTree")(t.p, key); });
        getters<sm::PropertyTree>(c, p, "PropertyTree", r); changeTree(c, p, r, label); getters<sm::PropertyTree>(c, p, "PropertyTree", r);
        label = "child." + label;
        break;
      }
      case 4: {
        std::string key = r.pick(KEYS), sub = r.pickl<std::string>({"x", "y", "er"}); bp::object p, q; sm::ConstPropertyTree c(t.c, key);
        attempt("ConstPropertyTree", [&] { p = mod().attr("ConstPropertyTree")(t.p, key); });
        getters<sm::ConstPropertyTree>(c, p, "ConstPropertyTree", r);
        if (attempt("ConstPropertyTree.getChild", [&] { q = p.attr("getChild")(sub); })) getters<sm::ConstPropertyTree>(sm::ConstPropertyTree(c, sub), q, "ConstPropertyTree.getChild", r);
        break;
      }
      case 5: {
        std::string kind = r.pickl<std::string>({"Xml", "Ini", "Info"}), fc = tmp("c." + kind), fp = tmp("p." + kind); ::unlink(fc.c_str()); ::unlink(fp.c_str());
        auto save = [&](sm::BoostPropertyTree& c, const std::string& f) { kind == "Xml" ? c.saveXml(f) : kind == "Ini" ? c.saveIni(f) : c.saveInfo(f); };
        auto load = [&](sm::BoostPropertyTree& c, const std::string& f) { kind == "Xml" ? c.loadXml(f) : kind == "Ini" ? c.loadIni(f) : c.loadInfo(f); };
        both("BoostPropertyTree.save" + kind, [&] { save(t.c, fc); }, [&] { t.p.attr(("save" + kind).c_str())(fp); });
        VM_CHECK(slurp(fc) == slurp(fp), "python/BoostPropertyTree.save" + kind, "wrote another file than C++");
        if (r.chance(1, 4)) fc = tmp("missing");
        Tree v; attempt("BoostPropertyTree", [&] { v.p = mod().attr("BoostPropertyTree")(); });
        both("BoostPropertyTree.load" + kind, [&] { load(v.c, fc); }, [&] { v.p.attr(("load" + kind).c_str())(fc); });
        judgeTree(v, "load" + kind);
        break;
      }
      case 6: { bool create = r.chance(1, 2), ignore = r.chance(1, 2); label = "update"; both("BoostPropertyTree.update", [&] { t.c.update(u.c, create, ignore); }, [&] { t.p.attr("update")(u.p, create, ignore); }); break; }
      case 7: { bool create = r.chance(1, 2); label = "updateWithEmptyUpdates"; both("BoostPropertyTree.updateWithEmptyUpdates", [&] { t.c.update(u.c, create); }, [&] { t.p.attr("updateWithEmptyUpdates")(u.p, create); }); break; }
      default: if (r.chance(1, 2)) { label = "updateOrCreate"; both("BoostPropertyTree.updateOrCreate", [&] { t.c.update(u.c); }, [&] { t.p.attr("updateOrCreate")(u.p); }); } else u = newTree(r);
    }
    h = vm::combine(h, what);
    judgeTree(t, label.empty() ? "reading" : label);
  }
  vm::nontrivial(vm::combine(h, r.next()));
}
void loading(vm::Rng& r, uint64_t) {
  std::string d = tmp("conf"); ::mkdir(d.c_str(), 0777); std::vector<std::string> files;
  for (int i = 0, n = r.range(1, 3); i < n; ++i) { std::string f = d + "/f" + std::to_string(i) + ".xml"; spit(f, r.chance(1, 15) ? "<broken" : "<?xml version=\"1.0\"?>" + filled(r)); files.push_back(f); }
  if (r.chance(1, 6)) files.push_back(d + "/missing.xml");
  std::string list; for (auto& f : files) list += (list.empty() ? "" : ",") + f;
  sm::BoostPropertyTreeLoader c; Tree t; bool ok = true; std::string why;
  try { t.c = c.readFilesAndMergeIntoPropertyTree(list); } catch (const std::exception& e) { ok = false; why = e.what(); }
  try {
    t.p = mod().attr("BoostPropertyTreeLoader")().attr("readFilesAndMergeIntoPropertyTree")(list);
    VM_CHECK(ok, "python/BoostPropertyTreeLoader", "no exception, but C++ throws: " << why);
    if (ok) judgeTree(t, "readFilesAndMergeIntoPropertyTree");
  } catch (const bp::error_already_set&) { std::string e = error(); VM_CHECK(!ok, "python-raises/BoostPropertyTreeLoader", e); }
  vm::event(ok ? "lists merged" : "lists refused");
  vm::nontrivial(vm::combine(files.size(), r.next()));
}

// ---- value stores ----
typedef sm::ValueStoreRef R; typedef sm::ExtendibleValueStoreRef E;
template <class V> struct Ref { V c; bp::object p; };
void readStore(const R& c, const bp::object& p, const std::string& cls, vm::Rng& r) {
  std::string k = r.chance(1, 8) ? "pre/" + r.pick(KEYS) : r.pick(KEYS); bool def = r.chance(1, 2); int i = r.range(-99, 99); bool b = r.chance(1, 2); double d = num(r); std::string s = r.pickl<std::string>({"", "default"});
  sameIn(p, cls, "hasKey", [&] { return c.hasKey(k); }, k);
  switch (r.below(4)) {
    case 0: if (def) sameIn(p, cls, "getBool", [&] { return c.getBool(k, b).get(); }, k, b); else sameIn(p, cls, "getBool", [&] { return c.getBool(k).get(); }, k); break;
    case 1: if (def) sameIn(p, cls, "getInt", [&] { return c.getInt(k, i).get(); }, k, i); else sameIn(p, cls, "getInt", [&] { return c.getInt(k).get(); }, k); break;
    case 2: if (def) sameIn(p, cls, "getDouble", [&] { return c.getDouble(k, d).get(); }, k, d); else sameIn(p, cls, "getDouble", [&] { return c.getDouble(k).get(); }, k); break;
    default: if (def) sameIn(p, cls, "getString", [&] { return c.getString(k, s).get(); }, k, s); else sameIn(p, cls, "getString", [&] { return c.getString(k).get(); }, k);
  }
}
void writeStore(const R& c, const bp::object& p, const std::string& cls, vm::Rng& r) {
  std::string k = r.pick(KEYS); int i = r.range(-99, 99); bool b = r.chance(1, 2); double d = num(r); std::string s = r.pickl<std::string>({"", "value", "17"});
  switch (r.below(4)) {
    case 0: both(cls + ".setBool", [&] { c.getBool(k).update(b); }, [&] { p.attr("setBool")(k, b); }); break;
    case 1: both(cls + ".setInt", [&] { c.getInt(k).update(i); }, [&] { p.attr("setInt")(k, i); }); break;
    case 2: both(cls + ".setDouble", [&] { c.getDouble(k).update(d); }, [&] { p.attr("setDouble")(k, d); }); break;
    default: both(cls + ".setString", [&] { c.getString(k).update(s); }, [&] { p.attr("setString")(k, s); });
  }
}
void allOf(const R& c, const bp::object& p, const std::string& cls) {
  for (auto& k : KEYS) { sameIn(p, cls, "hasKey", [&] { return c.hasKey(k); }, k); if (c.hasKey(k)) sameIn(p, cls, "getString", [&] { return c.getString(k).get(); }, k); }
}
template <class C> void childrenOf(const std::vector<C>& c, const bp::object& p, const char* cls, std::vector<Ref<R>>& keep, vm::Rng& r) {
  VM_CHECK(bp::len(p) == (long)c.size(), std::string("python/") + cls, bp::len(p) << " children instead of " << c.size());
  if (bp::len(p) != (long)c.size()) return;
  size_t k = 0;
  bp::object it = p.attr("__iter__")();
  for (; k < c.size(); ++k) {
    bp::object o = r.chance(1, 2) ? bp::object(p[k]) : bp::object(it.attr("__next__")());
    if (k && r.chance(1, 3)) it = p.attr("__iter__")();
    std::string key = bp::extract<std::string>(o.attr("getKey")())();
    // the two iterations give the children in the same order: find the one with this key
    for (auto& e : c) if (e.getKey() == key) { allOf(e, o, cls); if (r.chance(1, 3)) keep.push_back(Ref<R>{e, o}); vm::event("children"); }
    bool known = false; for (auto& e : c) known |= e.getKey() == key;
    VM_CHECK(known, std::string("python/") + cls, "there is no child " << show(key));
  }
}
void stores(vm::Rng& r, uint64_t) {
  std::vector<Ref<R>> refs; std::vector<Ref<E>> exts; uint64_t h = 0; const char* n = "ValueStoreRef"; const char* x = "ExtendibleValueStoreRef";
  auto someString = [&] { std::string s; for (auto& k : KEYS) if (k.find("dot") == k.npos && r.chance(1, 2)) s += (s.empty() ? "" : ",") + k + "=" + r.pickl<std::string>({"1", "0", "3.5", "true", "word"}); return s.empty() ? std::string("a=1") : s; };
  auto fresh = [&] {
    Ref<R> e;
    try {
      switch (r.below(5)) {
        case 0: e.c = R(); e.p = mod().attr(n)(); break;
        case 1: { std::string s = someString(); e.c = R::fromString(s); e.p = mod().attr(n).attr("fromString")(s); break; }
        case 2: { std::string f = tmp("store.xml"); spit(f, "<?xml version=\"1.0\"?>" + filled(r)); e.c = R::fromFile(f); e.p = mod().attr(n).attr("fromFile")(f); break; }
        case 3: { Tree t = newTree(r); e.c = R(t.c); e.p = mod().attr(n)(t.p); break; }
        default: { std::string s = someString(); E c = E::fromString(s); bp::object p = mod().attr(x).attr("fromString")(s); e.c = R(c.getValueStoreSharedPtr()); e.p = mod().attr(n)(p); }
      }
    } catch (const bp::error_already_set&) { vm::fail("python-raises/ValueStoreRef", error()); e.p = bp::object(); e.c = R(); attempt(n, [&] { e.p = mod().attr(n)(); }); }
    return e;
  };
  auto freshExt = [&] {
    Ref<E> e;
    attempt(x, [&] {
      switch (r.below(5)) {
        case 0: e.c = E(); e.p = mod().attr(x)(); break;
        case 1: { std::string s = someString(); e.c = E::fromString(s); e.p = mod().attr(x).attr("fromString")(s); break; }
        case 2: { std::string f = tmp("store.xml"); spit(f, "<?xml version=\"1.0\"?>" + filled(r)); e.c = E::fromFile(f); e.p = mod().attr(x).attr("fromFile")(f); break; }
        case 3: { Tree t = newTree(r); e.c = E(t.c); e.p = mod().attr(x)(t.p); break; }
        default: { std::string s = someString(); E c = E::fromString(s); bp::object p = mod().attr(x).attr("fromString")(s); e.c = E(c); e.p = mod().attr(x)(p); }
      }
    });
    return e;
  };
  refs.push_back(fresh()); exts.push_back(freshExt());
  for (int k = 0, steps = r.range(6, 18); k < steps; ++k) {
    int what = r.below(13); h = vm::combine(h, what);
    auto a = refs[r.below(refs.size())]; auto e = exts[r.below(exts.size())];
    switch (what) {
      case 0: readStore(a.c, a.p, n, r); break;
      case 1: writeStore(a.c, a.p, n, r); break;
      case 2: if (r.chance(1, 2)) readStore(e.c, e.p, x, r); else writeStore(e.c, e.p, x, r); break;
      case 3: {
        std::string key = r.pick(KEYS); Ref<R> c;
        try { c.c = a.c.getChild(key); } catch (const std::exception&) { break; }
        if (attempt("ValueStoreRef.getChild", [&] { c.p = a.p.attr("getChild")(key); })) { readStore(c.c, c.p, n, r); refs.push_back(c); }
        break;
      }
      case 4: attempt("ValueStoreRef.getChildren", [&] {
        std::vector<sm::KeyValueStorePair> c; try { c = a.c.getChildren(); } catch (const std::exception&) { return; }
        std::vector<Ref<R>> keep; childrenOf(c, bp::object(a.p.attr("getChildren")()), "ValueStoreRef.getChildren", keep, r); for (auto& z : keep) refs.push_back(z);
      }); break;
      case 5: {  // layers
        sm::LayeredValueStore* l = nullptr; bp::object p; bool first = r.chance(1, 2); auto z = fresh();
        std::shared_ptr<sm::LayeredValueStore> own; 
        if (first) { R top = a.c; own = std::make_shared<sm::LayeredValueStore>(top); } else own = std::make_shared<sm::LayeredValueStore>();
        l = own.get();
        Ref<R> c; bool second = r.chance(3, 4);
        if (second) { R low = z.c; l->add(low); }
        c.c = R(std::static_pointer_cast<sm::ValueStore>(own));
        if (attempt("LayeredValueStore", [&] {
          p = first ? mod().attr("LayeredValueStore")(a.p) : mod().attr("LayeredValueStore")();
          if (second) p.attr("add")(z.p);
          c.p = mod().attr(n)(p);
        })) { p = bp::object(); readStore(c.c, c.p, "LayeredValueStore", r); refs.push_back(c); }
        break;
      }
      case 6: {  // prefixes
        bool add = r.chance(1, 2); std::string pre = r.pickl<std::string>({"a", "b", "pre", "deep/er"}); Ref<R> c;
        c.c = R(std::static_pointer_cast<sm::ValueStore>(std::make_shared<sm::PrefixedValueStore>(a.c, add ? sm::PrefixedValueStore::PrefixMode::ADD : sm::PrefixedValueStore::PrefixMode::REMOVE, pre)));
        if (attempt("PrefixedValueStore", [&] { c.p = mod().attr(n)(mod().attr("PrefixedValueStore")(a.p, bp::object(mod().attr("PrefixMode").attr(add ? "ADD" : "REMOVE")), pre)); })) { readStore(c.c, c.p, "PrefixedValueStore", r); refs.push_back(c); }
        break;
      }
      case 7: {
        std::string key = r.pick(KEYS); int i = r.range(-99, 99); bool b = r.chance(1, 2); double d = num(r); std::string s = r.pickl<std::string>({"", "new"});
        switch (r.below(4)) {
          case 0: sameIn(e.p, x, "addBool", [&] { return e.c.addBool(key, b).get(); }, key, b); break;
          case 1: sameIn(e.p, x, "addInt", [&] { return e.c.addInt(key, i).get(); }, key, i); break;
          case 2: sameIn(e.p, x, "addDouble", [&] { return e.c.addDouble(key, d).get(); }, key, d); break;
          default: sameIn(e.p, x, "addString", [&] { return e.c.addString(key, s).get(); }, key, s);
        }
        allOf(e.c, e.p, x);
        break;
      }
      case 8: {
        std::string key = r.pick(KEYS);
        Ref<E> c; bool ok = true; try { c.c = e.c.getExtendibleChild(key); } catch (const std::exception&) { ok = false; }
        if (ok && attempt("ExtendibleValueStoreRef.getExtendibleChild", [&] { c.p = e.p.attr("getExtendibleChild")(key); VM_CHECK(bp::extract<std::string>(c.p.attr("getKey")())() == key, "python/ExtendibleKeyValueStorePair.getKey", "is not " << show(key)); })) exts.push_back(c);
        std::vector<sm::value_store::ExtendibleKeyValueStorePair> all = e.c.getExtendibleChildren();
        std::vector<Ref<R>> keep; attempt("ExtendibleValueStoreRef.getExtendibleChildren", [&] { childrenOf(all, bp::object(e.p.attr("getExtendibleChildren")()), "ExtendibleValueStoreRef.getExtendibleChildren", keep, r); });
        for (auto& z : keep) refs.push_back(z);
        break;
      }
      case 9: {
        bool ok = true; sm::ConstPropertyTree c = sm::BoostPropertyTree(); try { c = a.c.asPropertyTree(); } catch (const std::exception&) { ok = false; }
        try {
          bp::object p = a.p.attr("asPropertyTree")();
          VM_CHECK(ok, "python/ValueStoreRef.asPropertyTree", "no exception, but C++ throws");
          if (ok) { getters<sm::ConstPropertyTree>(c, p, "ValueStoreRef.asPropertyTree", r); getters<sm::ConstPropertyTree>(c, p, "ValueStoreRef.asPropertyTree", r); }
        } catch (const bp::error_already_set&) { std::string w = error(); VM_CHECK(!ok, "python-raises/ValueStoreRef.asPropertyTree", w); }
        break;
      }
      case 10: {
        std::string fc = tmp("sc.info"), fp = tmp("sp.info"); ::unlink(fc.c_str()); ::unlink(fp.c_str());
        both("ValueStoreRef.saveTo", [&] { a.c.saveTo(fc); }, [&] { a.p.attr("saveTo")(fp); });
        VM_CHECK(slurp(fc) == slurp(fp), "python/ValueStoreRef.saveTo", "wrote another file than C++:\n" << slurp(fp) << "\ninstead of\n" << slurp(fc));
        break;
      }
      case 11: {  // pairs made in Python
        std::string key = r.pick(KEYS); Ref<R> c;
        c.c = a.c;
        if (attempt("KeyValueStorePair", [&] { c.p = mod().attr("KeyValueStorePair")(key, a.p); VM_CHECK(bp::extract<std::string>(c.p.attr("getKey")())() == key, "python/KeyValueStorePair.getKey", "is not " << show(key)); })) refs.push_back(c);
        Ref<E> d; d.c = e.c;
        if (attempt("ExtendibleKeyValueStorePair", [&] { d.p = mod().attr("ExtendibleKeyValueStorePair")(key, e.p); })) exts.push_back(d);
        break;
      }
      default:  // forget some, so that what they gave must live on its own
        if (refs.size() > 1) refs.erase(refs.begin() + r.below(refs.size()));
        if (exts.size() > 1) exts.erase(exts.begin() + r.below(exts.size()));
        if (r.chance(1, 3)) { refs.push_back(fresh()); exts.push_back(freshExt()); }
    }
  }
  for (auto& a : refs) allOf(a.c, a.p, n);
  for (auto& e : exts) allOf(e.c, e.p, x);
  vm::event("stores", refs.size() + exts.size());
  vm::nontrivial(vm::combine(h, r.next()));
}

// ---- clocks ----
template <class T> void clock(vm::Rng& r, const char* n) {
  sm::timing::TimestampCorrector<T> c; bp::object p; attempt(n, [&] { p = mod().attr(n)(); });
  double remote = r.uniform(0, 1000), step = r.uniform(0.5, 30), skew = r.uniform(0.9, 1.1), off = r.uniform(-100, 100); bool periodic = r.chance(1, 3); double period = r.uniform(3, 40) * step;
  for (int k = 0, m = r.range(0, 40); k < m; ++k) {
    remote += r.chance(1, 30) ? -step : step * r.uniform(0.3, 2);
    T a = (T)(remote * 1000), b = (T)((skew * remote + off + std::abs(r.normal()) * step) * 1000), q = (T)(period * 1000);
    if (periodic) sameIn(p, n, "correctTimestampPeriodic", [&] { return c.correctTimestamp(a, b, q); }, a, b, q); else sameIn(p, n, "correctTimestamp", [&] { return c.correctTimestamp(a, b); }, a, b);
    if (r.chance(1, 4)) { T z = (T)(1000 * (remote + r.uniform(-50, 50))); sameIn(p, n, "getLocalTime", [&] { return c.getLocalTime(z); }, z); }
  }
  sameIn(p, n, "convexHullSize", [&] { return c.convexHullSize(); }); sameIn(p, n, "getSlope", [&] { return c.getSlope(); }); sameIn(p, n, "getOffset", [&] { return c.getOffset(); });
  std::string want = printed([&] { c.printHullPoints(); }), got; attempt(n, [&] { got = printed([&] { p.attr("printHullPoints")(); }); });
  VM_CHECK(got == want, std::string("python/") + n + ".printHullPoints", "printed " << show(got) << " instead of " << show(want));
}
void clocks(vm::Rng& r, uint64_t i) {
  if (i % 2) clock<double>(r, "DoubleTimestampCorrector"); else clock<boost::int64_t>(r, "LongTimestampCorrector");
  vm::nontrivial(vm::combine(i % 2, r.next()));
}

// ---- pickles ----
template <class T> void through(const T& c, const bp::object& p, const std::string& cls, vm::Rng& r) {
  auto judge = [&](const bp::object& o, const T& want, const std::string& how) { T got = bp::extract<T>(o)(); VM_CHECK(eq(got, want), "python/" + cls + ", " + how, show(got) << " instead of " << show(want)); };
  static bp::object* pickle = new bp::object(bp::import("pickle")); static bp::object* copy = new bp::object(bp::import("copy"));
  attempt((cls + ", pickled").c_str(), [&] { judge(pickle->attr("loads")(pickle->attr("dumps")(p, r.range(0, 5))), c, "pickled"); });
  attempt((cls + ", copied").c_str(), [&] { judge(r.chance(1, 2) ? copy->attr("copy")(p) : copy->attr("deepcopy")(p), c, "copied"); });
  attempt((cls + ", state").c_str(), [&] { judge(p, c, "after it was pickled and copied"); });
  std::string fc = tmp("c.ba"), fp = tmp("p.ba"); ::unlink(fc.c_str()); ::unlink(fp.c_str());
  both(cls + ".save", [&] { sm::boost_serialization::save(c, fc); }, [&] { p.attr("save")(fp); });
  VM_CHECK(slurp(fc) == slurp(fp), "python/" + cls + ".save", "wrote another file than C++");
  attempt((cls + ", state").c_str(), [&] { judge(p, c, "after it was saved"); });
  T d; bp::object q; attempt(cls.c_str(), [&] { q = mod().attr(cls.c_str())(); });
  if (r.chance(1, 5)) { std::string s = slurp(fc); spit(fc, s.substr(0, r.below(s.size() + 1))); }
  both(cls + ".load", [&] { sm::boost_serialization::load(d, fc); }, [&] { q.attr("load")(fc); });
  attempt((cls + ".load").c_str(), [&] { T got = bp::extract<T>(q)(); VM_CHECK(eq(got, d), "python/" + cls + ".load", show(got) << " instead of " << show(d)); });
  both(cls + ".load", [&] { sm::boost_serialization::load(d, tmp("none")); }, [&] { q.attr("load")(tmp("none")); });
  both(cls + ".__setstate__", [&] { throw std::runtime_error("not a state"); }, [&] { q.attr("__setstate__")(bp::make_tuple(r.chance(1, 2) ? bp::object(3) : bp::object("nonsense"))); });
}
void pickles(vm::Rng& r, uint64_t) {
  V4 q = V4(r.normal(), r.normal(), r.normal(), r.normal()).normalized(); V3 t(num(r), num(r), num(r)); Eigen::Matrix<double, 6, 6> B = Eigen::Matrix<double, 6, 6>::NullaryExpr([&](Eigen::Index, Eigen::Index) { return r.normal(); }), U = B * B.transpose();
  smk::Transformation c(q, t); smk::UncertainTransformation u(q, t, U); bp::object pc, pu;
  if (!attempt("Transformation", [&] { pc = mod().attr("Transformation")(q, t); pu = mod().attr("UncertainTransformation")(q, t, U); })) return;
  through(c, pc, "Transformation", r); through(u, pu, "UncertainTransformation", r);
  vm::nontrivial(vm::combine(vm::bits(q[0]), vm::bits(U(0, 0))));
}

// ---- the package sm: logging, stores, progress, timing ----
struct Recorder : sm::logging::Logger {
  struct Event { std::string stream, file, function, message; int level, line; };
  std::vector<Event> events;
  void logImplementation(const sm::logging::LoggingEvent& e) override { events.push_back(Event{e.streamName, e.file, e.function, e.message, (int)e.level, e.line}); }
};
const char* LEVELS[] = {"All", "Finest", "Verbose", "Finer", "Trace", "Fine", "Debug", "Info", "Warn", "Error", "Fatal"};
bp::object& package() { static bp::object* m = new bp::object; return *m; }
bool havePackage() {
  static int state = -1;
  if (state >= 0) return state;
  state = attempt("the package sm", [] {
    bp::dict g; g["__builtins__"] = bp::import("builtins"); g["lib"] = mod(); g["path"] = std::string(SM_REPO "/sm_python/python");
    bp::exec("import sys, types\n"
             "sys.dont_write_bytecode = True\n"
             "for n in ('numpy_eigen', 'numpy', 'pylab', 'matplotlib', 'matplotlib.axes', 'matplotlib.pyplot'): sys.modules.setdefault(n, types.ModuleType(n))\n"
             "sys.modules['matplotlib'].axes = sys.modules['matplotlib.axes']\n"
             "sys.modules['sm.libsm_python'] = lib\n"
             "sys.path.insert(0, path)\n", g, g);
    package() = bp::import("sm");
    bp::exec("import sm\n"
             "def caller(name, *args):\n"
             "    getattr(sm, name)(*args)\n"   // line 3: where the events come from
             "class Log(object):\n"
             "    def method(self, name, *args):\n"
             "        getattr(sm, name)(*args)\n"  // line 6
             , g, g);
    package().attr("_caller") = g["caller"]; package().attr("_method") = g["Log"]().attr("method");
  });
  return state;
}
void logging(vm::Rng& r, uint64_t) {
  if (!havePackage()) return;
  boost::shared_ptr<Recorder> rec(new Recorder);
  boost::shared_ptr<sm::logging::Logger> old = sm::logging::getLogger(); sm::logging::setLogger(rec);
  uint64_t h = 0; std::string stream = "st" + std::to_string(r.below(3));
  for (int k = 0, n = r.range(4, 12); k < n; ++k) {
    int what = r.below(8); h = vm::combine(h, what);
    int lv = r.below(11);
    switch (what) {
      case 0: attempt("setLoggingLevel", [&] {
        if (r.chance(1, 2)) mod().attr("setLoggingLevel")(bp::object(mod().attr("LoggingLevel").attr(LEVELS[lv]))); else sm::logging::setLevel(sm::logging::levels::fromString(LEVELS[lv]));
        VM_CHECK((int)sm::logging::getLevel() == (int)sm::logging::levels::fromString(LEVELS[lv]) && bp::extract<int>(mod().attr("getLoggingLevel")())() == (int)sm::logging::getLevel(), "python/setLoggingLevel", "the level after setting " << LEVELS[lv] << " is " << (int)sm::logging::getLevel());
      }); break;
      case 1: attempt("loggingLevelFromString", [&] {
        std::string s = r.chance(1, 6) ? "nonsense" : LEVELS[lv]; int got = bp::extract<int>(mod().attr("loggingLevelFromString")(s))();
        VM_CHECK(got == (int)sm::logging::levels::fromString(s.c_str()), "python/loggingLevelFromString", s << " is level " << got);
      }); break;
      case 2: attempt("named streams", [&] {
        bool on = r.chance(2, 3); if (r.chance(1, 2)) mod().attr(on ? "enableNamedLoggingStream" : "disableNamedLoggingStream")(stream); else if (on) sm::logging::enableNamedStream(stream); else sm::logging::disableNamedStream(stream);
        VM_CHECK(sm::logging::isNamedStreamEnabled(stream) == on && bp::extract<bool>(mod().attr("isNamedLoggingStreamEnabled")(stream))() == on, "python/isNamedLoggingStreamEnabled", stream << " is not " << on);
      }); break;
      case 4: attempt("getLogger and setLogger", [&] {
        // the package does not export the class; another module of the user does
        static bool exported = (bp::class_<sm::logging::Logger, boost::shared_ptr<sm::logging::Logger>, boost::noncopyable>("Logger", bp::no_init), true); (void)exported;
        boost::shared_ptr<Recorder> other(new Recorder);
        bp::object mine = mod().attr("getLogger")();
        sm::logging::setLogger(other);
        bp::object theirs = mod().attr("getLogger")();
        VM_CHECK(bp::extract<boost::shared_ptr<sm::logging::Logger>>(theirs)().get() == other.get(), "python/getLogger", "getLogger does not give the logger that was set");
        mod().attr("setLogger")(mine);
        VM_CHECK(sm::logging::getLogger().get() == rec.get(), "python/setLogger", "the logger set from Python is not the one in use");
        sm::logging::setLogger(rec);
        vm::event("loggers-exchanged");
      }); break;
      case 3: {  // straight to the logger, whatever the level is
        bool named = r.chance(1, 2); std::string m = r.pickl<std::string>({"message", "", "100% %s", "two\nlines", "\xe2\x82\xac"}); int line = r.range(0, 9999); rec->events.clear();
        bool want = !named || sm::logging::isNamedStreamEnabled(stream);
        attempt("rawLog", [&] { bp::object l = mod().attr("LoggingLevel").attr(LEVELS[lv]); if (named) mod().attr("rawLogNamed")(stream, l, "file.py", line, "fn", m); else mod().attr("rawLog")(l, "file.py", line, "fn", m); });
        VM_CHECK(rec->events.size() == (want ? 1u : 0u), "python/rawLog", rec->events.size() << " events");
        for (auto& e : rec->events) VM_CHECK(e.stream == (named ? stream : std::string(SMCONSOLE_DEFAULT_NAME)) && e.level == (int)sm::logging::levels::fromString(LEVELS[lv]) && e.file == "file.py" && e.line == line && e.function == "fn" && e.message == m, "python/rawLog", "event " << e.stream << " " << e.level << " " << e.file << ":" << e.line << " " << e.function << " " << show(e.message));
        vm::event("events", rec->events.size());
        break;
      }
      default: {
        lv = r.range(1, 10); bool named = r.chance(1, 2), method = r.chance(1, 2); std::string m = r.pickl<std::string>({"message", "100% %s {}", "\xe2\x82\xac"}), fn = std::string("log") + LEVELS[lv] + (named ? "Named" : "");
        int level = (int)sm::logging::levels::fromString(LEVELS[lv]); bool want = level >= (int)sm::logging::getLevel() && (!named || sm::logging::isNamedStreamEnabled(stream)); rec->events.clear();
        if (!attempt(fn.c_str(), [&] { bp::object f = package().attr(method ? "_method" : "_caller"); if (named) f(fn, stream, m); else f(fn, m); })) break;
        VM_CHECK(rec->events.size() == (want ? 1u : 0u), "python/" + fn, rec->events.size() << " events of level " << level << " when the level is " << (int)sm::logging::getLevel());
        for (auto& e : rec->events) VM_CHECK(e.stream == (named ? stream : std::string(SMCONSOLE_DEFAULT_NAME)) && e.level == level && e.file == "<string>" && e.line == (method ? 6 : 3) && e.function == (method ? "method" : "caller") && e.message == m, "python/" + fn, "event " << e.stream << " " << e.level << " " << e.file << ":" << e.line << " " << e.function << " " << show(e.message));
        vm::event("events", rec->events.size());
      }
    }
  }
  sm::logging::setLogger(old);
  vm::nontrivial(vm::combine(h, r.next()));
}
// sm.ExtendibleValueStoreRef.set adds what is missing and updates what is there, with the type of the value.
void setting(vm::Rng& r, uint64_t) {
  if (!havePackage()) return;
  std::map<std::string, std::string> model; E c; bp::object p; attempt("ExtendibleValueStoreRef", [&] { p = package().attr("ExtendibleValueStoreRef")(); });
  for (int k = 0; k < 8; ++k) {
    std::string key = r.pick(KEYS); int type = r.below(4), i = r.range(-99, 99); bool b = r.chance(1, 2); double d = num(r); std::string s = r.pickl<std::string>({"", "text"});
    bool add = r.chance(3, 4), force = r.chance(1, 4), has = c.hasKey(key);
    bp::object v = type == 0 ? bp::object(b) : type == 1 ? bp::object(i) : type == 2 ? bp::object(d) : bp::object(s);
    both("ExtendibleValueStoreRef.set", [&] {
      if (add && (!has || force)) { if (type == 0) c.addBool(key, b); else if (type == 1) c.addInt(key, i); else if (type == 2) c.addDouble(key, d); else c.addString(key, s); }
      else { if (type == 0) c.getBool(key).update(b); else if (type == 1) c.getInt(key).update(i); else if (type == 2) c.getDouble(key).update(d); else c.getString(key).update(s); }
    }, [&] { if (add && !force && r.chance(1, 2)) p.attr("set")(key, v); else p.attr("set")(key, v, add, force); });
    allOf(c, p, "ExtendibleValueStoreRef.set");
  }
  vm::nontrivial(r.next());
}
// The progress printers, under a clock of their own.
void progress(vm::Rng& r, uint64_t) {
  if (!havePackage()) return;
  attempt("Progress", [&] {
    int n = r.range(1, 30); double t = r.uniform(0, 1e9), per = r.pickl({0.001, 0.25, 1.0, 75.0, 5000.0}); bool second = r.chance(1, 2);
    bp::dict g; g["__builtins__"] = bp::import("builtins"); g["sm"] = package(); g["n"] = n; g["second"] = second;
    bp::exec("import sys, io\n"
             "m = sys.modules['sm.Progress']\n"
             "class Clock(object):\n"
             "    now = 0.0\n"
             "    def time(self): return self.now\n"
             "clock = Clock()\n"
             "m.time = clock\n"
             "p = (sm.Progress2 if second else sm.Progress)(n)\n"
             "def sample(now, *steps):\n"
             "    clock.now = now\n"
             "    out, sys.stdout = sys.stdout, io.StringIO()\n"
             "    try:\n"
             "        p.sample(*steps)\n"
             "        return sys.stdout.getvalue()\n"
             "    finally:\n"
             "        sys.stdout = out\n", g, g);
    auto sample = [&](double now, int steps) { return bp::extract<std::string>(steps == 1 ? g["sample"](now) : g["sample"](now, steps))(); };
    int done = 0; double start = t;
    VM_CHECK(sample(t, 1).empty(), "python/Progress", "the first sample prints something");
    while (done < n) {
      int steps = second ? std::min<int>(n - done, r.range(1, 3)) : 1; t += per * steps * r.uniform(0.5, 2); done += steps;
      std::string s = sample(t, steps);
      double elapsed = t - start, left = elapsed / done * n - elapsed;
      VM_CHECK(s.find("Progress " + std::to_string(done) + " / " + std::to_string(n)) != s.npos, "python/Progress", "printed " << show(s) << " at " << done << " of " << n);
      if (second) {
        VM_CHECK(s.find("None") == s.npos && std::count(s.begin(), s.end(), '\n') == 0, "python/Progress2", "printed " << show(s) << ": not a line to be overwritten");
        size_t at = s.find("Time remaining:"); int hh = 0, mm = 0, ss = 0; std::istringstream in(s.substr(at == s.npos ? s.size() : at + 15)); std::string tok;
        while (in >> tok) { if (tok == "h") continue; if (tok.back() == 'm') mm = atoi(tok.c_str()); else if (tok.back() == 's') ss = atoi(tok.c_str()); else if (std::isdigit((unsigned char)tok[0])) hh = atoi(tok.c_str()); }
        VM_CHECK(at != s.npos && std::abs(hh * 3600.0 + mm * 60 + ss - left) <= 1.001 + 1e-6 * elapsed, "python/Progress2", "printed " << show(s) << " with " << left << " s left");
      }
      vm::event("samples");
    }
  });
  vm::nontrivial(r.next());
}
void timings(vm::Rng& r, uint64_t i) {
  for (int k = 0; k < 4; ++k) { sm::timing::Timer t("y02." + std::to_string(r.below(5)) + "." + std::to_string(i % 3)); t.stop(); }
  const char* sorts[] = {"SORT_BY_TOTAL", "SORT_BY_MEAN", "SORT_BY_STD", "SORT_BY_MIN", "SORT_BY_MAX", "SORT_BY_NUM_SAMPLES"};
  using sm::timing::SortType; SortType kinds[] = {SortType::SORT_BY_TOTAL, SortType::SORT_BY_MEAN, SortType::SORT_BY_STD, SortType::SORT_BY_MIN, SortType::SORT_BY_MAX, SortType::SORT_BY_NUM_SAMPLES};
  int k = r.below(6); std::string want = printed([&] { sm::timing::Timing::print(std::cout); }), sorted = printed([&] { sm::timing::Timing::print(std::cout, kinds[k]); }), got, gotSorted;
  attempt("printTiming", [&] { got = printed([&] { mod().attr("printTiming")(); }); gotSorted = printed([&] { mod().attr("printTimingSorted")(bp::object(mod().attr("TimingSortType").attr(sorts[k]))); }); });
  VM_CHECK(got == want, "python/printTiming", "printed " << show(got) << " instead of " << show(want));
  VM_CHECK(gotSorted == sorted, "python/printTimingSorted", sorts[k] << " printed " << show(gotSorted) << " instead of " << show(sorted));
  vm::nontrivial(vm::combine(k, r.next()));
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::leakProbes(false);  // Python keeps the strings and the code of what it has evaluated
  vm::setRule("a distinct case is a history of operations on objects held from Python and on their twins in C++");
  start();
  vm::run("archives", 400, archives);
  vm::run("trees", 400, trees);
  vm::run("loading", 200, loading);
  vm::run("stores", 400, stores);
  vm::run("clocks", 300, clocks);
  vm::run("pickles", 250, pickles);
  vm::run("logging", 400, logging);
  vm::run("setting", 200, setting);
  vm::run("progress", 200, progress);
  vm::run("timing", 150, timings);
  return vm::finish();
}
