// sm_value_store. Modes: "layers" (V01), "prefixes" (V02), "handles" (V03).
#include "vm.hpp"
#include <functional>
#include <iostream>
#include <boost/filesystem.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/PropertyTreeValueStore.hpp>
#include <sm/value_store/ValueStore.hpp>
#include <sm/value_store/VerboseValueStore.hpp>

namespace {
using namespace sm::value_store;
typedef std::shared_ptr<ValueStore> StorePtr;

std::string joined(const std::string& a, const std::string& b) { return a.empty() ? b : b.empty() ? a : a + "/" + b; }

// ------------------------------------------------------------ the model
// A source of values: a property tree, or a flat map without children support.
struct Source {
  std::string name;
  bool tree = true;
  std::map<std::string, std::string> values;   // for a tree: every node, "" included
  bool has(const std::string& p) const { return values.count(p) > 0; }
  void put(const std::string& p, const std::string& v) {
    if (tree) { values[""]; for (size_t s = p.find('/'); s != std::string::npos; s = p.find('/', s + 1)) values[p.substr(0, s)]; }
    values[p] = v;
  }
  std::set<std::string> kids(const std::string& p) const {
    std::set<std::string> k;
    std::string base = p.empty() ? "" : p + "/";
    for (auto& v : values) if (v.first.size() > base.size() && v.first.compare(0, base.size(), base) == 0) { std::string r = v.first.substr(base.size()); k.insert(r.substr(0, r.find('/'))); }
    return k;
  }
};
typedef std::shared_ptr<Source> SourcePtr;
typedef std::vector<std::pair<SourcePtr, std::string>> Route;   // where a path is looked up, in order
typedef std::function<Route(const std::string&)> Model;

// A store the library has not seen: keys in a map, no children.
class FlatStore : public ValueStore {
 public:
  explicit FlatStore(SourcePtr s) : s_(s) {}
  const std::string* find(std::string p) const {
    while (!p.empty() && p.back() == '/') p.pop_back();
    auto i = s_->values.find(p);
    return i == s_->values.end() ? nullptr : &i->second;
  }
  template <class T, class F> ValueHandle<T> get(const std::string& p, const boost::optional<T>& def, F parse) const {
    if (auto v = find(p)) return parse(*v);
    if (def) return *def;
    throw std::runtime_error("flat store: no " + p);
  }
  static double number(const std::string& s) { size_t n = 0; double d = std::stod(s, &n); if (n != s.size()) throw std::runtime_error("flat store: not a number"); return d; }
  static int integer(const std::string& s) { size_t n = 0; int d = std::stoi(s, &n); if (n != s.size()) throw std::runtime_error("flat store: not an integer"); return d; }
  ValueHandle<bool> getBool(const std::string& p, boost::optional<bool> d) const override { return get(p, d, [](const std::string& s) { if (s != "0" && s != "1") throw std::runtime_error("flat store: not a bool"); return s == "1"; }); }
  ValueHandle<int> getInt(const std::string& p, boost::optional<int> d) const override { return get(p, d, integer); }
  ValueHandle<double> getDouble(const std::string& p, boost::optional<double> d) const override { return get(p, d, number); }
  ValueHandle<std::string> getString(const std::string& p, boost::optional<std::string> d) const override { return get(p, d, [](const std::string& s) { return s; }); }
  bool hasKey(const std::string& p) const override { return find(p) != nullptr; }
  KeyValueStorePair getChild(const std::string&) const override { vm::fail("unsupported-call", "getChild was called on a store that does not support children"); throw std::runtime_error("flat store: no children"); }
  std::vector<KeyValueStorePair> getChildren() const override { vm::fail("unsupported-call", "getChildren was called on a store that does not support children"); throw std::runtime_error("flat store: no children"); }
  bool isChildSupported() const override { return false; }
 private:
  SourcePtr s_;
};

struct World {
  std::vector<SourcePtr> sources;
  std::vector<sm::BoostPropertyTree> trees;   // one per tree source, by index
  std::map<Source*, size_t> index;
  size_t logged = 0;
  std::string lastLog;
  int stamp = 0;
};
typedef std::function<std::vector<std::string>()> Keys;         // the keys a store has
struct Store {
  StorePtr vs;
  Model m;
  Keys keys;
  bool listable;      // getChildren works
  std::string desc;
};

// the keys seen below / above a prefix
Keys below(Keys k, const std::string& pre) {
  return [k, pre] { std::vector<std::string> out; for (auto& p : k()) { if (p == pre) out.push_back(""); else if (pre.empty()) out.push_back(p); else if (p.compare(0, pre.size() + 1, pre + "/") == 0) out.push_back(p.substr(pre.size() + 1)); } return out; };
}
Keys above(Keys k, const std::string& pre) { return [k, pre] { std::vector<std::string> out; for (auto& p : k()) out.push_back(joined(pre, p)); return out; }; }
Keys sourceKeys(SourcePtr s) { return [s] { std::vector<std::string> out; for (auto& v : s->values) out.push_back(v.first); return out; }; }
const std::vector<std::string> segs = {"a", "b", "a.b", "ab"};
std::string path(vm::Rng& r, int lo, int hi) { std::string s; for (int n = r.range(lo, hi); n > 0; --n) s = joined(s, r.pick(segs)); return s; }
std::string value(vm::Rng& r, World& w) {
  switch (r.below(5)) {
    case 0: return r.chance(1, 2) ? "1" : "0";
    case 1: return std::to_string(w.stamp++ * 7 + 2);
    case 2: return std::to_string(w.stamp++) + ".25";
    case 3: return "text" + std::to_string(w.stamp++);
    default: return r.chance(1, 2) ? std::to_string(-1 - w.stamp++) : "";
  }
}
Store treeStore(vm::Rng& r, World& w) {
  SourcePtr s = std::make_shared<Source>();
  s->name = "T" + std::to_string(w.sources.size());
  s->values[""];
  sm::BoostPropertyTree t;
  for (int n = r.below(8); n > 0; --n) { std::string p = path(r, 1, 4), v = value(r, w); s->put(p, v); t.setString(p, v); }
  std::string ns = r.chance(1, 4) ? path(r, 1, 2) : "";
  w.index[s.get()] = w.sources.size();
  w.sources.push_back(s);
  w.trees.push_back(t);
  sm::PropertyTree pt = ns.empty() ? sm::PropertyTree(t) : sm::PropertyTree(t).getChild(ns);
  return {std::make_shared<PropertyTreeValueStore>(pt), [s, ns](const std::string& p) { return Route{{s, joined(ns, p)}}; }, below(sourceKeys(s), ns), true, s->name + (ns.empty() ? "" : "@" + ns)};
}
Store flatStore(vm::Rng& r, World& w) {
  SourcePtr s = std::make_shared<Source>();
  s->name = "F" + std::to_string(w.sources.size());
  s->tree = false;
  for (int n = r.below(8); n > 0; --n) s->put(path(r, 1, 4), value(r, w));
  w.index[s.get()] = w.sources.size();
  w.sources.push_back(s);
  w.trees.push_back(sm::BoostPropertyTree());
  return {std::make_shared<FlatStore>(s), [s](const std::string& p) { return Route{{s, p}}; }, sourceKeys(s), false, s->name};
}
enum Ops { LAYERS = 1, PREFIX = 2, VERBOSE = 4, CHILD = 8 };
Store build(vm::Rng& r, World& w, int depth, int ops);
Store childOf(vm::Rng& r, Store s, const std::string& key) {
  ValueStoreRef c = ValueStoreRef(s.vs).getChild(key);
  Model m = s.m;
  (void)r;
  return {c.getValueStoreSharedPtr(), [m, key](const std::string& p) { return m(joined(key, p)); }, below(s.keys, key), s.listable, "child(" + key + "," + s.desc + ")"};
}
Store build(vm::Rng& r, World& w, int depth, int ops) {
  std::vector<int> can;
  for (int o : {LAYERS, PREFIX, VERBOSE, CHILD}) if (ops & o) can.push_back(o);
  if (depth <= 0 || w.sources.size() > 6 || r.chance(1, 6) || can.empty()) return r.chance(2, 3) ? treeStore(r, w) : flatStore(r, w);
  switch (r.pick(can)) {
    case LAYERS: {
      std::vector<Store> l;
      for (int n = r.chance(1, 12) ? 0 : r.range(1, 4); n > 0; --n) l.push_back(build(r, w, depth - 1, ops));
      auto lv = std::make_shared<LayeredValueStore>();
      std::string d;
      std::vector<Model> ms;
      std::vector<Keys> ks;
      bool listable = true;
      for (auto& s : l) {
        if (r.chance(1, 8)) lv->add(StorePtr());   // a missing layer is no layer
        if (r.chance(1, 3)) { ValueStoreRef ref(s.vs); lv->add(ref); } else lv->add(s.vs);
        ms.push_back(s.m);
        ks.push_back(s.keys);
        listable = listable && s.listable;
        d += (d.empty() ? "" : "|") + s.desc;
      }
      if (l.size() == 2 && r.chance(1, 3)) lv = std::make_shared<LayeredValueStore>(l[0].vs, l[1].vs);
      if (l.size() == 3 && r.chance(1, 3)) lv = std::make_shared<LayeredValueStore>(l[0].vs, l[1].vs, l[2].vs);
      return {lv, [ms](const std::string& p) { Route a; for (auto& m : ms) { Route b = m(p); a.insert(a.end(), b.begin(), b.end()); } return a; },
              [ks] { std::vector<std::string> out; for (auto& k : ks) for (auto& p : k()) out.push_back(p); return out; }, listable, "[" + d + "]"};
    }
    case PREFIX: {
      Store s = build(r, w, depth - 1, ops);
      std::string pre = path(r, 1, r.chance(1, 3) ? 3 : 1);
      bool add = r.chance(1, 2);
      StorePtr vs = r.chance(1, 2) ? std::make_shared<PrefixedValueStore>(s.vs, add ? PrefixedValueStore::PrefixMode::ADD : PrefixedValueStore::PrefixMode::REMOVE, pre)
                                   : std::make_shared<PrefixedValueStore>(ValueStoreRef(s.vs), add ? PrefixedValueStore::PrefixMode::ADD : PrefixedValueStore::PrefixMode::REMOVE, pre);
      Model m = s.m;
      if (add) return {vs, [m, pre](const std::string& p) { return m(joined(pre, p)); }, below(s.keys, pre), false, "+" + pre + "(" + s.desc + ")"};
      return {vs, [m, pre](const std::string& p) { return p == pre ? m("") : p.compare(0, pre.size() + 1, pre + "/") == 0 ? m(p.substr(pre.size() + 1)) : Route(); }, above(s.keys, pre), false, "-" + pre + "(" + s.desc + ")"};
    }
    case VERBOSE: {
      Store s = build(r, w, depth - 1, ops);
      World* pw = &w;
      return {std::make_shared<VerboseValueStore>(s.vs, [pw](const std::string& t) { ++pw->logged; pw->lastLog = t; }), s.m, s.keys, s.listable, "v(" + s.desc + ")"};
    }
    default: {
      Store s = build(r, w, depth - 1, ops);
      return childOf(r, s, path(r, 1, r.chance(1, 4) ? 2 : 1));
    }
  }
}

// ------------------------------------------------------------ comparison
const std::pair<SourcePtr, std::string>* first(const Route& r) { for (auto& c : r) if (c.first->has(c.second)) return &c; return nullptr; }
struct Expect { bool present = false; std::string text; };
Expect look(const Model& m, const std::string& p) {
  Route r = m(p);
  Expect e;
  if (auto c = first(r)) { e.present = true; e.text = c->first->values[c->second]; }
  return e;
}
bool asInt(const std::string& s, int& v) { if (s.empty()) return false; char* e = nullptr; long x = std::strtol(s.c_str(), &e, 10); v = (int)x; return *e == 0 && x == v; }
bool asDouble(const std::string& s, double& v) { if (s.empty()) return false; char* e = nullptr; v = std::strtod(s.c_str(), &e); return *e == 0; }
bool asBool(const std::string& s, bool& v) { v = s == "1" || s == "true"; return s == "1" || s == "0" || s == "true" || s == "false"; }
// bools of other numbers are left to the library
bool undecided(const std::string& s) { double d; return s != "0" && s != "1" && asDouble(s, d); }

std::string dump(const std::map<std::string, std::string>& m) { std::string s; for (auto& v : m) s += " " + v.first + "=" + v.second; return s; }
std::map<std::string, std::string> read(const sm::BoostPropertyTree& t) {
  std::map<std::string, std::string> out;
  out[""] = t.getString("/");
  std::function<void(const boost::property_tree::ptree&, const std::string&)> walk = [&](const boost::property_tree::ptree& p, const std::string& at) {
    for (auto& c : p) { out[joined(at, c.first)] = c.second.data(); walk(c.second, joined(at, c.first)); }
  };
  for (auto& c : t) { out[c.first] = c.second.data(); walk(c.second, c.first); }
  return out;
}
// Every tree still holds what the model says; a default given for an absent key may have been remembered where the key was looked for.
void checkSources(World& w, const std::string& what, const Route* lookedUp = nullptr, const std::string* def = nullptr) {
  for (size_t i = 0; i < w.sources.size(); ++i) {
    Source& s = *w.sources[i];
    if (!s.tree) continue;
    auto now = read(w.trees[i]);
    if (now == s.values) continue;
    if (lookedUp && def) {
      bool ok = false;
      for (auto& c : *lookedUp) {
        if (c.first.get() != &s) continue;
        Source t = s;
        auto at = now.find(c.second);
        if (at == now.end()) continue;
        t.put(c.second, at->second);
        if (t.values == now) { ok = true; break; }
      }
      if (ok) { s.values = now; vm::event("default-remembered"); continue; }
    }
    vm::fail("source-changed", what + ": " + s.name + " is now" + dump(now) + ", expected" + dump(s.values));
    s.values = now;
  }
}
template <class T, class G, class P> void checkGet(World& w, const char* type, const Store& s, const std::string& p, const boost::optional<T>& def, G get, P parse, const std::string& defText) {
  Expect e = look(s.m, p);
  Route route = s.m(p);
  std::string what = std::string("get") + type + "(\"" + p + "\"" + (def ? ", " + defText : "") + ") of " + s.desc + (e.present ? " which has \"" + e.text + "\" there" : " which has no such key");
  T x = T(), want = T();
  bool threw = false;
  std::string err;
  size_t log0 = w.logged;
  try { x = get(p, def).get(); } catch (const std::exception& ex) { threw = true; err = ex.what(); }
  bool parses = e.present && parse(e.text, want);
  if (!e.present) {
    VM_CHECK(threw == !def, "missing-key", what << (threw ? " threw " + err : " gave a value"));
    if (def && !threw) VM_CHECK(x == *def, "default", what << " did not give the default");
  } else if (parses) {
    VM_CHECK(!threw, "value", what << " threw " << err);
    if (!threw) VM_CHECK(x == want, "value", what << " gave another value: " << vm::str(x));
  } else if (!def) {
    if (std::string(type) != "Bool" || !undecided(e.text)) VM_CHECK(threw, "unparsable", what << " gave a value");
  }
  (void)log0;
  vm::event(!e.present ? (def ? "default-used" : "missing-key") : parses ? "value-read" : "unparsable-read");
  checkSources(w, what, e.present ? nullptr : &route, def ? &defText : nullptr);
}
void checkPath(vm::Rng& r, World& w, const Store& s, const std::string& p, bool defaults) {
  Expect e = look(s.m, p);
  bool has = false;
  std::string err;
  try { has = s.vs->hasKey(p); } catch (const std::exception& ex) { err = ex.what(); }
  VM_CHECK(err.empty() && has == e.present, "has-key", "hasKey(\"" << p << "\") of " << s.desc << (err.empty() ? (has ? " is true" : " is false") : " threw " + err));
  bool d = defaults && r.chance(1, 2);
  const ValueStore& v = *s.vs;
  // exceptions are slow under ASan: only some of the reads that have to throw
  if (!e.present && !d && !r.chance(1, 8)) return;
  int type = r.below(4);
  int xi; double xd; bool xb;
  if (e.present && !(type == 0 ? asBool(e.text, xb) : type == 1 ? asInt(e.text, xi) : type == 2 ? asDouble(e.text, xd) : true) && !r.chance(1, 6)) type = 3;
  switch (type) {
    case 0: { boost::optional<bool> o; if (d) o = r.chance(1, 2); checkGet<bool>(w, "Bool", s, p, o, [&](const std::string& k, boost::optional<bool> q) { return v.getBool(k, q); }, asBool, o ? (*o ? "1" : "0") : ""); break; }
    case 1: { boost::optional<int> o; if (d) o = r.range(1000, 2000); checkGet<int>(w, "Int", s, p, o, [&](const std::string& k, boost::optional<int> q) { return v.getInt(k, q); }, asInt, o ? std::to_string(*o) : ""); break; }
    case 2: { boost::optional<double> o; if (d) o = r.range(1000, 2000) + .5; checkGet<double>(w, "Double", s, p, o, [&](const std::string& k, boost::optional<double> q) { return v.getDouble(k, q); }, asDouble, o ? std::to_string(*o) : ""); break; }
    default: { boost::optional<std::string> o; if (d) o = "def" + std::to_string(r.below(1000)); checkGet<std::string>(w, "String", s, p, o, [&](const std::string& k, boost::optional<std::string> q) { return v.getString(k, q); }, [](const std::string& t, std::string& x) { x = t; return true; }, o ? *o : ""); }
  }
}
std::vector<std::string> candidates(vm::Rng& r, const Store& st, int n) {
  std::vector<std::string> all = st.keys(), c;
  for (; n > 0; --n) {
    std::string p = !all.empty() && r.chance(3, 4) ? r.pick(all) : path(r, 1, 4);
    if (r.chance(1, 16)) p = joined(path(r, 1, 2), p);
    if (r.chance(1, 16)) { size_t k = p.find('/'); if (k != std::string::npos) p = p.substr(k + 1); }
    if (r.chance(1, 16)) p.clear();
    c.push_back(p);
  }
  return c;
}
void checkChildren(vm::Rng& r, World& w, const Store& s, int depth = 0) {
  if (!s.listable) return;
  std::set<std::string> want;
  bool any = false;
  for (auto& c : s.m("")) { any = any || c.first->has(c.second); for (auto& k : c.first->kids(c.second)) want.insert(k); }
  std::vector<KeyValueStorePair> kids;
  std::string err;
  try { kids = s.vs->getChildren(); } catch (const std::exception& e) { err = e.what(); }
  VM_CHECK(err.empty(), "children", "getChildren of " << s.desc << " threw " << err);
  std::set<std::string> got;
  for (auto& k : kids) {
    VM_CHECK(got.insert(k.getKey()).second, "children-twice", "getChildren of " << s.desc << " lists \"" << k.getKey() << "\" twice");
    std::string key = k.getKey();
    Model m = s.m;
    Store c{k.getValueStoreSharedPtr(), [m, key](const std::string& p) { return m(joined(key, p)); }, below(s.keys, key), true, "listed child " + key + " of " + s.desc};
    checkPath(r, w, c, "", false);
    for (int i = 0; i < 3; ++i) checkPath(r, w, c, path(r, 1, 2), false);
    if (depth < 2 && r.chance(1, 2)) {
      std::set<std::string> cw, cg;
      for (auto& q : c.m("")) for (auto& kk : q.first->kids(q.second)) cw.insert(kk);
      for (auto& g : k.getChildren()) cg.insert(g.getKey());
      VM_CHECK(cw == cg, "children", "getChildren of " << c.desc << " lists " << cg.size() << " children, expected " << cw.size());
    }
  }
  VM_CHECK(got == want, "children", "getChildren of " << s.desc << " lists " << got.size() << " children, expected " << want.size());
  vm::event("children-listed");
  (void)any;
}
void checkEmpty(const Store& s) {
  if (!s.vs->isEmpty()) return;
  vm::event("empty");
  for (auto& c : s.m("")) for (auto& k : c.first->kids(c.second)) vm::fail("empty-with-key", s.desc + " says it is empty and has \"" + k + "\"");
}
void composition(vm::Rng& r, uint64_t i, int ops, int top) {
  World w;
  Store s = build(r, w, r.range(1, 4), ops);
  if (top == LAYERS) {
    for (int k = 0; s.desc[0] != '[' && k < 20; ++k) { w = World(); s = build(r, w, 3, ops); }
  }
  if (top == PREFIX) {
    for (int k = 0; s.desc.find_first_of("+-") == std::string::npos && k < 20; ++k) { w = World(); s = build(r, w, 3, ops); }
  }
  checkSources(w, "building " + s.desc);
  checkEmpty(s);
  checkChildren(r, w, s);
  for (auto& p : candidates(r, s, 12)) checkPath(r, w, s, p, true);
  // a value changed in a source shows through every composition
  for (int k = r.below(3); k > 0 && !w.sources.empty(); --k) {
    size_t x = r.below(w.sources.size());
    std::string p = path(r, 1, 3), v = value(r, w);
    w.sources[x]->put(p, v);
    if (w.sources[x]->tree) w.trees[x].setString(p, v);
    vm::event("source-set");
    for (auto& q : candidates(r, s, 3)) checkPath(r, w, s, q, false);
    checkPath(r, w, s, p, false);
  }
  // children, and children of children, by name
  for (int k = 0; k < 3; ++k) {
    std::string key = r.pick(segs);
    auto ks = s.keys();
    if (!ks.empty() && r.chance(2, 3)) { key = r.pick(ks); key = key.substr(0, key.find('/')); if (key.empty()) key = "a"; }
    Store c = childOf(r, s, key);
    for (int d = r.below(3); d > 0; --d) c = childOf(r, c, path(r, 1, r.chance(1, 5) ? 2 : 1));
    for (auto& p : candidates(r, c, 4)) {
      if (p.empty() && !look(c.m, "").present) continue;   // the empty path of a child that does not exist
      checkPath(r, w, c, p, true);
    }
    vm::event("child-by-name");
  }
  checkChildren(r, w, s);
  uint64_t h = vm::hashStr(s.desc);
  for (auto& q : w.sources) for (auto& v : q->values) h = vm::combine(h, vm::hashStr(v.first));
  vm::nontrivial(h);
  if (i < 4) vm::sample(s.desc);
}
void layers(vm::Rng& r, uint64_t i) { composition(r, i, r.chance(1, 2) ? LAYERS : LAYERS | PREFIX | VERBOSE, LAYERS); }
void prefixes(vm::Rng& r, uint64_t i) { composition(r, i, r.chance(1, 2) ? PREFIX | CHILD : LAYERS | PREFIX | CHILD, PREFIX); }
void noLayers(vm::Rng&, uint64_t) {
  LayeredValueStore none;
  VM_CHECK(!none.hasKey("a") && none.getInt("a", 3).get() == 3 && none.getString("b", std::string("x")).get() == "x" && none.getChildren().empty() && none.isChildSupported(), "no-layers", "a store without layers does not give the defaults");
  bool threw = false;
  try { none.getInt("a"); } catch (const std::exception&) { threw = true; }
  VM_CHECK(threw, "no-layers", "a store without layers gave a value");
  KeyValueStorePair c = none.getChild("a");
  VM_CHECK(c.getKey() == "a" && !c.hasKey("b"), "no-layers", "the child of a store without layers has keys");
}

// ------------------------------------------------------------ V03
template <class T> struct Conv;
template <> struct Conv<bool> {
  static const char* name() { return "bool"; }
  static bool make(vm::Rng& r, World&) { return r.chance(1, 2); }
  static bool parse(const std::string& s, bool& v) { return asBool(s, v); }
  static bool decided(const std::string& s) { return !undecided(s) && s != "true" && s != "false"; }
  static bool same(const std::string& text, bool v) { return v ? (text == "1" || text == "true") : (text == "0" || text == "false"); }
};
template <> struct Conv<int> {
  static const char* name() { return "int"; }
  static int make(vm::Rng& r, World& w) { return r.chance(1, 4) ? r.pickl<int>({0, -1, 2147483647, (int)0x80000000}) : w.stamp++ * 3; }
  static bool parse(const std::string& s, int& v) { return asInt(s, v); }
  static bool decided(const std::string&) { return true; }
  static bool same(const std::string& t, int v) { int x; return asInt(t, x) && x == v; }
};
template <> struct Conv<double> {
  static const char* name() { return "double"; }
  static double make(vm::Rng& r, World&) { double d; do d = r.anyDouble(true); while (d != 0 && std::fabs(d) < 1e-300); return d; }
  static bool parse(const std::string& s, double& v) { return asDouble(s, v); }
  static bool decided(const std::string&) { return true; }
  static bool same(const std::string& t, double v) { double x; return asDouble(t, x) && vm::bits(x) == vm::bits(v); }
};
template <> struct Conv<std::string> {
  static const char* name() { return "string"; }
  static std::string make(vm::Rng& r, World& w) { return r.chance(1, 6) ? "" : "s" + std::to_string(w.stamp++) + (r.chance(1, 4) ? " x/y\n" : ""); }
  static bool parse(const std::string& s, std::string& v) { v = s; return true; }
  static bool decided(const std::string&) { return true; }
  static bool same(const std::string& t, const std::string& v) { return t == v; }
};
struct AnyHandle {
  virtual ~AnyHandle() {}
  virtual void check(vm::Rng& r, World& w, bool mayUpdate) = 0;
};
template <class T> struct Held : AnyHandle {
  ValueHandle<T> h;
  SourcePtr src;         // null: a constant
  std::string at, desc;
  T fixed;
  bool updateable;
  void check(vm::Rng& r, World& w, bool mayUpdate) override {
    if (!src) { VM_CHECK(h.get() == fixed, "constant-handle", desc << " changed"); VM_CHECK(!h.isUpdateable(), "constant-handle", desc << " became updateable"); vm::event("constant-handle-read"); return; }
    std::string now = src->values[at];
    T want = T(), got = T();
    bool threw = false;
    try { got = h.get(); T conv = h; if (!(conv == got)) vm::fail("handle-value", desc + ": conversion and get differ"); } catch (const std::exception&) { threw = true; }
    if (Conv<T>::decided(now)) {
      if (Conv<T>::parse(now, want)) VM_CHECK(!threw && got == want, "handle-value", desc << " should give \"" << now << "\"" << (threw ? " and threw" : " and gave " + vm::str(got)));
      else VM_CHECK(threw, "handle-value", desc << " gave a value for \"" << now << "\"");
    }
    vm::event("handle-read");
    VM_CHECK(h.isUpdateable() == updateable, "handle-updateable", desc << (updateable ? " became constant" : " became updateable"));
    if (!updateable || !mayUpdate || !r.chance(1, 2)) return;
    T v = Conv<T>::make(r, w);
    h.update(v);
    std::string text;
    size_t x = w.index[src.get()];
    try { text = w.trees[x].getString("/" + at); } catch (const std::exception& e) { vm::fail("update", desc + ": the key is gone after an update"); return; }
    VM_CHECK(Conv<T>::same(text, v), "update", desc << " updated to " << vm::str(v) << " wrote \"" << text << "\"");
    src->put(at, text);
    vm::event("handle-updated");
    checkSources(w, "updating " + desc);
  }
};
template <class T> void take(vm::Rng& r, World& w, const Store& s, const std::string& p, std::vector<std::unique_ptr<AnyHandle>>& held, bool withDefault) {
  Route route = s.m(p);
  auto c = first(route);
  std::unique_ptr<Held<T>> h(new Held<T>());
  h->desc = std::string(Conv<T>::name()) + " handle of \"" + p + "\" in " + s.desc;
  boost::optional<T> def;
  if (withDefault) def = Conv<T>::make(r, w);
  try {
    if (r.chance(1, 2)) h->h = ValueStoreRef(s.vs).get<T>(p, def); else h->h = (s.vs.get()->*internal::AccessorMap<ValueStore, T>::getter)(p, def);
  } catch (const std::exception& e) {
    T x;
    if (c && Conv<T>::parse(c->first->values[c->second], x)) vm::fail("value", h->desc + " threw " + e.what());
    else if (!c && def) vm::fail("default", h->desc + " with a default threw " + e.what());
    return;
  }
  if (!c && !def) { vm::fail("missing-key", h->desc + " exists and the key does not"); return; }
  VM_CHECK(!h->h.empty(), "handle-value", h->desc << " is empty");
  std::string none;
  if (def) {
    checkSources(w, "taking " + h->desc, &route, &none);
    T v = T(), want = T();
    if (c && Conv<T>::parse(c->first->values[c->second], want)) v = want; else v = h->h.get();
    VM_CHECK(h->h.get() == (c && Conv<T>::parse(c->first->values[c->second], want) ? want : c ? v : *def), "default", h->desc << " with a default gives another value");
    if (!h->h.isUpdateable()) { h->fixed = h->h.get(); held.push_back(std::move(h)); }   // whether such a handle follows the store is left to the library
    return;
  }
  h->src = c->first; h->at = c->second; h->updateable = h->h.isUpdateable();
  if (c->first->tree) VM_CHECK(h->updateable, "handle-updateable", h->desc << " is not updateable");
  held.push_back(std::move(h));
}
void handles(vm::Rng& r, uint64_t i) {
  World w;
  Store s = build(r, w, r.range(0, 3), LAYERS | PREFIX | CHILD | VERBOSE);
  std::vector<std::unique_ptr<AnyHandle>> held;
  std::string desc = s.desc;
  for (int step = r.range(4, 20); step > 0; --step) {
    auto cs = candidates(r, s, 1);
    // mostly paths that exist
    std::string p = cs[0];
    for (int k = 0; k < 6 && !look(s.m, p).present; ++k) p = candidates(r, s, 1)[0];
    bool d = r.chance(1, 4);
    switch (r.below(6)) {
      case 0: take<bool>(r, w, s, p, held, d); break;
      case 1: take<int>(r, w, s, p, held, d); break;
      case 2: take<double>(r, w, s, p, held, d); break;
      case 3: take<std::string>(r, w, s, p, held, d); break;
      case 4: {
        if (w.sources.empty()) break;
        size_t x = r.below(w.sources.size());
        std::string q = path(r, 1, 3), v = value(r, w);
        if (!w.sources[x]->tree) break;
        w.sources[x]->put(q, v); w.trees[x].setString(q, v); break;
      }
      default: checkPath(r, w, s, p, true);
    }
    if (!held.empty()) { held[r.below(held.size())]->check(r, w, true); held[r.below(held.size())]->check(r, w, false); }
  }
  for (auto& h : held) h->check(r, w, false);
  // handles outlive the store
  s.vs.reset();
  for (auto& h : held) h->check(r, w, true);
  for (auto& h : held) h->check(r, w, false);
  vm::nontrivial(vm::combine(vm::hashStr(desc), vm::combine(held.size(), vm::hashStr(w.sources.empty() ? "" : dump(w.sources[0]->values)))));
  if (i < 3) vm::sample(desc + ", " + std::to_string(held.size()) + " handles");
}
// Extendible stores: what is added can be read through every view.
void extending(vm::Rng& r, uint64_t) {
  sm::BoostPropertyTree t;
  std::map<std::string, std::string> want{{"", ""}};
  Source model;
  model.values[""];
  size_t logs = 0;
  std::string last;
  auto log = [&](const std::string& s) { ++logs; last = s; };
  ExtendibleValueStoreRef root(t);
  if (r.chance(1, 8)) {
    std::string f = vm::scratch() + (r.chance(1, 2) ? "/empty.json" : "/empty.info");
    VM_CHECK(root.isEmpty() && root.canSave(), "save", "an empty store on a Boost property tree cannot be saved");
    root.saveTo(f);
    ValueStoreRef back = ValueStoreRef::fromFile(f);
    VM_CHECK(back.isEmpty() && back.getChildren().empty() && !back.hasKey("a"), "save", "an empty store was saved and is not empty");
    vm::event("empty-saved");
  }
  for (int step = r.range(3, 15); step > 0; --step) {
    // walk down to some child, perhaps through logging wrappers
    ExtendibleValueStoreRef e = r.chance(1, 2) ? root : ExtendibleValueStoreRef(std::make_shared<VerboseExtendibleValueStore>(root.getValueStoreSharedPtr(), log));
    std::string at;
    for (int d = r.below(3); d > 0; --d) { std::string k = r.pick(segs); e = e.getExtendibleChild(k); at = joined(at, k); }
    if (r.chance(1, 4)) e = static_cast<ValueStoreRef&>(e).asExtendible();
    std::string p = path(r, 1, 2), full = joined(at, p);
    bool verbose = dynamic_cast<VerboseExtendibleValueStore*>(&e.getValueStore()) != nullptr;
    size_t l0 = logs;
    std::string text;
    bool ok = true;
    World w;
    w.stamp = step * 100;
    switch (r.below(4)) {
      case 0: { bool v = r.chance(1, 2); ok = e.addBool(p, v).get() == v && e.getBool(p).get() == v; text = t.getString("/" + full); ok = ok && Conv<bool>::same(text, v); break; }
      case 1: { int v = Conv<int>::make(r, w); ok = e.addInt(p, v).get() == v && e.getInt(p).get() == v; text = t.getString("/" + full); ok = ok && Conv<int>::same(text, v); break; }
      case 2: { double v = Conv<double>::make(r, w); ok = e.addDouble(p, v).get() == v && e.getDouble(p).get() == v; text = t.getString("/" + full); ok = ok && Conv<double>::same(text, v); break; }
      default: { std::string v = Conv<std::string>::make(r, w); ok = e.addString(p, v).get() == v && e.getString(p).get() == v; text = t.getString("/" + full); ok = ok && text == v; }
    }
    VM_CHECK(ok, "add", "a value added as \"" << p << "\" under \"" << at << "\" reads back as \"" << text << "\"");
    if (verbose) VM_CHECK(logs == l0 + 2 && last.find(p) != std::string::npos, "verbose-log", "adding and reading through a logging store logged " << logs - l0 << " lines, the last: " << last);
    model.put(full, text);
    auto now = read(t);
    VM_CHECK(now == model.values, "add", "after adding \"" << full << "\" the tree is" << dump(now) << ", expected" << dump(model.values));
    VM_CHECK(root.hasKey(full) && !root.isEmpty() && e.isExtendible() && e.hasKey(p), "add", "\"" << full << "\" was added and is not there");
    std::set<std::string> kids, kw;
    ExtendibleValueStoreRef lister = r.chance(1, 2) ? root : ExtendibleValueStoreRef(std::make_shared<VerboseExtendibleValueStore>(root.getValueStoreSharedPtr(), log));
    for (auto& k : lister.getExtendibleChildren()) {
      kids.insert(k.getKey());
      VM_CHECK(k.isExtendible() && k.hasKey("") && model.values.count(k.getKey()) && k.getString("").get() == model.values[k.getKey()], "children/value", "the child \"" << k.getKey() << "\"");
      std::set<std::string> below, bw;
      for (auto& c : k.getExtendibleChildren()) { below.insert(c.getKey()); VM_CHECK(c.getString("").get() == t.getString("/" + joined(k.getKey(), c.getKey())), "children/value", "the child \"" << c.getKey() << "\" of \"" << k.getKey() << "\""); }
      for (auto& c : model.kids(k.getKey())) bw.insert(c);
      VM_CHECK(below == bw, "children", "getExtendibleChildren of \"" << k.getKey() << "\" lists " << below.size() << " children, expected " << bw.size());
    }
    for (auto& k : model.kids("")) kw.insert(k);
    VM_CHECK(kids == kw, "children", "getExtendibleChildren lists " << kids.size() << " children, expected " << kw.size());
    vm::event("value-added");
    vm::nontrivial(vm::combine(vm::hashStr(full), vm::hashStr(text)));
  }
  // saving
  VM_CHECK(root.canSave(), "save", "a store on a Boost property tree cannot be saved");
  std::string f = vm::scratch() + "/store.json";
  bool printable = true;
  for (auto& v : model.values) for (auto& o : model.values) if (o.first.size() > v.first.size() && o.first.compare(0, v.first.size(), v.first) == 0 && !v.second.empty() && (v.first.empty() || o.first[v.first.size()] == '/')) printable = false;
  if (printable) {
    root.saveTo(f);
    ValueStoreRef back = r.chance(1, 2) ? ValueStoreRef::fromFile(f) : ExtendibleValueStoreRef::fromFile(f);
    for (auto& v : model.values) VM_CHECK(back.hasKey(v.first) && back.getString(v.first).get() == v.second, "save", "\"" << v.first << "\" saved as \"" << v.second << "\" is " << (back.hasKey(v.first) ? "\"" + back.getString(v.first).get() + "\"" : std::string("missing")));
    vm::event("saved");
  }
}
// The other views: as a property tree, through a logging wrapper.
void views(vm::Rng& r, uint64_t) {
  World w;
  Store s = build(r, w, r.range(0, 3), LAYERS | PREFIX | CHILD);
  ValueStoreRef ref(s.vs);
  sm::ConstPropertyTree t = ref.asPropertyTree();
  size_t logs = 0;
  std::string last;
  auto verbose = std::make_shared<VerboseValueStore>(s.vs, [&](const std::string& x) { ++logs; last = x; });
  VM_CHECK(verbose->isChildSupported() == s.vs->isChildSupported(), "verbose-differs", "isChildSupported of a logging " << s.desc);
  VM_CHECK(verbose->getUnderlyingValueStore() == s.vs, "verbose-differs", "getUnderlyingValueStore of a logging " << s.desc);
  for (auto& p : candidates(r, s, 8)) {
    Expect e = look(s.m, p);
    // as a property tree, from the root or from a namespace
    std::string k = p;
    sm::ConstPropertyTree at = t;
    size_t sl = p.find('/');
    if (sl != std::string::npos && r.chance(1, 2)) { at = t.getChild(p.substr(0, sl)); k = p.substr(sl + 1); }
    if (r.chance(1, 4)) { at = t; k = "/" + p; }
    VM_CHECK(at.doesKeyExist(k) == e.present, "as-property-tree", "doesKeyExist(\"" << k << "\") of " << s.desc << " as a property tree is " << !e.present);
    auto one = [&](auto get, auto parse, auto def, auto getDef, const char* type) {
      decltype(def) x = def, want = def;
      bool threw = false, parses = e.present && parse(e.text, want);
      try { x = get(); } catch (const std::exception&) { threw = true; }
      if (!e.present || parses) VM_CHECK(threw == !e.present && (threw || x == want), "as-property-tree", type << " \"" << k << "\" of " << s.desc << " as a property tree" << (threw ? " threw" : " gave " + vm::str(x)));
      if (e.present && !parses) return;
      Route route = s.m(p);
      threw = false;
      try { x = getDef(def); } catch (const std::exception&) { threw = true; }
      VM_CHECK(!threw && x == (e.present ? want : def), "as-property-tree", type << " \"" << k << "\" of " << s.desc << " as a property tree, with a default," << (threw ? " threw" : " gave " + vm::str(x)));
      std::string none;
      checkSources(w, "reading " + p + " with a default as a property tree", e.present ? nullptr : &route, &none);
    };
    switch (r.below(4)) {
      case 0: one([&] { return at.getInt(k); }, asInt, (int)r.range(100, 200), [&](int d) { return at.getInt(k, d); }, "int"); break;
      case 1: one([&] { return at.getDouble(k); }, asDouble, r.range(100, 200) + .5, [&](double d) { return at.getDouble(k, d); }, "double"); break;
      case 2: if (e.present && undecided(e.text)) break; one([&] { return at.getBool(k); }, asBool, r.chance(1, 2), [&](bool d) { return at.getBool(k, d); }, "bool"); break;
      default: one([&] { return at.getString(k); }, [](const std::string& x, std::string& v) { v = x; return true; }, std::string("def"), [&](const std::string& d) { return at.getString(k, d); }, "string");
    }
    vm::event("property-tree-view-read");
    // a logging wrapper
    e = look(s.m, p);
    Store v{verbose, s.m, s.keys, s.listable, "logging " + s.desc};
    size_t l0 = logs;
    bool has = verbose->hasKey(p);
    VM_CHECK(has == e.present && logs == l0 + 1 && last.find("\"" + p + "\"") != std::string::npos, "verbose-differs", "hasKey(\"" << p << "\") of a " << v.desc << " is " << has << ", logged " << logs - l0 << ": " << last);
    l0 = logs;
    checkPath(r, w, v, p, true);
    vm::event("verbose-read");
  }
  if (s.vs->isChildSupported() && s.listable) {
    { Store v{verbose, s.m, s.keys, s.listable, "logging " + s.desc}; checkChildren(r, w, v); }
    {
      auto ks = s.keys(); std::string p = ks.empty() ? "x" : r.pick(std::vector<std::string>(ks.begin(), ks.end())), k = p.substr(0, p.find('/'));
      size_t l0 = logs;
      auto c = verbose->getChild(k);
      VM_CHECK(logs == l0 + 1 && last.find(k) != std::string::npos, "verbose-log", "getChild(\"" << k << "\") of a logging " << s.desc << " logged " << logs - l0 << " lines, the last: " << last);
      c.hasKey("some/thing");
      VM_CHECK(logs == l0 + 2 && last.find(k) != std::string::npos && last.find("some/thing") != std::string::npos, "verbose-log", "hasKey of the child \"" << k << "\" of a logging " << s.desc << " logged " << logs - l0 - 1 << " lines, the last: " << last);
      vm::event("verbose-child");
    }
  }
  VM_CHECK(ref.isExtendible() == s.vs->isExtendible() , "views", "isExtendible");
  if (!ref.isExtendible()) { bool threw = false; try { ref.asExtendible(); } catch (const std::exception&) { threw = true; } VM_CHECK(threw, "views", s.desc << " is not extendible and asExtendible returned"); }
  if (!ref.canSave()) { bool threw = false; try { ref.saveTo(vm::scratch() + "/x.json"); } catch (const std::exception&) { threw = true; } VM_CHECK(threw, "views", s.desc << " cannot be saved and saveTo returned"); }
  vm::nontrivial(vm::hashStr(s.desc));
}
void alternatives(vm::Rng& r, uint64_t) {
  World w;
  Store s = build(r, w, r.range(0, 2), LAYERS | PREFIX);
  ValueStoreRef ref(s.vs);
  std::vector<std::string> list{path(r, 1, 2)};
  std::vector<std::pair<std::string, std::string>> tried{{list[0], ""}};
  auto cs = candidates(r, s, 6);
  bool trailing = false;
  for (auto& c : cs) {
    if (c.empty() || !r.chance(2, 3)) continue;
    if (r.chance(1, 2)) { list.push_back(c); tried.push_back({c, ""}); continue; }
    list.push_back("!" + c);
    std::string arg = r.chance(1, 3) ? r.pick(cs) : r.chance(1, 3) ? "!" + r.pick(cs) : "do not use " + c;   // the argument is never a path
    if (&c == &cs.back() && r.chance(1, 3)) { trailing = true; tried.push_back({c, "\x01"}); break; }   // the argument left out
    list.push_back(arg);
    tried.push_back({c, arg.empty() ? "\x02" : arg});
  }
  std::string def = "default-value", all;
  for (auto& l : list) all += " " + l;
  const std::pair<std::string, std::string>* hit = nullptr;
  for (auto& t : tried) if (look(s.m, t.first).present) { hit = &t; break; }
  int alerts = 0;
  std::string ap, aa;
  auto handler = [&](std::string p, std::string a) { ++alerts; ap = p; aa = a; };
  std::string got;
  bool threw = false, withDefault = r.chance(1, 2);
  Route route = s.m(list[0]);
  try { got = withDefault ? ref.get<std::string>(list, def, handler).get() : ref.get<std::string>(list, boost::optional<std::string>(), handler).get(); } catch (const std::exception&) { threw = true; }
  if (hit) {
    std::string want = look(s.m, hit->first).text;
    VM_CHECK(!threw && got == want, "alternatives", "get of" << all << " in " << s.desc << (threw ? " threw" : " gave \"" + got + "\"") << ", expected that of \"" << hit->first << "\": \"" << want << "\"");
    bool alert = !hit->second.empty();
    VM_CHECK(alerts == (alert ? 1 : 0), "alert", "get of" << all << " gave " << alerts << " alerts, \"" << hit->first << "\" was used");
    if (alert && alerts) VM_CHECK(ap == hit->first && (hit->second == "\x01" ? !aa.empty() : hit->second == "\x02" ? aa.empty() : aa == hit->second), "alert", "the alert was (\"" << ap << "\", \"" << aa << "\"), expected (\"" << hit->first << "\", \"" << hit->second << "\")");
    vm::event(alert ? "alternative-with-alert" : "alternative");
  } else {
    VM_CHECK(threw == !withDefault && alerts == 0, "alternatives", "get of" << all << " in " << s.desc << ", none of which exists," << (threw ? " threw" : " gave \"" + got + "\"") << " and " << alerts << " alerts");
    if (withDefault && !threw) VM_CHECK(got == def, "alternatives", "get of" << all << " gave \"" << got << "\" instead of the default");
    vm::event("no-alternative");
  }
  std::string none;
  checkSources(w, "get of" + all, hit ? nullptr : &route, &none);
  vm::nontrivial(vm::hashStr(all));
  (void)trailing;
}
void basics(vm::Rng&, uint64_t) {
  bool threw = false;
  try { ValueStoreRef x{ValueStore::SharedPtr()}; } catch (const std::exception&) { threw = true; }
  VM_CHECK(threw, "null-store", "a reference to no store was accepted");
  ValueStoreRef a, b;
  VM_CHECK(a.isEmpty() && !a.hasKey("x") && a.isExtendible(), "fresh-store", "a fresh store is not empty");
  a.asExtendible().addInt("x", 3);
  VM_CHECK(a.getInt("x").get() == 3 && !b.hasKey("x"), "fresh-store", "two fresh stores share their values");
  ValueStoreRef s = ValueStoreRef::fromString("a=1,b{c=2,d{e=x}}");
  VM_CHECK(s.getInt("a").get() == 1 && s.getInt("b/c").get() == 2 && s.getChild("b").getChild("d").getString("e").get() == "x", "from-string", "fromString");
  {
    sm::BoostPropertyTree t; t.setInt("k", 5);
    PropertyTreeValueStore onStack(t);
    ValueStoreRef r1(static_cast<ValueStore&>(onStack));
    ExtendibleValueStoreRef r2(static_cast<ExtendibleValueStore&>(onStack));
    ValueStoreRef r3(new PropertyTreeValueStore(t));
    VM_CHECK(r1.getInt("k").get() == 5 && r2.getInt("k").get() == 5 && r3.getInt("k").get() == 5, "references", "references to one store differ");
    r2.addInt("k", 6);
    VM_CHECK(r1.getInt("k").get() == 6 && r3.getInt("k").get() == 6 && t.getInt("k") == 6, "references", "references to one store differ after a change");
  }
}
// Large compositions: the cost may grow, the answers may not change.
void scaleLayers(vm::Rng& r, uint64_t) {
  const int n = r.pickl<int>({2, 17, 64, 129, 300, 600});
  auto layered = std::make_shared<LayeredValueStore>();
  ValueStoreRef ref(layered), *lv = &ref;
  std::map<std::string, std::string> want;   // the first layer that has the key
  for (int i = 0; i < n; ++i) {
    sm::BoostPropertyTree t;
    std::set<std::string> here;
    for (int k = r.range(1, 3); k > 0; --k) {
      std::string key = r.chance(1, 2) ? "k" + std::to_string(r.below(2 * n)) : "d" + std::to_string(r.below(5)) + "/k" + std::to_string(r.below(n));
      if (!here.insert(key).second) continue;
      std::string v = std::to_string(i) + "." + key;
      t.setString(key, v);
      want.insert({key, v});
    }
    t.setString("all", std::to_string(i));
    if (i == n - 1) { t.setString("last", "only here"); want["last"] = "only here"; }
    layered->add(std::make_shared<PropertyTreeValueStore>(t));
  }
  want["all"] = "0";
  for (auto& w : want) VM_CHECK(lv->hasKey(w.first) && lv->getString(w.first).get() == w.second, "value", n << " layers: \"" << w.first << "\" is " << (lv->hasKey(w.first) ? "\"" + lv->getString(w.first).get() + "\"" : std::string("missing")) << ", expected \"" << w.second << "\"");
  VM_CHECK(!lv->hasKey("none") && lv->getInt("none", 5).get() == 5, "has-key", n << " layers have a key none of them has");
  std::set<std::string> top, got;
  for (auto& w : want) top.insert(w.first.substr(0, w.first.find('/')));
  for (auto& c : lv->getChildren()) VM_CHECK(got.insert(c.getKey()).second, "children-twice", n << " layers list \"" << c.getKey() << "\" twice");
  got.erase("none");
  VM_CHECK(got == top, "children", n << " layers list " << got.size() << " children, expected " << top.size());
  for (int d = 0; d < 5; ++d) {
    std::string dir = "d" + std::to_string(d);
    if (!lv->hasKey(dir)) continue;
    ValueStoreRef c = lv->getChild(dir);
    for (auto& w : want) if (w.first.compare(0, dir.size() + 1, dir + "/") == 0) VM_CHECK(c.getString(w.first.substr(dir.size() + 1)).get() == w.second, "value", "the child " << dir << " of " << n << " layers at \"" << w.first << "\"");
  }
  vm::event("many-layers");
  vm::nontrivial(vm::combine(n, r.next()));
}
void scalePrefixes(vm::Rng& r, uint64_t i) {
  const int n = r.pickl<int>({3, 20, 65, 130, 260});
  sm::BoostPropertyTree t;
  std::vector<std::string> seg;
  std::string full;
  for (int k = 0; k < n; ++k) { seg.push_back(r.pick(segs) + (r.chance(1, 10) ? std::string(r.pickl<int>({100, 255, 300}), 'x') : "")); full = joined(full, seg.back()); }
  t.setString(full, "deep");
  StorePtr s = std::make_shared<PropertyTreeValueStore>(t);
  // prefixes put on one by one, each of one or more segments, then taken off again one by one
  StorePtr in = s;
  int k = 0;
  std::vector<std::string> used;
  int stop = r.range(1, n - 1);
  while (k < stop) {
    std::string pre;
    for (int m = std::min<int>(stop - k, r.chance(1, 3) ? r.range(1, 30) : 1); m > 0; --m) pre = joined(pre, seg[k++]);
    used.push_back(pre);
    if (r.chance(1, 2)) in = std::make_shared<PrefixedValueStore>(in, PrefixedValueStore::PrefixMode::ADD, pre);
    else in = ValueStoreRef(in).getChild(pre).getValueStoreSharedPtr();
  }
  std::string rest;
  for (int j = k; j < n; ++j) rest = joined(rest, seg[j]);
  VM_CHECK(in->hasKey(rest) && ValueStoreRef(in).getString(rest).get() == "deep" && !in->hasKey(rest + "/x") && !in->hasKey("zz/" + rest), "value", used.size() << " nested prefixes do not reach the key below " << n << " segments");
  for (size_t j = used.size(); j-- > 0;) in = std::make_shared<PrefixedValueStore>(in, PrefixedValueStore::PrefixMode::REMOVE, used[j]);
  VM_CHECK(in->hasKey(full) && ValueStoreRef(in).getString(full).get() == "deep" && !in->hasKey(rest + "/y") && ValueStoreRef(in).getInt("zz", 4).get() == 4, "value", used.size() << " prefixes put on and taken off do not give the store back");
  if (i % 8 == 0) {
    std::string key(r.pickl<int>({255, 256, 4097, 70000}), 'k');
    sm::BoostPropertyTree u; u.setString(key + "/v", "1"); u.setString("v", "2");
    StorePtr us = std::make_shared<PropertyTreeValueStore>(u);
    ValueStoreRef a(std::make_shared<PrefixedValueStore>(us, PrefixedValueStore::PrefixMode::ADD, key)), b(std::make_shared<PrefixedValueStore>(us, PrefixedValueStore::PrefixMode::REMOVE, key));
    VM_CHECK(a.getInt("v").get() == 1 && !a.hasKey(key + "/v") && b.getInt(key + "/v").get() == 2 && !b.hasKey("v"), "value", "a prefix of " << key.size() << " characters");
  }
  vm::event("deep-prefixes");
  vm::nontrivial(vm::combine(n, vm::combine(used.size(), r.next())));
}
void scaleHandles(vm::Rng& r, uint64_t) {
  const int n = r.pickl<int>({100, 1000, 5000});
  sm::BoostPropertyTree t;
  PropertyTreeValueStore s(t);
  ExtendibleValueStoreRef e(static_cast<ExtendibleValueStore&>(s));
  std::vector<ValueHandle<int>> hs;
  std::vector<std::string> key;
  for (int i = 0; i < n; ++i) {
    key.push_back((i % 3 ? "g" + std::to_string(i % 50) + "/" : std::string()) + "k" + std::to_string(i));
    e.addInt(key[i], i);
    hs.push_back(e.getInt(key[i]));
  }
  std::vector<int> val(n);
  for (int i = 0; i < n; ++i) val[i] = i;
  for (int i = 0; i < n; ++i) { int j = r.below(n); val[j] = -i - 1; if (r.chance(1, 2)) hs[j].update(val[j]); else t.setInt(key[j], val[j]); }
  int bad = 0;
  for (int i = 0; i < n; ++i) if (hs[i].get() != val[i] || t.getInt(key[i]) != val[i] || e.getInt(key[i]).get() != val[i]) ++bad;
  VM_CHECK(bad == 0, "handle-value", bad << " of " << n << " handles of one store give another value");
  std::set<std::string> top, got;
  for (auto& k : key) top.insert(k.substr(0, k.find('/')));
  for (auto& c : e.getExtendibleChildren()) VM_CHECK(got.insert(c.getKey()).second, "children-twice", "\"" << c.getKey() << "\" is listed twice");
  VM_CHECK(got == top, "children", n << " values: " << got.size() << " children, expected " << top.size());
  std::string f = vm::scratch() + "/many.json";
  e.saveTo(f);
  ValueStoreRef back = ValueStoreRef::fromFile(f);
  bad = 0;
  for (int i = 0; i < n; ++i) if (!back.hasKey(key[i]) || back.getInt(key[i]).get() != val[i]) ++bad;
  VM_CHECK(bad == 0, "save", bad << " of " << n << " saved values are missing or different");
  vm::event("many-handles");
  vm::nontrivial(vm::combine(n, r.next()));
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  std::string mode;
  for (int i = 1; i < argc; ++i) { std::string s = argv[i]; if (s == "layers" || s == "prefixes" || s == "handles") mode = s; }
  if (mode == "layers") {
    vm::setRule("a distinct case is a composition of stores with the keys in them");
    vm::run("layers", 6000, layers, 30);
    vm::run("no-layers", 1, noLayers, 1);
    vm::run("scale", 6, scaleLayers, 1);
  } else if (mode == "prefixes") {
    vm::setRule("a distinct case is a composition of stores with the keys in them");
    vm::run("prefixes", 14000, prefixes, 30);
    vm::run("scale", 24, scalePrefixes, 4);
  } else {
    vm::setRule("a distinct case is a composition of stores with the handles, additions, views or alternative paths used on it");
    vm::run("handles", 4000, handles, 30);
    vm::run("extending", 1500, extending, 30);
    vm::run("views", 3000, views, 30);
    vm::run("alternatives", 5000, alternatives, 30);
    vm::run("basics", 1, basics, 1);
    vm::run("scale", 2, scaleHandles, 1);
  }
  return vm::finish();
}
