// sm_property_tree. Modes: "tree" (P01), "files" (P02), "loader" (P03).
#include "vm.hpp"
#include "faultfile.hpp"
#include "writefault.hpp"
#include <functional>
#include <iostream>
#include <boost/filesystem.hpp>
#include <boost/property_tree/ptree.hpp>
#include <sm/BoostPropertyTree.hpp>
#include <sm/BoostPropertyTreeLoader.hpp>
#include <sm/BoostPropertyTreeSupport.hpp>
#include <unistd.h>

namespace {
using sm::BoostPropertyTree;
using sm::ConstPropertyTree;
using sm::PropertyTree;
typedef boost::property_tree::ptree ptree;
typedef std::vector<std::string> Path;

std::string tmp(const std::string& n) { return vm::scratch() + "/" + n; }

// The monitor's own tree.
struct Node {
  std::string data;
  std::vector<std::pair<std::string, Node>> kids;
  Node* find(const std::string& k) { for (auto& c : kids) if (c.first == k) return &c.second; return nullptr; }
  const Node* find(const std::string& k) const { return const_cast<Node*>(this)->find(k); }
  Node& make(const std::string& k) { if (Node* n = find(k)) return *n; kids.push_back({k, Node()}); return kids.back().second; }
  Node* at(const Path& p) { Node* n = this; for (auto& k : p) if (n && !(n = n->find(k))) return nullptr; return n; }
  Node& put(const Path& p) { Node* n = this; for (auto& k : p) n = &n->make(k); return *n; }
  size_t count() const { size_t c = 1; for (auto& k : kids) c += k.second.count(); return c; }
};
uint64_t hashOf(const Node& n) {
  uint64_t h = vm::hashStr(n.data);
  for (auto& k : n.kids) h = vm::combine(vm::combine(h, vm::hashStr(k.first)), hashOf(k.second));
  return h;
}
std::string diff(const Node& want, const ptree& got, const std::string& where, const std::set<std::string>& ignore = {}) {
  if (want.data != got.data()) return "\"" + vm::esc(where) + "\" should be \"" + vm::esc(want.data) + "\" and is \"" + vm::esc(got.data()) + "\"";
  std::set<std::string> seen;
  for (auto& g : got) {
    if (ignore.count(g.first)) continue;
    if (!seen.insert(g.first).second) return "\"" + vm::esc(where) + "\" has two children \"" + vm::esc(g.first) + "\"";
    const Node* w = want.find(g.first);
    if (!w) return "\"" + vm::esc(where + "/" + g.first) + "\" should not exist";
    std::string d = diff(*w, g.second, where + "/" + g.first, ignore);
    if (!d.empty()) return d;
  }
  for (auto& w : want.kids) if (!ignore.count(w.first) && !seen.count(w.first)) return "\"" + vm::esc(where + "/" + w.first) + "\" is missing";
  return "";
}
ptree toPtree(const BoostPropertyTree& t) {
  ptree p;
  for (auto& c : t) p.push_back(c);
  p.data() = t.getString("/");
  return p;
}
std::string diff(const Node& want, const BoostPropertyTree& t, const std::set<std::string>& ignore = {}) {
  vm::event("trees-compared");
  return diff(want, toPtree(t), "", ignore);
}
void fill(const Node& n, ptree& p) {
  p.data() = n.data;
  for (auto& k : n.kids) { ptree c; fill(k.second, c); p.push_back({k.first, c}); }
}
BoostPropertyTree toTree(const Node& n) { ptree p; fill(n, p); return BoostPropertyTree(p); }

// ------------------------------------------------------------ P01
std::string seg(vm::Rng& r) {
  static const std::vector<std::string> pool = {"a", "b", "ab", "a.b", "x.y.z", "c", " ", "key with space", ".", "..", "\xc3\xa4", "A", "0", "#", "!a"};
  return r.pick(pool);
}
Path somePath(vm::Rng& r, int maxLen) {
  Path p;
  for (int n = r.below(maxLen + 1); n > 0; --n) p.push_back(seg(r));
  return p;
}
std::string join(const Path& p) { std::string s; for (auto& k : p) s += (s.empty() ? "" : "/") + k; return s; }

bool wellFormedInt(const std::string& s, bool& value_ok, int& v) {
  size_t a = 0, b = s.size();
  auto ws = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
  while (a < b && ws(s[a])) ++a;
  while (b > a && ws(s[b - 1])) --b;
  std::string t = s.substr(a, b - a);
  size_t i = (t.size() && (t[0] == '+' || t[0] == '-')) ? 1 : 0;
  if (i == t.size()) return false;
  for (size_t k = i; k < t.size(); ++k) if (t[k] < '0' || t[k] > '9') return false;
  long double x = std::strtold(t.c_str(), nullptr);
  value_ok = x >= -2147483648.0L && x <= 2147483647.0L;
  v = value_ok ? (int)x : 0;
  return true;
}
bool wellFormedDouble(const std::string& s, bool& value_ok, double& v) {
  size_t a = 0, b = s.size();
  auto ws = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
  while (a < b && ws(s[a])) ++a;
  while (b > a && ws(s[b - 1])) --b;
  std::string t = s.substr(a, b - a);
  size_t i = 0, digits = 0;
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
  while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i, ++digits;
  if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i, ++digits; }
  if (!digits) return false;
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
    ++i;
    if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
    size_t e = i;
    while (i < t.size() && t[i] >= '0' && t[i] <= '9') ++i;
    if (e == i) return false;
  }
  if (i != t.size()) return false;
  v = std::strtod(t.c_str(), nullptr);
  value_ok = std::isfinite(v);
  return true;
}
// 1: parses, 0: does not parse, -1: not decided here
int parseBool(const std::string& s, bool& v) {
  if (s == "1" || s == "true" || s == " true" || s == "1 ") { v = true; return 1; }
  if (s == "0" || s == "false" || s == "\nfalse") { v = false; return 1; }
  int i; bool ok;
  if (wellFormedInt(s, ok, i)) return -1;
  for (const char* p : {"true", "false"}) if (s.find(p) != std::string::npos) return -1;
  double d;
  if (wellFormedDouble(s, ok, d)) return -1;
  return 0;
}
std::string text(vm::Rng& r) {
  static const std::vector<std::string> pool = {"", " ", "0", "1", "7", "-3", "+5", "007", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999",
    "1.5", ".5", "5.", "-0.0", "1e3", "1e-300", "1e400", "1e", "e5", "true", "false", "True", "yes", " true", "\nfalse", "1 ", "  12  ", "7x", "x7", "1 2", "--1", "-", "+", ".", "nan", "inf",
    "0x10", "abc", "a/b", "a.b", "line\nbreak", "\xc3\xa4", "2.2250738585072014e-308", "1,5"};
  if (r.chance(1, 3)) { std::string s; for (int n = r.below(20); n > 0; --n) s += (char)r.below(256); return s; }
  return r.pick(pool);
}

enum Outcome { VALUE, MISSING, UNPARSABLE, OTHER };
template <class F> Outcome outcome(F f, std::string& what) {
  try { f(); return VALUE; }
  catch (const ConstPropertyTree::InvalidKeyException& e) { what = e.what(); return MISSING; }
  catch (const ConstPropertyTree::KeyNotFoundException& e) { what = e.what(); return MISSING; }
  catch (const ConstPropertyTree::InvalidValueException& e) { what = e.what(); return UNPARSABLE; }
  catch (const std::exception& e) { what = e.what(); return OTHER; }
}
const char* name(Outcome o) { return o == VALUE ? "a value" : o == MISSING ? "a missing key error" : o == UNPARSABLE ? "an invalid value error" : "another exception"; }

struct View {
  PropertyTree t;
  Path ns;
};
// a spelling of `target` as seen from a view in namespace ns
std::string spell(vm::Rng& r, const Path& ns, const Path& target) {
  bool below = target.size() >= ns.size() && std::equal(ns.begin(), ns.end(), target.begin());
  std::string s;
  if (below && r.chance(2, 3)) s = join(Path(target.begin() + ns.size(), target.end()));
  else s = "/" + join(target);
  if (s.size() > 1 && r.chance(1, 6)) s += "/";
  return s;
}
void checkKey(vm::Rng& r, View& v, Node& model, const Path& p) {
  std::string k = spell(r, v.ns, p);
  const ConstPropertyTree& c = v.t;
  Node* n = model.at(p);
  std::string w, at = "\"" + vm::esc(k) + "\" in namespace \"" + vm::esc(join(v.ns)) + "\"" + (n ? " holding \"" + vm::esc(n->data) + "\"" : " (missing)");
  VM_CHECK(c.doesKeyExist(k) == (n != nullptr), "existence", "doesKeyExist of " << at << " is " << c.doesKeyExist(k));
  std::string s;
  Outcome o = outcome([&] { s = c.getString(k); }, w);
  VM_CHECK(o == (n ? VALUE : MISSING), "string-outcome", "getString of " << at << " gave " << name(o) << " " << w);
  if (o == VALUE && n) VM_CHECK(s == n->data, "string-value", "getString of " << at << " gave \"" << vm::esc(s) << "\"");
  double d = 0, dw = 0; int i = 0, iw = 0; bool b = false, bw = false, ok = false;
  o = outcome([&] { d = c.getDouble(k); }, w);
  bool wf = n && wellFormedDouble(n->data, ok, dw);
  Outcome want = !n ? MISSING : wf && ok ? VALUE : UNPARSABLE;
  VM_CHECK(o == want, "double-outcome", "getDouble of " << at << " gave " << name(o) << ", expected " << name(want) << " " << w);
  if (o == VALUE && want == VALUE) VM_CHECK(vm::bits(d) == vm::bits(dw), "double-value", "getDouble of " << at << " gave " << d);
  o = outcome([&] { i = c.getInt(k); }, w);
  wf = n && wellFormedInt(n->data, ok, iw);
  want = !n ? MISSING : wf && ok ? VALUE : UNPARSABLE;
  VM_CHECK(o == want, "int-outcome", "getInt of " << at << " gave " << name(o) << ", expected " << name(want) << " " << w);
  if (o == VALUE && want == VALUE) VM_CHECK(i == iw, "int-value", "getInt of " << at << " gave " << i);
  o = outcome([&] { b = c.getBool(k); }, w);
  int pb = n ? parseBool(n->data, bw) : 0;
  want = !n ? MISSING : pb == 1 ? VALUE : UNPARSABLE;
  if (pb >= 0) {
    VM_CHECK(o == want, "bool-outcome", "getBool of " << at << " gave " << name(o) << ", expected " << name(want) << " " << w);
    if (o == VALUE && want == VALUE) VM_CHECK(b == bw, "bool-value", "getBool of " << at << " gave " << b);
  }
  vm::event(n ? "key-read" : "missing-key-read");
}
void checkChildren(vm::Rng& r, View& v, Node& model) {
  Node* n = model.at(v.ns);
  if (!n) { vm::event("children-of-missing"); try { auto c = v.t.getChildren(); VM_CHECK(c.empty(), "children-of-missing", "getChildren of a namespace that does not exist lists " << c.size()); } catch (const std::exception&) {} return; }
  vm::event("children-listed");
  std::string at = "namespace \"" + vm::esc(join(v.ns)) + "\"";
  std::multiset<std::string> want, got;
  for (auto& k : n->kids) want.insert(k.first);
  const ConstPropertyTree& c = v.t;
  std::string w;
  std::vector<sm::KeyPropertyTreePair> kids;
  Outcome o = outcome([&] { kids = v.t.getChildren(); }, w);
  VM_CHECK(o == VALUE, "children", "getChildren of " << at << " threw " << w);
  if (o != VALUE) return;
  for (auto& k : kids) {
    got.insert(k.key);
    if (Node* m = n->find(k.key)) {
      std::string s = k.pt.getString("");
      VM_CHECK(s == m->data, "child-value", "child \"" << vm::esc(k.key) << "\" of " << at << " holds \"" << vm::esc(s) << "\"");
      for (auto& g : m->kids) {
        std::string q;
        Outcome oo = outcome([&] { q = k.pt.getString(g.first); }, w);
        VM_CHECK(oo == VALUE && q == g.second.data, "child-value", "grandchild \"" << vm::esc(k.key + "/" + g.first) << "\" of " << at << " gave " << name(oo) << " \"" << vm::esc(q) << "\"");
      }
    }
  }
  VM_CHECK(got == want, "children", "getChildren of " << at << " lists " << got.size() << " children, expected " << want.size());
  size_t cn = c.getChildren().size();
  VM_CHECK(cn == kids.size(), "children", "getChildren of a const view of " << at << " lists " << cn);
  (void)r;
}
void history(vm::Rng& r, uint64_t idx) {
  Path base = r.chance(1, 2) ? Path() : somePath(r, 2);
  std::string baseText = join(base);
  if (!baseText.empty() && r.chance(1, 3)) baseText = "/" + baseText;
  if (!baseText.empty() && r.chance(1, 3)) baseText += "/";
  BoostPropertyTree root(baseText);
  Node model;
  std::vector<View> views{{root, base}};
  std::vector<Path> known;
  uint64_t h = idx;
  std::string trace;
  for (int step = r.range(8, 60); step > 0; --step) {
    View& v = views[r.below(views.size())];
    Path p = !known.empty() && r.chance(1, 2) ? r.pick(known) : somePath(r, 4);
    std::string k = spell(r, v.ns, p);
    int op = r.below(12);
    h = vm::combine(vm::combine(h, op), vm::hashStr(k));
    if (trace.size() < 300) trace += std::to_string(op) + ":" + vm::esc(k) + " ";
    std::string w;
    auto after = [&](const std::string& key) {  // the text the tree now holds
      std::string s;
      Outcome o = outcome([&] { s = views[0].t.getString("/" + join(p)); }, w);
      VM_CHECK(o == VALUE, "set-then-missing", key << " of \"" << vm::esc(k) << "\" did not make the key readable: " << name(o));
      return s;
    };
    switch (op) {
      case 0: { double x = r.anyDouble(true); v.t.setDouble(k, x); std::string s = after("setDouble"); bool ok = false; double y = 0;
        VM_CHECK(wellFormedDouble(s, ok, y) && vm::bits(x) == vm::bits(y), "set-double", "setDouble(" << x << ") stored \"" << vm::esc(s) << "\""); model.put(p).data = s; known.push_back(p); break; }
      case 1: { int x = r.pickl<int>({0, 1, -1, 2147483647, (int)0x80000000, (int)r.range(-1000, 1000)}); v.t.setInt(k, x); std::string s = after("setInt"); bool ok = false; int y = 0;
        VM_CHECK(wellFormedInt(s, ok, y) && ok && x == y, "set-int", "setInt(" << x << ") stored \"" << vm::esc(s) << "\""); model.put(p).data = s; known.push_back(p); break; }
      case 2: { bool x = r.chance(1, 2); v.t.setBool(k, x); std::string s = after("setBool"); bool y = !x;
        VM_CHECK(parseBool(s, y) == 1 && x == y, "set-bool", "setBool(" << x << ") stored \"" << vm::esc(s) << "\""); model.put(p).data = s; known.push_back(p); break; }
      case 3: case 4: { std::string s = text(r); v.t.setString(k, s); model.put(p).data = s; known.push_back(p); break; }
      case 5: {  // a new view
        Path ns = somePath(r, 3);
        std::string t = join(ns);
        bool abs = r.chance(1, 4);
        if (abs) t = "/" + t;
        if (!t.empty() && t.back() != '/' && r.chance(1, 3)) t += "/";
        Path full = abs ? Path() : v.ns;
        full.insert(full.end(), ns.begin(), ns.end());
        if (views.size() > 6) views.erase(views.begin() + 3, views.end());
        View& u = views[r.below(views.size())];
        Path f2 = abs ? ns : u.ns; if (!abs) f2.insert(f2.end(), ns.begin(), ns.end());
        PropertyTree nv = r.chance(1, 2) ? PropertyTree(u.t, t) : u.t.getChild(t);
        views.push_back({nv, f2});
        break;
      }
      case 6: case 7: case 8: case 9: {  // get with a default
        bool constant = r.chance(1, 2);
        Node* n = model.at(p);
        const ConstPropertyTree& c = v.t;
        std::string at = std::string(constant ? "const " : "") + "get of \"" + vm::esc(k) + "\"" + (n ? " holding \"" + vm::esc(n->data) + "\"" : " (missing)");
        bool parses = true, changed = false;
        std::string txt;
        Outcome o;
        bool gotDefault = false, right = true;
        if (op == 6) {
          double def = r.anyDouble(true), x = 0, e = 0; bool ok;
          o = outcome([&] { x = constant ? c.getDouble(k, def) : v.t.getDouble(k, def); }, w);
          parses = n && wellFormedDouble(n->data, ok, e) && ok;
          gotDefault = vm::bits(x) == vm::bits(def); right = vm::bits(x) == vm::bits(parses ? e : def);
        } else if (op == 7) {
          int def = r.range(-50, 50), x = 0, e = 0; bool ok;
          o = outcome([&] { x = constant ? c.getInt(k, def) : v.t.getInt(k, def); }, w);
          parses = n && wellFormedInt(n->data, ok, e) && ok;
          gotDefault = x == def; right = x == (parses ? e : def);
        } else if (op == 8) {
          bool def = r.chance(1, 2), x = !def, e = false;
          if (n && parseBool(n->data, e) < 0) break;
          o = outcome([&] { x = constant ? c.getBool(k, def) : v.t.getBool(k, def); }, w);
          parses = n && parseBool(n->data, e) == 1;
          gotDefault = x == def; right = x == (parses ? e : def);
        } else {
          std::string def = text(r), x;
          o = outcome([&] { x = constant ? c.getString(k, def) : v.t.getString(k, def); }, w);
          parses = n != nullptr;
          gotDefault = x == def; right = x == (parses ? n->data : def);
        }
        (void)gotDefault; (void)changed;
        vm::event(!n ? "default-used" : parses ? "default-unused" : "default-unparsable");
        // what happens to a value that is there but does not parse is left to the library: the default or an error
        if (o == VALUE) VM_CHECK(right, "default-value", at << " with a default returned neither the value nor the default");
        else VM_CHECK(n && !parses && o == UNPARSABLE, "default-outcome", at << " with a default gave " << name(o) << " " << w);
        Outcome eo = outcome([&] { txt = views[0].t.getString("/" + join(p)); }, w);
        if (n) VM_CHECK(eo == VALUE && txt == n->data, "get-changed-value", at << " with a default changed the stored value to \"" << vm::esc(txt) << "\"");
        else if (constant) VM_CHECK(eo == MISSING, "const-get-stored-default", at << " stored the default");
        else { VM_CHECK(eo == VALUE, "default-not-remembered", at << " did not remember the default"); model.put(p).data = txt; known.push_back(p);
          // read back with the type it was asked with
          Outcome ro = VALUE;
          if (op == 6) ro = outcome([&] { v.t.getDouble(k); }, w); else if (op == 7) ro = outcome([&] { v.t.getInt(k); }, w); else if (op == 8) ro = outcome([&] { v.t.getBool(k); }, w);
          VM_CHECK(ro == VALUE, "default-not-remembered", at << ": the remembered default cannot be read: " << name(ro)); }
        break;
      }
      case 10: checkChildren(r, v, model); break;
      default: break;
    }
    checkKey(r, views[r.below(views.size())], model, p);
    checkKey(r, views[r.below(views.size())], model, !known.empty() && r.chance(1, 2) ? r.pick(known) : somePath(r, 4));
  }
  for (auto& v : views) checkChildren(r, v, model);
  std::string d = diff(model, root);
  if (!d.empty()) vm::fail("tree-differs", "after the history: " + d);
  // every key, through every view
  std::function<void(const Node&, Path)> walk = [&](const Node& n, Path p) {
    for (auto& k : n.kids) { Path q = p; q.push_back(k.first); checkKey(r, views[r.below(views.size())], model, q); walk(k.second, q); }
  };
  Node copy = model;
  walk(copy, Path());
  vm::nontrivial(h);
  if (idx < 2) vm::sample(trace);
}
void nullImplementation(vm::Rng&, uint64_t) {
  PropertyTree t((boost::shared_ptr<sm::PropertyTreeImplementation>()));
  const ConstPropertyTree& c = t;
  int errors = 0;
  for (int i = 0; i < 18; ++i) {
    try {
      switch (i) {
        case 0: c.getDouble("a"); break; case 1: c.getInt("a", 1); break; case 2: t.getBool("a", true); break; case 3: c.getString("a"); break;
        case 4: t.setDouble("a", 1); break; case 5: t.setInt("a", 1); break; case 6: t.setBool("a", true); break; case 7: t.setString("a", "b"); break;
        case 8: c.doesKeyExist("a"); break;
        case 9: c.getDouble("a", 1.0); break; case 10: c.getInt("a"); break; case 11: c.getBool("a"); break; case 12: c.getBool("a", true); break; case 13: c.getString("a", "b"); break;
        case 14: t.getDouble("a", 1.0); break; case 15: t.getInt("a", 1); break; case 16: t.getString("a", "b"); break;
        default: t.doesKeyExist("a");
      }
    } catch (const ConstPropertyTree::Exception&) { ++errors; }
  }
  VM_CHECK(errors == 18, "null-implementation", "a property tree without implementation reported " << errors << " of 18 uses");
}

// ------------------------------------------------------------ P02
enum Fmt { XML, INI, INFO, JSON };
const char* ext[] = {"xml", "ini", "info", "json"};
std::string word(vm::Rng& r, const char* alphabet, int lo, int hi) {
  std::string s;
  size_t n = std::strlen(alphabet);
  for (int k = r.range(lo, hi); k > 0; --k) s += alphabet[r.below(n)];
  return s;
}
std::string keyFor(vm::Rng& r, Fmt f) {
  const char* first = "abcXYZ_";
  const char* rest = "abcXYZ_019.-";
  std::string s = word(r, first, 1, 1) + word(r, rest, 0, 6);
  if (f == JSON && r.chance(1, 4)) s += r.pickl<const char*>({" ", "\"", "\\", "\n", "/", "\xc3\xa4", "{", "\t", "\x01"});
  if (f == INFO && r.chance(1, 4)) s += r.pickl<const char*>({" ", "\"", "\\", "\n", "/", "\xc3\xa4", "{", "}", ";", "#", "\t"});
  if (f == INI && r.chance(1, 5)) s += r.pickl<const char*>({" x", "/", "\xc3\xa4", "\"", "#"});
  if (s == "parents") s += "0";
  return s;
}
std::string dataFor(vm::Rng& r, Fmt f) {
  switch (r.below(6)) {
    case 0: return "";
    case 1: return vm::str(r.anyDouble(true));
    case 2: return "y" + word(r, "abc 019", 0, 12) + "z";
    case 3: if (f == XML) return std::string(r.range(1, 3), ' '); return "plain";
    default: break;
  }
  std::string s;
  for (int k = r.range(1, 12); k > 0; --k) {
    switch (r.below(6)) {
      case 0: s += r.pickl<const char*>({"<", ">", "&", "\"", "'", "]]>", "<!--", "&amp;", "/", "\\", "{", "}", ";", "#", "=", "[", ","}); break;
      case 1: s += "\xc3\xa4"; break;
      case 2: if (f != INI) s += r.pickl<const char*>({"\n", "\t", "\r", "\n\n"}); break;
      case 3: s += " "; break;
      default: s += (char)r.range(33, 126);
    }
  }
  if (f == INI && !s.empty()) s = "v" + s + "w";   // the format trims values
  if (f == INFO && s.find_first_of("\n\r\\'\"") == 0) s = "v" + s;   // after a quoted key the format reads a leading escape as a continuation
  if (f == XML) s += "w";            // white space other than spaces is not kept on its own
  return s;
}
Node treeFor(vm::Rng& r, Fmt f, int depth) {
  Node n;
  int kids = depth == 0 ? r.range(0, 4) : (depth < (f == INI ? 2 : 4) ? r.below(4) : 0);
  if (depth > 0 && (kids == 0 || (f != INI && f != JSON && r.chance(1, 2)))) n.data = dataFor(r, f);
  for (int i = 0; i < kids; ++i) {
    std::string k = keyFor(r, f);
    if (n.find(k)) continue;
    n.kids.push_back({k, treeFor(r, f, depth + 1)});
  }
  if (f == INI && depth == 1 && !n.kids.empty()) n.data.clear();
  if (f == JSON && !n.kids.empty()) n.data.clear();
  return n;
}
void saveAs(const BoostPropertyTree& t, Fmt f, const std::string& p, vm::Rng& r) {
  switch (r.below(3)) {
    case 0: t.save(p); return;
    case 1: t.saveStr(p); return;
  }
  switch (f) { case XML: t.saveXml(p); break; case INI: t.saveIni(p); break; case INFO: t.saveInfo(p); break; case JSON: t.saveJson(p); }
}
void loadAs(BoostPropertyTree& t, Fmt f, const std::string& p, vm::Rng& r) {
  switch (r.below(3)) {
    case 0: t.load(p); return;
    case 1: t.loadStr(p); return;
  }
  switch (f) {
    case XML: if (r.chance(1, 2)) t.loadXml(p); else t.loadXmlFromString(vm::slurp(p)); break;
    case INI: t.loadIni(p); break; case INFO: t.loadInfo(p); break; case JSON: t.loadJson(p);
  }
}
void roundtrip(vm::Rng& r, uint64_t i) {
  Fmt f = (Fmt)(i % 4);
  Node n = treeFor(r, f, 0);
  BoostPropertyTree t = toTree(n);
  std::string p = tmp(std::string(r.pickl<const char*>({"rt.", "rt.v1.2.", "rt.json.", "rt.xml.", "rt.ini.", "r t..", "rt-xml."})) + ext[f]);  // only the last part of the name says the format
  saveAs(t, f, p, r);
  std::string d = diff(n, t);
  if (!d.empty()) vm::fail("save-changes-tree", std::string(ext[f]) + ": " + d);
  BoostPropertyTree u;
  if (r.chance(1, 2)) { u.setString("old", "value"); u.setString("old/nested", "x"); }
  try { loadAs(u, f, p, r); } catch (const std::exception& e) { vm::fail(std::string("saved-unreadable/") + ext[f], std::string(e.what()) + "\nfile: " + vm::slurp(p).substr(0, 1500)); return; }
  d = diff(n, u);
  if (!d.empty()) vm::fail(std::string("roundtrip/") + ext[f], std::string("saved and loaded as ") + ext[f] + ": " + d + "\nfile: " + vm::slurp(p).substr(0, 800));
  saveAs(u, f, tmp(std::string("rt2.") + ext[f]), r);
  VM_CHECK(vm::slurp(p) == vm::slurp(tmp(std::string("rt2.") + ext[f])), "second-save-differs", ext[f] << ": saving the loaded tree gives another file");
  if (f == INFO) {
    vm::spit(tmp("rt3.info"), t.asInfoString());
    BoostPropertyTree w;
    w.loadInfo(tmp("rt3.info"));
    d = diff(n, w);
    if (!d.empty()) vm::fail("as-info-string", d);
  }
  vm::event(std::string("roundtrip-") + ext[f]);
  vm::nontrivial(vm::combine(f, hashOf(n)));
  if (i < 4) vm::sample(std::string(ext[f]) + ", " + std::to_string(n.count()) + " nodes");
}
void humanReadable(vm::Rng& r, uint64_t) {
  std::function<Node(int)> gen = [&](int depth) {
    Node n;
    if (depth) { n.data = word(r, "abc019.-<&\"", 0, 5); if (!n.data.empty() && r.chance(1, 3)) n.data += " " + word(r, "abc", 1, 4); }
    if (depth < 4) for (int k = r.below(4); k > 0; --k) { std::string key = keyFor(r, XML); if (!n.find(key)) n.kids.push_back({key, gen(depth + 1)}); }
    return n;
  };
  Node n = gen(0);
  BoostPropertyTree t = toTree(n);
  std::string p = tmp("hr.xml");
  BoostPropertyTree::setHumanReadableInputOutput(true);
  VM_CHECK(BoostPropertyTree::isHumanReadableInputOutput(), "human-readable-switch", "switching on has no effect");
  BoostPropertyTree u;
  try { t.saveXml(p); u.loadXml(p); } catch (...) { BoostPropertyTree::setHumanReadableInputOutput(false); throw; }
  BoostPropertyTree::setHumanReadableInputOutput(false);
  std::string d = diff(n, u);
  if (!d.empty()) vm::fail("roundtrip/human-readable-xml", d + "\nfile: " + vm::slurp(p).substr(0, 800));
  vm::event("roundtrip-human-readable");
  vm::nontrivial(vm::combine(9, hashOf(n)));
}
// Comments of an XML file are left out unless they are asked for, and then saved and loaded like anything else.
void comments(vm::Rng& r, uint64_t) {
  const char* comment = "<xmlcomment>";
  std::function<Node(int)> gen = [&](int depth) {
    Node n;
    if (depth) n.data = word(r, "abc019.-", 0, 5);
    for (int k = depth ? r.below(4) : 1; k > 0 && depth < 4; --k) { std::string key = keyFor(r, XML); if (!n.find(key)) n.kids.push_back({key, gen(depth + 1)}); }
    if (r.chance(1, 2)) { Node c; c.data = word(r, "abc <>=&\"", 0, 8); n.kids.insert(n.kids.begin() + r.below(n.kids.size() + 1), {comment, c}); }
    return n;
  };
  std::function<std::string(const Node&)> xml = [&](const Node& n) {
    std::string s = n.data;
    for (auto& k : n.kids) s += k.first == comment ? "<!--" + k.second.data + "-->" : "<" + k.first + ">" + xml(k.second) + "</" + k.first + ">";
    return s;
  };
  std::function<Node(const Node&)> without = [&](const Node& n) {
    Node m; m.data = n.data;
    for (auto& k : n.kids) if (k.first != comment) m.kids.push_back({k.first, without(k.second)});
    return m;
  };
  Node n = gen(0), plain = without(n);
  struct Modes { ~Modes() { BoostPropertyTree::setIgnoreComments(true); BoostPropertyTree::setHumanReadableInputOutput(false); } } restore;
  std::string text = xml(n), p = tmp("comments.xml"), p2 = tmp("comments2.xml");
  std::ofstream(p) << text;
  for (bool human : {false, true}) for (bool ignore : {true, false}) {
    BoostPropertyTree::setHumanReadableInputOutput(human);
    BoostPropertyTree::setIgnoreComments(ignore);
    VM_CHECK(BoostPropertyTree::isIgnoreComments() == ignore, "ignore-comments-switch", "switching has no effect");
    std::string mode = std::string(ignore ? "comments-ignored" : "comments-kept") + (human ? "/human-readable" : "");
    BoostPropertyTree a, b, c;
    a.loadXml(p);
    std::string d = diff(ignore ? plain : n, a);
    if (!d.empty()) vm::fail("xml-comments/" + mode, d + "\nfile: " + text.substr(0, 800));
    b.loadXmlFromString(text);
    d = diff(ignore ? plain : n, b);
    if (!d.empty()) vm::fail("xml-comments/" + mode, "from text: " + d + "\nfile: " + text.substr(0, 800));
    a.saveXml(p2); c.loadXml(p2);
    d = diff(ignore ? plain : n, c);
    if (!d.empty()) vm::fail("xml-comments/" + mode, "saved and loaded: " + d + "\nfile: " + vm::slurp(p2).substr(0, 800));
    vm::event(mode);
  }
  vm::nontrivial(hashOf(n));
}
// Any tree at all: saving either refuses, or what it wrote loads as the same tree.
void anyTree(vm::Rng& r, uint64_t i) {
  Fmt f = i % 2 ? INI : JSON;
  Node n = treeFor(r, r.chance(1, 2) ? INFO : XML, 0);
  std::function<bool(const Node&)> plain = [&](const Node& m) {
    for (auto& k : m.kids) {
      if (k.first.find_first_of("\n\t;#[]=\" \\") != std::string::npos || k.second.data.find_first_of("\n\r\t") != std::string::npos) return false;
      const std::string& s = k.second.data;
      if (!s.empty() && (s.front() == ' ' || s.back() == ' ')) return false;
      if (!plain(k.second)) return false;
    }
    return true;
  };
  if (f == INI && !plain(n)) return;
  BoostPropertyTree t = toTree(n), u;
  std::string p = tmp(std::string("any.") + ext[f]);
  try { t.save(p); } catch (const std::exception&) { vm::event("unrepresentable-refused"); return; }
  u.load(p);
  std::string d = diff(n, u);
  if (!d.empty()) vm::fail(std::string("not-refused/") + ext[f], std::string("a tree that ") + ext[f] + " cannot hold was saved without an error: " + d);
  vm::nontrivial(vm::combine(20 + f, hashOf(n)));
}
bool blank(const std::string& s) { return s.find_first_not_of(" \n\t\r") == std::string::npos; }
void updates(vm::Rng& r, uint64_t) {
  std::function<Node(int)> gen = [&](int depth) {
    Node n;
    if (depth || r.chance(1, 4)) n.data = r.pickl<const char*>({"", " ", "\n\t", "\r", "\r\n", "1", "x", "hello", "2.5", "\rx", "\v"});
    if (depth < 4) for (int k = r.below(4); k > 0; --k) { std::string key = seg(r); if (!n.find(key)) n.kids.push_back({key, gen(depth + 1)}); }
    return n;
  };
  Node a = gen(0), b = gen(0);
  bool create = r.chance(2, 3), ignore = r.chance(1, 2);
  if (!create && r.chance(2, 3)) {  // mostly a subset of the keys
    std::function<void(Node&, const Node&)> prune = [&](Node& x, const Node& y) {
      for (size_t k = 0; k < x.kids.size();) if (!y.find(x.kids[k].first)) x.kids.erase(x.kids.begin() + k); else { prune(x.kids[k].second, *y.find(x.kids[k].first)); ++k; }
    };
    prune(b, a);
  }
  BoostPropertyTree t = toTree(a), with = toTree(b);
  Node want = a;
  bool missing = false;
  std::function<void(const Node&, Path)> apply = [&](const Node& n, Path p) {
    if (!(ignore && blank(n.data))) {
      if (!create && !want.at(p)) missing = true; else want.put(p).data = n.data;
    }
    for (auto& k : n.kids) { Path q = p; q.push_back(k.first); apply(k.second, q); }
  };
  apply(b, Path());
  bool threw = false;
  try {
    if (create && !ignore && r.chance(1, 2)) t.update(with); else if (!ignore && r.chance(1, 2)) t.update(with, create); else t.update(with, create, ignore);
  } catch (const ConstPropertyTree::KeyNotFoundException&) { threw = true; }
  std::string how = std::string("update(create=") + (create ? "1" : "0") + ", ignoreEmpty=" + (ignore ? "1" : "0") + ")";
  VM_CHECK(threw == (!create && missing), "update-missing-key", how << (threw ? " threw" : " returned normally") << (missing ? " with a key that is missing" : ""));
  if (!threw) {
    std::string d = diff(want, t);
    if (!d.empty()) vm::fail("update-differs", how + ": " + d);
    vm::event("updated");
  } else {
    // whatever was applied before, no key was added and every value is the old or the new one
    std::function<void(const Node&, const ptree&, const Node*)> check = [&](const Node& o, const ptree& g, const Node* w) {
      VM_CHECK(g.data() == o.data || (w && g.data() == w->data), "update-differs", how << " failed and left a value that neither tree has");
      VM_CHECK(g.size() == o.kids.size(), "update-differs", how << " failed and added or removed a key");
      for (auto& c : g) if (const Node* k = o.find(c.first)) check(*k, c.second, w ? w->find(c.first) : nullptr);
    };
    check(a, toPtree(t), &b);
    vm::event("update-refused");
  }
  std::string d = diff(b, with);
  if (!d.empty()) vm::fail("update-changed-source", how + ": " + d);
  vm::nontrivial(vm::combine(vm::combine(hashOf(a), hashOf(b)), create * 2 + ignore));
}
// The command-line language: nested keys in a/b=1 and a{b=1} form.
void strings(vm::Rng& r, uint64_t i) {
  Node n;
  std::function<std::string(Node&, int)> gen = [&](Node& m, int depth) {
    std::string s;
    int k = r.range(1, 4);
    for (int j = 0; j < k; ++j) {
      std::string key = word(r, "abcdXY", 1, 2) + word(r, "019_.-", 0, 1);
      std::string phrase;
      bool used = m.find(key) != nullptr;
      Node& c = m.make(key);
      if (r.chance(1, 2) || depth >= 4) {
        if (used && !c.data.empty()) continue;   // assigning a key twice is not in question here
        c.data = word(r, "abc019.+-_:", r.chance(1, 8) ? 0 : 1, 6);
        phrase = key + "=" + c.data;
      } else if (r.chance(1, 2)) {
        phrase = key + "{" + gen(c, depth + 1) + "}";
      } else {
        // a chain of slashes with one assignment or block at its end
        Node* e = &c;
        phrase = key;
        for (int q = r.below(2); q > 0; --q) { std::string g = word(r, "efg", 1, 2); e = &e->make(g); phrase += "/" + g; }
        std::string g = word(r, "hij", 1, 3);
        if (e->find(g)) g += "_" + std::to_string(j) + "u";
        if (e->find(g)) continue;
        Node& x = e->make(g);
        if (r.chance(2, 3)) { x.data = word(r, "abc019", 1, 4); phrase += "/" + g + "=" + x.data; }
        else phrase += "/" + g + "{" + gen(x, depth + 1) + "}";
      }
      s += (s.empty() ? "" : ",") + phrase;
    }
    return s;
  };
  std::string s;
  std::vector<std::string> phrases;
  for (int k = r.range(1, 3); k > 0; --k) { std::string p = gen(n, 0); if (!p.empty()) phrases.push_back(p); }
  for (auto& p : phrases) s += (s.empty() ? "" : ",") + p;
  if (phrases.empty()) return;
  BoostPropertyTree t;
  t.setString("before", "x");
  switch (r.below(3)) {
    case 0: t.loadString(s); break;
    case 1: t.loadStrings(phrases); break;
    default: { std::vector<const char*> v; for (auto& p : phrases) v.push_back(p.c_str()); t.loadStrings((int)v.size(), v.data()); }
  }
  std::string d;
  std::function<void(const Node&, std::string)> walk = [&](const Node& m, std::string at) {
    for (auto& k : m.kids) {
      std::string q = at.empty() ? k.first : at + "/" + k.first, g;
      try { g = t.getString(q); } catch (const std::exception& e) { if (d.empty()) d = "\"" + q + "\" cannot be read: " + e.what(); }
      if (g != k.second.data && d.empty()) d = "\"" + q + "\" is \"" + g + "\", not \"" + k.second.data + "\"";
      walk(k.second, q);
    }
  };
  walk(n, "");
  if (!d.empty()) vm::fail("load-string", "\"" + s + "\": " + d);
  else { d = diff(n, t); if (!d.empty()) vm::fail("load-string", "\"" + s + "\": " + d); }
  vm::event("strings-parsed");
  vm::nontrivial(vm::hashStr(s));
  if (i < 3) vm::sample(s);
}
void badStrings(vm::Rng&, uint64_t) {
  for (const char* s : {"a=1}", "}", "a{b=1", "a{b{c=1}", "a=\"x\"", "a{b=1}}"}) {
    BoostPropertyTree t;
    t.setString("before", "x");
    bool threw = false;
    try { t.loadString(s); } catch (const std::exception&) { threw = true; }
    VM_CHECK(threw, "bad-string-accepted", "loadString(\"" << s << "\") returned normally");
    VM_CHECK(t.getString("before", "gone") == "x", "failed-load-changed-tree", "loadString(\"" << s << "\") failed and changed the tree");
  }
}
void malformed(vm::Rng& r, uint64_t i) {
  Fmt f = (Fmt)(i % 4);
  Node n = treeFor(r, f, 0);
  std::string p = tmp(std::string("mal.") + ext[f]);
  toTree(n).save(p);
  std::string d = vm::slurp(p);
  for (int k = 0; k < 8; ++k) {
    std::string e = d;
    bool cut = r.chance(1, 3);
    if (cut) e = e.substr(0, r.below(e.size() + 1));
    else for (int q = r.range(1, 4); q > 0; --q) {
      size_t at = r.below(e.size() + 1);
      switch (r.below(3)) {
        case 0: e.erase(at, r.range(1, 5)); break;
        case 1: e.insert(at, r.pickl<const char*>({"<", ">", "{", "}", "[", "]", "\"", "\\", "&", "&#x;", "&#99999999;", "<!--", "<![CDATA[", "=", ";", ",", ":", "\xff", "<?", "\\u12", "\\ud800", "[[[[", "null", "</a>"})); break;
        default: if (at < e.size()) e[at] = (char)r.range(1, 255);
      }
    }
    if (f == INFO && e.find("#include") != std::string::npos) continue;
    vm::spit(p, e);
    BoostPropertyTree t;
    t.setString("before", "x");
    bool threw = false;
    try { loadAs(t, f, p, r); } catch (const std::exception&) { threw = true; }
    vm::event(threw ? "malformed-refused" : "malformed-readable");
    if (threw) VM_CHECK(t.getString("before", "gone") == "x" && t.begin() != t.end() && ++t.begin() == t.end(), "failed-load-changed-tree", ext[f] << ": a load that threw changed the tree");
    vm::nontrivial(vm::hashStr(e));
  }
}
// Every cut of a JSON or XML document that loses a bracket or tag is an error.
void truncated(vm::Rng& r, uint64_t i) {
  Fmt f = i % 2 ? JSON : XML;
  Node n;
  Node inner = treeFor(r, f, 1);
  inner.kids.push_back({"last", Node()});
  inner.data.clear();
  n.kids.push_back({"root", inner});
  std::string p = tmp(std::string("cut.") + ext[f]);
  toTree(n).save(p);
  std::string d = vm::slurp(p);
  size_t need = f == JSON ? d.rfind('}') + 1 : d.rfind('>') + 1, from = f == JSON ? 1 : d.find("<root") + 1;
  for (size_t k = from; k < need; ++k) {
    vm::spit(p, d.substr(0, k));
    BoostPropertyTree t;
    bool threw = false;
    try { t.load(p); } catch (const std::exception&) { threw = true; }
    VM_CHECK(threw, "truncated-accepted", ext[f] << " cut to " << k << " of " << d.size() << " bytes was loaded without an error");
    vm::event("truncation-point");
  }
  vm::nontrivial(vm::hashStr(d));
}
void faults(vm::Rng& r, uint64_t i) {
  Fmt f = (Fmt)(i % 4);
  Node n = treeFor(r, f, 0);
  n.kids.push_back({"zz", Node()});
  n.kids.back().second.data = "end";
  if (i % 12 >= 8) for (int k = 0; k < 400; ++k) { n.kids.push_back({"k" + std::to_string(k), Node()}); n.kids.back().second.data = std::string(40, 'd'); }
  BoostPropertyTree t = toTree(n);
  std::string p = tmp(std::string("full.") + ext[f]);
  t.save(p);
  size_t size = vm::slurp(p).size(), step = 1 + size / 200;
  for (size_t limit = r.below(step); limit < size; limit += step) {
    vm::tick();
    ::unlink(p.c_str());
    bool threw = false;
    { vm::FileSizeLimit l(limit); try { saveAs(t, f, p, r); } catch (const std::exception&) { threw = true; } }
    VM_CHECK(threw, std::string("write-failure-not-reported/") + ext[f], "saving " << size << " bytes of " << ext[f] << " with room for " << limit << " returned normally; the file has " << vm::slurp(p).size() << " bytes");
    vm::event("write-fault");
  }
  { vm::FileSizeLimit l(size); saveAs(t, f, p, r); }
  std::string all = vm::slurp(p);
  vm::hiccups([] {}, [&] { saveAs(t, f, p, r); }, [&](bool threw, int k, bool hit) {
    VM_CHECK(threw || vm::slurp(p) == all, std::string("lost-after-hiccup/") + ext[f], "write number " << k << " failed once: the save returned normally, but the file has other contents");
    if (hit) vm::event("write-hiccup"); else VM_CHECK(!threw, "complete-write-refused", "no write failed, but an exception was thrown");
  });
  BoostPropertyTree u;
  u.load(p);
  std::string d = diff(n, u);
  if (!d.empty()) vm::fail("incomplete-after-success", d);
  vm::nontrivial(vm::combine(f, hashOf(n)));
}
void targets(vm::Rng& r, uint64_t) {
  BoostPropertyTree t;
  t.setString("a", "b");
  for (const char* e : ext) {
    for (std::string p : {tmp("no-such-dir") + "/x." + e, tmp("dir.") + e, std::string(".") + e}) {
      if (p.find("dir.") != std::string::npos) boost::filesystem::create_directory(p);
      bool s = false, l = false;
      if (p[0] != '.') { try { t.save(p); } catch (const std::exception&) { s = true; } VM_CHECK(s, "unwritable-not-reported", "saving to \"" << p << "\" returned normally"); }
      try { t.load(p); } catch (const std::exception&) { l = true; }
      VM_CHECK(l, "unreadable-not-reported", "loading \"" << p << "\" returned normally");
      VM_CHECK(t.getString("a", "") == "b", "failed-load-changed-tree", "a failed load changed the tree");
      vm::event("bad-target");
    }
  }
  for (std::string p : {tmp("x.txt"), tmp("x"), tmp("x."), tmp("x.XML"), tmp("x.xml.bak"), tmp("xml")}) {
    vm::spit(p, "<a>1</a>");
    int errors = 0;
    try { t.load(p); } catch (const ConstPropertyTree::InvalidFormatException&) { ++errors; }
    try { t.save(p); } catch (const ConstPropertyTree::InvalidFormatException&) { ++errors; }
    VM_CHECK(errors == 2, "unknown-format-accepted", "load and save of \"" << p << "\" reported an unknown format " << errors << " times");
    VM_CHECK(vm::slurp(p) == "<a>1</a>", "unknown-format-accepted", "\"" << p << "\" was written");
  }
  (void)r;
}

// ------------------------------------------------------------ P03
namespace fs = boost::filesystem;
struct Quiet : std::streambuf { int overflow(int c) override { return c; } };
struct Loader : sm::BoostPropertyTreeLoader {
  std::vector<std::string> merged;
  std::function<bool(const std::string&)> exists;
  bool fileExists(const std::string& p) const override { return exists ? exists(p) : sm::BoostPropertyTreeLoader::fileExists(p); }
  void goingToMergeIn(const std::string& p) override { merged.push_back(p); }
  void startingWith(const std::string& p) override { merged.push_back(p); }
  void warn(const std::string&) override {}
  void info(const std::string&) override {}
};
std::string norm(const std::string& p) { return fs::absolute(p).lexically_normal().string(); }
struct File { Fmt f; Node n; std::vector<std::string> parents; bool malformed = false; bool rootElement = false; };
struct Ref {
  std::map<std::string, File> files;   // by absolute normal path
  std::vector<std::string> search, infixes;
  std::function<bool(const std::string&)> exists;
  std::vector<std::string> order;
  std::set<std::string> seen;
  Node out;
  bool any = false, error = false, updateError = false;
  std::string resolve(const std::string& p, const std::string& from) const {
    if (search.empty() || (!p.empty() && p[0] == '/')) return p;
    if (p.substr(0, 2) == "./" || p.substr(0, 3) == "../") {
      if (from.empty()) { if (exists(p)) return p; }
      else {
        size_t s = from.rfind('/');
        std::string c = s == std::string::npos ? p : from.substr(0, s) + "/" + p;
        if (exists(c)) return c;
      }
    }
    std::vector<std::string> in = infixes.empty() ? std::vector<std::string>(1) : infixes;
    for (auto& b : search) for (auto& i : in) { std::string c = b + "/" + (i.empty() ? "" : i + "/") + p; if (exists(c)) return c; }
    return "\x01missing";
  }
  void load(std::string name, const std::string& from) {
    if (error || updateError || name.empty()) return;
    bool only = name.back() == '!';
    if (only) name.pop_back();
    std::string p = resolve(name, from);
    auto it = files.find(norm(p));
    if (!seen.insert(norm(p) + (only ? "!" : "")).second) return;   // the update-only variant counts as another file
    if (it == files.end() || it->second.malformed) { error = true; return; }
    for (auto& q : it->second.parents) load(q, p);
    if (error || updateError) return;
    order.push_back(norm(p));
    if (!any) { out = it->second.n; any = true; return; }
    std::function<void(const Node&, Path)> apply = [&](const Node& n, Path pa) {
      if (only && !(pa.size() == 1 && pa[0] == "parents") && !out.at(pa)) { updateError = true; return; }
      out.put(pa).data = n.data;
      for (auto& k : n.kids) { Path q = pa; q.push_back(k.first); apply(k.second, q); }
    };
    apply(it->second.n, Path());
  }
};
void loading(vm::Rng& r, uint64_t i) {
  std::string root = tmp("conf");
  fs::remove_all(root);
  fs::create_directory(root);
  if (::chdir(root.c_str())) throw std::runtime_error("chdir");
  static const std::vector<std::string> dirs = {"d0", "d1", "d0/in", "d1/in", "d1/in2", "."};
  for (auto& d : dirs) fs::create_directories(d);
  Ref ref;
  ref.exists = [](const std::string& p) { return fs::exists(p); };
  int nFiles = r.range(1, 7);
  struct Spec { std::string dir, base; bool only; };
  std::vector<Spec> specs;
  for (int k = 0; k < nFiles; ++k) {
    Fmt f = (Fmt)r.below(4);
    Spec s{r.pick(dirs), r.pickl<const char*>({"a", "b", "base"}) + std::string(".") + ext[f], r.chance(1, 8)};
    std::string path = norm(s.dir + "/" + s.base);
    if (ref.files.count(path)) continue;
    File fl;
    fl.f = f;
    fl.malformed = r.chance(1, 25);
    ref.files[path] = fl;
    specs.push_back(s);
  }
  static const std::vector<std::string> all = {"d0", "d1"};
  for (int k = r.below(4); k > 0; --k) ref.search.push_back(r.pick(all));
  if (r.chance(1, 6)) ref.search.push_back(root + "/d1");
  if (r.chance(1, 2)) for (int k = r.range(1, 3); k > 0; --k) ref.infixes.push_back(r.pickl<const char*>({"", "in", "in2"}));
  auto nameOf = [&](const Spec& s, const std::string& fromDir) -> std::string {
    std::string n;
    auto up = [&](const std::string& d) -> std::string { std::string u; if (d == ".") return "./"; u = "../"; if (d.find('/') != std::string::npos) u += "../"; return u; };
    switch (r.below(ref.search.empty() ? 2 : 5)) {
      case 0: n = root + "/" + (s.dir == "." ? "" : s.dir + "/") + s.base; break;
      case 1: if (ref.search.empty()) { n = (s.dir == "." ? "" : s.dir + "/") + s.base; break; }
              n = (fromDir.empty() ? std::string("./") : up(fromDir)) + (s.dir == "." ? "" : s.dir + "/") + s.base; break;
      case 2: n = s.base; break;
      case 3: n = "./" + s.base; break;
      default: n = "in/" + s.base;
    }
    return n + (s.only ? "!" : "");
  };
  auto named = [&](const Spec& s, const std::string& fromDir, const std::string& from) {  // mostly a name that leads to an existing file
    std::string n = nameOf(s, fromDir);
    for (int k = r.chance(1, 25) ? 0 : 12; k > 0; --k) {
      std::string b = n.back() == '!' ? n.substr(0, n.size() - 1) : n;
      ref.exists = [&](const std::string& p) { return ref.files.count(norm(p)) > 0; };
      if (ref.files.count(norm(ref.resolve(b, from)))) break;
      n = nameOf(s, fromDir);
    }
    return n;
  };
  size_t q = 0;
  for (auto& s : specs) {
    File& f = ref.files[norm(s.dir + "/" + s.base)];
    for (int k = r.chance(1, 2) ? 0 : r.range(1, 3); k > 0; --k) {
      const Spec& t = specs[r.below(specs.size())];
      f.parents.push_back(r.chance(1, 20) ? "missing.info" : named(t, s.dir, s.dir + "/" + s.base));
      if (r.chance(1, 8)) f.parents.push_back("");
    }
    f.rootElement = (f.f != INI) && r.chance(1, 4) && !s.only;
    Node* n = &f.n;
    if (f.rootElement) n = &f.n.make("conf");
    std::string list;
    for (auto& p : f.parents) list += (&p == &f.parents[0] ? "" : ",") + p;
    if (!f.parents.empty() && !list.empty()) n->make("parents").data = list;
    for (int k = r.range(1, 4); k > 0; --k) {
      std::string key = r.pickl<const char*>({"k0", "k1", "k2", "k.3", "sec/k0", "sec/k1", "s.ec/k"});
      size_t sl = key.find('/');
      Node& e = sl == std::string::npos ? n->make(key) : n->make(key.substr(0, sl)).make(key.substr(sl + 1));
      e.data = "v" + std::to_string(q++);
    }
    if (f.f == INI && false) n->kids.clear();
    toTree(f.n).save(s.dir + "/" + s.base);
    if (f.malformed) vm::spit(s.dir + "/" + s.base, f.f == INI ? "no assignment here\n" : f.f == INFO ? "a {\n b 1\n" : f.f == XML ? "<a><b>1</a>" : "{\"a\": ");
  }
  std::vector<std::string> list;
  for (int k = r.range(1, 4); k > 0; --k) list.push_back(r.chance(1, 30) ? std::string("nowhere.xml") : named(specs[r.below(specs.size())], "", ""));
  if (r.chance(1, 6)) list.insert(list.begin() + r.below(list.size() + 1), "");
  ref.exists = [](const std::string& p) { return fs::exists(p); };
  for (auto& n : list) ref.load(n, "");
  Loader l;
  l.getSearchPaths() = ref.search;
  l.getFileNameInfixes() = ref.infixes;
  std::string text;
  for (size_t k = 0; k < list.size(); ++k) text += (k ? "," : "") + list[k];
  std::string what = "loading \"" + text + "\"";
  for (auto& f : ref.files) { what += "; " + f.first.substr(root.size()) + (f.second.malformed ? "(malformed)" : "") + (f.second.rootElement ? "(root element)" : "") + " parents:"; for (auto& p : f.second.parents) what += " " + p; }
  what += "; search:"; for (auto& p : ref.search) what += " " + p;
  what += "; infixes:"; for (auto& p : ref.infixes) what += " \"" + p + "\"";
  what += "; ";
  bool threw = false, keyError = false;
  std::string err;
  BoostPropertyTree t;
  try { t = r.chance(1, 2) ? l.readFilesAndMergeIntoPropertyTree(text) : l.readFilesAndMergeIntoPropertyTree(list); }
  catch (const ConstPropertyTree::KeyNotFoundException& e) { threw = keyError = true; err = e.what(); }
  catch (const std::exception& e) { threw = true; err = e.what(); }
  vm::event(ref.error ? "missing-or-malformed" : ref.updateError ? "update-only-refused" : "merged");
  VM_CHECK(threw == (ref.error || ref.updateError), threw ? "load-failed" : "bad-file-not-reported", what << (threw ? " threw " + err : " returned normally"));
  if (threw) VM_CHECK(keyError == ref.updateError, "wrong-error", what << " threw " << err);
  std::vector<std::string> order;
  for (auto& p : l.merged) order.push_back(norm(p));
  if (!threw && !ref.error && !ref.updateError) {
    std::string o, w;
    for (auto& p : order) o += " " + p.substr(root.size());
    for (auto& p : ref.order) w += " " + p.substr(root.size());
    VM_CHECK(order == ref.order, "merge-order", what << " merged" << o << ", expected" << w);
    std::string d = diff(ref.out, t, {"parents"});
    if (!d.empty()) vm::fail("merged-tree", what + ": " + d + "; merged" + o);
    vm::event("files-merged", order.size());
    uint64_t h = 0;
    for (auto& p : order) h = vm::combine(h, vm::hashStr(p.substr(root.size())));
    if (order.size() > 1) vm::nontrivial(vm::combine(h, hashOf(ref.out)));
    if (order.size() > 2) vm::sample("merged" + o);
  }
  if (::chdir(vm::scratch().c_str())) throw std::runtime_error("chdir");
  (void)i;
}
void resolving(vm::Rng& r, uint64_t) {
  Ref ref;
  std::set<std::string> there;
  Loader l;
  auto ex = [&](const std::string& p) { return there.count(fs::path(p).lexically_normal().string()) > 0; };
  ref.exists = ex;
  l.exists = ex;
  static const std::vector<std::string> d = {"s", "t", "/abs", "u/v"}, in = {"", "i", "j"};
  for (int k = r.below(4); k > 0; --k) ref.search.push_back(r.pick(d));
  for (int k = r.below(3); k > 0; --k) ref.infixes.push_back(r.pick(in));
  for (int k = r.below(8); k > 0; --k) {
    std::string p = r.pick(d) + "/";
    std::string i = r.pick(in);
    if (!i.empty()) p += i + "/";
    there.insert(fs::path(p + r.pickl<const char*>({"f.xml", "g.xml", "k/f.xml"})).lexically_normal().string());
    if (r.chance(1, 3)) there.insert(r.pickl<const char*>({"f.xml", "g.xml", "k/f.xml", "/f.xml", "../f.xml"}));
  }
  l.getSearchPaths() = ref.search;
  l.getFileNameInfixes() = ref.infixes;
  std::string p = r.pickl<const char*>({"f.xml", "./f.xml", "../f.xml", "/abs/f.xml", "k/f.xml", "./k/f.xml", "i/g.xml", "../g.xml", "../../s/f.xml"});
  std::string from = r.pickl<const char*>({"", "s/f.xml", "f.xml", "u/v/g.xml", "/abs/f.xml", "s/i/f.xml", "./f.xml"});
  std::string got = l.resolveFullFilePath(p, from), want = ref.resolve(p, from);
  if (want == "\x01missing") { VM_CHECK(!ex(got), "resolve", "\"" << p << "\" (from \"" << from << "\") resolved to \"" << got << "\" although no candidate exists"); vm::event("unresolvable"); }
  else { VM_CHECK(fs::path(got).lexically_normal() == fs::path(want).lexically_normal(), "resolve", "\"" << p << "\" (from \"" << from << "\") resolved to \"" << got << "\", expected \"" << want << "\""); vm::event("resolved"); }
  vm::nontrivial(vm::combine(vm::hashStr(p + "|" + from), vm::hashStr(got)));
}
void findFiles(vm::Rng&, uint64_t) {
  std::string d = tmp("env");
  fs::create_directories(d + "/sub");
  vm::spit(d + "/there", "x");
  for (int slash = 0; slash < 2; ++slash) {
    ::setenv("VM_FIND_DIR", (d + (slash ? "/" : "")).c_str(), 1);
    for (const char* f : {"there", "sub", "missing", "sub/missing", "sub/../there"}) {
      bool threw = false;
      std::string p;
      try { p = sm::findFile(f, "VM_FIND_DIR").string(); } catch (const std::runtime_error&) { threw = true; }
      bool ex = fs::exists(d + "/" + f);
      VM_CHECK(threw == !ex, "find-file", "findFile(\"" << f << "\") " << (threw ? "threw" : "returned " + p));
      if (!threw) VM_CHECK(fs::path(p).lexically_normal() == fs::path(d + "/" + f).lexically_normal(), "find-file", "findFile(\"" << f << "\") returned " << p);
    }
  }
  ::unsetenv("VM_FIND_DIR");
  bool threw = false;
  try { sm::findFile("there", "VM_FIND_DIR"); } catch (const std::runtime_error&) { threw = true; }
  VM_CHECK(threw, "find-file", "findFile without the environment variable returned");
  // the default hooks and the real file system
  sm::BoostPropertyTreeLoader l;
  vm::spit(d + "/one.info", "a 1\n");
  vm::spit(d + "/two.info", "parents ./one.info\nb 2\n");
  l.getSearchPaths().push_back(d);
  Quiet q;
  std::streambuf *o = std::cout.rdbuf(&q), *e = std::cerr.rdbuf(&q);
  int a = 0, b = 0;
  try { BoostPropertyTree t = l.readFilesAndMergeIntoPropertyTree("two.info"); a = t.getInt("a"); b = t.getInt("b"); } catch (...) {}
  std::cout.rdbuf(o); std::cerr.rdbuf(e);
  VM_CHECK(a == 1 && b == 2, "merged-tree", "two.info with parent one.info gave a=" << a << " b=" << b);
}
// Sizes beyond the everyday ones.
void scaleTree(vm::Rng& r, uint64_t i) {
  Node model;
  BoostPropertyTree t;
  const int n = r.pickl<int>({300, 1000, 3000}), depth = r.pickl<int>({20, 65, 130, 260});
  Path deep;
  for (int k = 0; k < depth; ++k) { deep.push_back(r.pickl<const char*>({"a", "b", "a.b", "c c"})); if (k % 7 == 6) deep.back() += std::string(r.pickl<int>({1, 255, 300}), 'l'); }
  t.setInt(join(deep), 77);
  model.put(deep).data = "77";
  PropertyTree v = t;
  Path at;
  for (int k = 0; k + 1 < depth; ++k) { v = v.getChild(deep[k]); at.push_back(deep[k]); if (k % 16 == 3) { v.setInt("mark", k); Path p = at; p.push_back("mark"); model.put(p).data = std::to_string(k); } }
  VM_CHECK(v.getInt(deep.back()) == 77 && v.doesKeyExist(deep.back()) && !v.doesKeyExist("none") && v.getInt("none2", 4) == 4, "value", depth << " nested namespaces do not reach the key");
  at.push_back("none2");
  model.put(at).data = "4";   // a default is remembered
  std::map<std::string, std::string> want;
  for (int k = 0; k < n; ++k) {
    std::string key = "k" + std::to_string(k), dir = k % 3 == 0 ? "" : "g" + std::to_string(k % 40);
    std::string val = k % 500 == 499 ? std::string(r.pickl<int>({255, 4096, 70000}), 'x') : "v" + std::to_string(k);
    std::string full = dir.empty() ? key : dir + "/" + key;
    t.setString(full, val);
    Path p; if (!dir.empty()) p.push_back(dir); p.push_back(key);
    model.put(p).data = val;
    want[full] = val;
  }
  for (int k = 0; k < n / 4; ++k) { auto it = want.begin(); std::advance(it, r.below(want.size())); it->second = "w" + std::to_string(k); t.setString(it->first, it->second); Path p; size_t sl = it->first.find('/'); if (sl != std::string::npos) p.push_back(it->first.substr(0, sl)); p.push_back(it->first.substr(sl == std::string::npos ? 0 : sl + 1)); model.put(p).data = it->second; }
  int bad = 0;
  for (auto& w : want) if (!t.doesKeyExist(w.first) || t.getString(w.first) != w.second) ++bad;
  VM_CHECK(bad == 0, "value", bad << " of " << want.size() << " keys of one tree are missing or different");
  std::string d = diff(model, t);
  if (!d.empty()) vm::fail("tree", "a large tree: " + d.substr(0, 400));
  std::set<std::string> top, got;
  for (auto& k : model.kids) top.insert(k.first);
  for (auto& c : t.getChildren()) VM_CHECK(got.insert(c.key).second, "children-twice", "\"" << c.key << "\" is listed twice");
  VM_CHECK(got == top, "children", "a large tree lists " << got.size() << " children, expected " << top.size());
  vm::event("large-tree");
  vm::nontrivial(vm::combine(hashOf(model), i));
}
void scaleFiles(vm::Rng& r, uint64_t i) {
  Fmt f = (Fmt)(i % 4);
  Node n;
  for (int k = r.pickl<int>({500, 3000}); k > 0; --k) {
    std::string key = "k" + std::to_string(k);
    if (k % 4 == 0) { Node& g = n.make("g" + std::to_string(k % 20)); g.kids.push_back({key, Node()}); g.kids.back().second.data = dataFor(r, f); }
    else { n.kids.push_back({key, Node()}); n.kids.back().second.data = dataFor(r, f); }
  }
  // the INI format has the values before the sections
  if (f == INI) std::stable_sort(n.kids.begin(), n.kids.end(), [](const std::pair<std::string, Node>& a, const std::pair<std::string, Node>& b) { return a.second.kids.empty() > b.second.kids.empty(); });
  if (f != INI) { Path p; for (int k = r.pickl<int>({30, 70, 150}); k > 0; --k) p.push_back("n" + std::to_string(k % 9)); n.put(p).data = "deep"; }
  std::string big;
  for (int k = r.pickl<int>({4000, 66000, 140000}); k > 0; --k) big += (char)('a' + k % 23);
  n.kids.insert(n.kids.begin(), {std::string(r.pickl<int>({200, 256, 1000}), 'K'), Node()});
  n.kids[0].second.data = big;
  BoostPropertyTree t = toTree(n), u;
  std::string p = tmp(std::string("large.") + ext[f]);
  saveAs(t, f, p, r);
  try { loadAs(u, f, p, r); } catch (const std::exception& e) { vm::fail(std::string("saved-unreadable/") + ext[f], std::string("a large tree: ") + e.what()); return; }
  std::string d = diff(n, u);
  if (!d.empty()) vm::fail(std::string("roundtrip/") + ext[f], std::string("a large tree saved and loaded as ") + ext[f] + ": " + d.substr(0, 400));
  vm::event(std::string("large-roundtrip-") + ext[f]);
  vm::nontrivial(vm::combine(hashOf(n), f));
}
void scaleLoading(vm::Rng& r, uint64_t) {
  std::string root = tmp("scale");
  fs::remove_all(root);
  fs::create_directory(root);
  const int n = r.pickl<int>({12, 40, 120});
  const bool chain = r.chance(1, 2);   // each includes the next, or the first includes all
  Node want;
  auto name = [&](int k) { return root + "/f" + std::to_string(k) + ".info"; };
  for (int k = 0; k < n; ++k) {
    Node x;
    std::string parents;
    if (chain) { if (k + 1 < n) parents = name(k + 1); if (r.chance(1, 3)) parents += (parents.empty() ? "" : ",") + name(r.below(n)); }
    else if (k == 0) for (int j = 1; j < n; ++j) parents += (j > 1 ? "," : "") + name(j);
    if (!parents.empty()) x.make("parents").data = parents;
    x.make("own" + std::to_string(k)).data = std::to_string(k);
    x.make("all").data = std::to_string(k);
    x.make("mod" + std::to_string(k % 7)).data = std::to_string(k);
    toTree(x).save(name(k));
  }
  // parents come before the file that names them, each file once
  std::vector<int> order;
  if (chain) for (int k = n; k-- > 0;) order.push_back(k);
  else { for (int k = 1; k < n; ++k) order.push_back(k); order.push_back(0); }
  for (int k : order) { want.make("own" + std::to_string(k)).data = std::to_string(k); want.make("all").data = std::to_string(k); want.make("mod" + std::to_string(k % 7)).data = std::to_string(k); }
  Loader l;
  BoostPropertyTree t = l.readFilesAndMergeIntoPropertyTree(name(0));
  VM_CHECK((int)l.merged.size() == n, "merge-order", (chain ? "a chain of " : "a list of ") << n << " files: " << l.merged.size() << " were merged");
  for (int k = 0; k < n && k < (int)l.merged.size(); ++k) if (norm(l.merged[k]) != norm(name(order[k]))) { vm::fail("merge-order", (chain ? "a chain of " : "a list of ") + std::to_string(n) + " files: number " + std::to_string(k) + " is " + l.merged[k]); break; }
  std::string d = diff(want, t, {"parents"});
  if (!d.empty()) vm::fail("merged-tree", (chain ? "a chain of " : "a list of ") + std::to_string(n) + " files: " + d);
  vm::event("many-files", n);
  vm::nontrivial(vm::combine(vm::combine(n, chain), r.next()));
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  std::string mode;
  for (int i = 1; i < argc; ++i) { std::string s = argv[i]; if (s == "tree" || s == "files" || s == "loader") mode = s; }
  if (mode == "tree") {
    vm::setRule("a distinct case is a history of operations and key paths through several views");
    vm::run("history", 1200, history, 20);
    vm::run("scale", 4, scaleTree, 2);
    vm::run("null", 1, nullImplementation, 1);
  } else if (mode == "files") {
    vm::setRule("a distinct case is a tree (format and contents), an update, a phrase list or a damaged file");
    vm::run("roundtrip", 3000, roundtrip, 20);
    vm::run("human-readable", 500, humanReadable, 20);
    vm::run("xml-comments", 400, comments);
    vm::run("any-tree", 1000, anyTree, 20);
    vm::run("updates", 3000, updates, 20);
    vm::run("strings", 2000, strings, 20);
    vm::run("bad-strings", 1, badStrings, 1);
    vm::run("malformed", 600, malformed, 20);
    vm::run("truncated", 40, truncated, 20);
    vm::run("faults", 48, faults, 10);
    vm::run("scale", 8, scaleFiles, 4);
    vm::run("targets", 1, targets, 1);
  } else {
    vm::setRule("a distinct case is a set of files with the order they were merged in and the merged tree, or a resolved name");
    vm::run("loading", 9000, loading, 20);
    vm::run("resolving", 20000, resolving, 20);
    vm::run("scale", 10, scaleLoading, 4);
    vm::run("find-file", 1, findFiles, 1);
  }
  return vm::finish();
}
