// B03: saving an object to a file and loading it back, in every format, and what
// happens when the file cannot be written or is not there.
#include "vm.hpp"
#include "faultfile.hpp"
#include "writefault.hpp"
#include <sm/boost/serialization.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/shared_ptr.hpp>

namespace {
struct Node {
  enum { CLASS_SERIALIZATION_VERSION = 3 };
  std::vector<double> d;
  std::map<std::string, int64_t> m;
  std::vector<std::string> s;
  bool b = false;
  uint8_t u8 = 0;
  int i = 0;
  float f = 0;
  boost::shared_ptr<Node> child;
  unsigned seenVersion = 0;
  template <class A> void serialize(A& ar, const unsigned v) {
    seenVersion = v;
    ar & BOOST_SERIALIZATION_NVP(d) & BOOST_SERIALIZATION_NVP(m) & BOOST_SERIALIZATION_NVP(s)
       & BOOST_SERIALIZATION_NVP(b) & BOOST_SERIALIZATION_NVP(u8) & BOOST_SERIALIZATION_NVP(i) & BOOST_SERIALIZATION_NVP(f)
       & BOOST_SERIALIZATION_NVP(child);
  }
};
template <class T> struct Boxed {
  enum { CLASS_SERIALIZATION_VERSION = 5 };
  T v; unsigned seen = 99;
  template <class A> void serialize(A& ar, const unsigned ver) { seen = ver; ar & BOOST_SERIALIZATION_NVP(v); }
};
template <class T, class U> struct Boxed2 {
  enum { CLASS_SERIALIZATION_VERSION = 6 };
  T v; U w; unsigned seen = 99;
  template <class A> void serialize(A& ar, const unsigned ver) { seen = ver; ar & BOOST_SERIALIZATION_NVP(v) & BOOST_SERIALIZATION_NVP(w); }
};
template <int N> struct BoxedI {
  enum { CLASS_SERIALIZATION_VERSION = 7 };
  int v; unsigned seen = 99;
  template <class A> void serialize(A& ar, const unsigned ver) { seen = ver; ar & BOOST_SERIALIZATION_NVP(v); }
};
bool eq(double a, double b) { return vm::bits(a) == vm::bits(b); }
bool same(const Node& a, const Node& b) {
  if (a.d.size() != b.d.size() || a.m != b.m || a.s != b.s || a.b != b.b || a.u8 != b.u8 || a.i != b.i) return false;
  if (std::memcmp(&a.f, &b.f, sizeof(float))) return false;
  for (size_t i = 0; i < a.d.size(); ++i) if (!eq(a.d[i], b.d[i])) return false;
  if (bool(a.child) != bool(b.child)) return false;
  return !a.child || same(*a.child, *b.child);
}
std::string text(vm::Rng& r) {
  std::string s;
  int n = r.below(12);
  for (int i = 0; i < n; ++i) s += r.chance(1, 5) ? r.pickl({'<', '>', '&', '"', '\'', ' ', '\n', '\t', ']'}) : (char)r.range(33, 126);
  // white space at the ends does not survive XML attribute-free text in Boost: keep it inside
  return s.empty() ? s : "x" + s + "x";
}
Node gen(vm::Rng& r, int depth) {
  Node n;
  int k = r.below(8);
  for (int i = 0; i < k; ++i) n.d.push_back(r.anyDouble(true));
  if (r.chance(1, 20)) for (int i = 0; i < 4000; ++i) n.d.push_back(r.anyDouble(true));
  k = r.below(5);
  for (int i = 0; i < k; ++i) n.m[text(r)] = (int64_t)r.next();
  k = r.below(5);
  for (int i = 0; i < k; ++i) n.s.push_back(text(r));
  n.b = r.chance(1, 2); n.u8 = (uint8_t)r.below(256); n.i = (int)r.next(); n.f = (float)r.logmag(-20, 20);
  if (depth > 0 && r.chance(1, 2)) { n.child.reset(new Node(gen(r, depth - 1))); }
  return n;
}
const char* FMT[] = {"binary", "text", "xml", "xml-tag"};
void save(int f, Node& n, const std::string& p) {
  switch (f) {
    case 0: sm::boost_serialization::save(n, p); break;
    case 1: sm::boost_serialization::save_txt(n, p); break;
    case 2: sm::boost_serialization::save_xml(n, p); break;
    default: sm::boost_serialization::save_xml(n, "Some_tag", p); break;
  }
}
void load(int f, Node& n, const std::string& p) {
  switch (f) {
    case 0: sm::boost_serialization::load(n, p); break;
    case 1: sm::boost_serialization::load_txt(n, p); break;
    case 2: sm::boost_serialization::load_xml(n, p); break;
    default: sm::boost_serialization::load_xml(n, "Some_tag", p); break;
  }
}
uint64_t sig(const Node& n) {
  uint64_t h = vm::combine(n.d.size(), n.m.size() * 100 + n.s.size());
  for (double d : n.d) h = vm::combine(h, vm::bits(d));
  for (auto& s : n.s) h = vm::hashStr(s, h);
  return n.child ? vm::combine(h, sig(*n.child)) : h;
}
}  // namespace
SM_BOOST_CLASS_VERSION(Node)
SM_BOOST_CLASS_VERSION_T1(Boxed)
SM_BOOST_CLASS_VERSION_T1T2(Boxed2)
SM_BOOST_CLASS_VERSION_I1(BoxedI)

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case is a random nested object (numbers incl. extremes, strings with markup characters, maps, child objects) and a file format; a fault case adds the byte at which writing starts to fail. Distinct by object content and fault position.");
  const std::string p = vm::scratch() + "/obj";
  vm::run("round-trip", 700, [&](vm::Rng& r, uint64_t) {
    Node n = gen(r, 3), back;
    int f = r.below(4);
    bool pre = r.chance(1, 2);
    if (pre) back = gen(r, 1);        // loading over an object replaces it
    if (r.chance(1, 2)) vm::spit(p, std::string(200000, 'z'));  // a longer file is there already
    save(f, n, p);
    load(f, back, p);
    VM_CHECK(same(n, back), std::string("round-trip/") + FMT[f], "the loaded object differs from the saved one (format " << FMT[f] << ")");
    VM_CHECK(back.seenVersion == 3, "version", "the class version read back is " << back.seenVersion);
    vm::nontrivial(vm::combine(sig(n), f));
    vm::event(std::string("round-trips:") + FMT[f]);
    if (r.chance(1, 200)) vm::sample(std::string(FMT[f]) + ", " + std::to_string(n.d.size()) + " doubles, " + std::to_string(n.m.size()) + " map entries, " + std::to_string(n.s.size()) + " strings");
  });
  vm::run("templates", 60, [&](vm::Rng& r, uint64_t) {
    Boxed<std::string> a, a2; a.v = text(r);
    sm::boost_serialization::save_xml(a, p); sm::boost_serialization::load_xml(a2, p);
    VM_CHECK(a.v == a2.v && a2.seen == 5, "version", "one-parameter template: version " << a2.seen);
    Boxed2<int, double> b, b2; b.v = (int)r.next(); b.w = r.anyDouble(true);
    sm::boost_serialization::save(b, p); sm::boost_serialization::load(b2, p);
    VM_CHECK(b.v == b2.v && eq(b.w, b2.w) && b2.seen == 6, "version", "two-parameter template: version " << b2.seen);
    BoxedI<4> c, c2; c.v = (int)r.next();
    sm::boost_serialization::save_txt(c, p); sm::boost_serialization::load_txt(c2, p);
    VM_CHECK(c.v == c2.v && c2.seen == 7, "version", "integer-parameter template: version " << c2.seen);
    // an empty tag falls back to a default one
    sm::boost_serialization::save_xml(a, "", p); sm::boost_serialization::load_xml(a2, "", p);
    VM_CHECK(a.v == a2.v, "round-trip/xml-empty-tag", "differs");
  });
  vm::leakProbes(false);  // Boost loses the objects behind shared pointers when loading fails
  vm::run("write-fault", 160, [&](vm::Rng& r, uint64_t i) {
    Node n = gen(r, 2);
    int f = r.below(4);
    save(f, n, p);
    uint64_t size = vm::slurp(p).size();
    for (int k = 0; k < 6; ++k) {
      uint64_t limit = k == 0 ? 0 : k == 1 ? size - 1 : k == 2 ? size : r.below(size);
      ::unlink(p.c_str());
      bool threw = false;
      { vm::FileSizeLimit l(limit); try { save(f, n, p); } catch (const std::exception&) { threw = true; } }
      uint64_t now = vm::slurp(p).size();
      if (limit < size) {
        VM_CHECK(threw, std::string("write-failure-not-reported/") + FMT[f], "only " << now << " of " << size << " bytes could be written and the save returned normally");
        vm::event("write-faults");
      } else {
        VM_CHECK(!threw && now == size, "spurious-failure", "a save with room for all " << size << " bytes failed");
      }
      vm::nontrivial(vm::combine(sig(n), limit * 4 + f));
    }
    // a disk that is full for a moment
    save(f, n, p);
    std::string all = vm::slurp(p);
    vm::hiccups([] {}, [&] { save(f, n, p); }, [&](bool threw, int k, bool hit) {
      VM_CHECK(threw || vm::slurp(p) == all, std::string("lost-after-hiccup/") + FMT[f], "write number " << k << " failed once: the save returned normally, but the file has other contents");
      if (hit) vm::event("write-hiccups"); else VM_CHECK(!threw, "spurious-failure", "no write failed, but an exception was thrown");
    });
    if (vm::exists("/dev/full")) {
      bool threw = false;
      try { save(f, n, "/dev/full"); } catch (const std::exception&) { threw = true; }
      VM_CHECK(threw, std::string("write-failure-not-reported/") + FMT[f], "saving to a full device returned normally");
      vm::event("full-device");
    }
    bool threw = false;
    try { save(f, n, vm::scratch() + "/no/such/dir/x"); } catch (const std::exception&) { threw = true; }
    VM_CHECK(threw, std::string("open-failure-not-reported/") + FMT[f], "saving into a missing directory returned normally");
    threw = false;
    try { Node b; load(f, b, vm::scratch() + "/missing"); } catch (const std::exception&) { threw = true; }
    VM_CHECK(threw, std::string("missing-file-not-reported/") + FMT[f], "loading a missing file returned normally");
    // half a file: an exception (no crash, no silent success for these formats)
    save(f, n, p);
    std::string whole = vm::slurp(p);
    vm::spit(p, whole.substr(0, r.below(whole.size() / 2)));
    threw = false;
    try { Node b; load(f, b, p); } catch (const std::exception&) { threw = true; }
    VM_CHECK(threw, std::string("truncated-file-accepted/") + FMT[f], "loading less than half of a file returned normally");
    vm::event("truncated-loads");
  });
  return vm::finish();
}
