// C05: SM_CHECKSAME / SM_CHECKMEMBERSSAME against member-wise equality.
#include "vm.hpp"
#include <sm/serialization_macros.hpp>
#include <boost/make_shared.hpp>
#include <list>
#include <map>

namespace {
struct NoStream { int v; bool operator==(const NoStream& o) const { return v == o.v; } };
struct Streamed { int v; bool operator==(const Streamed& o) const { return v == o.v; } };
std::ostream& operator<<(std::ostream& o, const Streamed& s) { return o << "S" << s.v; }
struct Bin { int v, noise; bool isBinaryEqual(const Bin& o) const { return v == o.v; } };   // no operator==
struct BinNonConst { int v; bool isBinaryEqual(const BinNonConst& o) const { return v == o.v; } bool operator==(const BinNonConst&) const { return false; } };

struct All {
  int i; double d; std::string s; std::vector<int> vec; std::map<int, std::string> m;
  NoStream ns; Streamed st; Bin bin; BinNonConst both;
  int* pi; Streamed* ps; Bin* pb; NoStream* pn;
  const int* cpi; const Bin* cpb;
  boost::shared_ptr<int> si; boost::shared_ptr<Bin> sb; boost::shared_ptr<NoStream> sn; boost::shared_ptr<const Streamed> cs; boost::shared_ptr<std::string> ss;
  // expected, member by member
  template <class P> static bool p(const P& a, const P& b) { if (!a || !b) return !a && !b; return *a == *b; }
  template <class P> static bool pb_(const P& a, const P& b) { if (!a || !b) return !a && !b; return a->v == b->v; }
  std::vector<bool> expected(const All& o) const {
    return {i == o.i, d == o.d, s == o.s, vec == o.vec, m == o.m, ns == o.ns, st == o.st, bin.v == o.bin.v, both.v == o.both.v,
            p(pi, o.pi), p(ps, o.ps), pb_(pb, o.pb), p(pn, o.pn), p(cpi, o.cpi), pb_(cpb, o.cpb),
            p(si, o.si), pb_(sb, o.sb), p(sn, o.sn), p(cs, o.cs), p(ss, o.ss)};
  }
  std::vector<bool> members(const All& o) const {
    return {SM_CHECKMEMBERSSAME(o, i), SM_CHECKMEMBERSSAME(o, d), SM_CHECKMEMBERSSAME(o, s), SM_CHECKMEMBERSSAME(o, vec), SM_CHECKMEMBERSSAME(o, ns),
            SM_CHECKMEMBERSSAME(o, st), SM_CHECKMEMBERSSAME(o, bin), SM_CHECKMEMBERSSAME(o, both), SM_CHECKMEMBERSSAME(o, pi), SM_CHECKMEMBERSSAME(o, ps),
            SM_CHECKMEMBERSSAME(o, pb), SM_CHECKMEMBERSSAME(o, pn), SM_CHECKMEMBERSSAME(o, cpi), SM_CHECKMEMBERSSAME(o, cpb), SM_CHECKMEMBERSSAME(o, si),
            SM_CHECKMEMBERSSAME(o, sb), SM_CHECKMEMBERSSAME(o, sn), SM_CHECKMEMBERSSAME(o, cs), SM_CHECKMEMBERSSAME(o, ss), SM_CHECKMEMBERSSAME(o, m)};
  }
  bool andAll(const All& o) const {
    return SM_CHECKMEMBERSSAME(o, i) && SM_CHECKMEMBERSSAME(o, d) && SM_CHECKMEMBERSSAME(o, s) && SM_CHECKMEMBERSSAME(o, vec) &&
           SM_CHECKMEMBERSSAME(o, m) && SM_CHECKMEMBERSSAME(o, ns) && SM_CHECKMEMBERSSAME(o, st) && SM_CHECKMEMBERSSAME(o, bin) &&
           SM_CHECKMEMBERSSAME(o, both) && SM_CHECKMEMBERSSAME(o, pi) && SM_CHECKMEMBERSSAME(o, ps) && SM_CHECKMEMBERSSAME(o, pb) &&
           SM_CHECKMEMBERSSAME(o, pn) && SM_CHECKMEMBERSSAME(o, cpi) && SM_CHECKMEMBERSSAME(o, cpb) && SM_CHECKMEMBERSSAME(o, si) &&
           SM_CHECKMEMBERSSAME(o, sb) && SM_CHECKMEMBERSSAME(o, sn) && SM_CHECKMEMBERSSAME(o, cs) && SM_CHECKMEMBERSSAME(o, ss);
  }
  bool andVerbose(const All& o, bool v) const { return SM_CHECKMEMBERSSAME(o, i, v) && SM_CHECKMEMBERSSAME(o, s, v) && SM_CHECKMEMBERSSAME(o, sb, v); }
  bool notForm(const All& o) const { return !SM_CHECKMEMBERSSAME(o, i) || !SM_CHECKMEMBERSSAME(o, sb); }
};
struct Pool {
  std::vector<std::unique_ptr<int>> i; std::vector<std::unique_ptr<Streamed>> s; std::vector<std::unique_ptr<Bin>> b; std::vector<std::unique_ptr<NoStream>> n;
};
template <class T> T* mk(std::vector<std::unique_ptr<T>>& v, T x) { v.emplace_back(new T(x)); return v.back().get(); }
All gen(vm::Rng& r, Pool& p, size_t base = 0) {
  auto k = [&]() { return (int)r.below(2); };
  All a;
  a.i = k(); a.d = k() + 0.5; a.s = std::string(base + k(), 'x'); a.vec = std::vector<int>(base + k(), k()); if (base) { a.s[base - 1] = (char)('x' + k()); a.vec[base - 1] = k(); } if (k()) a.m[k()] = "v";
  a.ns.v = k(); a.st.v = k(); a.bin.v = k(); a.bin.noise = (int)r.next(); a.both.v = k();
  auto null = [&]() { return r.chance(1, 3); };
  a.pi = null() ? nullptr : mk(p.i, k()); a.ps = null() ? nullptr : mk(p.s, Streamed{k()}); a.pb = null() ? nullptr : mk(p.b, Bin{k(), (int)r.next()}); a.pn = null() ? nullptr : mk(p.n, NoStream{k()});
  a.cpi = null() ? nullptr : mk(p.i, k()); a.cpb = null() ? nullptr : mk(p.b, Bin{k(), 3});
  if (!null()) a.si = boost::make_shared<int>(k());
  if (!null()) a.sb = boost::make_shared<Bin>(Bin{k(), (int)r.next()});
  if (!null()) a.sn = boost::make_shared<NoStream>(NoStream{k()});
  if (!null()) a.cs = boost::make_shared<Streamed>(Streamed{k()});
  if (!null()) a.ss = boost::make_shared<std::string>(std::string(k(), 'y'));
  return a;
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case is a pair of objects with twenty members each (plain, container, streamable or not, raw/shared/const pointers that are null, shared, equal or different); distinct by the vector of expected member equalities and null patterns.");
  vm::run("members", 4000, [](vm::Rng& r, uint64_t) {
    Pool pool;
    size_t base = r.chance(1, 60) ? r.pickl<size_t>({255, 4096, 70000}) : 0;   // long members, whose last elements differ
    All a = gen(r, pool, base), b = gen(r, pool, base);
    if (r.chance(1, 2)) {   // equal except for at most one member
      All c = a;
      switch (r.below(21)) {
        case 0: c.i = b.i; break; case 1: c.d = b.d; break; case 2: c.s = b.s; break; case 3: c.vec = b.vec; break; case 4: c.m = b.m; break;
        case 5: c.ns = b.ns; break; case 6: c.st = b.st; break; case 7: c.bin = b.bin; break; case 8: c.both = b.both; break; case 9: c.pi = b.pi; break;
        case 10: c.ps = b.ps; break; case 11: c.pb = b.pb; break; case 12: c.pn = b.pn; break; case 13: c.cpi = b.cpi; break; case 14: c.cpb = b.cpb; break;
        case 15: c.si = b.si; break; case 16: c.sb = b.sb; break; case 17: c.sn = b.sn; break; case 18: c.cs = b.cs; break; case 19: c.ss = b.ss; break;
        default: break;
      }
      b = c;
    }
    bool verbose = r.chance(1, 2);
    SET_CHECKSAME_VERBOSITY(verbose);
    std::ostringstream cap;
    std::streambuf* old = std::cout.rdbuf(cap.rdbuf());
    std::vector<bool> want = a.expected(b);
    bool all = true; for (bool x : want) all = all && x;
    std::vector<bool> got = a.members(b);
    got.insert(got.begin() + 4, got.back()); got.pop_back();
    bool andAll = a.andAll(b), self = a.andAll(a), sym = b.andAll(a);
    std::string out = cap.str();
    // the explicit form decides about its own output, whatever was set before
    cap.str(""); SET_CHECKSAME_VERBOSITY(!verbose);
    bool v0 = a.andVerbose(b, false);
    std::string quietOut = cap.str();
    cap.str(""); SET_CHECKSAME_VERBOSITY(verbose);
    bool v1 = a.andVerbose(b, true);
    std::string loudOut = cap.str();
    cap.str(""); SET_CHECKSAME_VERBOSITY(!verbose);
    bool q = SM_CHECKSAME(a.st, b.st, false);
    quietOut += cap.str();
    cap.str(""); SET_CHECKSAME_VERBOSITY(verbose);
    bool nf = a.notForm(b);
    // the free form, on values and pointers
    SET_CHECKSAME_VERBOSITY(verbose);
    bool f1 = SM_CHECKSAME(a.i, b.i) && SM_CHECKSAME(a.s, b.s) && SM_CHECKSAME(a.pb, b.pb) && SM_CHECKSAME(a.sn, b.sn) && SM_CHECKSAME(a.cs, b.cs) && SM_CHECKSAME(a.bin, b.bin);
    bool f2 = SM_CHECKSAME(a.st, b.st, true) && SM_CHECKSAME(a.pi, b.pi, false);
    bool f3 = true; f3 = f3 && SM_CHECKSAME(a.cpb, b.cpb); 
    std::cout.rdbuf(old);
    uint64_t h = 0;
    for (size_t i = 0; i < want.size(); ++i) {
      VM_CHECK(got[i] == want[i], "member-equality", "member " << i << ": reported " << got[i] << ", is " << want[i]);
      h = h * 2 + want[i];
    }
    h = h * 2 + !a.pi; h = h * 2 + !a.sb; h = h * 2 + !b.pb; h = h * 2 + !b.cs; h = h * 2 + verbose;
    VM_CHECK(andAll == all, "conjunction", "all members joined with && gave " << andAll << ", expected " << all);
    VM_CHECK(sym == all && self, "conjunction", "not symmetric or not reflexive");
    VM_CHECK(v1 == (want[0] && want[2] && want[16]) && v0 == v1, "verbose-form", "the verbose form gave " << v1 << " / " << v0);
    VM_CHECK(quietOut.empty() && q == want[6], "verbose-explicit", "a comparison that is asked not to be verbose printed " << quietOut.size() << " bytes");
    VM_CHECK(loudOut.empty() == v1, "verbose-explicit", "a verbose comparison, equal " << v1 << ", printed " << loudOut.size() << " bytes");
    if (verbose) {
      static const char* names[] = {"i", "d", "s", "vec", "m", "ns", "st", "bin", "both", "pi", "ps", "pb", "pn", "cpi", "cpb", "si", "sb", "sn", "cs", "ss"};
      for (size_t i = 0; i < want.size(); ++i) if (!want[i]) {
        bool found = false;
        for (size_t at = out.find(names[i]); at != std::string::npos && !found; at = out.find(names[i], at + 1))
          found = (!at || !std::isalnum((unsigned char)out[at - 1])) && !std::isalnum((unsigned char)out[at + strlen(names[i])]);
        VM_CHECK(found, "verbose-output", "the difference of " << names[i] << " is not reported");
      }
    }
    VM_CHECK(nf == !(want[0] && want[16]), "negation", "negated form gave " << nf);
    VM_CHECK(f1 == (want[0] && want[2] && want[11] && want[17] && want[18] && want[7]), "free-form", "free form gave " << f1);
    VM_CHECK(f2 == (want[6] && want[9]) && f3 == want[14], "free-form", "free form gave " << f2 << f3);
    VM_CHECK(out.empty() == (!verbose || all), "verbose-output", (verbose ? "verbose" : "silent") << " comparison, equal " << all << ", printed " << out.size() << " bytes");
    vm::nontrivial(h);
    vm::event(all ? "equal-pairs" : "different-pairs");
  });
  return vm::finish();
}
