// C01: HashId and the integer Id types against byte-level models.
#include <set>
#include "vm.hpp"
#include "faultfile.hpp"
#include <sm/hash_id.hpp>
#include <sm/Id.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <algorithm>
#include <array>
#include <unordered_map>

SM_DEFINE_ID(MyId)
SM_DEFINE_ID_HASH(MyId)
class DerivedHash : public sm::HashId {};
SM_DEFINE_HASHID_HASH(DerivedHash);

namespace {
typedef std::array<uint64_t, 2> W;
W words(const sm::HashId& h) { W w; h.toUint64(w.data()); return w; }
std::string hexOf(const W& w) {
  unsigned char c[16]; std::memcpy(c, w.data(), 16);
  std::string s; char b[3];
  for (int i = 0; i < 16; ++i) { std::snprintf(b, 3, "%02x", c[i]); s += b; }
  return s;
}
W genW(vm::Rng& r) {
  W w;
  for (auto& x : w) x = r.chance(1, 3) ? r.pickl<uint64_t>({0, 1, ~0ull, 1ull << 63, 0xff, 0x0100000000000000ull}) : r.chance(1, 3) ? r.below(3) : r.next();
  return w;
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case is a set of identifier values (random, extreme and nearly equal), a text to parse, or one concurrent generation run; distinct by value / text / thread count.");
  vm::run("hash-id-values", 3000, [](vm::Rng& r, uint64_t) {
    W a = genW(r), b = r.chance(1, 3) ? a : genW(r);
    if (r.chance(1, 3)) { b = a; b[r.below(2)] ^= 1ull << r.below(64); }
    sm::HashId A(a.data()), B; B.fromUint64(b.data());
    VM_CHECK(words(A) == a && words(B) == b, "hash-id-words", "the words read back differ");
    std::ostringstream d; d << hexOf(a) << " vs " << hexOf(b);
    VM_CHECK((A == B) == (a == b) && (A != B) == (a != b), "hash-id-equality", d.str());
    VM_CHECK((A < B) == (a < b) && (B < A) == (b < a), "hash-id-order", d.str());
    VM_CHECK((A > B) == (a > b) && (B > A) == (b > a), "hash-id-order", d.str());
    VM_CHECK(A.isValid() == (a[0] || a[1]), "hash-id-valid", d.str());
    if (a == b) VM_CHECK(A.hashToSizeT() == B.hashToSizeT() && A.hashToSizeTFast() == B.hashToSizeTFast() && std::hash<sm::HashId>()(A) == std::hash<sm::HashId>()(B), "hash-id-hash", d.str());
    VM_CHECK(std::hash<sm::HashId>()(A) == A.hashToSizeT(), "hash-id-hash", d.str());
    // copies are independent
    sm::HashId C(A), D; D = A;
    VM_CHECK(words(C) == a && words(D) == a, "hash-id-copy", d.str());
    C.setInvalid();
    VM_CHECK(!C.isValid() && words(C) == (W{{0, 0}}) && words(A) == a && words(D) == a, "hash-id-invalidate", d.str());
    VM_CHECK(!sm::HashId().isValid(), "hash-id-default", "a default identifier is valid");
    // text
    std::string h = A.hexString();
    VM_CHECK(h == hexOf(a), "hex-text", "hex text " << h << " of " << hexOf(a));
    std::ostringstream os; os << A;
    VM_CHECK(os.str() == h, "hex-text", "streamed as " << os.str());
    sm::HashId E;
    VM_CHECK(E.fromHexString(h) && words(E) == a, "hex-round-trip", h);
    std::string up = h; for (auto& c : up) c = toupper(c);
    sm::HashId F;
    VM_CHECK(F.fromHexString(up) && words(F) == a, "hex-round-trip", "upper case " << up);
    vm::nontrivial(vm::combine(vm::combine(a[0], a[1]), vm::combine(b[0], b[1])));
  });
  vm::run("hash-id-order-laws", 500, [](vm::Rng& r, uint64_t) {
    // sorting is consistent with equality, and each distinct value is found in hashed containers
    int n = (int)r.range(2, 30);
    std::vector<sm::HashId> v; std::vector<W> m;
    for (int i = 0; i < n; ++i) { W w = genW(r); if (r.chance(1, 4) && !m.empty()) w = r.pick(m); m.push_back(w); v.push_back(sm::HashId(w.data())); }
    std::set<W> distinct(m.begin(), m.end());
    std::set<sm::HashId> s(v.begin(), v.end());
    std::unordered_map<sm::HashId, int> u;
    for (auto& x : v) u[x]++;
    VM_CHECK(s.size() == distinct.size(), "hash-id-order", s.size() << " in an ordered set, " << distinct.size() << " distinct");
    VM_CHECK(u.size() == distinct.size(), "hash-id-hash", u.size() << " in a hashed map, " << distinct.size() << " distinct");
    for (auto& w : distinct) {
      int c = (int)std::count(m.begin(), m.end(), w);
      VM_CHECK(u[sm::HashId(w.data())] == c, "hash-id-hash", "count differs");
      vm::nontrivial(vm::combine(w[0], w[1]));
    }
    // a stronger demand on hashing: flipping one bit changes the hash nearly always
    W a = m[0]; sm::HashId A(a.data());
    int same = 0, sameFast = 0;
    for (int b = 0; b < 128; ++b) { W c = a; c[b / 64] ^= 1ull << (b % 64); sm::HashId C(c.data()); same += C.hashToSizeT() == A.hashToSizeT(); sameFast += C.hashToSizeTFast() == A.hashToSizeTFast(); }
    VM_CHECK(same < 8 && sameFast < 8, "hash-id-hash-ignores-bits", same << " / " << sameFast << " of 128 single-bit changes leave the hash unchanged");
  });
  vm::run("hex-malformed", 4000, [](vm::Rng& r, uint64_t) {
    W a = genW(r), keep = genW(r);
    std::string h = hexOf(a);
    switch (r.below(6)) {
      case 0: h.resize(r.below(32)); break;
      case 1: h += r.chance(1, 2) ? "0" : "\n"; break;
      case 2: { int k = r.range(1, 3); while (k--) h[r.below(32)] = (char)r.below(256); break; }
      case 3: { int p = 2 * (int)r.below(16); const char* t = r.pickl({" 1", "+1", "-1", "0x", "1g", "g1", "1 ", "\t2", "0X", "\0""1", "..", "1.", "e+"}); h[p] = t[0]; h[p + 1] = t[1]; break; }
      case 4: h = std::string(r.below(40), r.pickl({'0', 'z', 'x', ' '})); break;
      default: h.insert(r.below(h.size()), 1, (char)r.below(256)); if (r.chance(1, 2)) h.erase(r.below(h.size()), 1); break;
    }
    bool ok = h.size() == 32;
    for (unsigned char c : h) ok = ok && isxdigit(c) && c < 128;
    sm::HashId A(keep.data());
    bool got = false, threw = false;
    try { got = A.fromHexString(h); } catch (const std::exception&) { threw = true; }
    VM_CHECK(!threw, "hex-malformed-throws", "reading \"" << vm::esc(h) << "\" threw");
    VM_CHECK(got == ok, got ? "hex-malformed-accepted" : "hex-valid-refused", "reading \"" << vm::esc(h) << "\" returned " << got);
    if (!ok) VM_CHECK(words(A) == keep, "hex-malformed-changes", "refusing \"" << vm::esc(h) << "\" changed the identifier to " << A.hexString());
    vm::nontrivial(vm::hashStr(h));
    if (!ok) vm::event("malformed-texts");
  });
  vm::run("concurrent-generation", 30, [](vm::Rng& r, uint64_t) {
    int nt = (int)r.range(2, 8), per = 1500;
    std::vector<std::vector<sm::HashId>> out(nt);
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t]() {
        out[t].reserve(per);
        ready++; while (ready < nt) {}
        for (int i = 0; i < per; ++i) { if (i & 1) out[t].push_back(sm::HashId::random()); else { sm::HashId h; h.randomize(); out[t].push_back(h); } }
      });
    for (auto& t : th) t.join();
    std::set<W> all;
    size_t n = 0;
    for (auto& v : out) for (auto& h : v) { all.insert(words(h)); ++n; VM_CHECK(h.isValid(), "random-invalid", "a generated identifier is invalid"); }
    VM_CHECK(all.size() == n, "random-duplicates", (n - all.size()) << " of " << n << " identifiers generated by " << nt << " threads are duplicates");
    // both halves are random
    std::set<uint64_t> h0, h1;
    for (auto& w : all) { h0.insert(w[0]); h1.insert(w[1]); }
    VM_CHECK(h0.size() + 3 > n && h1.size() + 3 > n, "random-half-constant", "only " << h0.size() << " / " << h1.size() << " distinct words in " << n << " identifiers");
    vm::event("generated", n);
    vm::nontrivial(*h0.begin());
  });
  vm::run("integer-ids", 2000, [](vm::Rng& r, uint64_t) {
    auto gen = [&]() { return r.chance(1, 3) ? r.pickl<uint64_t>({0, 1, ~0ull, ~0ull - 1, 1ull << 63, 1ull << 32, 0xffffffff}) : r.chance(1, 2) ? r.below(4) : r.next(); };
    uint64_t a = gen(), b = gen();
    MyId A(a), B(b);
    std::ostringstream d; d << a << " vs " << b;
    VM_CHECK((A == B) == (a == b) && (A != B) == (a != b) && (A < B) == (a < b) && (A > B) == (a > b) && (A <= B) == (a <= b) && (A >= B) == (a >= b), "id-order", d.str());
    VM_CHECK(A.isBinaryEqual(B) == (a == b), "id-order", d.str());
    VM_CHECK(A.getId() == a && A.value() == a && A.isSet() == (a != ~0ull), "id-value", d.str());
    VM_CHECK(!MyId().isSet() && !sm::Id().isSet(), "id-default", "a default id is set");
    if (a == b) VM_CHECK(std::hash<MyId>()(A) == std::hash<MyId>()(B) && boost::hash<MyId>()(A) == boost::hash<MyId>()(B), "id-hash", d.str());
    VM_CHECK(std::hash<MyId>()(A) == std::hash<uint64_t>()(a), "id-hash", d.str());
    MyId C(a); sm::Id old = C++;
    VM_CHECK(old.getId() == a && C.getId() == a + 1, "id-increment", "post-increment of " << a << " gave " << old << ", now " << C);
    MyId D(a); sm::Id& ref = ++D;
    VM_CHECK(&ref == &D && D.getId() == a + 1, "id-increment", "pre-increment of " << a);
    MyId S(a), T(b); S.swap(T);
    VM_CHECK(S.getId() == b && T.getId() == a, "id-swap", d.str());
    S = A; VM_CHECK(S == A, "id-assign", d.str());
    S.clear(); VM_CHECK(!S.isSet() && A.getId() == a, "id-clear", d.str());
    std::ostringstream os; os << A;
    VM_CHECK(os.str() == std::to_string(a), "id-text", os.str());
    std::stringstream ss;
    { boost::archive::text_oarchive o(ss); const MyId& c = A; o << c; }
    MyId L; { boost::archive::text_iarchive i(ss); i >> L; }
    VM_CHECK(L.getId() == a, "id-serialization", a << " came back as " << L);
    if (r.chance(1, 20)) {
      std::set<uint64_t> drawn;
      MyId R(a);
      for (int i = 0; i < 8; ++i) { R.setRandom(); VM_CHECK(R.isSet(), "id-random", "a random id is not set"); drawn.insert(R.getId()); }
      VM_CHECK(drawn.size() > 1, "id-random", "eight random ids are all " << R);
    }
    vm::nontrivial(vm::combine(a, b));
  });
  return vm::finish();
}
