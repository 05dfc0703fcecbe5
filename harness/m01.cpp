// sm_matrix_archive. Modes: "roundtrip" (M01), "damage" (M02), "model" (M03), "fault" (M04).
#include "vm.hpp"
#include "faultfile.hpp"
#include "writefault.hpp"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
#include <sm/MatrixArchive.hpp>
#include <errno.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace {
using sm::MatrixArchive;
typedef Eigen::MatrixXd M;

// What an archive holds, kept by the monitor.
struct Val {
  bool isString = false;
  M m;
  std::string s;
};
typedef std::map<std::string, Val> Model;

bool sameM(const M& a, const M& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (Eigen::Index i = 0; i < a.size(); ++i) if (vm::bits(a.data()[i]) != vm::bits(b.data()[i])) return false;
  return true;
}
bool same(const Val& a, const Val& b) { return a.isString == b.isString && (a.isString ? a.s == b.s : sameM(a.m, b.m)); }
std::string show(const Val& v) {
  if (v.isString) return "string of " + std::to_string(v.s.size()) + " bytes";
  return "matrix " + std::to_string(v.m.rows()) + "x" + std::to_string(v.m.cols());
}
Model contents(const MatrixArchive& a) {
  Model r;
  for (auto it = a.begin(); it != a.end(); ++it) { Val v; v.m = it->second; r[it->first] = v; }
  for (auto& s : a.getStrings()) {
    VM_CHECK(!r.count(s.first), "name-holds-two-values", "\"" << s.first << "\" is a matrix and a string at once");
    Val v; v.isString = true; v.s = s.second; r[s.first] = v;
  }
  return r;
}
std::string diff(const Model& want, const Model& got) {
  for (auto& w : want) {
    auto it = got.find(w.first);
    if (it == got.end()) return "\"" + w.first + "\" (" + show(w.second) + ") is missing";
    if (!same(w.second, it->second)) return "\"" + w.first + "\" was given a " + show(w.second) + " and holds a " + show(it->second) + " with other contents";
  }
  for (auto& g : got) if (!want.count(g.first)) return "\"" + g.first + "\" (" + show(g.second) + ") was never stored";
  return "";
}
void check(const Model& want, const MatrixArchive& a, const std::string& key, const std::string& what) {
  std::string d = diff(want, contents(a));
  if (!d.empty()) vm::fail(key, what + ": " + d);
  size_t s = 0;
  for (auto& w : want) s += w.second.isString;
  VM_CHECK(a.size() == want.size() && a.sizeStrings() == s && a.sizeMatrices() == want.size() - s, key + "/size",
           what << ": size " << a.size() << " = " << a.sizeMatrices() << " + " << a.sizeStrings() << " for " << want.size() << " entries");
  vm::event("archive-compared");
  vm::event("entries-compared", want.size());
}

// ------------------------------------------------------------ generators
const char* kFirst = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
const char* kRest = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
std::string anyName(vm::Rng& r) {
  size_t n = r.pickl<size_t>({1, 2, 5, 31, 32, (size_t)r.range(1, 32)});
  std::string s(1, kFirst[r.below(52)]);
  while (s.size() < n) s += kRest[r.below(63)];
  return s;
}
// few names, so that operations meet; two of them share their first 31 characters, two are a prefix of each other
std::string name(vm::Rng& r) {
  static const std::vector<std::string> pool = {"a", "A", "ab", "S", "B", "x1", std::string(31, 'q') + "1", std::string(31, 'q') + "2", std::string(31, 'q'), "T_wc"};
  return r.chance(1, 8) ? anyName(r) : r.pick(pool);
}
std::string badName(vm::Rng& r) {
  switch (r.below(9)) {
    case 0: return "";
    case 1: return std::string(33 + r.below(40), 'n');
    case 2: return std::string(1, (char)r.pickl({'0', '9', '_', ' ', '-', '.', '@', '[', '`', '{', '\0', '\n'})) + "abc";
    case 3: return std::string("ab") + (char)r.pickl({' ', '-', '.', '@', '[', '`', '{', '/', ':', '\0', '\n', '\t'});
    case 4: return std::string("ab") + (char)r.pickl({' ', '-', '.', '\0'}) + "cd";
    case 5: return std::string("a") + (char)(128 + r.below(128));
    case 6: return std::string(1, (char)(128 + r.below(128)));
    case 7: return " abc";
    default: return anyName(r).substr(0, 31) + "!";
  }
}
M matrix(vm::Rng& r, int maxSide) {
  int rows, cols;
  switch (r.below(7)) {
    case 0: rows = cols = 1; break;
    case 1: rows = r.range(0, maxSide); cols = 1; break;
    case 2: rows = 1; cols = r.range(0, maxSide); break;
    case 3: rows = 0; cols = r.below(4); break;
    case 4: rows = r.below(4); cols = 0; break;
    default: rows = r.range(1, maxSide); cols = r.range(1, maxSide);
  }
  M m(rows, cols);
  for (Eigen::Index i = 0; i < m.size(); ++i) m.data()[i] = r.anyDouble(false);
  return m;
}
std::string str(vm::Rng& r, int maxLen) {
  int n = r.pickl<int>({0, 1, (int)r.range(0, maxLen), (int)r.range(0, 20)});
  std::string s;
  for (int i = 0; i < n; ++i) s += r.chance(1, 4) ? r.pickl({'\0', 'A', 'S', 'B', ' ', '\n', '\x1a', '\xff'}) : (char)r.below(256);
  return s;
}
Val val(vm::Rng& r, int maxSide) {
  Val v;
  if (r.chance(1, 3)) { v.isString = true; v.s = str(r, 300); }
  else v.m = matrix(r, maxSide);
  return v;
}
Model model(vm::Rng& r, int maxN, int maxSide) {
  Model m;
  int n = r.below(maxN + 1);
  for (int i = 0; i < n; ++i) m[r.chance(1, 2) ? anyName(r) : name(r)] = val(r, maxSide);
  return m;
}
void put(MatrixArchive& a, const std::string& n, const Val& v, vm::Rng& r) {
  if (v.isString) { a.setString(n, v.s); return; }
  if (v.m.size() == 1 && r.chance(1, 2)) { a.setScalar(n, v.m(0, 0)); return; }
  if (v.m.cols() == 1 && r.chance(1, 2)) { Eigen::VectorXd x = v.m.col(0); if (r.chance(1, 2)) a.setVectorXd(n, x); else a.setVector(n, x); return; }
  switch (r.below(4)) {
    case 0: a.setMatrixXd(n, v.m); break;
    case 1: {  // through an expression in another storage order
      Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> rm = v.m;
      a.setMatrix(n, rm);
      break;
    }
    case 2: {  // a block of a larger matrix
      M big = M::Constant(v.m.rows() + 2, v.m.cols() + 3, 7);
      big.block(1, 2, v.m.rows(), v.m.cols()) = v.m;
      a.setMatrix(n, big.block(1, 2, v.m.rows(), v.m.cols()));
      break;
    }
    default: a.setMatrix(n, v.m);
  }
}
MatrixArchive build(const Model& m, vm::Rng& r) {
  MatrixArchive a;
  for (auto& e : m) put(a, e.first, e.second, r);
  return a;
}
std::set<std::string> selection(vm::Rng& r, const Model& m) {
  std::set<std::string> s;
  for (auto& e : m) if (r.chance(1, 2)) s.insert(e.first);
  if (r.chance(1, 3)) s.insert("notThere");
  return s;
}
Model restricted(const Model& m, const std::set<std::string>& s) {
  if (s.empty()) return m;
  Model r;
  for (auto& e : m) if (s.count(e.first)) r[e.first] = e.second;
  return r;
}
uint64_t hashOf(const Model& m) {
  uint64_t h = 1;
  for (auto& e : m) {
    h = vm::combine(h, vm::hashStr(e.first));
    h = vm::combine(h, e.second.isString ? vm::hashStr(e.second.s) : vm::combine(e.second.m.rows(), e.second.m.cols()));
    for (Eigen::Index i = 0; i < e.second.m.size(); ++i) h = vm::combine(h, vm::bits(e.second.m.data()[i]));
  }
  return h;
}

// ------------------------------------------------------------ the block format, as the Matlab functions write and read it
void u32(std::string& o, uint32_t v) { o.append(reinterpret_cast<const char*>(&v), 4); }
std::string block(const std::string& n, const Val& v) {
  std::string o(1, v.isString ? 'S' : 'A');
  o += std::string(32 - n.size(), ' ') + n;
  if (v.isString) { u32(o, v.s.size()); o += v.s; }
  else { u32(o, v.m.rows()); u32(o, v.m.cols()); o.append(reinterpret_cast<const char*>(v.m.data()), v.m.size() * 8); }
  return o + "B";
}
bool validName(const std::string& n) {
  if (n.empty() || n.size() > 32) return false;
  for (size_t i = 0; i < n.size(); ++i) if (!std::strchr(i ? kRest : kFirst, n[i]) || !n[i]) return false;
  return true;
}
struct Entry { std::string name; Val v; size_t end; };
// The blocks stored completely, in order; ok: the file consists of nothing else.
std::vector<Entry> parse(const std::string& d, bool& ok) {
  std::vector<Entry> r;
  size_t p = 0;
  ok = false;
  while (p < d.size()) {
    char kind = d[p];
    if (kind != 'A' && kind != 'S') return r;
    size_t h = kind == 'A' ? 8 : 4;
    if (d.size() - p < 1 + 32 + h) return r;
    Entry e;
    e.name = std::string(d.c_str() + p + 1, strnlen(d.c_str() + p + 1, 32));
    auto sp = [](char c) { return c == ' ' || (c >= '\t' && c <= '\r'); };
    while (!e.name.empty() && sp(e.name.front())) e.name.erase(0, 1);
    while (!e.name.empty() && sp(e.name.back())) e.name.pop_back();
    uint32_t a = 0, b = 1;
    std::memcpy(&a, d.data() + p + 33, 4);
    if (kind == 'A') std::memcpy(&b, d.data() + p + 37, 4);
    size_t rest = d.size() - p - 33 - h;
    unsigned __int128 bytes = (unsigned __int128)a * b * (kind == 'A' ? 8 : 1);
    if (bytes + 1 > rest) return r;
    const char* q = d.data() + p + 33 + h;
    if (q[(size_t)bytes] != 'B') return r;
    if (kind == 'S') { e.v.isString = true; e.v.s.assign(q, (size_t)bytes); }
    else { e.v.m.resize(a, b); if (bytes) std::memcpy(e.v.m.data(), q, (size_t)bytes); }
    p += 33 + h + (size_t)bytes + 1;
    e.end = p;
    r.push_back(e);
  }
  ok = true;
  return r;
}

std::string tmp(const std::string& n) { return vm::scratch() + "/" + n; }

// ------------------------------------------------------------ M01
void roundtrip(vm::Rng& r, uint64_t i) {
  Model m = model(r, 6, r.chance(1, 10) ? 90 : 9);
  MatrixArchive a = build(m, r);
  check(m, a, "set-lost", "after setting every entry");
  std::string f = tmp("rt.ama");
  ::unlink(f.c_str());
  std::set<std::string> sel = r.chance(1, 2) ? selection(r, m) : std::set<std::string>();
  switch (sel.empty() ? r.below(4) : 2 + r.below(2)) {
    case 0: a.save(f); break;
    case 1: a.save(boost::filesystem::path(f)); break;
    case 2: a.save(boost::filesystem::path(f), sel); break;
    default: { std::ofstream o(f, std::ios::binary); a.save(o, sel); }
  }
  check(m, a, "save-changes-archive", "after saving");
  Model saved = restricted(m, sel);
  // the file is what the format says, block for block (in any order)
  {
    bool ok;
    std::vector<Entry> es = parse(vm::slurp(f), ok);
    Model inFile;
    for (auto& e : es) { VM_CHECK(!inFile.count(e.name), "block-twice", "\"" << e.name << "\" is in the file twice"); inFile[e.name] = e.v; }
    std::string d = diff(saved, inFile);
    if (!ok || !d.empty()) vm::fail("file-format", "the saved file does not hold the archive in its block format: " + (ok ? d : "a block is malformed or incomplete"));
    vm::event("blocks-written", es.size());
  }
  MatrixArchive b;
  if (r.chance(1, 2)) b.load(f); else b.load(boost::filesystem::path(f));
  check(saved, b, "roundtrip-differs", "after save and load");
  b.load(f);
  check(saved, b, "second-load-differs", "after loading the same file twice");
  if (!saved.empty()) vm::nontrivial(hashOf(saved));
  // a second archive saved over the first replaces it; another appended adds to it
  Model m2 = model(r, 5, 5);
  MatrixArchive a2 = build(m2, r);
  Model want = saved;
  std::set<std::string> sel2 = r.chance(1, 2) ? selection(r, m2) : std::set<std::string>();
  if (r.chance(1, 3)) {
    a2.save(boost::filesystem::path(f), sel2);
    want = restricted(m2, sel2);
    vm::event("overwrite");
  } else {
    if (!sel2.empty()) a2.append(boost::filesystem::path(f), sel2);
    else if (r.chance(1, 2)) a2.append(f);
    else a2.append(boost::filesystem::path(f));
    for (auto& e : restricted(m2, sel2)) want[e.first] = e.second;
    vm::event("append");
  }
  MatrixArchive c;
  c.load(f);
  check(want, c, "append-or-overwrite-lost", "after a second archive was written to the file");
  // loading a selection into an archive that holds something already
  Model m3 = model(r, 4, 4);
  MatrixArchive d = build(m3, r);
  std::set<std::string> sel3 = selection(r, want);
  d.load(boost::filesystem::path(f), sel3);
  for (auto& e : restricted(want, sel3)) m3[e.first] = e.second;
  check(m3, d, "load-into-archive", "after loading a selection into an archive with contents");
  if (i == 0) vm::sample("entries " + std::to_string(saved.size()) + ", file " + std::to_string(vm::slurp(f).size()) + " bytes");
}
// Files as the Matlab counterpart writes them, with repeated names.
void foreign(vm::Rng& r, uint64_t) {
  std::string d;
  Model want;
  int n = r.below(8);
  for (int i = 0; i < n; ++i) {
    std::string nm = name(r);
    Val v = val(r, 6);
    d += block(nm, v);
    want[nm] = v;
  }
  std::string f = tmp("foreign.ama");
  vm::spit(f, d);
  MatrixArchive a;
  a.load(f);
  check(want, a, "foreign-file-differs", "after loading a file written by another implementation");
  if (n) vm::nontrivial(vm::hashStr(d));
}
// The command line tool lists exactly what the files hold.
}
int lsma_main(int argc, char** argv);
namespace {
void lister(vm::Rng& r, uint64_t) {
  int n = r.range(0, 3);
  std::vector<std::string> files;
  std::ostringstream want;
  size_t listed = 0;
  for (int k = 0; k < n; ++k) {
    Model m = model(r, 5, 5);
    std::string f = tmp(("list" + std::to_string(k) + ".ama").c_str());
    build(m, r).save(f);
    files.push_back(f);
    std::string prefix = n > 1 ? f + ":" : "";
    for (auto& e : m) if (e.second.isString) want << prefix << e.first << " : " << e.second.s << "\n";
    for (auto& e : m) if (!e.second.isString) want << prefix << e.first << " :\n" << e.second.m << "\n";
    listed += m.size();
  }
  std::vector<char*> argv{(char*)"lsma"};
  for (auto& f : files) argv.push_back(&f[0]);
  argv.push_back(nullptr);
  std::ostringstream out, err;
  std::streambuf *o = std::cout.rdbuf(out.rdbuf()), *e = std::cerr.rdbuf(err.rdbuf());
  int rc = lsma_main(n + 1, argv.data());
  std::cout.rdbuf(o); std::cerr.rdbuf(e);
  if (n == 0) VM_CHECK(rc != 0 && out.str().empty() && !err.str().empty(), "lister-usage", "lsma without arguments returned " << rc);
  else VM_CHECK(rc == 0 && out.str() == want.str(), "lister", "lsma (status " << rc << ") prints " << vm::esc(out.str().substr(0, 600)) << " instead of " << vm::esc(want.str().substr(0, 600)));
  for (auto& f : files) ::unlink(f.c_str());
  vm::event("listed-entries", listed);
  if (listed) vm::nontrivial(vm::hashStr(want.str()));
}
// Sizes around the buffer boundaries of a reader that works in pieces.
void large(vm::Rng& r, uint64_t i) {
  static const size_t sizes[] = {(1 << 17) - 1, 1 << 17, (1 << 17) + 1, 1 << 16, 8192, 512, 511, 3 << 17, 300001};
  size_t n = sizes[i % 9];
  Model m;
  Val v; v.m.resize(n, 1);
  for (size_t k = 0; k < n; ++k) { uint64_t u = r.next(); std::memcpy(&v.m.data()[k], &u, 8); }
  m["big"] = v;
  Val w; w.m = v.m.topRows(n / 7 * 7); w.m.resize(n / 7, 7);
  m["big7"] = w;
  Val s; s.isString = true; s.s.resize(n * 8 + r.below(3));
  for (char& c : s.s) c = (char)r.below(256);
  m["text"] = s;
  std::string f = tmp("large.ama");
  MatrixArchive a = build(m, r);
  a.save(f);
  MatrixArchive b;
  b.load(f);
  check(m, b, "roundtrip-differs", "after save and load of large values");
  vm::nontrivial(vm::combine(i, n));
  ::unlink(f.c_str());
}

// Many entries in one archive.
void many(vm::Rng& r, uint64_t i) {
  Model m;
  for (int k = r.pickl<int>({256, 1000, 4000}); k > 0; --k) { std::string n = r.chance(1, 2) ? anyName(r) : "n" + std::to_string(k); m[n] = val(r, 4); }
  std::string f = tmp("many.ama");
  MatrixArchive a = build(m, r);
  check(m, a, "many-entries", "an archive of many entries");
  a.save(f);
  MatrixArchive b;
  b.load(f);
  check(m, b, "roundtrip-differs", "after save and load of many entries");
  vm::nontrivial(vm::combine(i, m.size()));
  ::unlink(f.c_str());
}

// ------------------------------------------------------------ M02
std::atomic<bool> gWatch{false};
std::atomic<size_t> gMax{0};
void onMalloc(const volatile void*, size_t n) {
  if (!gWatch.load(std::memory_order_relaxed)) return;
  size_t m = gMax.load();
  while (n > m && !gMax.compare_exchange_weak(m, n)) {}
}
void onFree(const volatile void*) {}

void loadDamaged(const std::string& d, const std::string& how, vm::Rng& r) {
  std::string f = tmp("damaged.ama");
  vm::spit(f, d);
  bool clean;
  std::vector<Entry> es = parse(d, clean);
  std::set<std::string> sel;
  if (r.chance(1, 4)) {
    for (auto& e : es) if (r.chance(1, 2)) sel.insert(e.name);
    sel.insert("a");
  }
  Model before;
  if (r.chance(1, 4)) before = model(r, 3, 3);
  MatrixArchive a = build(before, r);
  bool threw = false, otherThrow = false;
  std::string what;
  gMax = 0;
  gWatch = true;
  try {
    if (sel.empty()) a.load(f); else a.load(boost::filesystem::path(f), sel);
  } catch (const sm::MatrixArchiveException& e) { threw = true; what = e.what(); }
  catch (const std::exception& e) { threw = otherThrow = true; what = e.what(); }
  gWatch = false;
  VM_CHECK(!otherThrow, "not-a-library-exception", how << ": load failed with " << what);
  VM_CHECK(gMax.load() <= 32 * d.size() + (16u << 20), "allocation-out-of-proportion",
           how << ": a file of " << d.size() << " bytes made load allocate " << gMax.load() << " bytes at once");
  // all states reachable by applying a prefix of the complete blocks
  std::vector<Model> states(1, before);
  bool namesOk = true;
  for (auto& e : es) {
    if (!sel.empty() && !sel.count(e.name)) continue;
    if (!validName(e.name)) { namesOk = false; break; }
    Model n = states.back();
    n[e.name] = e.v;
    states.push_back(n);
  }
  Model got = contents(a);
  if (!threw) {
    vm::event("loaded");
    VM_CHECK(clean, "damaged-file-accepted", how << ": load returned normally although the file is not a sequence of complete blocks (" << es.size() << " complete)");
    VM_CHECK(namesOk, "invalid-name-accepted", how << ": load accepted a block with an invalid name");
    std::string df = diff(states.back(), got);
    if (clean && namesOk && !df.empty()) vm::fail("misread", how + ": " + df);
  } else {
    vm::event("refused");
    VM_CHECK(!clean || !namesOk, "intact-file-refused", how << ": the file is intact and load threw " << what);
    bool found = false;
    for (auto& s : states) found = found || diff(s, got).empty();
    VM_CHECK(found, "misread", how << ": after the refusal the archive holds something that is not in the file: " << diff(states.back(), got));
  }
  vm::nontrivial(vm::combine(vm::hashStr(d), threw));
}
std::string fileOf(vm::Rng& r, int maxN, int side) {
  std::string d;
  int n = r.range(1, maxN);
  for (int i = 0; i < n; ++i) d += block(name(r), val(r, side));
  return d;
}
void truncations(vm::Rng& r, uint64_t i) {
  // saved by the library itself, cut at every byte
  Model m = model(r, 3, 2);
  Val v; v.m.resize(2, 1); v.m << 3, 4; m["z"] = v;
  MatrixArchive a = build(m, r);
  std::string f = tmp("whole.ama");
  a.save(f);
  std::string d = vm::slurp(f);
  size_t step = d.size() > 400 ? 1 + d.size() / 400 : 1;
  for (size_t n = r.below(step); n < d.size(); n += step) { vm::tick(); loadDamaged(d.substr(0, n), "cut to " + std::to_string(n) + " of " + std::to_string(d.size()) + " bytes", r); }
  vm::event("truncation-points", d.size() / step);
  if (i == 0) vm::sample("every byte of a " + std::to_string(d.size()) + " byte archive as truncation point");
}
void corruption(vm::Rng& r, uint64_t) {
  std::string d = fileOf(r, 4, 3);
  for (int k = 0; k < 12; ++k) {
    std::string e = d;
    std::string how;
    int n = r.range(1, 3);
    for (int j = 0; j < n; ++j) {
      size_t p = e.empty() ? 0 : r.below(e.size());
      switch (r.below(7)) {
        case 0: if (!e.empty()) { e[p] ^= 1 << r.below(8); how += " bit flip at " + std::to_string(p); } break;
        case 1: if (!e.empty()) { e[p] = (char)r.below(256); how += " byte set at " + std::to_string(p); } break;
        case 2: e.erase(p, r.range(1, 12)); how += " bytes removed at " + std::to_string(p); break;
        case 3: e.insert(p, std::string(r.range(1, 12), (char)r.pickl({'A', 'B', 'S', ' ', '\0', 'x'}))); how += " bytes inserted at " + std::to_string(p); break;
        case 4: {  // a size field
          size_t q = 33 + 4 * r.below(2);
          uint32_t v = r.pickl<uint32_t>({0, 1, 2, 0x20000000u, 0x40000000u, 0x80000000u, 0xffffffffu, 0x10000u, 0x7fffffffu, (uint32_t)r.below(1000), 100000000u});
          if (e.size() >= q + 4) { std::memcpy(&e[q], &v, 4); how += " size field set to " + std::to_string(v); }
          break;
        }
        case 5: e += r.pickl<std::string>({"A", "S", "B", std::string(33, ' '), std::string("A") + std::string(31, ' ') + "a", "\n"}); how += " trailing bytes"; break;
        default: {  // the name field
          size_t q = 1 + r.below(32);
          if (e.size() > q) { e[q] = (char)r.pickl({' ', '\0', '_', '1', 'q', '\t', '\xff', '-'}); how += " name byte " + std::to_string(q); }
        }
      }
    }
    loadDamaged(e, how, r);
  }
}
void sizes(vm::Rng& r, uint64_t i) {
  // both sizes of a matrix block that is otherwise intact: products that wrap in 32 or 64 bits included
  static const uint32_t s[] = {0, 1, 2, 3, 0xffff, 0x10000, 0x10001, 0x1fffffff, 0x20000000, 0x20000001, 0x40000000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu};
  Val v; v.m = M::Constant(2, 1, 5.5);
  std::string d = block("ab", v);
  uint32_t a = s[i / 16 % 16], b = s[i % 16];
  std::memcpy(&d[33], &a, 4);
  std::memcpy(&d[37], &b, 4);
  std::string pre = r.chance(1, 2) ? block("first", v) : "";
  loadDamaged(pre + d + (r.chance(1, 3) ? block("last", v) : ""), "matrix sizes " + std::to_string(a) + "x" + std::to_string(b), r);
  Val t; t.isString = true; t.s = "hello";
  std::string e = block("ab", t);
  std::memcpy(&e[33], &a, 4);
  loadDamaged(pre + e, "string size " + std::to_string(a), r);
}
void arbitrary(vm::Rng& r, uint64_t) {
  std::string d;
  int n = r.below(200);
  for (int i = 0; i < n; ++i) d += r.chance(1, 2) ? r.pickl({'A', 'S', 'B', ' ', 'a', '\0', '\x01', '\n'}) : (char)r.below(256);
  if (r.chance(1, 2) && n) d[0] = r.pickl({'A', 'S'});
  loadDamaged(d, "arbitrary bytes", r);
}
void notFiles(vm::Rng&, uint64_t) {
  for (std::string p : {tmp("does-not-exist.ama"), vm::scratch(), tmp("no-dir") + "/x.ama", std::string("")}) {
    MatrixArchive a;
    a.setScalar("a", 1);
    bool threw = false;
    try { a.load(p); } catch (const sm::MatrixArchiveException&) { threw = true; }
    VM_CHECK(threw, "unreadable-accepted", "loading \"" << p << "\", which is not a readable file, returned normally");
    VM_CHECK(a.size() == 1 && a.getScalar("a") == 1, "misread", "a failed load changed the archive");
    vm::event("unreadable");
  }
}

// ------------------------------------------------------------ M03
template <class F> bool refuses(F f) {
  try { f(); } catch (const sm::MatrixArchiveException&) { return true; }
  return false;
}
void query(const MatrixArchive& ca, MatrixArchive& a, const std::string& n, const Model& m, vm::Rng& r) {
  auto it = m.find(n);
  bool mat = it != m.end() && !it->second.isString, s = it != m.end() && it->second.isString;
  vm::event(mat ? "query-matrix" : s ? "query-string" : "query-missing");
  std::string w = "\"" + vm::esc(n) + "\" (" + (it == m.end() ? "missing" : show(it->second)) + ")";
  M out = M::Constant(2, 3, -7);
  std::string so = "before";
  Eigen::VectorXd vo = Eigen::VectorXd::Constant(3, -7);
  double d = -7, d2 = -7;
  bool f1 = refuses([&] { ca.getMatrix(n, out); }), f2 = refuses([&] { out = ca.getMatrix(n); }), f3 = refuses([&] { out = a.getMatrix(n); });
  VM_CHECK(f1 == !mat && f2 == !mat && f3 == !mat, "getMatrix-existence", "getMatrix of " << w << (f1 || f2 || f3 ? " threw" : " returned"));
  if (mat && !f1) VM_CHECK(sameM(out, it->second.m), "getMatrix-value", "getMatrix of " << w << " returned other contents");
  bool g1 = refuses([&] { ca.getString(n, so); }), g2 = refuses([&] { so = ca.getString(n); }), g3 = refuses([&] { so = a.getString(n); });
  VM_CHECK(g1 == !s && g2 == !s && g3 == !s, "getString-existence", "getString of " << w << (g1 || g2 || g3 ? " threw" : " returned"));
  if (s && !g1) VM_CHECK(so == it->second.s, "getString-value", "getString of " << w << " returned another string");
  bool vec = mat && it->second.m.cols() == 1, sca = mat && it->second.m.size() == 1 && it->second.m.cols() == 1;
  bool h1 = refuses([&] { ca.getVector(n, vo); });
  VM_CHECK(h1 == !vec, "getVector-kind", "getVector of " << w << (h1 ? " threw" : " returned"));
  if (vec && !h1) VM_CHECK(sameM(M(vo), it->second.m), "getVector-value", "getVector of " << w << " returned other contents");
  bool k1 = refuses([&] { d = ca.getScalar(n); }), k2 = refuses([&] { ca.getScalar(n, d2); });
  VM_CHECK(k1 == !sca && k2 == !sca, "getScalar-kind", "getScalar of " << w << (k1 || k2 ? " threw" : " returned"));
  if (sca && !k1) VM_CHECK(vm::bits(d) == vm::bits(it->second.m(0, 0)) && vm::bits(d2) == vm::bits(d), "getScalar-value", "getScalar of " << w << " returned " << d);
  auto fi = ca.find(n);
  VM_CHECK((fi != ca.end()) == mat, "find", "find of " << w << " disagrees");
  if (mat && fi != ca.end()) VM_CHECK(fi->first == n && sameM(fi->second, it->second.m), "find", "find of " << w << " returned another entry");
  (void)r;
}
void history(vm::Rng& r, uint64_t i) {
  MatrixArchive a;
  Model m;
  uint64_t h = 0;
  std::string trace;
  int n = r.range(5, 60);
  for (int k = 0; k < n; ++k) {
    bool bad = r.chance(1, 6);
    std::string nm = bad ? badName(r) : name(r);
    int op = r.below(16);
    h = vm::combine(vm::combine(h, op), vm::hashStr(nm));
    if (trace.size() < 400) trace += std::to_string(op) + ":" + vm::esc(nm).substr(0, 6) + " ";
    vm::event("op-" + std::to_string(op));
    std::string what = "operation " + std::to_string(op) + " on \"" + vm::esc(nm) + "\"";
    switch (op) {
      case 0: case 1: case 2: case 3: {  // set one kind
        Val v;
        std::function<void()> f;
        double d = r.anyDouble(false);
        if (op == 0) { v.m.resize(1, 1); v.m(0, 0) = d; f = [&] { a.setScalar(nm, d); }; }
        else if (op == 1) { v.m = matrix(r, 5); v.m.conservativeResize(v.m.rows(), 1); if (v.m.size() && true) v.m.setConstant(d); f = [&] { Eigen::VectorXd x = v.m.col(0); if (k % 2) a.setVector(nm, x); else a.setVectorXd(nm, x); }; }
        else if (op == 2) { v.m = matrix(r, 5); f = [&] { put(a, nm, v, r); }; }
        else { v.isString = true; v.s = str(r, 40); f = [&] { a.setString(nm, v.s); }; }
        bool refused = refuses(f);
        VM_CHECK(refused == bad, bad ? "invalid-name-accepted" : "valid-name-refused", what << (refused ? " was refused" : " was accepted"));
        if (!refused && !bad) m[nm] = v;
        break;
      }
      case 4: {  // setVector with something that is not a column
        M x = matrix(r, 4);
        if (x.cols() == 1) x.conservativeResize(x.rows(), 2);
        if (x.cols() == 2) x.setZero();
        bool refused = refuses([&] { a.setVector(nm, x); });
        VM_CHECK(refused, "non-vector-accepted", what << ": a " << x.rows() << "x" << x.cols() << " matrix was accepted as a vector");
        break;
      }
      case 5: case 6: {  // createMatrix
        bool over = op == 6;
        int rows = r.below(5), cols = r.below(5);
        bool wasM = m.count(nm) && !m[nm].isString, wasS = m.count(nm) && m[nm].isString;
        M fill = M::Constant(rows, cols, 0);
        for (Eigen::Index q = 0; q < fill.size(); ++q) fill.data()[q] = r.anyDouble(false);
        bool shape = true;
        bool refused = refuses([&] {
          M& x = a.createMatrix(nm, rows, cols, over);
          shape = x.rows() == rows && x.cols() == cols;
          x = fill;
        });
        VM_CHECK(shape, "createMatrix-shape", what << ": createMatrix(" << rows << ", " << cols << ") has another size");
        if (bad) VM_CHECK(refused, "invalid-name-accepted", what << " (createMatrix) was accepted");
        else if (!over && (wasM || wasS)) VM_CHECK(refused, "createMatrix-overwrote", what << ": createMatrix replaced a value without being asked to");
        else VM_CHECK(!refused, "valid-name-refused", what << " (createMatrix) was refused");
        if (!refused && !bad) { Val v; v.m = fill; m[nm] = v; }
        break;
      }
      case 7: {  // change in place through a reference
        if (m.count(nm)) {
          if (m[nm].isString) { a.getString(nm) += "more"; m[nm].s += "more"; }
          else { double d = r.anyDouble(false); a.getMatrix(nm).setConstant(d); m[nm].m.setConstant(d); }
        }
        break;
      }
      case 8: a.clear(nm); m.erase(nm); break;
      case 9: if (r.chance(1, 6)) { a.clear(); m.clear(); } break;
      case 10: {  // load a file (of blocks with any name kind) on top
        std::string d;
        for (int q = r.below(4); q > 0; --q) { std::string bn = name(r); Val v = val(r, 3); d += block(bn, v); m[bn] = v; }
        std::string f = tmp("hist.ama");
        vm::spit(f, d);
        a.load(f);
        break;
      }
      case 11: {  // a copy is a value of its own
        MatrixArchive b(a), c;
        c = a;
        check(m, b, "copy-differs", "a copy");
        b.clear();
        c.setScalar("a", 1234.5);
        break;
      }
      case 12: {  // set a name to another entry's value, or to its own
        std::string o = name(r);
        if (m.count(o) && !bad) {
          if (m[o].isString) a.setString(nm, a.getString(o)); else if (r.chance(1, 2)) { M copy = a.getMatrix(o); a.setMatrix(nm, copy); } else if (r.chance(1, 2)) a.setMatrix(nm, a.getMatrix(o)); else a.setMatrixXd(nm, a.getMatrix(o));
          Val v = m[o];
          m[nm] = v;
        }
        break;
      }
      case 13: {  // the name is the one the archive holds
        bool strings = r.chance(1, 2);
        size_t count = 0;
        for (auto& e : m) count += e.second.isString == strings;
        if (!count) break;
        size_t pick = r.below(count);
        const std::string* key;
        if (strings) key = &std::next(a.getStrings().begin(), pick)->first;
        else key = &std::next(a.begin(), pick)->first;
        std::string n(*key);
        what += ", with the archive's own name \"" + vm::esc(n) + "\"";
        Val v;
        switch (r.below(6)) {
          case 0: a.clear(*key); m.erase(n); break;
          case 1: v.m = M::Constant(1, 1, r.anyDouble(false)); a.setScalar(*key, v.m(0, 0)); m[n] = v; break;
          case 2: v.isString = true; v.s = str(r, 40); a.setString(*key, v.s); m[n] = v; break;
          case 3: v.m = matrix(r, 5); a.setMatrix(*key, v.m); m[n] = v; break;
          case 4: v.m = matrix(r, 5); a.createMatrix(*key, v.m.rows(), v.m.cols(), true) = v.m; m[n] = v; break;
          default: v.isString = true; v.s = n; a.setString(*key, *key); m[n] = v;  // the name as the value, too
        }
        vm::event("own-name");
        break;
      }
      case 14: {  // the value is a part of the one it replaces
        std::string o = name(r);
        if (!m.count(o)) break;
        Val v = m[o];
        if (v.isString) {
          a.setString(o, a.getString(o));
          break;
        }
        const M& x = a.getMatrix(o);
        if (!x.size()) break;
        int rows = r.range(1, x.rows()), c = r.below(x.cols());
        switch (r.below(4)) {
          case 0: v.m = M(v.m.bottomRows(rows)); a.setMatrix(o, x.bottomRows(rows)); break;
          case 1: v.m = M(v.m.col(c)); a.setVector(o, x.col(c)); break;
          case 2: v.m = M(v.m.col(c).reverse()); a.setMatrix(o, x.col(c).reverse()); break;
          default: v.m = M(v.m.rightCols(1).replicate(1, 3)); a.setMatrix(o, x.rightCols(1).replicate(1, 3));
        }
        m[o] = v;
        vm::event("own-part");
        break;
      }
      default: {
        std::string f = tmp("hist2.ama");
        a.save(f);
        if (r.chance(1, 2)) { a.clear(); a.load(f); }
      }
    }
    query(a, a, nm, m, r);
    query(a, a, name(r), m, r);
    check(m, a, "history-differs", "after " + what);
  }
  vm::nontrivial(h);
  if (i < 2) vm::sample(trace);
}
void nameSpace(vm::Rng&, uint64_t i) {
  // every single byte as first and as later character
  char c = (char)i;
  for (int later = 0; later < 2; ++later) {
    std::string nm = later ? std::string("k") + c : std::string(1, c);
    bool ok = validName(nm);
    for (int op = 0; op < 5; ++op) {
      MatrixArchive a;
      M x = M::Ones(2, 1);
      bool refused = refuses([&] {
        if (op == 0) a.setScalar(nm, 1); else if (op == 1) a.setVector(nm, x); else if (op == 2) a.setMatrix(nm, x); else if (op == 3) a.setString(nm, "s"); else a.createMatrix(nm, 1, 1);
      });
      VM_CHECK(refused == !ok, ok ? "valid-name-refused" : "invalid-name-accepted", "name \"" << vm::esc(nm) << "\", operation " << op);
      VM_CHECK(a.size() == (ok ? 1u : 0u), "refusal-changed-archive", "name \"" << vm::esc(nm) << "\", operation " << op << ": size " << a.size());
    }
    MatrixArchive q;
    VM_CHECK(refuses([&] { q.getScalar(nm); }), "missing-found", "getScalar of a name never set");
    vm::nontrivial(i * 2 + later);
  }
  for (size_t len : {31, 32, 33, 34, 64}) {
    MatrixArchive a;
    std::string nm(len, 'v');
    bool refused = refuses([&] { a.setScalar(nm, 2); });
    VM_CHECK(refused == (len > a.maxNameSize()) && a.maxNameSize() == 32, "name-length", "a name of " << len << " characters, maxNameSize() " << a.maxNameSize());
  }
}

// ------------------------------------------------------------ M04
void everyByte(vm::Rng& r, uint64_t i) {
  Model m = model(r, 3, 3);
  Val v; v.m = matrix(r, 3); m["m"] = v;
  if (i % 8 == 7) { v.m = M::Random(40, 60); m["large"] = v; }  // beyond the stream buffer
  MatrixArchive a = build(m, r);
  bool app = r.chance(1, 2);
  Model old;
  std::string base;
  if (app) for (int k = r.below(3); k > 0; --k) { std::string n = anyName(r); Val w = val(r, 2); if (!m.count(n)) { old[n] = w; base += block(n, w); } }
  std::string f = tmp("limited.ama");
  std::set<std::string> sel = r.chance(1, 3) ? selection(r, m) : std::set<std::string>();
  auto write = [&] {
    if (app) a.append(boost::filesystem::path(f), sel); else if (sel.empty()) a.save(f); else a.save(boost::filesystem::path(f), sel);
  };
  vm::spit(f, base);
  write();
  size_t full = vm::slurp(f).size();
  Model want = old;
  for (auto& e : restricted(m, sel)) want[e.first] = e.second;
  size_t from = app ? base.size() : 0, step = 1 + (full - from) / 300;
  for (size_t limit = from + r.below(step); limit <= full; limit += step) {
    vm::tick();
    if (limit + step > full) limit = full;  // the last one succeeds
    vm::spit(f, base);
    bool threw = false;
    std::string what;
    {
      vm::FileSizeLimit l(limit);
      try { write(); } catch (const sm::MatrixArchiveException& e) { threw = true; what = e.what(); }
    }
    if (limit < full) {
      vm::event("write-fault");
      VM_CHECK(threw, "write-failure-not-reported", (app ? "append" : "save") << " of " << full - from << " bytes with room for " << limit - from << " returned normally; the file has " << vm::slurp(f).size() << " bytes");
    } else {
      vm::event("write-success");
      VM_CHECK(!threw, "complete-write-refused", "with room for the whole file: " << what);
    }
    if (!threw) {
      MatrixArchive b;
      try { b.load(f); check(want, b, "incomplete-after-success", "after a save that returned normally"); }
      catch (const sm::MatrixArchiveException& e) { vm::fail("incomplete-after-success", std::string("a save that returned normally left a file that cannot be loaded: ") + e.what()); }
    }
    vm::nontrivial(vm::combine(hashOf(m), limit));
    if (limit == full) break;
  }
}
struct Failing : std::streambuf {
  size_t room;
  std::string got;
  explicit Failing(size_t n) : room(n) {}
  int overflow(int c) override { if (got.size() >= room) return EOF; got += (char)c; return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    size_t k = std::min<size_t>(n, room - got.size());
    got.append(s, k);
    return k;
  }
};
// A stream that fails once and then works again (a disk that was full for a moment).
struct Hiccup : std::streambuf {
  size_t at;
  bool done = false;
  std::string got;
  explicit Hiccup(size_t n) : at(n) {}
  int overflow(int c) override { if (!done && got.size() >= at) { done = true; return EOF; } got += (char)c; return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    size_t k = n;
    if (!done && got.size() + n > at) { k = at - got.size(); done = true; }
    got.append(s, k);
    return k;
  }
};
void hiccups(vm::Rng& r, uint64_t i) {
  Model m = model(r, 3, 2);
  Val v; v.isString = true; v.s = r.chance(1, 2) ? "tail" : std::string(r.below(40000), 't'); m["zz"] = v;
  if (i % 4 == 3) { v.isString = false; v.m = M::Random(40, 60); m["large"] = v; }
  MatrixArchive a = build(m, r);
  Hiccup all((size_t)-1);
  { std::ostream o(&all); a.save(o, std::set<std::string>()); }
  size_t size = all.got.size(), step = 1 + size / 400;
  for (size_t n = r.below(step); n < size; n += step) {
    Hiccup b(n);
    std::ostream o(&b);
    bool threw = false;
    try { a.save(o, std::set<std::string>()); } catch (const sm::MatrixArchiveException&) { threw = true; }
    VM_CHECK(threw || b.got == all.got, "lost-after-hiccup", "a stream that failed once, at byte " << n << " of " << size << ": save returned normally, but wrote other bytes");
    vm::event("stream-hiccup");
  }
  // the same with a file: the k-th write call fails once
  bool app = r.chance(1, 2);
  std::string f = tmp("hiccup.ama"), base = app ? block("old", val(r, 2)) : "";
  vm::hiccups([&] { vm::spit(f, base); }, [&] { if (app) a.append(f); else a.save(f); }, [&](bool threw, int k, bool hit) {
    VM_CHECK(threw || vm::slurp(f) == base + all.got, "lost-after-hiccup", "write number " << k << (hit ? " failed" : " would have failed") << " once: " << (app ? "append" : "save") << " returned normally, but the file has other contents");
    if (hit) vm::event("file-hiccup"); else VM_CHECK(!threw, "complete-write-refused", "no write failed, but an exception was thrown");
  });
  vm::nontrivial(vm::combine(hashOf(m), 3));
}
void streams(vm::Rng& r, uint64_t) {
  Model m = model(r, 3, 2);
  Val v; v.isString = true; v.s = "tail"; m["zz"] = v;
  MatrixArchive a = build(m, r);
  Failing all(1 << 20);
  { std::ostream o(&all); a.save(o, std::set<std::string>()); }
  for (size_t n = 0; n <= all.got.size(); ++n) {
    Failing b(n);
    std::ostream o(&b);
    bool threw = false;
    try { a.save(o, std::set<std::string>()); } catch (const sm::MatrixArchiveException&) { threw = true; }
    VM_CHECK(threw == (n < all.got.size()), "stream-failure-not-reported", "a stream that takes " << n << " of " << all.got.size() << " bytes: save " << (threw ? "threw" : "returned normally"));
    vm::event("stream-fault");
  }
  vm::nontrivial(hashOf(m));
}
void targets(vm::Rng& r, uint64_t) {
  Model m = model(r, 3, 3);
  Val v; v.m = M::Ones(1, 1); m["one"] = v;
  MatrixArchive a = build(m, r);
  for (std::string p : {std::string("/dev/full"), tmp("missing-dir") + "/x.ama", vm::scratch(), std::string("")}) {
    for (int app = 0; app < 2; ++app) {
      bool threw = false;
      try { if (app) a.append(p); else a.save(p); } catch (const sm::MatrixArchiveException&) { threw = true; }
      VM_CHECK(threw, "unwritable-target-not-reported", (app ? "append" : "save") << " to \"" << p << "\" returned normally");
      vm::event("unwritable-target");
    }
  }
  VM_CHECK(!vm::exists(tmp("missing-dir")), "created-something", "a failed save created a directory");
  check(m, a, "failed-save-changed-archive", "after failed saves");
  vm::nontrivial(hashOf(m));
}
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  std::string mode;
  for (int i = 1; i < argc; ++i) { std::string s = argv[i]; if (s == "roundtrip" || s == "damage" || s == "model" || s == "fault") mode = s; }
  if (mode == "roundtrip") {
    vm::setRule("a distinct case is an archive content (names, sizes, bits) that went through a file");
    vm::run("roundtrip", 4000, roundtrip, 15);
    vm::run("foreign", 2000, foreign, 15);
    vm::run("large", 9, large, 10);
    vm::run("many", 4, many, 5);
    vm::run("lister", 300, lister, 15);
  } else if (mode == "damage") {
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    vm::setRule("a distinct case is a damaged file and whether it was refused");
    vm::run("truncations", 60, truncations, 20);
    vm::run("corruption", 1500, corruption, 20);
    vm::run("sizes", 512, sizes, 4);
    vm::run("arbitrary", 4000, arbitrary, 20);
    vm::run("not-files", 1, notFiles, 1);
  } else if (mode == "model") {
    vm::setRule("a distinct case is an operation history");
    vm::run("history", 400, history, 20);
    vm::run("names", 256, nameSpace, 1);
  } else {
    vm::setRule("a distinct case is an archive and the byte at which writing it fails");
    vm::run("every-byte", 64, everyByte, 20);
    vm::run("streams", 60, streams, 10);
    vm::run("hiccups", 60, hiccups, 10);
    vm::run("targets", 20, targets, 5);
  }
  return vm::finish();
}
