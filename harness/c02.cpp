// C02: string routines against naive models.
#include "vm.hpp"
#include <sm/string_routines.hpp>
#include <sm/progress_info.hpp>
#include <list>

namespace {
std::string gen(vm::Rng& r, int maxLen = 24) {
  static const std::string small = "ab/$() .";
  std::string s;
  if (maxLen > 20 && r.chance(1, 250)) maxLen = r.pickl({300, 300, 5000, 70000});
  int n = r.chance(1, 6) ? 0 : (int)r.below(maxLen);
  bool any = r.chance(1, 5);
  for (int i = 0; i < n; ++i) s += any ? (char)r.below(256) : small[r.below(small.size())];
  return s;
}
std::string model(std::string s, char t, char p, unsigned skip, bool back) {
  std::vector<size_t> pos;
  for (size_t i = 0; i < s.size(); ++i) if (s[i] == t) pos.push_back(i);
  for (size_t k = 0; k < pos.size(); ++k) {
    bool rep = back ? k + skip < pos.size() : k >= skip;
    if (rep) s[pos[k]] = p;
  }
  return s;
}
std::string env(const std::string& s, const std::map<std::string, std::string>& vars) {
  std::string out;
  size_t i = 0;
  while (i < s.size()) {
    if (s.compare(i, 2, "$(") == 0) {
      size_t e = s.find(')', i);
      if (e == std::string::npos) { out += s.substr(i); break; }
      std::string name = s.substr(i + 2, e - i - 2);
      auto it = vars.find(std::string(name.c_str()));
      out += it == vars.end() ? s.substr(i, e + 1 - i) : it->second;
      i = e + 1;
    } else out += s[i++];
  }
  return out;
}
std::string fmt(const char* f, int w, int p, double v) { char b[2000]; std::snprintf(b, sizeof b, f, w, p, v); return b; }
}  // namespace

int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case is a random string (short alphabet with delimiters, or arbitrary bytes) or value with random parameters, run through each routine and a naive model; distinct by string and parameters.");
  vm::run("replace", 6000, [](vm::Rng& r, uint64_t) {
    std::string s = gen(r);
    static const std::string cs = "ab/$().";
    char t = r.chance(1, 8) ? (char)r.below(256) : cs[r.below(cs.size())], p = r.chance(1, 4) ? t : cs[r.below(cs.size())];
    unsigned skip = r.chance(1, 2) ? 0 : r.chance(1, 10) ? 1000000 : r.below(6);
    std::string in = s;
    auto d = [&](const std::string& o) { return "(\"" + vm::esc(in) + "\", '" + vm::esc(std::string(1, t)) + "', '" + vm::esc(std::string(1, p)) + "', " + std::to_string(skip) + ") = \"" + vm::esc(o) + "\""; };
    std::string a = sm::replace(s, t, p, skip), b = sm::replace_reverse(s, t, p, skip);
    VM_CHECK(a == model(in, t, p, skip, false), "replace", "replace" << d(a));
    VM_CHECK(b == model(in, t, p, skip, true), "replace-reverse", "replace_reverse" << d(b));
    if (skip == 0) {
      VM_CHECK(sm::replace(s, t, p) == a && sm::replace_reverse(s, t, p) == b, "replace-default-skip", d(a));
    }
    vm::nontrivial(vm::hashStr(s + t + p, skip));
    if (s.find(t) != std::string::npos) vm::event("strings-with-target");
  });
  vm::run("env", 2500, [](vm::Rng& r, uint64_t) {
    static const std::vector<std::string> names = {"VM_A", "VM_B", "VM_LONG_NAME", "VM_EMPTY", "VM_UNSET", "VM_", "VM_REC"};
    std::map<std::string, std::string> vars;
    for (auto& n : names) {
      ::unsetenv(n.c_str());
      if (n == "VM_UNSET" || r.chance(1, 4)) continue;
      std::string v = n == "VM_EMPTY" ? "" : n == "VM_REC" ? "$(VM_A)" : "v" + std::to_string(r.below(1000)) + (r.chance(1, 4) ? std::string(300, 'q') : "");
      ::setenv(n.c_str(), v.c_str(), 1); vars[n] = v;
    }
    std::string s;
    int k = r.below(6);
    for (int i = 0; i < k; ++i) {
      s += gen(r, 5);
      switch (r.below(5)) { case 0: s += "$("; break; case 1: s += "$()"; break; case 2: s += "$(" + r.pick(names); break; default: s += "$(" + r.pick(names) + ")"; }
    }
    for (auto& c : s) if (!c) c = 'z';
    std::string got = sm::substituteEnvVars(s), want = env(s, vars);
    VM_CHECK(got == want, "substitute-env", "\"" << vm::esc(s) << "\" gave \"" << vm::esc(got) << "\", expected \"" << vm::esc(want) << "\"");
    vm::nontrivial(vm::hashStr(s));
    if (got != s) vm::event("substitutions");
    if (r.chance(1, 400)) vm::sample(s + " -> " + got);
  });
  vm::run("pad-and-format", 3000, [](vm::Rng& r, uint64_t) {
    std::string s = gen(r);
    unsigned w = r.chance(1, 8) ? r.below(400) : r.below(40); char c = r.chance(1, 8) ? (char)r.range(-128, 127) : (char)r.range(32, 126);
    std::string p = sm::leading_pad(s, w, c);
    VM_CHECK(p == (s.size() < w ? std::string(w - s.size(), c) + s : s), "leading-pad", "\"" << vm::esc(s) << "\" to " << w << " = \"" << vm::esc(p) << "\"");
    VM_CHECK(sm::ensureTrailingBackslash(s) == (!s.empty() && s.back() == '/' ? s : s + "/"), "trailing-slash", "\"" << vm::esc(s) << "\"");
    int64_t v = r.chance(1, 4) ? (int64_t)r.next() : r.range(-2000, 2000);
    std::string dec = std::to_string(v);
    std::string z = sm::padded(v, w, c);
    VM_CHECK(z == (dec.size() < w ? std::string(w - dec.size(), c) + dec : dec), "padded-int", v << " to " << w << " = " << z);
    VM_CHECK(sm::padded(v, w) == (dec.size() < w ? std::string(w - dec.size(), '0') + dec : dec), "padded-int", v << " to " << w);
    VM_CHECK(sm::ts(v) == dec && sm::s_tuple(v) == dec, "to-string", v);
    VM_CHECK(sm::ts(s) == s, "to-string", "string");
    VM_CHECK(sm::padded(s, w, c) == (s.size() < w ? std::string(w - s.size(), c) + s : s), "padded-string", "\"" << vm::esc(s) << "\" to " << w);
    VM_CHECK(sm::padded((unsigned char)c, w, '.') == (w > 1 ? std::string(w - 1, '.') + c : std::string(1, c)), "padded-char", (int)c << " to " << w);
    VM_CHECK(sm::s_tuple(v, s, 2.5, c, true, w, -3) == "[" + dec + "," + s + ",2.5," + c + ",1," + std::to_string(w) + ",-3]", "tuple", "mixed types");
    { std::istringstream is(sm::ts(v)); int64_t b = 0; is >> b; VM_CHECK(b == v, "to-string", v << " does not read back"); }
    double d = r.chance(1, 6) ? r.logmag(-300, 300) : r.logmag(-6, 9);
    unsigned pr = r.chance(1, 8) ? r.below(120) : r.below(12);
    if (r.chance(1, 10)) d = r.pickl({0.0, -0.0, 0.5, 1e15, -999.9996, 4.9e-324, std::numeric_limits<double>::max(), -std::numeric_limits<double>::infinity()});
    VM_CHECK(sm::padded(d, w, pr) == fmt("%*.*f", w, pr, d), "padded-double", d << " width " << w << " precision " << pr << ": " << sm::padded(d, w, pr));
    VM_CHECK(sm::fixedFloat(d, pr) == fmt("%*.*f", 0, pr, d), "fixed-float", d << " precision " << pr << ": " << sm::fixedFloat(d, pr));
    VM_CHECK(sm::scientific(d, w, pr) == fmt("%*.*e", std::max(w, pr + 7), pr, d), "scientific", d << " width " << w << " precision " << pr << ": " << sm::scientific(d, w, pr));
    vm::nontrivial(vm::combine(vm::hashStr(s), vm::combine(vm::bits(d), w * 100 + pr)));
  });
  vm::run("sequences", 2500, [](vm::Rng& r, uint64_t) {
    int n = r.chance(1, 600) ? 70000 : r.chance(1, 50) ? (int)r.below(600) : (int)r.below(7);
    std::vector<int> v; std::list<std::string> l; std::vector<double> dv;
    for (int i = 0; i < n; ++i) { v.push_back((int)r.range(-999, 999)); l.push_back(gen(r, 5)); dv.push_back(r.logmag(-3, 6)); }
    std::string del = gen(r, 4), pre = gen(r, 4), post = gen(r, 4);
    auto join = [&](const std::vector<std::string>& x, const std::string& d, const std::string& a, const std::string& b) { std::string o = a; for (size_t i = 0; i < x.size(); ++i) { if (i) o += d; o += x[i]; } return o + b; };
    std::vector<std::string> sv, ls(l.begin(), l.end()), pv;
    for (int x : v) sv.push_back(std::to_string(x));
    int pad = r.chance(1, 8) ? r.below(200) : r.below(15), dec = r.chance(1, 8) ? r.below(60) : r.below(8);
    for (double x : dv) pv.push_back(fmt("%*.*f", pad, dec, x));
    std::ostringstream o1, o2, o3, o4;
    sm::toStream(o1, v.begin(), v.end(), del, pre, post);
    VM_CHECK(o1.str() == join(sv, del, pre, post), "to-stream", vm::esc(o1.str()));
    sm::toStream(o2, l.begin(), l.end());
    VM_CHECK(o2.str() == join(ls, " ", "", ""), "to-stream", vm::esc(o2.str()));
    VM_CHECK(sm::arrToString(v.begin(), v.end()) == join(sv, ",", "[", "]"), "arr-to-string", sm::arrToString(v.begin(), v.end()));
    if (n) VM_CHECK(sm::arrToString(v.data(), (unsigned)v.size()) == join(sv, ",", "[", "]"), "arr-to-string", "pointer form");
    sm::paddedToStream(o3, pad, dec, dv.begin(), dv.end(), del, pre, post);
    VM_CHECK(o3.str() == join(pv, del, pre, post), "padded-to-stream", vm::esc(o3.str()) << " expected " << vm::esc(join(pv, del, pre, post)));
    VM_CHECK(sm::paddedToString(pad, dec, dv.begin(), dv.end(), del, pre, post) == join(pv, del, pre, post), "padded-to-stream", "string form");
    std::vector<std::string> w;
    for (int i = 0; i < 7; ++i) w.push_back(gen(r, 4));
    auto t = [&](int k) { return join(std::vector<std::string>(w.begin(), w.begin() + k), ",", "[", "]"); };
    VM_CHECK(sm::s_tuple(w[0], w[1]) == t(2) && sm::s_tuple(w[0], w[1], w[2]) == t(3) && sm::s_tuple(w[0], w[1], w[2], w[3]) == t(4) && sm::s_tuple(w[0], w[1], w[2], w[3], w[4]) == t(5) && sm::s_tuple(w[0], w[1], w[2], w[3], w[4], w[5]) == t(6) && sm::s_tuple(w[0], w[1], w[2], w[3], w[4], w[5], w[6]) == t(7), "tuple", "tuples of " << vm::esc(t(7)));
    vm::nontrivial(vm::hashStr(o1.str() + o3.str()));
  });
  vm::run("progress", 300, [](vm::Rng& r, uint64_t) {
    double p = r.chance(1, 4) ? r.pickl({0.0, 1.0, 0.99999, 1e-9}) : r.unit();
    std::ostringstream cap;
    std::streambuf* old = std::cout.rdbuf(cap.rdbuf());
    sm::showProgress(p);
    std::cout.rdbuf(old);
    std::string want = p >= 1.0 ? "Complete!" : fmt("%*.*f", 0, 2, 100 * p) + "% complete";
    VM_CHECK(cap.str().find(want) != std::string::npos, "progress", "progress " << p << " shows \"" << vm::esc(cap.str()) << "\"");
    int all = (int)r.range(1, 5000), done = (int)r.range(0, all);
    std::ostringstream cap2;
    old = std::cout.rdbuf(cap2.rdbuf());
    bool threw = false;
    sm::showProgress(done, all);
    try { sm::showProgress(done, 0); } catch (const std::runtime_error&) { threw = true; }
    std::cout.rdbuf(old);
    want = done == all ? "Complete!" : fmt("%*.*f", 0, 2, 100 * ((double)done / all)) + "% complete";
    VM_CHECK(cap2.str().find(want) != std::string::npos, "progress", done << " of " << all << " shows \"" << vm::esc(cap2.str()) << "\"");
    VM_CHECK(threw, "progress", "progress of 0 was not refused");
    vm::nontrivial(vm::bits(p));
  });
  return vm::finish();
}
