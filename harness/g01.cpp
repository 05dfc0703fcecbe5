// G01/G02: sm::matlab::Engine against a stand-in for the MATLAB engine library that holds a typed
// workspace and tracks every engine handle and array.
#include "vm.hpp"
#include "matlab_standin.hpp"
#include <sm/matlab/Engine.hpp>
#include <algorithm>
#include <fstream>
#include <memory>
#include <new>
#include <type_traits>
#include <unistd.h>

namespace {
namespace sm_ = sm::matlab;
using matlab::world;
typedef sm_::Engine Client;
// The handle the client opened (the stand-in knows it).
::Engine* handle() { return world().open.empty() ? nullptr : *world().open.begin(); }

struct Var {   // what the workspace holds
  mxClassID cls = mxDOUBLE_CLASS;
  std::vector<size_t> dims;
  std::vector<double> v;     // real values, column-major (numeric, logical)
  std::string text;          // char, row vectors only
  bool cplx = false, sparse = false, plainText = false;
  size_t n() const { size_t k = 1; for (size_t d : dims) k *= d; return k; }
  bool numeric() const { return cls >= mxDOUBLE_CLASS && cls <= mxUINT64_CLASS; }
};
typedef std::map<std::string, Var> Model;

enum Out { OK, NOVAR, TYPE, EMPTY, SIZE, NAME, NOTINIT, PUT, EXEC, NOSUCH, OTHERM, OTHER };
const char* outName(Out o) {
  static const char* n[] = {"ok", "false", "InvalidType", "EmptyVariable", "InvalidSize", "InvalidVariableName", "EngineNotInitialized", "EnginePut", "EngineExecution", "NoSuchVariable", "MatlabException", "other exception"};
  return n[o];
}
template <class F> Out call(F f) {
  try { return f() ? OK : NOVAR; }
  catch (const sm_::InvalidTypeException&) { return TYPE; }
  catch (const sm_::EmptyVariableException&) { return EMPTY; }
  catch (const sm_::InvalidSizeException&) { return SIZE; }
  catch (const sm_::InvalidVariableNameException&) { return NAME; }
  catch (const sm_::NoSuchVariableException&) { return NOSUCH; }
  catch (const sm_::EngineNotInitializedException&) { return NOTINIT; }
  catch (const sm_::EnginePutException&) { return PUT; }
  catch (const sm_::EngineExecutionException&) { return EXEC; }
  catch (const sm_::MatlabException&) { return OTHERM; }
  catch (const std::exception&) { return OTHER; }
}
bool same(double a, double b) { return vm::bits(a) == vm::bits(b) || (std::isnan(a) && std::isnan(b)); }
bool variableError(Out o) { return o == TYPE || o == EMPTY || o == SIZE; }

void quiet(const char* where) {
  for (auto& m : world().misuse) vm::fail("engine-misuse", std::string(where) + ": " + m);
  world().misuse.clear();
}
void noLeak(const char* where) {
  VM_CHECK(world().live.empty(), "array-leaked", where << ": " << world().live.size() << " array(s) not destroyed");
  for (mxArray* a : std::set<mxArray*>(world().live)) mxDestroyArray(a);
}

std::string asciiText(vm::Rng& r, size_t max) {
  std::string s(r.below(max + 1), ' ');
  for (auto& c : s) c = (char)r.range(32, 126);
  return s;
}
const std::vector<std::string>& validNames() {
  static std::vector<std::string> v = {"a", "b", "x1", "Speed", "v_2", "aB_c9", "Q0", "z", "result_", "ab", "bZ08", "i9"};
  return v;
}
std::string badName(vm::Rng& r) {
  std::string s = r.pick(validNames());
  switch (r.below(6)) {
    case 0: return "";
    case 1: return std::to_string(r.below(10)) + s;
    case 2: s.insert(s.begin() + r.below(s.size() + 1), r.pickl({' ', '.', '-', '(', ';', '\'', '\n', '+', '=', ':', '@', '[', '`', '{', '/'})); return s;
    case 3: s.insert(s.begin() + r.below(s.size() + 1), (char)r.range(128, 255)); return s;
    case 4: s.insert(s.begin() + r.below(s.size() + 1), (char)r.range(1, 31)); return s;
    default: return std::to_string(r.below(100));
  }
}

// Puts a random variable into the workspace behind the client's back.
Var plant(vm::Rng& r, const std::string& name) {
  Var v;
  mxArray* a = nullptr;
  size_t m = r.below(4), n = r.below(4);
  if (r.chance(1, 3)) m = n = 1;
  switch (r.below(11)) {
    case 0: case 1: {
      v.cls = mxDOUBLE_CLASS; v.dims = {m, n};
      a = mxCreateDoubleMatrix(m, n, mxREAL);
      for (size_t i = 0; i < m * n; ++i) { mxGetPr(a)[i] = r.anyDouble(false); v.v.push_back(mxGetPr(a)[i]); }
      break;
    }
    case 2: {
      mxClassID c = r.pickl({mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxSINGLE_CLASS});
      v.cls = c; v.dims = {m, n};
      a = mxCreateNumericMatrix(m, n, c, mxREAL);
      for (size_t i = 0; i < m * n; ++i) {
        int k = (int)r.range(0, 127);
        void* d = (char*)mxGetData(a) + i * mxGetElementSize(a);
        if (c == mxSINGLE_CLASS) { float f = k + 0.5f; std::memcpy(d, &f, 4); v.v.push_back(f); }
        else { std::memcpy(d, &k, mxGetElementSize(a)); v.v.push_back(k); }
      }
      break;
    }
    case 3: case 4: {
      v.cls = r.chance(1, 2) ? mxINT64_CLASS : mxUINT64_CLASS; v.dims = {m, n};
      a = mxCreateNumericMatrix(m, n, v.cls, mxREAL);
      for (size_t i = 0; i < m * n; ++i) { int64_t k = r.range(0, 1000); std::memcpy((char*)mxGetData(a) + 8 * i, &k, 8); v.v.push_back((double)k); }
      break;
    }
    case 5: {
      v.cplx = true; v.dims = {m, n};
      a = mxCreateDoubleMatrix(m, n, mxCOMPLEX);
      for (size_t i = 0; i < m * n; ++i) { mxGetPr(a)[i] = r.normal(); mxGetPi(a)[i] = r.normal(); v.v.push_back(mxGetPr(a)[i]); }
      break;
    }
    case 6: {
      v.sparse = true; m += 1; n += 1; v.dims = {m, n};
      a = mxCreateSparse(m, n, 1, mxREAL);   // its only stored value is the one at (0, 0)
      *(double*)mxGetData(a) = 2.5;
      v.v.assign(m * n, 0.0); v.v[0] = 2.5;
      break;
    }
    case 7: {
      v.cls = mxCHAR_CLASS; v.text = asciiText(r, 12); v.plainText = true;
      a = mxCreateString(v.text.c_str());
      v.dims = {mxGetM(a), mxGetN(a)};
      if (r.chance(1, 3)) {
        const char* rows[] = {"ab", "cde"};
        mxDestroyArray(a);
        a = mxCreateCharMatrixFromStrings(2, rows); v.plainText = false; v.dims = {2, 3};
      }
      break;
    }
    case 8: {
      v.cls = mxLOGICAL_CLASS; v.dims = {m, n};
      a = mxCreateLogicalMatrix(m, n);
      for (size_t i = 0; i < m * n; ++i) { bool b = r.chance(1, 2); mxGetLogicals(a)[i] = b; v.v.push_back(b); }
      break;
    }
    case 9: {
      mwSize d[3] = {m, n, 2};
      v.dims = {m, n, 2};
      a = mxCreateNumericArray(3, d, mxDOUBLE_CLASS, mxREAL);
      for (size_t i = 0; i < 2 * m * n; ++i) { mxGetPr(a)[i] = (double)i; v.v.push_back((double)i); }
      break;
    }
    default: v.cls = r.chance(1, 2) ? mxCELL_CLASS : mxSTRUCT_CLASS; v.dims = {m, n}; a = v.cls == mxCELL_CLASS ? mxCreateCellMatrix(m, n) : mxCreateStructMatrix(m, n, 0, nullptr); break;
  }
  matlab::define(handle(), name, a);
  return v;
}

// Puts through the client; `want` is what must be in the workspace afterwards.
template <class E> void wantMatrix(const E& e, Var& want) {
  want.cls = mxDOUBLE_CLASS; want.dims = {(size_t)e.rows(), (size_t)e.cols()};
  for (int j = 0; j < e.cols(); ++j) for (int i = 0; i < e.rows(); ++i) want.v.push_back((double)e(i, j));
}
template <class E> Out putE(Client& c, const std::string& n, const E& e, Var& want) {
  wantMatrix(e, want);
  return call([&] { c.putEigen(n, e); return true; });
}
Out put(vm::Rng& r, Client& c, const std::string& name, Var& want) {
  want.dims = {1, 1};
  auto num = [&](auto x) { want.v = {static_cast<double>(x)}; return call([&] { c.put(name, x); return true; }); };
  int m = (int)r.below(5), n = (int)r.below(5);
  switch (r.below(18)) {
    case 0: return num(r.anyDouble(false));
    case 1: return num((int)r.next());
    case 2: return num((uint64_t)r.next());
    case 3: return num((float)r.normal());
    case 4: return num((int64_t)r.next());
    case 5: return num((unsigned char)r.next());
    case 6: return num((short)r.next());
    case 7: case 8: { bool b = r.chance(1, 2); want.cls = mxLOGICAL_CLASS; want.v = {(double)b}; return call([&] { c.put(name, b); return true; }); }
    case 9: case 10: {
      want.cls = mxCHAR_CLASS; want.text = asciiText(r, r.chance(1, 200) ? 140000 : r.chance(1, 8) ? 700 : 20); want.plainText = true;
      want.dims = {want.text.empty() ? size_t(0) : size_t(1), want.text.size()};
      return call([&] { c.put(name, want.text); return true; });
    }
    case 11: { Eigen::MatrixXd e(m, n); for (int i = 0; i < e.size(); ++i) e.data()[i] = r.anyDouble(false); return putE(c, name, e, want); }
    case 12: { Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> e(m, n); for (int i = 0; i < e.size(); ++i) e.data()[i] = r.normal(); return putE(c, name, e, want); }
    case 13: { Eigen::Matrix3i e; for (int i = 0; i < 9; ++i) e.data()[i] = (int)r.next(); return putE(c, name, e, want); }
    case 14: { Eigen::MatrixXd e(6, 7); for (int i = 0; i < 42; ++i) e.data()[i] = r.normal(); return putE(c, name, e.block(1, 2, m, n), want); }
    case 15: { Eigen::RowVectorXf e(n); for (int i = 0; i < n; ++i) e[i] = (float)r.normal(); return putE(c, name, e, want); }
    case 16: { Eigen::Vector3d e(r.normal(), r.normal(), r.normal()); return putE(c, name, e.transpose() * 2.0, want); }
    case 17: if (r.chance(1, 100)) { Eigen::MatrixXd e(r.pickl<int>({1, 257, 300}), r.pickl<int>({256, 301})); for (int i = 0; i < e.size(); ++i) e.data()[i] = i; return putE(c, name, e, want); }
      // fall through
    default: { Eigen::VectorXd e(n * 7); for (int i = 0; i < e.size(); ++i) e[i] = r.normal(); return putE(c, name, e, want); }
  }
}
// The workspace's variable against the model's.
bool stored(const std::string& name, const Var& v, std::string& why) {
  const mxArray* a = matlab::lookup(handle(), name);
  std::ostringstream o;
  if (!a) o << "the workspace has no such variable";
  else if (mxGetClassID(a) != v.cls) o << "class " << mxGetClassName(a);
  else if (mxGetNumberOfDimensions(a) != 2 || mxIsComplex(a) || mxIsSparse(a)) o << "not a real full matrix";
  else if (v.cls != mxCHAR_CLASS && (mxGetM(a) != v.dims[0] || mxGetN(a) != v.dims[1])) o << "shape " << mxGetM(a) << "x" << mxGetN(a);
  else if (v.cls == mxCHAR_CLASS) {
    if (mxGetNumberOfElements(a) != v.text.size()) o << "length " << mxGetNumberOfElements(a);
    else for (size_t i = 0; i < v.text.size(); ++i) if (mxGetChars(a)[i] != (unsigned char)v.text[i]) { o << "character " << i; break; }
  } else for (size_t i = 0; i < v.v.size(); ++i) {
    double x = v.cls == mxLOGICAL_CLASS ? (double)mxGetLogicals(a)[i] : mxGetPr(a)[i];
    if (!same(x, v.v[i])) { o << "element " << i << " is " << x << ", not " << v.v[i]; break; }
  }
  why = o.str();
  return why.empty();
}

void query(vm::Rng& r, Client& c, const Model& model, const std::string& name) {
  auto it = model.find(name);
  const Var* v = it == model.end() ? nullptr : &it->second;
  auto desc = [&] { std::ostringstream o; o << name << (v ? std::string(" (") + std::to_string((int)v->cls) + ", " + std::to_string(v->n()) + " elements)" : " (not there)"); return o.str(); };
  int kind = (int)r.below(9);
  vm::nontrivial(vm::combine(kind, v ? vm::combine(v->cls * 8 + v->cplx * 4 + v->sparse * 2 + v->plainText, std::min<size_t>(v->n(), 3) * 4 + std::min<size_t>(v->dims[0], 3)) : 77));
  switch (kind) {
    case 0: {
      double d = -77.25;
      Out o = call([&] { return c.get(name, d); });
      if (!v) VM_CHECK(o == NOVAR && d == -77.25, "get-missing", "get(double) of " << desc() << ": " << outName(o) << ", result " << d);
      else if (v->numeric() && v->n() == 1) {
        if (v->cplx || v->sparse) VM_CHECK((o == OK && d == v->v[0]) || variableError(o), "get-double", desc() << ": " << outName(o) << " " << d);
        else VM_CHECK(o == OK && same(d, v->v[0]), "get-double", desc() << ": " << outName(o) << " " << d << ", the engine holds " << v->v[0]);
      } else if (v->numeric()) VM_CHECK(v->n() == 0 ? o == EMPTY : (o == TYPE || o == SIZE), "get-refusal", "get(double) of " << desc() << ": " << outName(o));
      else VM_CHECK(o == TYPE || (v->n() == 0 && o == EMPTY), "get-refusal", "get(double) of " << desc() << ": " << outName(o));
      break;
    }
    case 1: {
      std::string s = "before";
      Out o = call([&] { return c.get(name, s); });
      if (!v) VM_CHECK(o == NOVAR && s == "before", "get-missing", "get(string) of " << desc() << ": " << outName(o) << ", result " << s);
      else if (v->cls == mxCHAR_CLASS && v->n()) { if (v->plainText) VM_CHECK(o == OK && s == v->text, "get-string", desc() << ": " << outName(o) << " '" << vm::esc(s) << "', the engine holds '" << vm::esc(v->text) << "'"); }
      else if (v->cls == mxCHAR_CLASS) VM_CHECK(o == EMPTY || (o == OK && s.empty()), "get-refusal", "get(string) of an empty text: " << outName(o));
      else VM_CHECK(o == TYPE || (v->n() == 0 && o == EMPTY), "get-refusal", "get(string) of " << desc() << ": " << outName(o));
      break;
    }
    case 2: {
      bool b0 = r.chance(1, 2), b = b0;
      Out o = call([&] { return c.get(name, b); });
      if (!v) VM_CHECK(o == NOVAR && b == b0, "get-missing", "get(bool) of " << desc() << ": " << outName(o));
      else if (v->cls == mxLOGICAL_CLASS && v->n() == 1) VM_CHECK(o == OK && b == (v->v[0] != 0), "get-bool", desc() << ": " << outName(o) << " " << b);
      else if (v->cls == mxLOGICAL_CLASS) VM_CHECK(v->n() == 0 ? o == EMPTY : (o == TYPE || o == SIZE), "get-refusal", "get(bool) of " << desc() << ": " << outName(o));
      else VM_CHECK(o == TYPE || (v->n() == 0 && o == EMPTY), "get-refusal", "get(bool) of " << desc() << ": " << outName(o));
      break;
    }
    case 3: case 4: {
      Eigen::MatrixXd e = Eigen::MatrixXd::Constant(2, 1, 5.5), e0 = e;
      Out o = call([&] { return c.getEigen(name, e); });
      if (!v) { VM_CHECK(o == NOVAR && e.rows() == 2 && e.cols() == 1 && e == e0, "get-missing", "getEigen of " << desc() << ": " << outName(o)); break; }
      bool ok = v->numeric() && v->n() && v->dims.size() == 2;
      bool equal = ok && o == OK && (size_t)e.rows() == v->dims[0] && (size_t)e.cols() == v->dims[1];
      for (size_t i = 0; equal && i < v->v.size(); ++i) equal = same(e.data()[i], v->v[i]);
      if (ok && v->cls == mxDOUBLE_CLASS && !v->cplx && !v->sparse) VM_CHECK(equal, "get-matrix", desc() << ": " << outName(o) << ", got " << e.rows() << "x" << e.cols() << " [" << e.format(Eigen::IOFormat(4, Eigen::DontAlignCols, " ", "; ")) << "]");
      else if (ok) VM_CHECK(equal || variableError(o), "get-matrix-of-other-class", desc() << (v->sparse ? " sparse" : v->cplx ? " complex" : "") << ": " << outName(o) << " with other values than the engine holds");
      else if (v->numeric()) VM_CHECK(variableError(o), "get-refusal", "getEigen of " << desc() << ": " << outName(o));
      else VM_CHECK(o == TYPE || (v->n() == 0 && o == EMPTY) || (v->dims.size() != 2 && o == SIZE), "get-refusal", "getEigen of " << desc() << ": " << outName(o));
      break;
    }
    case 5: { Out o = call([&] { return c.exists(name); }); VM_CHECK(o == (v ? OK : NOVAR), "exists", desc() << ": " << outName(o)); break; }
    case 6: { Out o = call([&] { return c.isScalar(name); }); VM_CHECK(o == (!v ? NOSUCH : v->n() == 1 ? OK : NOVAR), "is-scalar", desc() << ": " << outName(o)); break; }
    case 7: {
      Out o = call([&] { return c.isEmpty(name); }); VM_CHECK(o == (!v ? NOSUCH : v->n() == 0 ? OK : NOVAR), "is-empty", desc() << ": " << outName(o));
      Out o2 = call([&] { return c.isCharOrString(name); }); VM_CHECK(o2 == (!v ? NOSUCH : v->cls == mxCHAR_CLASS ? OK : NOVAR), "is-text", desc() << ": " << outName(o2));
      break;
    }
    default: {
      size_t rows = 91, cols = 92;
      Out o = call([&] { return c.getDimensions(name, rows, cols); });
      if (!v) VM_CHECK(o == NOVAR && rows == 91 && cols == 92, "get-missing", "getDimensions of " << desc() << ": " << outName(o));
      else VM_CHECK(o == OK && rows == v->dims[0] && (v->dims.size() > 2 || cols == v->dims[1]), "dimensions", desc() << ": " << outName(o) << " " << rows << "x" << cols);
    }
  }
}

// `out` is what the engine printed; true if `got` is that, without the line break, as far as the buffer reaches.
bool outputOk(const std::string& got, std::string out) {
  if (out.size() <= sm_::OUTPUT_BUFFER_SIZE) { if (!out.empty() && out.back() == '\n') out.pop_back(); return got == out; }
  std::string full = out;
  if (full.back() == '\n') full.pop_back();
  if (got == full) return true;
  std::string cut = out.substr(0, sm_::OUTPUT_BUFFER_SIZE);
  if (cut.back() == '\n') cut.pop_back();
  return got == cut;
}
std::string anOutput(vm::Rng& r) {
  size_t n = r.chance(1, 2) ? r.below(30) : r.pickl({0, 1, 2, 100, 254, 255, 256, 257, 258, 300, 600});
  std::string s(n, 'x');
  for (auto& c : s) c = r.chance(1, 12) ? '\n' : (char)r.range(32, 126);
  if (!s.empty()) { if (r.chance(2, 3)) s.back() = '\n'; else if (s.back() == '\n') s.back() = 'e'; }
  return s;
}
// The directory that a MATLAB "cd" command changes to.
bool cdTarget(const std::string& cmd, std::string& dir) {
  size_t i = 0;
  auto ws = [&] { while (i < cmd.size() && cmd[i] == ' ') ++i; };
  ws();
  if (cmd.compare(i, 2, "cd")) return false;
  i += 2; ws();
  bool paren = i < cmd.size() && cmd[i] == '(';
  if (paren) { ++i; ws(); }
  if (i >= cmd.size() || cmd[i] != '\'') return false;
  dir.clear();
  for (++i;; ++i) {
    if (i >= cmd.size()) return false;
    if (cmd[i] == '\'') { if (i + 1 < cmd.size() && cmd[i + 1] == '\'') ++i; else break; }
    dir += cmd[i];
  }
  ++i; ws();
  if (paren) { if (i >= cmd.size() || cmd[i] != ')') return false; ++i; ws(); }
  while (i < cmd.size() && (cmd[i] == ';' || cmd[i] == ' ' || cmd[i] == '\n')) ++i;
  return i == cmd.size();
}

void values() {
  vm::run("variables", 1500, [](vm::Rng& r, uint64_t) {
    matlab::reset();
    {
      Client c;
      VM_CHECK(c.initialize() && c.isInitialized(), "initialize", "the engine did not start");
      Model model;
      for (int step = 0; step < 40; ++step) {
        std::string name = r.pick(validNames());
        switch (r.below(6)) {
          case 0: case 1: {
            Var want;
            Out o = put(r, c, name, want);
            std::string why;
            VM_CHECK(o == OK && stored(name, want, why), "put", "put of class " << want.cls << ", " << want.n() << " elements: " << outName(o) << "; " << why);
            model[name] = want;
            vm::event("puts");
            break;
          }
          case 2: model[name] = plant(r, name); break;
          case 3: {
            std::string bad = badName(r);
            uint64_t before = world().calls;
            std::set<std::string> had = matlab::names(handle());
            double d; bool b; std::string s; Eigen::MatrixXd e; size_t m, n; Var w;
            Out o = OK;
            switch (r.below(11)) {
              case 0: o = call([&] { return c.get(bad, d); }); break;
              case 1: o = call([&] { return c.get(bad, b); }); break;
              case 2: o = call([&] { return c.get(bad, s); }); break;
              case 3: o = call([&] { return c.getEigen(bad, e); }); break;
              case 4: o = call([&] { return c.exists(bad); }); break;
              case 5: o = call([&] { return c.isScalar(bad); }); break;
              case 6: o = call([&] { return c.isEmpty(bad); }); break;
              case 7: o = call([&] { return c.isCharOrString(bad); }); break;
              case 8: o = call([&] { return c.getDimensions(bad, m, n); }); break;
              default: o = put(r, c, bad, w);
            }
            VM_CHECK(o == NAME, "invalid-name", "the name '" << vm::esc(bad) << "' was not refused: " << outName(o));
            VM_CHECK(world().calls == before && matlab::names(handle()) == had, "invalid-name", "the engine was called with the name '" << vm::esc(bad) << "'");
            vm::event("invalid-names");
            break;
          }
          default: for (int k = 0; k < 3; ++k) { query(r, c, model, r.pick(validNames())); vm::event("queries"); }
        }
        noLeak("after a call"); quiet("variables");
      }
      for (auto& v : model) query(r, c, model, v.first);
      noLeak("after a call"); quiet("variables");
    }
    VM_CHECK(world().opened == 1 && world().closed == 1, "engine-leaked", world().opened << " opened, " << world().closed << " closed");
    quiet("destruction");
  });
  vm::run("commands", 1500, [](vm::Rng& r, uint64_t) {
    matlab::reset();
    Client c;
    c.initialize();
    for (int k = 0; k < 6; ++k) {
      std::string cmd = asciiText(r, r.chance(1, 300) ? 140000 : r.chance(1, 5) ? 1000 : 30), out = anOutput(r), got;
      world().commands.clear(); world().outputs = {out};
      if (r.chance(1, 4)) {
        std::string dir = asciiText(r, 20);
        if (r.chance(1, 2)) dir.insert(dir.begin() + r.below(dir.size() + 1), '\'');
        Out o = call([&] { got = c.changeWorkingDirectory(dir); return true; });
        std::string to;
        bool good = world().commands.size() == 1 && cdTarget(world().commands[0], to) && to == dir;
        VM_CHECK(o == OK && good, "change-directory", "changing to '" << dir << "' executed '" << (world().commands.empty() ? "" : world().commands[0]) << "'");
        vm::event("directories");
      } else {
        Out o = call([&] { got = c.executeCommand(cmd); return true; });
        VM_CHECK(o == OK && world().commands == std::vector<std::string>{cmd}, "command", "the command '" << cmd << "' was not passed on: " << outName(o));
        vm::event("commands");
      }
      VM_CHECK(outputOk(got, out), "command-output", "printed (" << out.size() << ") '" << vm::esc(out) << "', returned (" << got.size() << ") '" << vm::esc(got) << "'");
      vm::nontrivial(vm::combine(out.size(), out.empty() ? 2 : out.back() == '\n'));
    }
    quiet("commands");
  });
  vm::run("command-line", 300, [](vm::Rng& r, uint64_t i) {
    matlab::reset();
    Client c;
    c.initialize();
    std::string input, file = vm::scratch() + "/stdin";
    std::vector<std::string> want, outs;
    int n = (int)r.below(7);
    bool quits = false;
    for (int k = 0; k < n; ++k) {
      std::string line;
      switch (r.below(8)) {
        case 0: line = ""; break;
        case 1: line = r.chance(1, 2) ? "quit" : "exit"; break;
        case 2: line = r.pickl({"quit;", " exit", "quit now", "exi", "Quit"}); break;
        case 3: line = std::string(r.pickl({253, 254, 255, 256, 257, 511, 512, 600}), 'y'); break;
        default: line = asciiText(r, 40);
      }
      if (line == "quit" || line == "exit") quits = true;
      else if (!quits) { want.push_back(line); std::string o = "out" + std::to_string(k) + "<" + asciiText(r, 10) + ">\n"; outs.push_back(o); }
      input += line;
      bool last = k + 1 == n;
      if (!last || line.empty() || r.chance(2, 3)) input += '\n';
    }
    { std::ofstream f(file, std::ios::binary); f << input; }
    if (!std::freopen(file.c_str(), "r", stdin)) { vm::fail("harness", "cannot open the input"); return; }
    std::cin.clear();
    world().outputs = outs; world().commands.clear();
    std::ostringstream cap;
    std::streambuf* old = std::cout.rdbuf(cap.rdbuf());
    Out o = call([&] { c.openCommandLine(); return true; });
    std::cout.rdbuf(old);
    VM_CHECK(o == OK, "command-line", "raised " << outName(o));
    // Lines that do nothing need not be passed on.
    auto lines = [](std::vector<std::string> v) { v.erase(std::remove(v.begin(), v.end(), std::string()), v.end()); return v; };
    std::string all;
    for (auto& w : world().commands) all += "[" + w + "]";
    VM_CHECK(lines(world().commands) == lines(want), "command-line", "input (" << input.size() << ") '" << vm::esc(input) << "' executed " << vm::esc(all));
    if (world().commands == want) {
      size_t at = 0; std::string text = cap.str();
      for (auto& x : outs) {
        size_t p = text.find(x.substr(0, x.size() - 1), at);
        VM_CHECK(p != std::string::npos, "command-line-output", "the output '" << x << "' was not shown");
        if (p == std::string::npos) break;
        at = p;
      }
    }
    vm::event("lines", n);
    vm::nontrivial(vm::hashStr(input));
    quiet("command-line"); noLeak("command-line");
  });
}

// Use of a copy, if the class allows copies.
template <class C> typename std::enable_if<std::is_copy_constructible<C>::value>::type useCopy(C& c) { C d(c); d.isInitialized(); vm::event("copies"); }
template <class C> typename std::enable_if<!std::is_copy_constructible<C>::value>::type useCopy(C&) {}

void resources() {
  vm::run("lifecycle", 2500, [](vm::Rng& r, uint64_t) {
    matlab::reset();
    uint64_t h = 0;
    {
      // The memory an engine object is made in is not zero.
      std::unique_ptr<char[]> mem(new char[sizeof(Client) + 64]);
      std::memset(mem.get(), 0xfe, sizeof(Client) + 64);
      void* at = (void*)(((uintptr_t)mem.get() + 31) & ~(uintptr_t)31);
      bool on = false;
      int how = (int)r.below(4);
      world().failOpen = r.chance(1, 5);
      Client* c = how == 0 ? new (at) Client(true) : how == 1 ? new (at) Client(false) : new (at) Client();
      if (how == 0) on = !world().failOpen;
      world().failOpen = false;
      h = how * 2 + on;
      VM_CHECK(c->isInitialized() == on, "is-initialized", "after construction " << how << ": " << c->isInitialized() << ", expected " << on);
      for (int step = 0, n = (int)r.below(25); step < n; ++step) {
        uint64_t calls = world().calls, opened = world().opened, closed = world().closed;
        int op = (int)r.below(8);
        h = vm::combine(h, op * 2 + on);
        auto refused = [&](Out o, const char* what) {
          if (on) return false;
          VM_CHECK(o == NOTINIT, "not-initialized", what << " without an engine: " << outName(o));
          VM_CHECK(world().calls == calls, "not-initialized", what << " called the engine library without an engine");
          vm::event("refusals");
          return true;
        };
        switch (op) {
          case 0: case 1: {
            world().failOpen = r.chance(1, 3);
            bool got = c->initialize();
            bool want = on || !world().failOpen;
            VM_CHECK(got == want, "initialize", "returned " << got << ", expected " << want);
            VM_CHECK(world().opened == opened + (!on && want), "initialize", "opened " << world().opened - opened << " engines");
            on = want;
            world().failOpen = false;
            break;
          }
          case 2: {
            world().failClose = r.chance(1, 3);
            bool got = c->stop();
            if (on) VM_CHECK(got == !world().failClose && world().closed == closed + 1, "stop", "returned " << got << ", closed " << world().closed - closed);
            else VM_CHECK(got && world().calls == calls, "stop", "stopping nothing returned " << got);
            on = false;
            world().failClose = false;
            break;
          }
          case 3: {
            std::string name = r.pick(validNames());
            Var w;
            world().failPut = r.chance(1, 3);
            Out o = put(r, *c, name, w);
            std::string why;
            if (!refused(o, "put")) {
              if (world().failPut) { VM_CHECK(o == PUT, "put-failure", "a failed put gave " << outName(o)); vm::event("put-failures"); }
              else VM_CHECK(o == OK && stored(name, w, why), "put", outName(o) << " " << why);
            }
            world().failPut = false;
            break;
          }
          case 4: case 5: {
            std::string name = r.pick(validNames());
            if (on && handle() && r.chance(2, 3)) plant(r, name);
            double d; bool b; std::string s; Eigen::MatrixXd e; size_t m, n;
            int g = (int)r.below(9);
            Out o = g == 0 ? call([&] { return c->get(name, d); }) : g == 1 ? call([&] { return c->get(name, b); }) : g == 2 ? call([&] { return c->get(name, s); })
                  : g == 3 ? call([&] { return c->getEigen(name, e); }) : g == 4 ? call([&] { return c->exists(name); }) : g == 5 ? call([&] { return c->isScalar(name); })
                  : g == 6 ? call([&] { return c->isEmpty(name); }) : g == 7 ? call([&] { return c->isCharOrString(name); }) : call([&] { return c->getDimensions(name, m, n); });
            h = vm::combine(h, g * 16 + o);
            if (!refused(o, "a getter")) vm::event(o == OK || o == NOVAR ? "answers" : "refused-values");
            break;
          }
          case 6: {
            world().failEval = r.chance(1, 3);
            std::string got, out = anOutput(r);
            world().outputs = {out};
            Out o = call([&] { got = c->executeCommand("x = 1"); return true; });
            if (!refused(o, "executeCommand")) {
              if (world().failEval) { VM_CHECK(o == EXEC, "command-failure", "a failed command gave " << outName(o)); vm::event("command-failures"); }
              else VM_CHECK(o == OK && outputOk(got, out), "command-output", outName(o) << " '" << vm::esc(got) << "'");
            }
            world().failEval = false; world().outputs.clear();
            break;
          }
          default: {
            world().failEval = r.chance(1, 2);
            bool g = true;
            Out o = call([&] { g = c->good(); return true; });
            VM_CHECK(o == OK, "good", "raised " << outName(o));
            if (!on || world().failEval) VM_CHECK(!g, "good", "good without a working engine");
            if (!on) VM_CHECK(world().calls == calls, "good", "called the engine library without an engine");
            world().failEval = false;
            if (r.chance(1, 3)) useCopy(*c);
          }
        }
        VM_CHECK(c->isInitialized() == on, "is-initialized", c->isInitialized() << ", expected " << on);
        noLeak("lifecycle"); quiet("lifecycle");
      }
      world().failClose = r.chance(1, 3);   // the destructor has no way to report it, but must survive it
      if (on) vm::event(world().failClose ? "destroyed-close-fails" : "destroyed-open");
      c->~Client();
      world().failClose = false;
    }
    VM_CHECK(world().opened == world().closed && world().open.empty(), "engine-leaked", world().opened << " opened, " << world().closed << " closed");
    noLeak("at the end"); quiet("at the end");
    vm::event("engines", world().opened);
    vm::event("arrays", world().created);
    vm::nontrivial(h);
  });
}
}  // namespace

int main(int argc, char** argv) {
  std::string mode;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "values" || a == "resources") mode = a; }
  vm::init(argc, argv);
  vm::setRule("A case is a history of calls on an engine object in front of a stand-in engine library with a typed workspace; distinct by the kind of query and the class, shape and state of the variable, by the output's length, by the input lines, or by the history of lifecycle operations and their outcomes.");
  if (mode == "values") values(); else resources();
  matlab::reset();
  return vm::finish();
}
