// A stand-in for MATLAB's engine and matrix libraries, after their documentation: a workspace of
// typed arrays behind an engine handle. It records every misuse (an array destroyed twice or after
// the engine took it, a call with a dead handle), and never repairs one.
#include "matlab_standin.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>

struct mxArray_tag {
  mxClassID cls;
  std::vector<mwSize> dims;
  size_t elem;
  bool complex_, sparse;
  char* data;
  char* imag;
  size_t bytes;
};
struct engine {
  std::map<std::string, mxArray*> vars;
  char* buffer = nullptr;
  int size = 0;
  bool visible = true;
};

namespace {
size_t elemSize(mxClassID c) {
  switch (c) {
    case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1;
    case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
    case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4;
    default: return 8;
  }
}
char* raw(size_t n) { return static_cast<char*>(std::calloc(n ? n : 1, 1)); }
mxArray* make(std::vector<mwSize> dims, mxClassID cls, bool cplx, bool sparse = false, size_t nz = 0) {
  while (dims.size() > 2 && dims.back() == 1) dims.pop_back();
  mxArray* a = new mxArray_tag;
  a->cls = cls; a->dims = dims; a->elem = elemSize(cls); a->complex_ = cplx; a->sparse = sparse;
  size_t n = 1;
  for (mwSize d : dims) n *= d;
  if (sparse) n = nz;
  a->bytes = n * a->elem;
  a->data = raw(a->bytes);
  a->imag = cplx ? raw(a->bytes) : nullptr;
  return a;
}
mxArray* own(mxArray* a) { matlab::world().live.insert(a); matlab::world().created++; return a; }
void wipe(mxArray* a) { std::free(a->data); std::free(a->imag); delete a; }
mxArray* copy(const mxArray* a) {
  mxArray* b = new mxArray_tag(*a);
  b->data = raw(a->bytes); std::memcpy(b->data, a->data, a->bytes);
  if (a->imag) { b->imag = raw(a->bytes); std::memcpy(b->imag, a->imag, a->bytes); }
  return b;
}
size_t count(const mxArray* a) { size_t n = 1; for (mwSize d : a->dims) n *= d; return n; }
bool alive(Engine* e, const char* what) {
  matlab::world().calls++;
  if (e && matlab::world().open.count(e)) return true;
  matlab::world().misused(std::string(what) + (e ? " with an engine that is not open" : " without an engine"));
  return false;
}
bool known(const mxArray* a, const char* what) {
  if (a && matlab::world().live.count(const_cast<mxArray*>(a))) return true;
  matlab::world().misused(std::string(what) + (a ? " with an array that is not alive" : " with a null array"));
  return false;
}
}  // namespace

namespace matlab {
World& world() { static World* w = new World; return *w; }
bool validName(const std::string& s) {
  if (s.empty() || s.size() > 63) return false;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    bool letter = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'), digit = (c >= '0' && c <= '9') || c == '_';
    if (!(letter || (i && digit))) return false;
  }
  return true;
}
static void drop(Engine* e) { for (auto& v : e->vars) wipe(v.second); delete e; }
void reset() {
  for (Engine* e : world().open) drop(e);
  for (mxArray* a : world().live) wipe(a);
  world() = World();
}
void define(Engine* e, const std::string& name, mxArray* a) {
  world().live.erase(a); world().created--;
  if (e->vars.count(name)) wipe(e->vars[name]);
  e->vars[name] = a;
}
const mxArray* lookup(Engine* e, const std::string& name) { if (!e) return nullptr; auto i = e->vars.find(name); return i == e->vars.end() ? nullptr : i->second; }
std::set<std::string> names(Engine* e) { std::set<std::string> r; for (auto& v : e->vars) r.insert(v.first); return r; }
}  // namespace matlab
using matlab::world;

extern "C" {
Engine* engOpen(const char*) {
  world().calls++;
  if (world().failOpen) return nullptr;
  Engine* e = new engine;
  world().open.insert(e); world().opened++;
  return e;
}
Engine* engOpenSingleUse(const char* c, void*, int*) { return engOpen(c); }
int engClose(Engine* e) {
  if (!alive(e, "engClose")) return 1;
  world().open.erase(e); world().closed++;
  matlab::drop(e);
  return world().failClose ? 1 : 0;
}
int engOutputBuffer(Engine* e, char* p, int n) {
  if (!e) return 1;   // documented: refuses a null engine
  if (!alive(e, "engOutputBuffer")) return 1;
  e->buffer = p; e->size = n;
  return 0;
}
int engEvalString(Engine* e, const char* cmd) {
  if (!alive(e, "engEvalString")) return 1;
  if (world().failEval) return 1;
  world().commands.push_back(cmd ? cmd : "");
  std::string out;
  if (!world().outputs.empty()) { out = world().outputs.front(); world().outputs.erase(world().outputs.begin()); }
  if (e->buffer && e->size > 0) {   // up to n characters; terminated only if they leave room
    size_t n = std::min<size_t>(out.size(), e->size);
    std::memcpy(e->buffer, out.data(), n);
    if (n < (size_t)e->size) e->buffer[n] = '\0';
  }
  return 0;
}
mxArray* engGetVariable(Engine* e, const char* name) {
  if (!alive(e, "engGetVariable")) return nullptr;
  world().gets++;
  if (world().failGet) return nullptr;
  auto i = e->vars.find(name);
  return i == e->vars.end() ? nullptr : own(copy(i->second));
}
int engPutVariable(Engine* e, const char* name, const mxArray* a) {
  if (!alive(e, "engPutVariable")) return 1;
  if (!known(a, "engPutVariable")) return 1;
  world().puts++;
  if (world().failPut || !matlab::validName(name)) return 1;
  if (e->vars.count(name)) wipe(e->vars[name]);
  e->vars[name] = copy(a);
  return 0;
}
int engSetVisible(Engine* e, bool v) { if (!alive(e, "engSetVisible")) return 1; e->visible = v; return 0; }
int engGetVisible(Engine* e, bool* v) { if (!alive(e, "engGetVisible")) return 1; *v = e->visible; return 0; }

mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c) { return own(make({m, n}, mxDOUBLE_CLASS, c == mxCOMPLEX)); }
mxArray* mxCreateUninitNumericMatrix(mwSize m, mwSize n, mxClassID k, mxComplexity c) {
  mxArray* a = make({m, n}, k, c == mxCOMPLEX);
  std::memset(a->data, 0xfe, a->bytes);
  return own(a);
}
mxArray* mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID k, mxComplexity c) { return own(make({m, n}, k, c == mxCOMPLEX)); }
mxArray* mxCreateNumericArray(mwSize nd, const mwSize* d, mxClassID k, mxComplexity c) {
  std::vector<mwSize> dims(d, d + nd);
  while (dims.size() < 2) dims.push_back(1);
  return own(make(dims, k, c == mxCOMPLEX));
}
mxArray* mxCreateDoubleScalar(double v) { mxArray* a = make({1, 1}, mxDOUBLE_CLASS, false); std::memcpy(a->data, &v, 8); return own(a); }
mxArray* mxCreateLogicalScalar(mxLogical v) { mxArray* a = make({1, 1}, mxLOGICAL_CLASS, false); *a->data = v; return own(a); }
mxArray* mxCreateLogicalMatrix(mwSize m, mwSize n) { return own(make({m, n}, mxLOGICAL_CLASS, false)); }
mxArray* mxCreateStringFromNChars(const char* s, mwSize n) {
  mxArray* a = make({n ? mwSize(1) : mwSize(0), n}, mxCHAR_CLASS, false);
  for (size_t i = 0; i < n; ++i) ((mxChar*)a->data)[i] = (unsigned char)s[i];
  return own(a);
}
mxArray* mxCreateString(const char* s) { return mxCreateStringFromNChars(s ? s : "", s ? std::strlen(s) : 0); }
mxArray* mxCreateCharMatrixFromStrings(mwSize m, const char** s) {
  size_t n = 0;
  for (size_t i = 0; i < m; ++i) n = std::max(n, std::strlen(s[i]));
  mxArray* a = make({m, n}, mxCHAR_CLASS, false);
  for (size_t i = 0; i < m; ++i)
    for (size_t j = 0; j < n; ++j) ((mxChar*)a->data)[j * m + i] = j < std::strlen(s[i]) ? (unsigned char)s[i][j] : ' ';
  return own(a);
}
mxArray* mxCreateCharArray(mwSize nd, const mwSize* d) { return own(make(std::vector<mwSize>(d, d + nd), mxCHAR_CLASS, false)); }
mxArray* mxCreateCellMatrix(mwSize m, mwSize n) { return own(make({m, n}, mxCELL_CLASS, false)); }
mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int, const char**) { return own(make({m, n}, mxSTRUCT_CLASS, false)); }
mxArray* mxCreateSparse(mwSize m, mwSize n, mwSize nz, mxComplexity c) { return own(make({m, n}, mxDOUBLE_CLASS, c == mxCOMPLEX, true, nz ? nz : 1)); }
mxArray* mxDuplicateArray(const mxArray* a) { return known(a, "mxDuplicateArray") ? own(copy(a)) : nullptr; }
void mxDestroyArray(mxArray* a) {
  if (!a) return;
  if (!world().live.erase(a)) { world().misused("mxDestroyArray of an array that is not alive"); return; }
  world().destroyed++;
  wipe(a);
}
double* mxGetPr(const mxArray* a) { return a->cls == mxDOUBLE_CLASS ? (double*)a->data : nullptr; }
double* mxGetPi(const mxArray* a) { return a->cls == mxDOUBLE_CLASS ? (double*)a->imag : nullptr; }
mxDouble* mxGetDoubles(const mxArray* a) { return a->cls == mxDOUBLE_CLASS && !a->complex_ ? (double*)a->data : nullptr; }
void* mxGetData(const mxArray* a) { return a->data; }
void* mxGetImagData(const mxArray* a) { return a->imag; }
mxChar* mxGetChars(const mxArray* a) { return a->cls == mxCHAR_CLASS ? (mxChar*)a->data : nullptr; }
mxLogical* mxGetLogicals(const mxArray* a) { return a->cls == mxLOGICAL_CLASS ? (mxLogical*)a->data : nullptr; }
double mxGetScalar(const mxArray* a) {
  if (a->bytes < a->elem) { world().misused("mxGetScalar of an empty array"); return 0; }
  switch (a->cls) {
    case mxDOUBLE_CLASS: return *(double*)a->data;
    case mxSINGLE_CLASS: return *(float*)a->data;
    case mxLOGICAL_CLASS: case mxUINT8_CLASS: return *(uint8_t*)a->data;
    case mxINT8_CLASS: return *(int8_t*)a->data;
    case mxCHAR_CLASS: case mxUINT16_CLASS: return *(uint16_t*)a->data;
    case mxINT16_CLASS: return *(int16_t*)a->data;
    case mxINT32_CLASS: return *(int32_t*)a->data;
    case mxUINT32_CLASS: return *(uint32_t*)a->data;
    case mxINT64_CLASS: return (double)*(int64_t*)a->data;
    case mxUINT64_CLASS: return (double)*(uint64_t*)a->data;
    default: world().misused("mxGetScalar of a container"); return 0;
  }
}
size_t mxGetM(const mxArray* a) { return a->dims[0]; }
size_t mxGetN(const mxArray* a) { size_t n = 1; for (size_t i = 1; i < a->dims.size(); ++i) n *= a->dims[i]; return n; }
mwSize mxGetNumberOfDimensions(const mxArray* a) { return a->dims.size(); }
const mwSize* mxGetDimensions(const mxArray* a) { return a->dims.data(); }
size_t mxGetNumberOfElements(const mxArray* a) { return count(a); }
size_t mxGetElementSize(const mxArray* a) { return a->elem; }
mxClassID mxGetClassID(const mxArray* a) { return a->cls; }
const char* mxGetClassName(const mxArray* a) {
  static const char* n[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"};
  return n[a->cls];
}
int mxGetString(const mxArray* a, char* buf, mwSize n) {
  if (a->cls != mxCHAR_CLASS || !n) return 1;
  size_t k = count(a), m = std::min(k, n - 1);
  for (size_t i = 0; i < m; ++i) buf[i] = (char)((mxChar*)a->data)[i];
  buf[m] = '\0';
  return m < k ? 1 : 0;
}
char* mxArrayToString(const mxArray* a) {
  if (a->cls != mxCHAR_CLASS) return nullptr;
  char* b = (char*)std::malloc(count(a) + 1);
  mxGetString(a, b, count(a) + 1);
  return b;
}
char* mxArrayToUTF8String(const mxArray* a) { return mxArrayToString(a); }
bool mxIsClass(const mxArray* a, const char* n) { return !std::strcmp(mxGetClassName(a), n); }
bool mxIsNumeric(const mxArray* a) { return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
bool mxIsDouble(const mxArray* a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsSingle(const mxArray* a) { return a->cls == mxSINGLE_CLASS; }
bool mxIsComplex(const mxArray* a) { return a->complex_; }
bool mxIsSparse(const mxArray* a) { return a->sparse; }
bool mxIsChar(const mxArray* a) { return a->cls == mxCHAR_CLASS; }
bool mxIsCell(const mxArray* a) { return a->cls == mxCELL_CLASS; }
bool mxIsStruct(const mxArray* a) { return a->cls == mxSTRUCT_CLASS; }
bool mxIsLogical(const mxArray* a) { return a->cls == mxLOGICAL_CLASS; }
bool mxIsLogicalScalar(const mxArray* a) { return a->cls == mxLOGICAL_CLASS && count(a) == 1; }
bool mxIsLogicalScalarTrue(const mxArray* a) { return mxIsLogicalScalar(a) && *a->data; }
bool mxIsScalar(const mxArray* a) { return count(a) == 1; }
bool mxIsEmpty(const mxArray* a) { return count(a) == 0; }
bool mxIsInt8(const mxArray* a) { return a->cls == mxINT8_CLASS; }
bool mxIsUint8(const mxArray* a) { return a->cls == mxUINT8_CLASS; }
bool mxIsInt16(const mxArray* a) { return a->cls == mxINT16_CLASS; }
bool mxIsUint16(const mxArray* a) { return a->cls == mxUINT16_CLASS; }
bool mxIsInt32(const mxArray* a) { return a->cls == mxINT32_CLASS; }
bool mxIsUint32(const mxArray* a) { return a->cls == mxUINT32_CLASS; }
bool mxIsInt64(const mxArray* a) { return a->cls == mxINT64_CLASS; }
bool mxIsUint64(const mxArray* a) { return a->cls == mxUINT64_CLASS; }
void mxFree(void* p) { std::free(p); }
void* mxMalloc(size_t n) { return std::malloc(n ? n : 1); }
void* mxCalloc(size_t n, size_t s) { return std::calloc(n ? n : 1, s ? s : 1); }
double mxGetNaN(void) { return std::numeric_limits<double>::quiet_NaN(); }
double mxGetInf(void) { return std::numeric_limits<double>::infinity(); }
double mxGetEps(void) { return std::numeric_limits<double>::epsilon(); }
}
