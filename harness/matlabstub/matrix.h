// Stand-in for the MATLAB matrix library (MATLAB is not installed): arrays with MATLAB's layout and
// rules (column-major, column-count of an N-D array is the product of the trailing dimensions), whose
// ownership is tracked. See matlab_standin.cpp.
#ifndef matrix_h
#define matrix_h
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

typedef struct mxArray_tag mxArray;
typedef size_t mwSize;
typedef size_t mwIndex;
typedef ptrdiff_t mwSignedIndex;
typedef bool mxLogical;
typedef unsigned short mxChar;
typedef double mxDouble;
typedef float mxSingle;
typedef enum {
  mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS,
  mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS
} mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;

#ifdef __cplusplus
extern "C" {
#endif
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c);
mxArray* mxCreateUninitNumericMatrix(mwSize m, mwSize n, mxClassID cls, mxComplexity c);
mxArray* mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID cls, mxComplexity c);
mxArray* mxCreateNumericArray(mwSize nd, const mwSize* dims, mxClassID cls, mxComplexity c);
mxArray* mxCreateDoubleScalar(double v);
mxArray* mxCreateLogicalScalar(mxLogical v);
mxArray* mxCreateLogicalMatrix(mwSize m, mwSize n);
mxArray* mxCreateString(const char* s);
mxArray* mxCreateStringFromNChars(const char* s, mwSize n);
mxArray* mxCreateCharMatrixFromStrings(mwSize m, const char** s);
mxArray* mxCreateCharArray(mwSize nd, const mwSize* dims);
mxArray* mxCreateCellMatrix(mwSize m, mwSize n);
mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char** f);
mxArray* mxCreateSparse(mwSize m, mwSize n, mwSize nz, mxComplexity c);
mxArray* mxDuplicateArray(const mxArray* a);
void mxDestroyArray(mxArray* a);
double* mxGetPr(const mxArray* a);
double* mxGetPi(const mxArray* a);
mxDouble* mxGetDoubles(const mxArray* a);
void* mxGetData(const mxArray* a);
void* mxGetImagData(const mxArray* a);
mxChar* mxGetChars(const mxArray* a);
mxLogical* mxGetLogicals(const mxArray* a);
double mxGetScalar(const mxArray* a);
size_t mxGetM(const mxArray* a);
size_t mxGetN(const mxArray* a);
mwSize mxGetNumberOfDimensions(const mxArray* a);
const mwSize* mxGetDimensions(const mxArray* a);
size_t mxGetNumberOfElements(const mxArray* a);
size_t mxGetElementSize(const mxArray* a);
mxClassID mxGetClassID(const mxArray* a);
const char* mxGetClassName(const mxArray* a);
int mxGetString(const mxArray* a, char* buf, mwSize n);
char* mxArrayToString(const mxArray* a);
char* mxArrayToUTF8String(const mxArray* a);
bool mxIsClass(const mxArray* a, const char* name);
bool mxIsNumeric(const mxArray* a);
bool mxIsDouble(const mxArray* a);
bool mxIsSingle(const mxArray* a);
bool mxIsComplex(const mxArray* a);
bool mxIsSparse(const mxArray* a);
bool mxIsChar(const mxArray* a);
bool mxIsCell(const mxArray* a);
bool mxIsStruct(const mxArray* a);
bool mxIsLogical(const mxArray* a);
bool mxIsLogicalScalar(const mxArray* a);
bool mxIsLogicalScalarTrue(const mxArray* a);
bool mxIsScalar(const mxArray* a);
bool mxIsEmpty(const mxArray* a);
bool mxIsInt8(const mxArray* a);
bool mxIsUint8(const mxArray* a);
bool mxIsInt16(const mxArray* a);
bool mxIsUint16(const mxArray* a);
bool mxIsInt32(const mxArray* a);
bool mxIsUint32(const mxArray* a);
bool mxIsInt64(const mxArray* a);
bool mxIsUint64(const mxArray* a);
void mxFree(void* p);
void* mxMalloc(size_t n);
void* mxCalloc(size_t n, size_t s);
double mxGetNaN(void);
double mxGetInf(void);
double mxGetEps(void);
#ifdef __cplusplus
}
#endif
#endif
