// Stand-in for the MATLAB engine library. See matlab_standin.cpp.
#ifndef engine_h
#define engine_h
#include "matrix.h"
typedef struct engine Engine;
#ifdef __cplusplus
extern "C" {
#endif
Engine* engOpen(const char* startcmd);
Engine* engOpenSingleUse(const char* startcmd, void* reserved, int* retstatus);
int engClose(Engine* ep);
int engEvalString(Engine* ep, const char* cmd);
int engOutputBuffer(Engine* ep, char* p, int n);
mxArray* engGetVariable(Engine* ep, const char* name);
int engPutVariable(Engine* ep, const char* name, const mxArray* a);
int engSetVisible(Engine* ep, bool v);
int engGetVisible(Engine* ep, bool* v);
#ifdef __cplusplus
}
#endif
#endif
