#undef NDEBUG
#define MODE "debug"
#define ACTIVE true
#define LOGASSERT true
#include "c04_body.inc"
void runDebug() { modeRun(); }
