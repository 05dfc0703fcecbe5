#define NDEBUG
#define MODE "release"
#define ACTIVE false
#define LOGASSERT false
#include "c04_body.inc"
void runRelease() { modeRun(); }
