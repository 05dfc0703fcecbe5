#define NDEBUG
#define ALWAYS_ASSERT
#define MODE "always"
#define ACTIVE true
#define LOGASSERT false
#include "c04_body.inc"
void runAlways() { modeRun(); }
