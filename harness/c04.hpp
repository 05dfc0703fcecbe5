#include "vm.hpp"
struct Judge {
  const char* mode; bool dbgActive;
};
void runDebug(); void runRelease(); void runAlways();
