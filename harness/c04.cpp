// C04: the assertion macros, in a debug build, a release build, and a release
// build with assertions always on (one translation unit each).
#include "c04.hpp"
int main(int argc, char** argv) {
  vm::init(argc, argv);
  vm::setRule("A case is a triple of operands (doubles incl. NaN and infinities, ints, strings, pointers) put through every assertion macro in one build mode, with operands and messages that count their evaluations; distinct by operands and mode.");
  runDebug(); runRelease(); runAlways();
  return vm::finish();
}
