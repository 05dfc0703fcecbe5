// What the stand-in for the MATLAB engine observed, and how a monitor drives it.
#ifndef MATLAB_STANDIN_HPP
#define MATLAB_STANDIN_HPP
#include <engine.h>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace matlab {
struct World {
  // configuration
  bool failOpen = false, failClose = false, failPut = false, failEval = false, failGet = false;
  std::vector<std::string> outputs;            // what the next commands print, in order
  // observation
  std::map<std::string, std::vector<mxArray*>> noop;
  std::set<mxArray*> live;                     // arrays the client has to destroy
  std::set<Engine*> open;
  std::vector<std::string> commands;
  std::vector<std::string> misuse;
  uint64_t opened = 0, closed = 0, created = 0, destroyed = 0, calls = 0, puts = 0, gets = 0;
  void misused(const std::string& s) { misuse.push_back(s); }
};
World& world();
void reset();                                  // closes everything; forgets all observations
// The workspace of the engine that is open (there must be one). Takes ownership of `a`.
void define(Engine* e, const std::string& name, mxArray* a);
const mxArray* lookup(Engine* e, const std::string& name);
std::set<std::string> names(Engine* e);
bool validName(const std::string& s);
}  // namespace matlab
#endif
