// Write faults on ordinary files: with a file-size limit every write past `bytes`
// fails with EFBIG, so the failure can be placed at any byte of the output.
#ifndef VM_FAULTFILE_HPP
#define VM_FAULTFILE_HPP
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fstream>
#include <sstream>
#include <string>
namespace vm {
struct FileSizeLimit {
  rlimit old;
  explicit FileSizeLimit(uint64_t bytes) {
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit n = old; n.rlim_cur = bytes;
    setrlimit(RLIMIT_FSIZE, &n);
  }
  ~FileSizeLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};
inline std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str();
}
inline void spit(const std::string& p, const std::string& d) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d.data(), d.size());
}
inline bool exists(const std::string& p) { struct stat s; return ::stat(p.c_str(), &s) == 0; }
}
#endif
