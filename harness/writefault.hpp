// The write calls of this program: the k-th one (of files) fails once, with nothing or half of the data written,
// and everything works again afterwards (a disk that is full for a moment). To be included once per program.
#ifndef VM_WRITEFAULT_HPP
#define VM_WRITEFAULT_HPP
#include <errno.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace vm {
static thread_local int writeFaultIn = 0;
static thread_local bool writeFaultHalf = false;
// with half: that call is short, the next one fails
static bool faultyWrite() { return writeFaultIn > 0 && --writeFaultIn == 0; }
static bool shortWrite() { return writeFaultHalf && writeFaultIn == 2; }
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
  if (fd > 2) {
    if (vm::shortWrite() && n > 1) n /= 2;
    if (vm::faultyWrite()) { errno = ENOSPC; return -1; }
  }
  return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) {
  if (fd > 2) {
    if (vm::shortWrite()) { --vm::writeFaultIn; for (int i = 0; i < n; ++i) if (v[i].iov_len > 1) return syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len / 2); else if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len); return 0; }
    if (vm::faultyWrite()) { errno = ENOSPC; return -1; }
  }
  return syscall(SYS_writev, fd, v, n);
}
namespace vm {
// prepare(), then save() with the k-th write failing, k = 1, 2, ... until none fails; judge(threw, k, hit) after each
template <class Prepare, class Save, class Judge> void hiccups(Prepare prepare, Save save, Judge judge, int most = 60) {
  for (int half = 0; half < 2; ++half)
    for (int k = 1; k <= most; ++k) {
      prepare();
      bool threw = false;
      writeFaultIn = k + half; writeFaultHalf = half;
      try { save(); } catch (const std::exception&) { threw = true; }
      bool hit = writeFaultIn == 0;
      writeFaultIn = 0; writeFaultHalf = false;
      judge(threw, k, hit);
      if (!hit) break;
    }
}
}
#endif
