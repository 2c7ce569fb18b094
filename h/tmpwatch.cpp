// Records every temporary file the server makes (link with --wrap=mkstemp).
#include "tmpwatch.hpp"
#include <errno.h>
#include <unistd.h>
namespace tmpwatch {
std::vector<std::string> names;
int fail_at = -1, calls = 0;
std::string left() {
  std::string r;
  for (auto &n : names) if (access(n.c_str(), F_OK) == 0) { r = n; unlink(n.c_str()); }
  names.clear();
  return r;
}
}
extern "C" int __real_mkstemp(char *t);
extern "C" int __wrap_mkstemp(char *t) {
  if (tmpwatch::calls++ == tmpwatch::fail_at) { errno = EMFILE; return -1; }
  int fd = __real_mkstemp(t);
  if (fd >= 0) tmpwatch::names.push_back(t);
  return fd;
}
