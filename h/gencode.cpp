#include "gencode.hpp"
#include <sys/wait.h>
extern "C" void __sanitizer_set_report_path(const char *) __attribute__((weak));
namespace gc {
int child(const std::function<int()> &f, std::string *out) {
  std::string log = pbt::scratch() + "/child.log";
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    if (__sanitizer_set_report_path) __sanitizer_set_report_path("stderr");
    int r = f();
    fflush(NULL);
    _exit(r);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (out) *out = oh::read_file(log);
  return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}
std::string compile(const std::vector<std::string> &src, const std::string &so, const std::vector<std::string> &flags) {
  std::vector<std::string> a = {"gcc", "-w", "-O0", "-fPIC", "-shared", "-I" REPO_DIR "/src", "-I" GEN_INC};
  a.insert(a.end(), flags.begin(), flags.end());
  a.insert(a.end(), src.begin(), src.end());
  a.push_back("-o");
  a.push_back(so);
  std::vector<char *> v;
  for (auto &x : a) v.push_back((char *)x.c_str());
  v.push_back(NULL);
  std::string out;
  int r = child([&]() -> int { unsetenv("LD_PRELOAD"); execvp("gcc", v.data()); return 127; }, &out);
  if (r == 127 || r < 0) return "the compiler did not run: " + out;
  return r == 0 ? "" : out.empty() ? "the compiler failed" : out;
}
}
