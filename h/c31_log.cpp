// C31: every logged message reaches the log once, whole and on a line of its own.
#include "http.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <syslog.h>
#include <thread>
using namespace hm;
pbt::Config pbt::config;
struct Sys { int n; struct { int pri; char msg[4096]; } m[64]; };
static Sys *sys_;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is a fresh process with a generated ONION_LOG and ONION_DEBUG0 that logs 1 to 12 messages (any level, file name, line and length, one to four threads) to the default logger, to syslog, or through a logger of its own; non-trivial when at least one message is written out";
  sys_ = (Sys *)mmap(NULL, sizeof(Sys), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static void record_syslog(int pri, const char *fmt, va_list ap) {
  int i = __sync_fetch_and_add(&sys_->n, 1);
  if (i >= 64) return;
  auto &m = sys_->m[i];
  m.pri = pri;
  vsnprintf(m.msg, sizeof m.msg, fmt, ap);
}
extern "C" void vsyslog(int pri, const char *fmt, va_list ap) { record_syslog(pri, fmt, ap); }
extern "C" void syslog(int pri, const char *fmt, ...) { va_list ap; va_start(ap, fmt); record_syslog(pri, fmt, ap); va_end(ap); }
extern "C" void __vsyslog_chk(int pri, int, const char *fmt, va_list ap) { record_syslog(pri, fmt, ap); }
extern "C" void __syslog_chk(int pri, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); record_syslog(pri, fmt, ap); va_end(ap); }
struct Msg { int level, line, form, thread; std::string file, text; };
static std::string base(const std::string &f) { size_t p = f.rfind('/'); return p == std::string::npos ? f : f.substr(p + 1); }
static void log1(void (*f)(onion_log_level, const char *, int, const char *, ...), const Msg &m) {
  switch (m.form) {
  case 0: f((onion_log_level)m.level, m.file.c_str(), m.line, "%s", m.text.c_str()); break;
  case 1: f((onion_log_level)m.level, m.file.c_str(), m.line, "<%s> %d%%", m.text.c_str(), m.line); break;
  case 2: f((onion_log_level)m.level, m.file.c_str(), m.line, "%.*s", (int)m.text.size(), (m.text + "tail").c_str()); break;
  }
}
static std::string meant(const Msg &m) { return m.form == 1 ? fmt("<%s> %d%%", m.text.c_str(), m.line) : m.text; }
void pbt::property(Gen &g, Ctx &c) {
  std::vector<Msg> ms;
  int n = 1 + (int)g.below(12), nt = g.chance(1, 4) ? 2 + (int)g.below(3) : 1;
  static const char *FILES[] = {"onion.c", "src/onion/url.c", "/a/b/c/request.c", "x", "", "dir/", "/", "my file.cpp"};
  for (int i = 0; i < n; i++) {
    Msg m;
    m.level = g.weighted({1, 2, 2, 3, 3, 1});
    if (m.level == 5) m.level = 5 + (int)g.below(30);
    m.line = g.pick({1, 10, 0, 12345, 2147483647, -1});
    m.form = (int)g.below(3);
    m.thread = (int)g.below(nt);
    m.file = g.pick(FILES);
    if (g.chance(1, 8)) m.file = (g.coin() ? "d/" : "") + g.from("abc_.", g.len(g.chance(1, 4) ? 600 : 60, {100, 180, 200, 220, 255}));
    size_t l = g.len(g.chance(1, 3) ? 400 : 60, {150, 170, 180, 185, 190, 195, 200, 205, 210, 250, 256});
    if (g.chance(1, 3)) l = 150 + g.below(100);                // around where the line is full
    int k = (int)g.below(3);
    for (size_t j = 0; j < l; j++) m.text += (char)(k == 0 ? 'a' + j % 26 : k == 1 ? g.range(32, 126) : g.pick({'%', 's', 'n', ' ', '\\', '\t', '\xc3', '\xa9', '[', '.'}));
    ms.push_back(m);
    c.d("[%d %s:%d t%d f%d %s(%zu)] ", m.level, esc(m.file, 60).c_str(), m.line, m.thread, m.form, esc(m.text, 40).c_str(), m.text.size());
  }
  std::string env, dbg;
  for (const char *w : {"nocolor", "noinfo", "nodebug", "syslog", "other"})
    if (g.chance(1, 4)) { if (!env.empty()) env += g.pick({" ", ",", ""}); env += w; }
  bool has_env = !env.empty() || g.chance(1, 4);
  if (g.chance(1, 3)) dbg = g.pick({"onion.c", "url.c request.c", "x", "none.c"});
  int mode = (int)g.weighted({5, 2, 1});     // through onion_log, directly to stderr, directly to syslog
  c.d("ONION_LOG=%s ONION_DEBUG0=%s mode %d", has_env ? env.c_str() : "(unset)", dbg.c_str(), mode);
  auto flag = [&](const char *w) { return env.find(w) != std::string::npos; };
  int fd = memfd_create("log", 0);
  if (fd < 0) { fprintf(stderr, "memfd\n"); exit(3); }
  memset(sys_, 0, sizeof(int));
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    int save = dup(2);
    if (has_env) setenv("ONION_LOG", env.c_str(), 1); else unsetenv("ONION_LOG");
    if (!dbg.empty()) setenv("ONION_DEBUG0", dbg.c_str(), 1); else unsetenv("ONION_DEBUG0");
    onion_log_flags = 0;
    onion_log = onion_log_stderr;
    (void)save;
    fcntl(fd, F_SETFL, O_APPEND);
    dup2(fd, 2);
    auto run = [&](int t) {
      for (auto &m : ms) if (m.thread == t) log1(mode == 0 ? onion_log : mode == 1 ? onion_log_stderr : onion_log_syslog, m);
    };
    if (nt == 1) run(0);
    else {
      std::vector<std::thread> th;
      for (int t = 0; t < nt; t++) th.emplace_back(run, t);
      for (auto &t : th) t.join();
    }
    fflush(stderr);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  std::string out;
  char buf[4096];
  lseek(fd, 0, SEEK_SET);
  for (ssize_t r; (r = read(fd, buf, sizeof buf)) > 0;) out.append(buf, r);
  close(fd);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("logging ended the process (status %x): %s", st, esc(out, 800).c_str());
  if (out.find('\0') != std::string::npos) c.fail("a NUL is written to the log: %s", esc(out, 600).c_str());
  if (!out.empty() && out.back() != '\n') c.fail("the last line is not ended: %s", esc(out, 600).c_str());
  std::vector<std::string> lines;
  for (size_t p = 0, q; p < out.size(); p = q + 1) { q = out.find('\n', p); lines.push_back(out.substr(p, q - p)); }
  std::vector<bool> used(lines.size());
  std::vector<bool> sused(sys_->n);
  static const char *NAMES[] = {"DEBUG0", "DEBUG", "INFO", "WARNING", "ERROR", "UNKNOWN"};
  static const int PRI[] = {LOG_DEBUG, LOG_DEBUG, LOG_INFO, LOG_WARNING, LOG_ERR};
  for (auto &m : ms) {
    std::string t = meant(m);
    int hits = 0;
    bool hidden = (m.level == O_INFO && flag("noinfo")) || (m.level == O_DEBUG && flag("nodebug"));
    bool maybe = m.level == O_DEBUG0;                          // only in debug builds and for the files named
    bool must_sys = mode == 2, may_sys = mode == 2 || (mode == 0 && flag("syslog"));
    // at the standard error
    if (mode != 2)
      for (size_t i = 0; i < lines.size() && !hits; i++) {
        if (used[i]) continue;
        std::string l = lines[i];
        bool color = l.compare(0, 2, "\033[") == 0;
        if (color == flag("nocolor")) c.fail("line %s with ONION_LOG=%s", esc(l).c_str(), env.c_str());
        if (color) {
          if (l.size() < 4 || l.compare(l.size() - 4, 4, "\033[0m")) c.fail("the colours are not reset: %s", esc(l, 600).c_str());
          l.resize(l.size() - 4);
        }
        std::string tag = fmt("] [%s %s:%d] ", NAMES[m.level > 5 ? 5 : m.level], base(m.file).c_str(), m.line);
        size_t p = l.find(tag);
        std::string got;
        bool ok = false;
        if (p != std::string::npos) {
          got = l.substr(p + tag.size());
          ok = got == t;
          if (!ok && got.size() >= 3 && got.compare(got.size() - 3, 3, "...") == 0 && got.size() < t.size() + 3 && t.compare(0, got.size() - 3, got, 0, got.size() - 3) == 0) {
            ok = true;
            if (base(m.file).size() <= 40 && got.size() < 100) c.fail("the message of %zu bytes was cut to %zu", t.size(), got.size());
            if (base(m.file).size() <= 40 && t.size() <= 100) c.fail("a message of %zu bytes was cut", t.size());
            c.label("cut");
          }
        } else if (base(m.file).size() > 60) {                   // the file name may be cut too
          size_t q = l.find(fmt("] [%s ", NAMES[m.level > 5 ? 5 : m.level]));
          if (q != std::string::npos && l.find(base(m.file).substr(0, 30), q) != std::string::npos) { ok = true; c.label("long file name"); }
        }
        if (ok) { used[i] = true; hits++; }
      }
    // at syslog
    if (may_sys && !hits)
      for (int i = 0; i < sys_->n && !hits; i++)
        if (!sused[i] && m.level <= O_ERROR && sys_->m[i].pri == PRI[m.level] && t.compare(0, 4095, sys_->m[i].msg) == 0) { sused[i] = true; hits++; }
    if (may_sys && (mode == 0 || m.level > O_ERROR)) { if (!hits && (hidden || maybe || m.level > O_ERROR)) continue; }
    else if (hidden && mode != 2) { if (hits) c.fail("a message of level %s is shown with ONION_LOG=%s", NAMES[m.level], env.c_str()); continue; }
    else if (maybe && mode != 2) {
      if (!hits && !base(m.file).empty() && dbg.find(base(m.file)) != std::string::npos) c.fail("the message \"%s\" of %s is not shown with ONION_DEBUG0=%s", esc(t).c_str(), m.file.c_str(), dbg.c_str());
      continue;
    }
    if (!hits) c.fail("message %d \"%s\" (%zu bytes) of %s:%d is not in the log: %s", m.level, esc(t, 80).c_str(), t.size(), esc(m.file).c_str(), m.line, esc(out, 900).c_str());
    c.nontrivial = true;
    c.label(may_sys ? "syslog" : nt > 1 ? "threads" : "stderr");
  }
  for (size_t i = 0; i < lines.size(); i++) if (!used[i]) c.fail("a line that is no message: %s", esc(lines[i], 600).c_str());
  for (int i = 0; i < sys_->n; i++) if (!sused[i]) c.fail("an entry in syslog that is no message: %s", esc(sys_->m[i].msg, 300).c_str());
}
