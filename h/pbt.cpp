#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <grp.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <unordered_set>
#include <fstream>
#include <sstream>

extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
}

namespace pbt {
// ------------------------------------------------------------------ rng / gen
static inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint32_t Gen::below(uint32_t n) {
  if (n == 0) n = 1;
  uint32_t v = 0;
  switch (mode) {
  case RANDOM: v = (uint32_t)(splitmix(s) >> 32); v = (uint32_t)(((uint64_t)v * n) >> 32); break;
  case REPLAY: v = pos < nin ? in[pos] : 0; if (v >= n) v = n - 1; break;
  case BYTES: {
    int k = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
    for (int i = 0; i < k; i++) { v = (v << 8) | (pos < nbin ? bin[pos] : 0); pos++; }
    v %= n;
    pos--;
    break;
  }
  }
  pos++;
  if (rec && nrec && *nrec < maxrec) { rec[*nrec] = v; *nrec = *nrec + 1; }
  return v;
}
size_t Gen::len(size_t max, const std::vector<size_t> &b) {
  uint32_t k = below(10);
  if (k < 4) return below((uint32_t)std::min<size_t>(max, 4) + 1);
  if (k < 7) return below((uint32_t)std::min<size_t>(max, 24) + 1);
  if (k < 9 && !b.empty()) {
    int64_t v = (int64_t)b[below((uint32_t)b.size())] + range(-2, 2);
    if (v < 0) v = 0;
    return std::min<size_t>((size_t)v, max);
  }
  return below((uint32_t)max + 1);
}
size_t Gen::weighted(const std::vector<uint32_t> &w) {
  uint32_t t = 0;
  for (auto x : w) t += x;
  uint32_t v = below(t);
  for (size_t i = 0; i < w.size(); i++) { if (v < w[i]) return i; v -= w[i]; }
  return w.size() - 1;
}
std::string Gen::from(const std::string &a, size_t n) {
  std::string r;
  if (n > 64) { // one choice seeds a pseudo random filling: cheap to record and shrink
    uint64_t x = below(1u << 16);
    for (size_t i = 0; i < n; i++) r.push_back(a[x ? splitmix(x) % a.size() : 0]);
    return r;
  }
  for (size_t i = 0; i < n; i++) r.push_back(a[below((uint32_t)a.size())]);
  return r;
}
std::string Gen::from(const char *a, size_t n) { return from(std::string(a), n); }
std::string Gen::raw(size_t n) {
  std::string r;
  if (n > 64) {
    uint64_t x = below(1u << 16);
    if (!x) return std::string(n, 'a');
    while (r.size() < n) { uint64_t v = splitmix(x); r.append((char *)&v, 8); }
    r.resize(n);
    return r;
  }
  for (size_t i = 0; i < n; i++) r.push_back((char)below(256));
  return r;
}
// ------------------------------------------------------------------ ctx
static std::string vfmt(const char *f, va_list ap) {
  va_list a2;
  va_copy(a2, ap);
  int n = vsnprintf(nullptr, 0, f, a2);
  va_end(a2);
  std::string r(n < 0 ? 0 : n + 1, 0);
  if (n >= 0) { vsnprintf(&r[0], n + 1, f, ap); r.resize(n); }
  return r;
}
std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); auto r = vfmt(f, ap); va_end(ap); return r; }
void note_desc(const std::string &);
void Ctx::d(const char *f, ...) { va_list ap; va_start(ap, f); std::string t = vfmt(f, ap); desc += t; note_desc(t); va_end(ap); }
void Ctx::fail(const char *f, ...) { va_list ap; va_start(ap, f); Failure e{"", vfmt(f, ap)}; va_end(ap); throw e; }
void Ctx::failk(const char *key, const char *f, ...) { va_list ap; va_start(ap, f); Failure e{key, vfmt(f, ap)}; va_end(ap); throw e; }
std::string esc(const std::string &s, size_t max) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (r.size() > max) { r += fmt("...(%zu bytes)", s.size()); break; }
    unsigned char ch = s[i];
    if (ch == '\n') r += "\\n";
    else if (ch == '\r') r += "\\r";
    else if (ch == '\t') r += "\\t";
    else if (ch == '\\') r += "\\\\";
    else if (ch == '"') r += "\\\"";
    else if (ch < 32 || ch >= 127) r += fmt("\\x%02x", ch);
    else r += (char)ch;
  }
  return r;
}
// ------------------------------------------------------------------ resources
static std::atomic<long> g_live{0};
static void on_malloc(const volatile void *, size_t) { g_live++; }
static void on_free(const volatile void *p) { if (p) g_live--; }
long live_allocs() { return g_live; }
static std::string g_scratch;
static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { remove(p); return 0; }
static void rm_tree(const std::string &d) { if (d.size() > 10) nftw(d.c_str(), rm_cb, 64, FTW_DEPTH | FTW_PHYS); }
std::string scratch() {
  if (g_scratch.empty()) {
    char t[] = "/tmp/verif-pbt-XXXXXX";
    if (!mkdtemp(t)) { perror("mkdtemp"); exit(3); }
    g_scratch = t;
  }
  return g_scratch;
}
void drop_privileges() {
  if (geteuid() != 0) return;
  std::string s = scratch();
  if (chown(s.c_str(), 65534, 65534) || setgroups(0, nullptr) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)) { perror("drop privileges"); exit(3); }
  prctl(PR_SET_DUMPABLE, 1);
}
int open_fds() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
// ------------------------------------------------------------------ shared state
struct Shm {
  volatile uint32_t nrec;
  volatile uint64_t evals, nontriv;
  volatile uint64_t case_no;
  volatile double start;                 // wall time the current case began, 0 when idle
  volatile int failed;                   // 1: property failed, 2: hang (cpu)
  char key[128];
  char msg[6000];
  char desc[20000];
  volatile int known_hits[64];
  uint32_t rec[];
};
static Shm *new_shm() {
  size_t sz = sizeof(Shm) + config.max_choices * 4;
  void *p = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shm *)p;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static std::vector<std::string> g_known;   // keys listed in the known-findings file
static Shm *cur_shm;
static void on_vtalrm(int) {
  if (cur_shm) cur_shm->failed = 2;
  static const char m[] = "case exceeded its CPU limit (endless loop)\n";
  if (write(2, m, sizeof m - 1)) {}
  _exit(11);
}
static void put(char *dst, size_t n, const std::string &s) {
  size_t l = std::min(n - 1, s.size());
  memcpy(dst, s.data(), l);
  dst[l] = 0;
}
void note_desc(const std::string &t) {      // survives a crash of the case
  if (!cur_shm) return;
  size_t l = strnlen(cur_shm->desc, sizeof cur_shm->desc), n = std::min(t.size(), sizeof cur_shm->desc - 1 - l);
  memcpy(cur_shm->desc + l, t.data(), n);
  cur_shm->desc[l + n] = 0;
}
static uint64_t fnv(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
static void arm_cpu(int s) {
  itimerval it{};
  it.it_value.tv_sec = s;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
struct CaseOut { bool nontrivial; uint64_t hash; std::string desc; std::map<std::string, long> labels; };

// One evaluation; throws Failure.
static void run_case(Gen &g, Shm *sh, CaseOut *out, bool keep_desc) {
  sh->nrec = 0;
  sh->desc[0] = 0;
  g.rec = sh->rec; g.nrec = &sh->nrec; g.maxrec = config.max_choices;
  sh->start = now();
  arm_cpu(config.cpu_limit_s);
  long retained = 0;
  Gen g0 = g;
  for (int round = 0;; round++) {
    long before = g_live;
    {
      Ctx c;
      try { property(g, c); }
      catch (Failure &f) { put(sh->desc, sizeof sh->desc, c.desc); throw; }
      if (round == 0) {
        out->nontrivial = c.nontrivial;
        out->hash = fnv(c.desc);
        put(sh->desc, sizeof sh->desc, c.desc);
      }
      if (round == 0) {   // what the caller keeps is not a leak of the case
        long b = g_live;
        out->labels = c.labels;
        if (keep_desc) out->desc = c.desc;
        retained = g_live - b;
      } else retained = 0;
    }
    if (!config.leak_check) break;
    long delta = g_live - before - retained;
    if (delta <= 0) break;
    if (round == 3) {
      Failure f{"leak", fmt("memory leak: each run of this case leaves %ld allocation(s) live", delta)};
      throw f;
    }
    g = g0;   // same choices again: a cache fills once, a leak grows every time
    if (g.mode == Gen::RANDOM) { /* same rng state => same choices */ }
    sh->nrec = 0;
  }
  arm_cpu(0);
  sh->start = 0;
}
static bool known_key(const std::string &k, Shm *sh) {
  if (k.empty()) return false;
  for (size_t i = 0; i < g_known.size() && i < 64; i++)
    if (g_known[i] == k) { sh->known_hits[i] = sh->known_hits[i] + 1; return true; }
  return false;
}
static void child_setup(Shm *sh, int errfd) {
  cur_shm = sh;
  if (errfd >= 0) dup2(errfd, 2);
  int dn = open("/dev/null", O_RDWR);
  if (dn >= 0) { dup2(dn, 1); dup2(dn, 0); if (dn > 2) close(dn); }
  struct sigaction sa{};
  sa.sa_handler = on_vtalrm;
  sigaction(SIGVTALRM, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  setpgid(0, 0);
  if (&__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  scratch();
  harness_init();
}
static void finish_child(int rc) { fflush(nullptr); rm_tree(g_scratch); _exit(rc); }

static uint64_t case_seed(uint64_t seed, int w, uint64_t i) {
  uint64_t x = seed * 0x100000001B3ull + 77;
  splitmix(x); x ^= (uint64_t)w << 48; splitmix(x); x += i * 0xD1342543DE82EF95ull; splitmix(x);
  return x;
}
struct WorkerOut { std::string path; };

static void worker(int w, uint64_t seed, uint64_t maxcases, uint64_t mincases, double tmax, Shm *sh, const std::string &statpath, int errfd, uint64_t stop_after) {
  child_setup(sh, errfd);
  double t0 = now();
  std::unordered_set<uint64_t> seen;
  std::vector<std::string> samples;
  std::map<std::string, long> labels;
  uint64_t nt = 0;
  for (uint64_t i = 0; i < maxcases; i++) {
    if (stop_after && i > stop_after) break;
    double el = now() - t0;
    if (!stop_after && ((el > tmax && i >= mincases) || el > tmax * 6 + 60)) break;
    if ((i & 63) == 0) rm_tree(std::string());
    sh->case_no = i;
    Gen g;
    g.s = case_seed(seed, w, i);
    CaseOut o;
    bool keep = samples.size() < 3 && (i % 7) == 3;
    try { run_case(g, sh, &o, keep); }
    catch (Failure &f) {
      arm_cpu(0);
      sh->start = 0;
      sh->evals = sh->evals + 1;
      if (known_key(f.key, sh)) continue;
      put(sh->key, sizeof sh->key, f.key);
      put(sh->msg, sizeof sh->msg, f.msg);
      sh->failed = 1;
      finish_child(10);
    }
    sh->evals = sh->evals + 1;
    if (o.nontrivial && seen.insert(o.hash).second) { nt++; sh->nontriv = nt; if (keep) samples.push_back(esc(o.desc, 1200)); }
    for (auto &l : o.labels) labels[l.first] += l.second;
  }
  if (!statpath.empty()) {
    std::ofstream f(statpath);
    f << "N " << seen.size() << "\n";
    for (auto h : seen) f << "H " << h << "\n";
    for (auto &l : labels) f << "L " << l.second << " " << l.first << "\n";
    for (auto &s : samples) f << "S " << s << "\n";
  }
  finish_child(0);
}
// Runs one choice sequence in a child. Returns 0 pass, else failure; fills *msg.
struct Outcome { int rc = 0; std::string key, msg, desc, err; std::vector<uint32_t> rec; };
static std::string slurp(const std::string &p, size_t max = 200000) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  if (s.size() > max) s = s.substr(0, max);
  return s;
}
static int wait_child(pid_t pid, Shm *sh, double wall, bool *hang) {
  int st = 0;
  double t0 = now();
  int us = 200;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > wall) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); *hang = true; break; }
    usleep(us);
    if (us < 5000) us += us / 2;
  }
  kill(-pid, SIGKILL);
  return st;
}
static void cleanup_pid_scratch(pid_t) {}
static std::string g_tmpdir;
static Outcome run_choices(const std::vector<uint32_t> &ch, bool verbose, int tries) {
  Outcome o;
  static Shm *sh = new_shm();
  for (int t = 0; t < tries; t++) {
    memset((void *)sh, 0, sizeof(Shm));
    std::string errp = g_tmpdir + "/err";
    int ef = verbose ? dup(2) : open(errp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    g_scratch = g_tmpdir + "/scr";
    rm_tree(g_scratch); mkdir(g_scratch.c_str(), 0700);
    pid_t pid = fork();
    if (!pid) {
      child_setup(sh, ef);
      Gen g;
      g.mode = Gen::REPLAY;
      g.in = ch.data(); g.nin = ch.size();
      CaseOut co;
      try { run_case(g, sh, &co, true); }
      catch (Failure &f) {
        if (known_key(f.key, sh)) finish_child(0);
        put(sh->key, sizeof sh->key, f.key);
        put(sh->msg, sizeof sh->msg, f.msg);
        finish_child(10);
      }
      finish_child(0);
    }
    close(ef);
    bool hang = false;
    int st = wait_child(pid, sh, config.wall_limit_s, &hang);
    rm_tree(g_scratch);
    g_scratch.clear();
    o.rc = hang ? 12 : WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    o.msg = sh->msg; o.key = sh->key; o.desc = sh->desc;
    if (hang) o.msg = fmt("case did not finish within %d s (hang)", config.wall_limit_s);
    else if (o.rc == 11) o.msg = fmt("case used more than %d s of CPU (endless loop)", config.cpu_limit_s);
    else if (o.rc && o.rc != 10) o.msg = fmt("process died (status %d), see report", o.rc);
    if (!verbose) o.err = slurp(errp, 12000);
    o.rec.assign(sh->rec, sh->rec + sh->nrec);
    if (o.rc) return o;
  }
  return o;
}
static std::vector<uint32_t> shrink(std::vector<uint32_t> ch, Outcome &best, double budget, int &runs) {
  double t0 = now();
  bool hangy = best.rc == 12 || best.rc == 11;
  auto attempt = [&](const std::vector<uint32_t> &c) {
    if (now() - t0 > budget) return false;
    runs++;
    Outcome o = run_choices(c, false, config.flaky_retries);
    if (!o.rc) return false;
    if (!hangy && (o.rc == 12 || o.rc == 11)) return false;
    // keep the same kind of failure
    if ((o.rc == 10) != (best.rc == 10)) return false;
    best = o;
    // the recorded sequence is the canonical form of what was consumed
    ch = o.rc == 10 && !o.rec.empty() && o.rec.size() <= c.size() ? o.rec : c;
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t k = std::max<size_t>(ch.size() / 2, 1); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= ch.size() && now() - t0 < budget;) {
        auto c = ch;
        c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) progress = true; else i += k;
      }
      if (k == 1) break;
    }
    for (size_t k = std::max<size_t>(ch.size() / 4, 1); k >= 1; k /= 4) {   // zero runs
      for (size_t i = 0; i + k <= ch.size() && now() - t0 < budget; i += k) {
        bool z = true;
        for (size_t j = i; j < i + k; j++) if (ch[j]) z = false;
        if (z) continue;
        auto c = ch;
        for (size_t j = i; j < i + k; j++) c[j] = 0;
        if (attempt(c)) progress = true;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < ch.size() && now() - t0 < budget; i++) {        // lower values
      uint32_t lo = 0;
      while (i < ch.size() && ch[i] > lo && now() - t0 < budget) {
        auto c = ch;
        uint32_t mid = lo + (ch[i] - lo) / 2;
        c[i] = mid;
        if (attempt(c)) progress = true; else if (mid == lo) break; else lo = mid;
        if (i < ch.size() && ch[i] == lo + 1) { auto c2 = ch; c2[i] = lo; attempt(c2); break; }
      }
    }
  }
  return ch;
}
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch < 32 || ch >= 127) r += fmt("\\u%04x", ch);
    else r += ch;
  }
  return r + "\"";
}
static void write_replay(const std::string &path, const char *kind, const std::vector<uint32_t> &ch, const Outcome &o, uint64_t seed, int w, uint64_t caseno) {
  std::ofstream f(path);
  f << "{\n \"kind\": \"" << kind << "\",\n \"seed\": " << seed << ", \"worker\": " << w << ", \"case\": " << caseno
    << ",\n \"message\": " << jstr(o.msg) << ",\n \"key\": " << jstr(o.key) << ",\n \"case_description\": " << jstr(o.desc.substr(0, 6000))
    << ",\n \"report\": " << jstr(o.err.substr(0, 8000)) << ",\n \"choices\": [";
  for (size_t i = 0; i < ch.size(); i++) f << (i ? "," : "") << ch[i];
  f << "]\n}\n";
}
static std::vector<uint32_t> read_choices(const std::string &path, std::string *kind, uint64_t *seed, int *w, uint64_t *cn) {
  std::string s = slurp(path, 100u << 20);
  auto num = [&](const char *k) -> uint64_t { auto p = s.find(std::string("\"") + k + "\": "); return p == std::string::npos ? 0 : strtoull(s.c_str() + p + strlen(k) + 4, nullptr, 10); };
  *kind = s.find("\"kind\": \"history\"") != std::string::npos ? "history" : "choices";
  *seed = num("seed"); *w = (int)num("worker"); *cn = num("case");
  std::vector<uint32_t> r;
  auto p = s.rfind("\"choices\": [");
  if (p == std::string::npos) return r;
  const char *c = s.c_str() + p + 12;
  while (*c && *c != ']') { char *e; unsigned long v = strtoul(c, &e, 10); if (e == c) break; r.push_back((uint32_t)v); c = e; while (*c == ',' || *c == ' ') c++; }
  return r;
}
static Outcome run_history(uint64_t seed, int w, uint64_t caseno) {
  Shm *sh = new_shm();
  std::string errp = g_tmpdir + "/errh";
  int ef = open(errp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  g_scratch = g_tmpdir + "/scrh";
  rm_tree(g_scratch); mkdir(g_scratch.c_str(), 0700);
  pid_t pid = fork();
  if (!pid) worker(w, seed, UINT64_MAX, 0, 1e9, sh, "", ef, caseno);
  close(ef);
  Outcome o;
  int st = 0;
  bool hang = false;
  for (;;) {
    if (waitpid(pid, &st, WNOHANG) == pid) break;
    double s = sh->start;
    if (s && now() - s > config.wall_limit_s) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(2000);
  }
  kill(-pid, SIGKILL);
  o.rc = hang ? 12 : WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  o.msg = sh->msg; o.key = sh->key; o.desc = sh->desc;
  if (o.rc && o.rc != 10) o.msg = fmt("process died or hung (status %d)", o.rc);
  o.err = slurp(errp, 12000);
  rm_tree(g_scratch);
  g_scratch.clear();
  return o;
}
static int fuzz_mode_bytes(const uint8_t *data, size_t n);
} // namespace pbt

using namespace pbt;

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t n) {
  static Shm *sh = nullptr;
  if (!sh) {
    if (getenv("PBT_KNOWN")) { std::stringstream ss(getenv("PBT_KNOWN")); std::string k; while (std::getline(ss, k, ',')) g_known.push_back(k); }
    sh = new_shm();
    signal(SIGPIPE, SIG_IGN);
    scratch();
    harness_init();
  }
  bool lc = config.leak_check;
  config.leak_check = false;
  Gen g;
  g.mode = Gen::BYTES;
  g.bin = data; g.nbin = n;
  CaseOut o;
  try { run_case(g, sh, &o, false); }
  catch (Failure &f) {
    arm_cpu(0);
    if (!known_key(f.key, sh)) { fprintf(stderr, "PBT-FAIL %s\n", f.msg.c_str()); abort(); }
  }
  config.leak_check = lc;
  return 0;
}
#else
int main(int argc, char **argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto num = [&](const char *k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
  char td[] = "/tmp/verif-run-XXXXXX";
  if (!mkdtemp(td)) { perror("mkdtemp"); return 3; }
  g_tmpdir = td;
  chmod(td, 0711);
  struct Cleaner { ~Cleaner() { rm_tree(g_tmpdir); } } cleaner;
  if (a.count("--known")) { std::stringstream ss(a["--known"]); std::string k; while (std::getline(ss, k, ',')) if (!k.empty()) g_known.push_back(k); }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  {                                       // the settings a harness makes when it starts, without its side effects
    Config *c = (Config *)mmap(nullptr, sizeof(Config), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *c = config;
    pid_t pid = fork();
    if (!pid) { child_setup(new_shm(), -1); *c = config; finish_child(0); }
    int st;
    waitpid(pid, &st, 0);
    config = *c;
  }

  if (a.count("--replay")) {
    std::string kind; uint64_t seed, cn; int w;
    auto ch = read_choices(a["--replay"], &kind, &seed, &w, &cn);
    bool verbose = num("--verbose", 1) != 0;
    Outcome o = kind == "history" ? run_history(seed, w, cn) : run_choices(ch, verbose, config.flaky_retries);
    printf("%s: %s\ncase: %s\n", o.rc ? "FAIL" : "PASS", o.msg.c_str(), o.desc.c_str());
    return o.rc ? 1 : 0;
  }
  std::string replay = a.count("--replay-out") ? a["--replay-out"] : "replay.json";
  uint64_t seed = (uint64_t)num("--seed", 1);
  int rc = 0;
  double t0 = now();
  Outcome found;
  std::vector<uint32_t> fch;
  int fw = -1; uint64_t fcase = 0;
  uint64_t evals = 0, nontriv = 0;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
  std::vector<long> khits(64, 0);
  bool have_found = false;

  if (a.count("--bytes")) {     // a libFuzzer artifact: convert to choices
    std::string data = slurp(a["--bytes"], 64u << 20);
    Shm *sh = new_shm();
    std::string errp = g_tmpdir + "/e";
    int ef = open(errp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    g_scratch = g_tmpdir + "/scr"; mkdir(g_scratch.c_str(), 0700);
    pid_t pid = fork();
    if (!pid) {
      child_setup(sh, ef);
      Gen g; g.mode = Gen::BYTES; g.bin = (const uint8_t *)data.data(); g.nbin = data.size();
      CaseOut co;
      try { run_case(g, sh, &co, true); } catch (Failure &f) { finish_child(known_key(f.key, sh) ? 0 : 10); }
      finish_child(0);
    }
    bool hang = false;
    int st = wait_child(pid, sh, config.wall_limit_s, &hang);
    g_scratch.clear();
    fch.assign(sh->rec, sh->rec + sh->nrec);
    found = run_choices(fch, false, config.flaky_retries);
    (void)st;
    have_found = found.rc != 0;
    if (!have_found) { printf("{\"failed\": false}\n"); return 0; }
  } else {
    int jobs = (int)num("--jobs", 8);
    double tmax = num("--time", 20);
    uint64_t maxc = (uint64_t)num("--cases", 1e15), minc = (uint64_t)num("--mincases", 0);
    std::vector<Shm *> sh(jobs);
    std::vector<pid_t> pid(jobs);
    std::vector<bool> done(jobs, false);
    for (int w = 0; w < jobs; w++) {
      sh[w] = new_shm();
      std::string e = g_tmpdir + fmt("/err%d", w);
      int ef = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      g_scratch = g_tmpdir + fmt("/scr%d", w);
      mkdir(g_scratch.c_str(), 0700);
      { std::string sp = g_tmpdir + fmt("/stat%d", w); close(open(sp.c_str(), O_CREAT | O_WRONLY, 0600)); chmod(sp.c_str(), 0666); }
      pid[w] = fork();
      if (!pid[w]) worker(w, seed, maxc, minc, tmax, sh[w], g_tmpdir + fmt("/stat%d", w), ef, 0);
      close(ef);
    }
    g_scratch.clear();
    int left = jobs;
    while (left && fw < 0) {
      for (int w = 0; w < jobs; w++) {
        if (done[w]) continue;
        int st;
        pid_t r = waitpid(pid[w], &st, WNOHANG);
        bool hang = false;
        if (r != pid[w]) {
          double s = sh[w]->start;
          if (s && now() - s > config.wall_limit_s) { kill(-pid[w], SIGABRT); usleep(200000); kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hang = true; }
          else continue;
        }
        kill(-pid[w], SIGKILL);
        done[w] = true;
        left--;
        int code = hang ? 12 : WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        if (code == 0) continue;
        fw = w;
        fcase = sh[w]->case_no;
        found.rc = code;
        found.msg = sh[w]->msg; found.key = sh[w]->key; found.desc = sh[w]->desc;
        found.err = slurp(g_tmpdir + fmt("/err%d", w), 200000);
        if (found.err.size() > 12000) found.err = found.err.substr(0, 12000);
        if (code == 12) found.msg = "case hung";
        fch.assign(sh[w]->rec, sh[w]->rec + sh[w]->nrec);
        have_found = true;
        break;
      }
      usleep(3000);
    }
    for (int w = 0; w < jobs; w++) if (!done[w]) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); }
    std::unordered_set<uint64_t> all;
    for (int w = 0; w < jobs; w++) {
      evals += sh[w]->evals;
      for (int k = 0; k < 64; k++) khits[k] += sh[w]->known_hits[k];
      std::ifstream f(g_tmpdir + fmt("/stat%d", w));
      std::string line;
      bool any = false;
      while (std::getline(f, line)) {
        any = true;
        if (line[0] == 'H') all.insert(strtoull(line.c_str() + 2, nullptr, 10));
        else if (line[0] == 'L') { char *e; long n = strtol(line.c_str() + 2, &e, 10); labels[e + 1] += n; }
        else if (line[0] == 'S' && samples.size() < 8) samples.push_back(line.substr(2));
      }
      if (!any) nontriv += sh[w]->nontriv;
    }
    nontriv += all.size();
  }
  int shrink_runs = 0;
  std::string status = "held";
  if (have_found) {
    fprintf(stderr, "candidate failure (worker %d, case %lu, status %d): %s\n", fw, (unsigned long)fcase, found.rc, found.msg.c_str());
    Outcome first_found = found;
    if (first_found.rc && first_found.rc != 10 && first_found.msg.empty()) first_found.msg = fmt("process died (status %d), see report", first_found.rc);
    Outcome o = run_choices(fch, false, config.flaky_retries);
    if (o.rc) {
      double budget = num("--shrink", 60);
      auto small = shrink(fch, o, budget, shrink_runs);
      int ok = 0, need = o.rc == 12 || o.rc == 11 ? 1 : 3;      // each hang takes the whole limit
      for (int i = 0; i < need; i++) { Outcome c = run_choices(small, false, config.flaky_retries); if (c.rc) { ok++; o = c; } }
      if (ok == need) { write_replay(replay, "choices", small, o, seed, fw, fcase); status = "violated"; }
      else {
        ok = 0;
        for (int i = 0; i < need; i++) { Outcome c = run_choices(fch, false, config.flaky_retries); if (c.rc) { ok++; o = c; } }
        if (ok == need) { write_replay(replay, "choices", fch, o, seed, fw, fcase); status = "violated"; }
        else { status = "unconfirmed"; write_replay(replay, "choices", fch, found, seed, fw, fcase); }
      }
      found = o;
    } else if (fw >= 0) {
      int ok = 0;
      for (int i = 0; i < 3; i++) { Outcome c = run_history(seed, fw, fcase); if (c.rc) { ok++; o = c; } else break; }
      if (ok == 3) { write_replay(replay, "history", {}, o, seed, fw, fcase); status = "violated"; found = o; }
      else { status = "unconfirmed"; write_replay(replay, "choices", fch, found, seed, fw, fcase); }
    }
    // Schedules need not repeat: what the sanitizer or the oracle saw once has happened.
    if (status == "unconfirmed" && config.trust_first && first_found.rc != 12 && first_found.rc != 11 && first_found.key != "time") {
      found = first_found;
      write_replay(replay, "choices", fch, found, seed, fw, fcase);
      status = "violated";
    }
    if (status == "violated") rc = 1;
  }
  std::ofstream out(a.count("--out") ? a["--out"] : "/dev/stdout");
  out << "{\n \"status\": \"" << status << "\",\n \"evaluations\": " << evals << ",\n \"distinct_nontrivial\": " << nontriv
      << ",\n \"wall_s\": " << (now() - t0) << ",\n \"shrink_runs\": " << shrink_runs << ",\n \"rule\": " << jstr(config.rule)
      << ",\n \"message\": " << jstr(found.msg) << ",\n \"key\": " << jstr(found.key) << ",\n \"case\": " << jstr(found.desc.substr(0, 4000)) << ",\n \"report\": " << jstr(found.err.substr(0, 6000)) << ",\n \"known_hits\": {";
  bool first = true;
  for (size_t i = 0; i < g_known.size() && i < 64; i++) { out << (first ? "" : ", ") << jstr(g_known[i]) << ": " << khits[i]; first = false; }
  out << "},\n \"labels\": {";
  first = true;
  for (auto &l : labels) { out << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
  out << "},\n \"samples\": [";
  first = true;
  for (auto &s : samples) { out << (first ? "" : ", ") << jstr(s); first = false; }
  out << "]\n}\n";
  return rc;
}
#endif
