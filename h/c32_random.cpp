// C32: random data fills exactly what was asked for, and neither it nor session identifiers repeat or can be foreseen.
#include "onionh.hpp"
#include <atomic>
#include <math.h>
#include <mutex>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
extern "C" {
void onion_random_init(void);
void onion_random_free(void);
void onion_random_generate(void *, size_t);
void plain_random_init(void);
void plain_random_free(void);
void plain_random_generate(void *, size_t);
char *onion_sessions_generate_id(void);
}
struct Rng { const char *name; void (*init)(); void (*free)(); void (*gen)(void *, size_t); };
static const Rng RNG[] = {{"gnutls", onion_random_init, onion_random_free, onion_random_generate},
                          {"plain", plain_random_init, plain_random_free, plain_random_generate}};
pbt::Config pbt::config;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is a history of initialisations, releases, fills of generated sizes and positions, and session identifiers, on the two generators, in one thread, several threads or several processes; non-trivial when at least one fill of eight bytes or more was judged";
  config.leak_check = true;
}
// What a new process draws after it initialised the generator itself.
static std::string child_draw(const Rng &r, size_t n, bool id) {
  int p[2];
  if (pipe(p)) return "";
  pid_t k = fork();
  if (k == 0) {
    close(p[0]);
    r.init();
    std::string b(n, 0);
    if (id) { char *s = onion_sessions_generate_id(); b = s; } else r.gen(&b[0], n);
    if (write(p[1], b.data(), b.size()) < 0) {}
    _exit(0);
  }
  close(p[1]);
  std::string out;
  char b[256];
  ssize_t l;
  while ((l = read(p[0], b, sizeof b)) > 0) out.append(b, l);
  close(p[0]);
  if (k > 0) waitpid(k, NULL, 0);
  return out;
}
static void history(Gen &g, Ctx &c) {
  int inits[2] = {0, 0};
  std::set<std::string> seen;                        // every group of eight bytes drawn, and every identifier
  std::vector<size_t> count(256);
  size_t drawn = 0;
  int n = 1 + (int)g.below(25);
  for (int i = 0; i < n; i++) {
    int w = (int)g.below(2);
    const Rng &r = RNG[w];
    switch (g.weighted({3, 2, 8, 3})) {
    case 0: c.d("%s+ ", r.name); r.init(); inits[w]++; break;
    case 1: if (!inits[w]) break; c.d("%s- ", r.name); r.free(); inits[w]--; break;
    case 2: {
      if (!inits[w]) { r.init(); inits[w]++; }
      size_t len = g.len(3000, {0, 1, 3, 4, 7, 8, 15, 16, 32, 63, 64, 255, 256, 1023, 1024}), off = g.below(40), tail = 1 + g.below(40);
      c.d("%s:%zu ", r.name, len);
      std::vector<unsigned char> first(len), changed(len);
      for (int k = 0; k < 10; k++) {
        std::vector<unsigned char> b(off + len + tail, 0xA5);
        r.gen(b.data() + off, len);
        for (size_t j = 0; j < off; j++) if (b[j] != 0xA5) c.fail("%s: a byte %zu before the buffer of %zu was changed", r.name, off - j, len);
        for (size_t j = off + len; j < b.size(); j++) if (b[j] != 0xA5) c.fail("%s: byte %zu after the buffer of %zu was changed", r.name, j - off - len, len);
        for (size_t j = 0; j < len; j++) { if (!k) first[j] = b[off + j]; else if (b[off + j] != first[j]) changed[j] = 1; count[b[off + j]]++; }
        drawn += len;
        for (size_t j = 0; j + 8 <= len; j += 8) if (!seen.insert(std::string((char *)&b[off + j], 8)).second) c.fail("%s: eight bytes at %zu of %zu were drawn before", r.name, j, len);
      }
      for (size_t j = 0; j < len; j++) if (!changed[j]) c.fail("%s: byte %zu of %zu is the same in ten fills", r.name, j, len);
      if (len >= 8) c.nontrivial = true;
      break;
    }
    case 3: {
      if (!inits[0]) { RNG[0].init(); inits[0]++; }
      char *s = onion_sessions_generate_id();
      std::string id = s;
      free(s);
      c.d("id ");
      if (id.size() != 32) c.fail("a session identifier has %zu characters", id.size());
      for (char ch : id) if (!isalnum((unsigned char)ch)) c.fail("a session identifier holds %s", esc(std::string(1, ch)).c_str());
      for (size_t j = 0; j + 8 <= id.size(); j += 8) if (!seen.insert(id.substr(j, 8)).second) c.fail("eight characters of a session identifier were used before");
      break;
    }
    }
  }
  if (drawn > 40000) {
    double mean = drawn / 256.0, dev = 12 * sqrt(mean);
    for (int v = 0; v < 256; v++) if (fabs(count[v] - mean) > dev) c.fail("the value %d was drawn %zu times in %zu", v, count[v], drawn);
    c.label("counted values");
  }
  for (int w = 0; w < 2; w++) while (inits[w]--) RNG[w].free();
  c.label("history");
}
static void threads(Gen &g, Ctx &c) {
  const Rng &r = RNG[g.below(2)];
  int nt = 2 + (int)g.below(6), per = 1 + (int)g.below(60);
  size_t len = 8 + g.below(40);
  bool ids = &r == RNG && g.coin();
  c.d("%d threads, %d %s of %s", nt, per, ids ? "identifiers" : fmt("times %zu bytes", len).c_str(), r.name);
  std::mutex m;
  std::vector<std::string> all;
  std::atomic<int> go{nt};
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++) th.emplace_back([&] {
    go--;
    while (go > 0) {}
    std::vector<std::string> mine;
    for (int i = 0; i < per; i++) {
      r.init();                                       // balanced, so it may come and go
      std::string b(len, 0);
      if (ids) { char *s = onion_sessions_generate_id(); b = s; free(s); } else r.gen(&b[0], len);
      r.free();
      mine.push_back(b);
    }
    std::lock_guard<std::mutex> l(m);
    all.insert(all.end(), mine.begin(), mine.end());
  });
  for (auto &t : th) t.join();
  // a generator that starts again takes four bytes of seed, so a few may meet there by accident
  size_t total = all.size();
  std::set<std::string> s(all.begin(), all.end());
  if (total - s.size() > (&r == RNG ? 0u : 1u)) c.fail("%s: %zu of %zu drawn by threads are equal", r.name, total - s.size(), total);
  c.nontrivial = true;
  c.label("threads");
}
static void processes(Gen &g, Ctx &c) {
  const Rng &r = RNG[g.below(2)];
  size_t len = 16 + g.below(40);
  bool id = &r == RNG && g.coin();
  c.d("two processes draw %zu bytes of %s", len, id ? "an identifier" : r.name);
  std::string a = child_draw(r, len, id), b = child_draw(r, len, id);
  if (a.size() != (id ? 32 : len) || b.size() != a.size()) c.fail("a process draws %zu bytes instead of %zu", a.size(), len);
  for (size_t j = 0; j + 8 <= a.size(); j += 8) if (!a.compare(j, 8, b, j, 8)) c.fail("two processes draw the same at %zu", j);
  c.nontrivial = true;
  c.label("processes");
}
static void letters(Gen &g, Ctx &c) {
  const char *A = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
  int n = 3000 + (int)g.below(1000);
  c.d("the letters of %d identifiers", n);
  RNG[0].init();
  std::vector<std::set<char>> at(32);
  std::set<std::string> all;
  for (int i = 0; i < n; i++) { char *s = onion_sessions_generate_id(); std::string id = s; free(s); if (id.size() != 32) c.fail("a session identifier has %zu characters", id.size()); for (int k = 0; k < 32; k++) at[k].insert(id[k]); if (!all.insert(id).second) c.fail("a session identifier is repeated"); }
  RNG[0].free();
  for (int k = 0; k < 32; k++) for (const char *p = A; *p; p++) if (!at[k].count(*p)) c.fail("place %d of %d session identifiers is never %c", k, n, *p);
  c.nontrivial = true;
  c.label("letters");
}
static void seeds(Gen &g, Ctx &c) {
  int n = 2000 + (int)g.below(1500), w = (int)g.below(2);
  c.d("%s starts again %d times", RNG[w].name, n);
  std::set<std::string> all;
  for (int i = 0; i < n; i++) { char b[16]; RNG[w].init(); RNG[w].gen(b, sizeof b); RNG[w].free(); all.insert(std::string(b, sizeof b)); }
  if (all.size() + 2 < (size_t)n) c.fail("%s: %d starts draw only %zu different beginnings", RNG[w].name, n, all.size());
  c.nontrivial = true;
  c.label("starting again");
}
void pbt::property(Gen &g, Ctx &c) {
  switch (g.weighted({20, 4, 3, 1, 1})) {
  case 0: history(g, c); break;
  case 1: threads(g, c); break;
  case 2: processes(g, c); break;
  case 3: letters(g, c); break;
  case 4: seeds(g, c); break;
  }
}
