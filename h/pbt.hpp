// Choice-sequence property-based testing engine.
//
// A test case is the sequence of bounded choices its generator makes.  The
// sequence is recorded in shared memory while the case runs, so a crash, a
// sanitizer report or a hang still leaves the failing case behind; shrinking
// edits the sequence (deletes runs, lowers values) and re-runs it in a fresh
// process, and the replay file is the shrunk sequence.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string key, msg;
};

class Gen {
public:
  enum Mode { RANDOM, REPLAY, BYTES };
  Mode mode = RANDOM;
  uint64_t s = 0;                       // rng state
  const uint32_t *in = nullptr;         // replay
  size_t nin = 0;
  const uint8_t *bin = nullptr;         // bytes
  size_t nbin = 0;
  size_t pos = 0;
  uint32_t *rec = nullptr;              // recording (shared memory)
  volatile uint32_t *nrec = nullptr;
  size_t maxrec = 0;

  uint32_t below(uint32_t n);           // [0,n), 0 if n<=1 (still one choice)
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint32_t)(hi - lo + 1)); }
  // true with probability num/den; shrinks to false
  bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
  bool coin() { return below(2) == 1; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
  template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[below((uint32_t)N)]; }
  // A length: mostly small, sometimes up to max, sometimes right around one of
  // the given boundaries.
  size_t len(size_t max, const std::vector<size_t> &boundaries = {});
  // index chosen with the given weights
  size_t weighted(const std::vector<uint32_t> &w);
  std::string from(const char *alphabet, size_t n);   // n chars of alphabet
  std::string from(const std::string &alphabet, size_t n);
  std::string raw(size_t n);            // n arbitrary bytes (cheap for big n)
};

struct Ctx {
  bool nontrivial = false;
  bool verbose = false;
  std::string desc;                     // canonical rendering, hashed for distinctness
  std::map<std::string, long> labels;
  void d(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void label(const std::string &s) { labels[s]++; }
  [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void failk(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
};

struct Config {
  const char *rule = "";                // what a case is and what makes it non-trivial
  bool leak_check = false;              // compare live allocations across repeated runs
  int cpu_limit_s = 10;                 // per case CPU (infinite loop)
  int wall_limit_s = 40;                // per case wall (deadlock)
  int flaky_retries = 1;                // replays may need several attempts (schedules)
  bool trust_first = false;             // schedules: a sanitizer report or a wrong result needs no second occurrence (key "time" does)
  size_t max_choices = 1 << 18;
};

// ---- to be provided by each harness
extern Config config;
void property(Gen &g, Ctx &c);
void harness_init();                    // once per process (before cases)

// ---- helpers
std::string esc(const std::string &s, size_t max = 200);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
long live_allocs();
std::string scratch();                  // private scratch dir of this worker (created, removed at end)
int open_fds();
void drop_privileges();                 // become nobody (scratch stays usable), when root

}
using pbt::Ctx;
using pbt::Gen;
using pbt::esc;
using pbt::fmt;
