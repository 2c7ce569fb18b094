// C14: growing blocks against a string model.
#include "onionh.hpp"
using namespace pbt;
Config pbt::config = {
  .rule = "a case is a history of up to 80 appends/rewinds/clears/reads over 1..3 blocks with sizes around the growth boundaries; "
          "non-trivial: at least 3 appends and a total above 16 bytes (the initial capacity)",
  .leak_check = true,
};
void pbt::harness_init() { oh::quiet_log(); }
void pbt::property(Gen &g, Ctx &c) {
  int nb = 1 + g.below(3);
  std::vector<onion_block *> B;
  std::vector<std::string> M(nb);
  struct F { std::vector<onion_block *> &B; ~F() { for (auto b : B) onion_block_free(b); } } f{B};
  for (int i = 0; i < nb; i++) B.push_back(onion_block_new());
  size_t n = 1 + g.len(80);
  int app = 0;
  size_t most = 0;
  static const std::vector<size_t> bd = {15, 16, 17, 32, 64, 512, 1023, 1024, 1025, 2048, 4096};
  for (size_t op = 0; op < n; op++) {
    int i = g.below(nb);
    switch (g.weighted({10, 10, 10, 6, 3, 2, 2, 3})) {
    case 0: {
      size_t k = g.chance(1, 4) ? g.len(3000, bd) : 1;
      char ch = (char)g.below(256);
      c.d("char %d x%zu %02x; ", i, k, (unsigned char)ch);
      for (size_t j = 0; j < k; j++) onion_block_add_char(B[i], ch);
      M[i].append(k, ch); app++;
      break;
    }
    case 1: {
      std::string s = g.raw(g.len(5000, bd));
      for (auto &x : s) if (!x) x = 'z';
      c.d("str %d %zu; ", i, s.size());
      char *p = strdup(s.c_str());
      int r = onion_block_add_str(B[i], p);
      free(p);
      (void)r;
      M[i] += s; app++;
      break;
    }
    case 2: {
      std::string s = g.raw(g.len(5000, bd));
      c.d("data %d %zu; ", i, s.size());
      char *p = (char *)malloc(s.size() ? s.size() : 1);
      memcpy(p, s.data(), s.size());
      int r = onion_block_add_data(B[i], p, s.size());
      free(p);
      if (r != (int)s.size()) c.fail("adding %zu bytes reports %d", s.size(), r);
      M[i] += s; app++;
      break;
    }
    case 3: {
      int j = g.below(nb);
      if (M[i].size() + M[j].size() > 100000) break;
      c.d("block %d<-%d; ", i, j);
      std::string s = M[j];
      onion_block_add_block(B[i], B[j]);
      M[i] += s; app++;
      break;
    }
    case 4: {
      size_t k = g.len(3000, {M[i].size()});
      c.d("rewind %d %zu; ", i, k);
      onion_block_rewind(B[i], k);
      M[i].resize(k > M[i].size() ? 0 : M[i].size() - k);
      break;
    }
    case 5:
      c.d("clear %d; ", i);
      onion_block_clear(B[i]);
      M[i].clear();
      break;
    case 6: {
      int k = (int)g.len(5000, bd);
      c.d("reserve %d %d; ", i, k);
      onion_block_min_maxsize(B[i], k);
      break;
    }
    case 7: {   // append a piece of the block's own data
      if (M[i].empty() || M[i].size() > 100000) break;
      size_t a = g.below(M[i].size()), l = g.below(M[i].size() - a + 1);
      c.d("self %d [%zu,%zu); ", i, a, a + l);
      onion_block_add_data(B[i], onion_block_data(B[i]) + a, l);
      M[i] += M[i].substr(a, l); app++;
      break;
    }
    }
    for (int k = 0; k < nb; k++) {
      if (k != i && !g.chance(1, 4)) continue;
      most = std::max(most, M[k].size());
      if ((size_t)onion_block_size(B[k]) != M[k].size()) c.fail("block size %ld, expected %zu", (long)onion_block_size(B[k]), M[k].size());
      const char *d = onion_block_data(B[k]);
      if (memcmp(d, M[k].data(), M[k].size())) c.fail("block contents differ from what was appended");
      if (d[M[k].size()] != 0) c.fail("block data is not terminated");
      if ((size_t)onion_block_size(B[k]) != M[k].size()) c.fail("reading the data changed the size to %ld, expected %zu", (long)onion_block_size(B[k]), M[k].size());
    }
  }
  c.nontrivial = app >= 3 && most > 16;
}
