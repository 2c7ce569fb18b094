// C29: a pointer list holds exactly the pointers put in it.
#include "onionh.hpp"
pbt::Config pbt::config;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is a history of up to 60 operations (add, remove, filter, count, walk) on a pointer list; non-trivial when something that is not the first element was removed";
  config.leak_check = true;
}
static std::vector<long> walked;
static void walk(void *p) { walked.push_back((long)p); }
struct F { std::set<long> keep; std::vector<long> asked; };
static bool keep(void *d, void *p) { F *f = (F *)d; f->asked.push_back((long)p); return f->keep.count((long)p); }
void pbt::property(Gen &g, Ctx &c) {
  onion_ptr_list *l = onion_ptr_list_new();
  std::vector<long> m;                         // newest first
  int n = 1 + (int)g.below(60), kinds = 1 + (int)g.below(12);
  for (int i = 0; i < n; i++) {
    switch (g.weighted({6, 3, 1})) {
    case 0: { long v = g.below(kinds); c.d("add %ld ", v); l = onion_ptr_list_add(l, (void *)v); m.insert(m.begin(), v); break; }
    case 1: {
      long v = g.below(kinds + 1);
      c.d("remove %ld ", v);
      l = onion_ptr_list_remove(l, (void *)v);
      auto it = std::find(m.begin(), m.end(), v);
      if (it != m.end()) { if (it != m.begin()) c.nontrivial = true; m.erase(it); }
      break;
    }
    case 2: {
      F f;
      for (int k = 0; k < kinds; k++) if (g.chance(2, 3)) f.keep.insert(k);
      c.d("filter ");
      std::vector<long> e, o = m;
      for (long v : m) if (f.keep.count(v)) e.push_back(v);
      if (e.size() < m.size()) c.nontrivial = true;
      l = onion_ptr_list_filter(l, keep, &f);
      std::sort(f.asked.begin(), f.asked.end());
      std::sort(o.begin(), o.end());
      if (f.asked != o) c.fail("filter did not ask once about each element");
      m = e;
      break;
    }
    }
    walked.clear();
    onion_ptr_list_foreach(l, walk);
    // an element several times in the list: which one of its equal entries goes is not visible except by position
    std::vector<long> a = walked, b = m;
    if (a != b) c.fail("after step %d the list has %zu elements, or another order; expected %zu", i + 1, a.size(), b.size());
    if (onion_ptr_list_count(l) != m.size()) c.fail("count is %zu, expected %zu", onion_ptr_list_count(l), m.size());
  }
  onion_ptr_list_free(l);
}
