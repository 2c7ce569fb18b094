// C11: dictionaries against a multimap model, with ownership checked by ASan and allocation counting.
#include "onionh.hpp"
using namespace pbt;
Config pbt::config = {
  .rule = "a case is a history of 1..60 (rarely thousands) dictionary operations over 1..6 dictionaries sharing/nesting each other; "
          "non-trivial: at least 3 successful mutations and one of remove/replace/duplicate/merge/copy/nest happened",
  .leak_check = true,
};
void pbt::harness_init() { oh::quiet_log(); }

struct MD;
typedef std::shared_ptr<MD> MP;
struct Ent { std::string key; bool isd; std::string val; MP sub; bool rep; };
struct MD { bool icase = false; std::vector<Ent> e; };  // unordered; compared as multiset per key

static bool keq(bool ic, const std::string &a, const std::string &b) { return ic ? strcasecmp(a.c_str(), b.c_str()) == 0 : a == b; }
static int kcmp(bool ic, const std::string &a, const std::string &b) { return ic ? strcasecmp(a.c_str(), b.c_str()) : strcmp(a.c_str(), b.c_str()); }
struct Seen { std::string key; bool isd; std::string val; const void *ptr; bool rep; };
static void collect(void *data, const char *key, const void *value, int flags) {
  auto *v = (std::vector<Seen> *)data;
  if (flags & OD_DICT) v->push_back({key, true, "", value, !!(flags & OD_REPLACE)});
  else v->push_back({key, false, value ? std::string((const char *)value) : std::string("\x01null"), value, !!(flags & OD_REPLACE)});
}
static std::string ms(const Seen &s) { return s.isd ? "D" : "S" + s.val; }

static MP deep(const MP &m, int depth = 0) {
  auto r = std::make_shared<MD>();
  r->icase = m->icase;
  for (auto &x : m->e) { Ent n = x; if (x.isd) n.sub = deep(x.sub, depth + 1); n.rep = false; r->e.push_back(n); }
  return r;
}
static bool reaches(const MP &a, const MP &b) {   // b reachable from a
  if (a == b) return true;
  for (auto &x : a->e) if (x.isd && reaches(x.sub, b)) return true;
  return false;
}
static size_t total(const MP &m) { size_t n = m->e.size(); for (auto &x : m->e) if (x.isd) n += total(x.sub); return n; }

// Compare dictionary with model. Where the model holds several entries of a key the order among them is free.
static void compare(Ctx &c, const char *when, const onion_dict *d, const MP &m, int depth = 0) {
  std::vector<Seen> s;
  onion_dict_preorder(d, (void *)collect, &s);
  int cnt = onion_dict_count(d);
  if (cnt != (int)s.size()) c.fail("%s: count %d but traversal visits %zu", when, cnt, s.size());
  if (s.size() != m->e.size()) c.fail("%s: dictionary has %zu entries, model %zu", when, s.size(), m->e.size());
  for (size_t i = 1; i < s.size(); i++) if (kcmp(m->icase, s[i - 1].key, s[i].key) > 0) c.fail("%s: traversal out of key order: \"%s\" before \"%s\"", when, esc(s[i - 1].key).c_str(), esc(s[i].key).c_str());
  // each (key exact, value) multiset equal
  std::vector<std::string> a, b;
  for (auto &x : s) a.push_back(x.key + "=" + ms(x));
  for (auto &x : m->e) b.push_back(x.key + "=" + (x.isd ? "D" : "S" + x.val));
  std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) c.fail("%s: entries differ: dictionary \"%s\" vs model \"%s\"", when, esc(a[i]).c_str(), esc(b[i]).c_str());
  // nested: match each sub dictionary of a key with one of the model's (by recursive comparison when unique)
  for (auto &x : s) if (x.isd) {
    std::vector<MP> cand;
    for (auto &y : m->e) if (y.isd && y.key == x.key) cand.push_back(y.sub);
    if (cand.size() == 1) compare(c, when, (const onion_dict *)x.ptr, cand[0], depth + 1);
  }
}
static void lookups(Ctx &c, const char *when, const onion_dict *d, const MP &m, const std::string &k) {
  const char *v = onion_dict_get(d, k.c_str());
  onion_dict *sd = onion_dict_get_dict(d, k.c_str());
  std::set<std::string> strs;
  bool anyd = false, any = false;
  for (auto &x : m->e) if (keq(m->icase, x.key, k)) { any = true; if (x.isd) anyd = true; else strs.insert(x.val); }
  if (!any && (v || sd)) c.fail("%s: lookup of absent key \"%s\" found something", when, esc(k).c_str());
  if (any && !v && !sd) c.fail("%s: key \"%s\" is present but lookup finds nothing", when, esc(k).c_str());
  if (v && !strs.count(v)) c.fail("%s: lookup of \"%s\" gives \"%s\", not one of its values", when, esc(k).c_str(), esc(v).c_str());
  if (sd && !anyd) c.fail("%s: \"%s\" is no dictionary", when, esc(k).c_str());
}

struct GiveUp {};   // several nested dictionaries under one key cannot be told apart by value
struct Handle { onion_dict *d; MP m; };

static void body(Gen &g, Ctx &c) {
  std::vector<Handle> H;
  std::vector<char *> borrowed;        // strings lent to dictionaries
  bool anyspecial = false;
  int mut = 0;
  struct Cleanup { std::vector<Handle> &H; std::vector<char *> &b; ~Cleanup() { for (auto &h : H) onion_dict_free(h.d); for (auto p : b) free(p); } } cl{H, borrowed};
  auto newdict = [&]() {
    Handle h{onion_dict_new(), std::make_shared<MD>()};
    if (g.chance(1, 3)) { onion_dict_set_flags(h.d, OD_ICASE); h.m->icase = true; }
    H.push_back(h);
  };
  newdict();
  bool big = g.chance(1, 300);
  size_t nops = big ? 500 + g.below(3000) : 1 + g.len(60);
  int keyspace = g.pick({3, 8, 30, 100000});
  int order = (int)g.below(3);
  long seq = 0;
  auto key = [&]() -> std::string {
    uint32_t k = g.below(12);
    if (k == 0) return "";
    if (k == 1) return g.from("abAB \xc3\xa9\"\\{}:", 1 + g.below(6));
    seq++;
    uint32_t n = (keyspace < 1000 || order == 0) ? g.below(keyspace) : order == 1 ? (uint32_t)seq : (uint32_t)(100000 - seq);
    std::string s = fmt(keyspace > 1000 ? "k%06u" : "k%u", n);
    if (g.chance(1, 4)) s[0] = 'K';
    return s;
  };
  auto value = [&]() -> std::string { return g.from("vwxyz019 \"\\\n\xc3\xb1", g.len(12)); };
  auto existing = [&](Handle &h) -> std::string {
    if (h.m->e.empty() || g.chance(1, 5)) return key();
    std::string k = h.m->e[g.below((uint32_t)h.m->e.size())].key;
    if (h.m->icase && g.coin()) for (auto &ch : k) if (ch >= 'a' && ch <= 'z' && g.coin()) ch -= 32;
    return k;
  };
  auto madd = [&](MP &m, Ent e, onion_dict *d, const char *when) {
    // entry added; with replace and several candidates, see which one went
    if (e.rep) {
      std::vector<size_t> idx;
      for (size_t i = 0; i < m->e.size(); i++) if (keq(m->icase, m->e[i].key, e.key)) idx.push_back(i);
      if (idx.empty()) { m->e.push_back(e); return; }
      anyspecial = true;
      if (idx.size() == 1) { m->e[idx[0]] = e; return; }
      // ambiguous: any one of them may have been replaced
      int nd = 0;
      for (size_t i : idx) if (m->e[i].isd) nd++;
      if (nd > 1) throw GiveUp();
      std::vector<Seen> s;
      onion_dict_preorder(d, (void *)collect, &s);
      for (size_t i : idx) {
        MD t = *m;
        t.e[i] = e;
        std::vector<std::string> a, b;
        for (auto &x : s) if (keq(m->icase, x.key, e.key)) a.push_back(x.key + "=" + ms(x) + (x.isd ? fmt("%p", x.ptr) : ""));
        bool sub = false;
        for (auto &x : t.e) if (keq(m->icase, x.key, e.key)) { if (x.isd) sub = true; b.push_back(x.key + "=" + (x.isd ? "D" : "S" + x.val)); }
        if (sub) for (auto &x : a) x = x.substr(0, x.find("=D") == std::string::npos ? x.size() : x.find("=D") + 2);
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a == b) { m->e = t.e; return; }
      }
      c.fail("%s: replacing key \"%s\" did not replace exactly one of its %zu entries", when, esc(e.key).c_str(), idx.size());
    } else {
      for (auto &x : m->e) if (keq(m->icase, x.key, e.key)) anyspecial = true;
      m->e.push_back(e);
    }
  };
  for (size_t op = 0; op < nops; op++) {
    size_t hi = g.below((uint32_t)H.size());
    uint32_t o = big ? (uint32_t)g.weighted({60, 25, 5}) : (uint32_t)g.weighted({30, 20, 8, 10, 4, 4, 4, 4, 6});
    const char *when = "";
    switch (o) {
    case 0: {  // add a string
      std::string k = g.chance(1, 3) ? existing(H[hi]) : key(), v = value();
      bool rep = g.chance(1, 3);
      int kf = g.below(3), vf = g.below(4);
      int fl = rep ? OD_REPLACE : 0;
      const char *kp; const void *vp;
      if (kf == 0) { fl |= OD_DUP_KEY; kp = strdup(k.c_str()); }
      else if (kf == 1) { fl |= OD_FREE_KEY; kp = strdup(k.c_str()); }
      else { kp = strdup(k.c_str()); borrowed.push_back((char *)kp); }
      char *alias = nullptr;
      if (vf == 3) { alias = (char *)onion_dict_get(H[hi].d, k.c_str()); if (alias) { v = alias; } else vf = 0; }
      if (vf == 0) { fl |= OD_DUP_VALUE; vp = strdup(v.c_str()); }
      else if (vf == 1) { fl |= OD_FREE_VALUE; vp = strdup(v.c_str()); }
      else if (vf == 2) { vp = strdup(v.c_str()); borrowed.push_back((char *)vp); }
      else { fl |= OD_DUP_VALUE; vp = alias; }    // value taken from the dictionary itself
      c.d("add %zu %s=%s fl=%x; ", hi, esc(k).c_str(), esc(v).c_str(), fl);
      onion_dict_add(H[hi].d, kp, vp, fl);
      if (kf == 0) { memset((char *)kp, 'X', strlen(kp)); free((void *)kp); }
      if (vf == 0) { memset((char *)vp, 'X', strlen((char *)vp)); free((void *)vp); }
      madd(H[hi].m, Ent{k, false, v, nullptr, rep}, H[hi].d, "add");
      mut++;
      when = "add";
      break;
    }
    case 1: {  // remove
      std::string k = existing(H[hi]);
      size_t n = 0;
      for (auto &x : H[hi].m->e) if (keq(H[hi].m->icase, x.key, k)) n++;
      c.d("remove %zu %s; ", hi, esc(k).c_str());
      std::vector<Seen> before, after;
      if (n > 1) onion_dict_preorder(H[hi].d, (void *)collect, &before);
      int r = onion_dict_remove(H[hi].d, k.c_str());
      if (!!r != (n > 0)) c.fail("remove of \"%s\" reports %d but the key had %zu entries", esc(k).c_str(), r, n);
      auto &E = H[hi].m->e;
      if (n == 1) { for (size_t i = 0; i < E.size(); i++) if (keq(H[hi].m->icase, E[i].key, k)) { E.erase(E.begin() + i); break; } mut++; anyspecial = true; }
      else if (n > 1) {
        mut++; anyspecial = true;
        onion_dict_preorder(H[hi].d, (void *)collect, &after);
        if (after.size() + 1 != before.size()) c.fail("remove of \"%s\" took %zd entries away", esc(k).c_str(), (ssize_t)before.size() - (ssize_t)after.size());
        // find which one is gone
        std::vector<std::string> a, b;
        for (auto &x : before) a.push_back(x.key + "=" + ms(x));
        for (auto &x : after) b.push_back(x.key + "=" + ms(x));
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        std::vector<std::string> gone;
        std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(gone));
        bool hasdict = false;
        for (auto &x : E) if (x.isd && keq(H[hi].m->icase, x.key, k)) hasdict = true;
        if (gone.size() != 1) c.fail("remove of \"%s\" changed %zu entries", esc(k).c_str(), gone.size());
        bool done = false;
        (void)hasdict;
        for (size_t i = 0; i < E.size(); i++) {
          std::string t = E[i].key + "=" + (E[i].isd ? "D" : "S" + E[i].val);
          if (keq(H[hi].m->icase, E[i].key, k) && t == gone[0]) {
            if (E[i].isd) { // several dictionaries under this key: find which one by pointer content is ambiguous -> choose the one missing
              // compare recursively by trying each candidate
              std::vector<size_t> cand;
              for (size_t j = 0; j < E.size(); j++) if (E[j].isd && E[j].key == E[i].key) cand.push_back(j);
              E.erase(E.begin() + cand[0]);
              if (cand.size() > 1) { // make remaining candidates incomparable: drop strict checks by leaving >1 or re-reading
                return; // give up on this (rare) history: nested duplicates cannot be told apart by value
              }
            } else E.erase(E.begin() + i);
            done = true;
            break;
          }
        }
        if (!done) c.fail("remove of \"%s\" took away the entry \"%s\" of another key", esc(k).c_str(), esc(gone[0]).c_str());
      }
      when = "remove";
      break;
    }
    case 2: {  // lookups
      std::string k = existing(H[hi]);
      c.d("get %zu %s; ", hi, esc(k).c_str());
      lookups(c, "get", H[hi].d, H[hi].m, k);
      when = "get";
      break;
    }
    case 3: {  // nest one dictionary into another
      size_t si = g.below((uint32_t)H.size());
      if (reaches(H[si].m, H[hi].m) || total(H[hi].m) > 400) { newdict(); c.d("new; "); break; }
      std::string k = key();
      bool rep = g.chance(1, 4);
      int how = g.below(3);
      int kf = g.below(3), fl = OD_DICT | (kf == 0 ? OD_DUP_KEY : kf == 1 ? OD_FREE_KEY : 0) | (rep ? OD_REPLACE : 0);
      char *kp = strdup(k.c_str());
      if (kf == 2) borrowed.push_back(kp);
      c.d("nest %zu %s<-%zu how=%d fl=%x; ", hi, esc(k).c_str(), si, how, fl);
      Ent e{k, true, "", nullptr, rep};
      if (how == 0) { e.sub = deep(H[si].m); fl |= OD_DUP_VALUE; onion_dict_add(H[hi].d, kp, H[si].d, fl); }
      else if (how == 1) { e.sub = H[si].m; fl |= OD_FREE_VALUE; onion_dict_add(H[hi].d, kp, onion_dict_dup(H[si].d), fl); }
      else { e.sub = H[si].m; onion_dict_add(H[hi].d, kp, H[si].d, fl); }
      if (kf == 0) { memset(kp, 'X', k.size()); free(kp); }
      madd(H[hi].m, e, H[hi].d, "nest");
      mut++; anyspecial = true;
      when = "nest";
      break;
    }
    case 4: {  // soft dup: same dictionary, one more holder
      c.d("dup %zu; ", hi);
      onion_dict *d = onion_dict_dup(H[hi].d);
      H.push_back({d, H[hi].m});
      anyspecial = true;
      when = "dup";
      break;
    }
    case 5: {  // hard dup
      c.d("harddup %zu; ", hi);
      onion_dict *d = onion_dict_hard_dup(H[hi].d);
      H.push_back({d, deep(H[hi].m)});
      anyspecial = true;
      when = "hard_dup";
      break;
    }
    case 6: {  // merge
      size_t si = g.below((uint32_t)H.size());
      if (H[si].m == H[hi].m || reaches(H[si].m, H[hi].m) || total(H[hi].m) > 400) { newdict(); c.d("new; "); break; }
      c.d("merge %zu<-%zu; ", hi, si);
      // entries stored with the replace flag are merged with it; ambiguous duplicates are avoided
      bool amb = false;
      { // which of several equal entries carries the flag is only known to the dictionary
        std::vector<Seen> s;
        onion_dict_preorder(H[si].d, (void *)collect, &s);
        for (auto &x : H[si].m->e) for (auto &y : s) if (keq(true, x.key, y.key) && y.rep) x.rep = true;
      }
      for (auto &x : H[si].m->e) if (x.rep) { int n = 0; for (auto &y : H[hi].m->e) if (keq(H[hi].m->icase, x.key, y.key)) n++; for (auto &y : H[si].m->e) if (keq(true, x.key, y.key)) n++; if (n > 1) amb = true; }
      if (amb) break;
      onion_dict_merge(H[hi].d, H[si].d);
      auto src = H[si].m->e;
      for (auto x : src) { if (x.isd) x.sub = deep(x.sub); madd(H[hi].m, x, H[hi].d, "merge"); }
      mut++; anyspecial = true;
      when = "merge";
      break;
    }
    case 7: {  // recursive lookups
      c.d("rget %zu; ", hi);
      for (auto &x : H[hi].m->e) if (x.isd) {
        int same = 0;
        for (auto &y : H[hi].m->e) if (keq(H[hi].m->icase, y.key, x.key)) same++;
        if (same != 1) continue;
        for (auto &y : x.sub->e) {
          int n = 0;
          for (auto &z : x.sub->e) if (keq(x.sub->icase, z.key, y.key)) n++;
          if (n != 1) continue;
          const char *v = onion_dict_rget(H[hi].d, x.key.c_str(), y.key.c_str(), NULL);
          onion_dict *sd = onion_dict_rget_dict(H[hi].d, x.key.c_str(), y.key.c_str(), NULL);
          if (y.isd ? (v || !sd) : (!v || sd || y.val != v)) c.fail("nested lookup %s/%s gives %s, %s", esc(x.key).c_str(), esc(y.key).c_str(), v ? esc(v).c_str() : "nothing", sd ? "dict" : "no dict");
        }
        if (onion_dict_rget(H[hi].d, x.key.c_str(), "absent key", NULL)) c.fail("nested lookup of an absent key found something");
        if (onion_dict_rget(H[hi].d, x.key.c_str(), NULL)) c.fail("a nested dictionary is returned as a string");
        if (onion_dict_rget_dict(H[hi].d, x.key.c_str(), NULL) == nullptr) c.fail("nested dictionary not found");
      }
      for (auto &x : H[hi].m->e) if (x.isd) {
        int same = 0;
        for (auto &y : H[hi].m->e) if (keq(H[hi].m->icase, y.key, x.key)) same++;
        if (same == 1 && onion_dict_rget_dict(H[hi].d, x.key.c_str(), "absent key", NULL)) c.fail("nested lookup of an absent dictionary found something");
        if (same == 1 && onion_dict_rget_dict(H[hi].d, x.key.c_str(), "absent key", "x", NULL)) c.fail("nested lookup below an absent dictionary found something");
      }
      if (onion_dict_rget_dict(H[hi].d, "absent key", NULL) || onion_dict_rget_dict(H[hi].d, "absent key", "x", NULL)) c.fail("lookup of an absent dictionary found something");
      if (onion_dict_rget(H[hi].d, "absent key", "x", NULL)) c.fail("nested lookup under an absent key found something");
      when = "rget";
      break;
    }
    case 8: {  // drop a holder
      if (H.size() < 2) { newdict(); c.d("new; "); break; }
      // a dictionary lent (not copied nor shared) to another must stay: only drop if some other handle holds the same, or nobody references it
      bool ref = false;
      for (auto &h : H) if (h.m != H[hi].m && reaches(h.m, H[hi].m)) ref = true;
      if (ref) { bool other = false; for (size_t j = 0; j < H.size(); j++) if (j != hi && H[j].m == H[hi].m) other = true; if (!other) break; }
      c.d("free %zu; ", hi);
      onion_dict_free(H[hi].d);
      H.erase(H.begin() + hi);
      hi = 0;
      when = "free";
      break;
    }
    }
    if (!big || op % 200 == 0 || op + 1 == nops)
      for (auto &h : H) compare(c, when, h.d, h.m);
  }
  for (auto &h : H) for (size_t i = 0; i < h.m->e.size() && i < 50; i++) lookups(c, "final", h.d, h.m, h.m->e[i].key);
  // long sorted insertion stays usable
  if (g.chance(1, 2000)) {
    onion_dict *d = onion_dict_new();
    int n = 40000;
    for (int i = 0; i < n; i++) onion_dict_add(d, fmt("%08d", i).c_str(), "v", OD_DUP_ALL);
    int cnt = onion_dict_count(d);
    onion_dict_free(d);
    if (cnt != n) c.fail("after %d sorted insertions count is %d", n, cnt);
    c.label("sorted-40000");
  }
  if (big) c.label("big");
  c.nontrivial = mut >= 3 && anyspecial;
}

static thread_local long compares = 0;
extern "C" int __real_strcmp(const char *, const char *);
extern "C" int __wrap_strcmp(const char *a, const char *b) { compares++; return __real_strcmp(a, b); }
extern "C" int __real_strcasecmp(const char *, const char *);
extern "C" int __wrap_strcasecmp(const char *a, const char *b) { compares++; return __real_strcasecmp(a, b); }
// finding a key stays cheap in large dictionaries, whatever the order in which they grew and shrank
static void cost(Gen &g, Ctx &c) {
  int n = g.pick({200, 1000, 3000}), order = (int)g.below(5), drop = (int)g.below(4);
  bool ic = g.chance(1, 4), dup = g.chance(1, 5);
  c.d("cost of %d keys in order %d%s, removing %d", n, order, ic ? " ignoring case" : "", drop);
  c.label("cost");
  c.nontrivial = true;
  onion_dict *d = onion_dict_new();
  if (ic) onion_dict_set_flags(d, OD_ICASE);
  std::vector<int> k;
  uint64_t s = g.below(1 << 30) | 1;
  for (int i = 0; i < n; i++) switch (order) {
    case 0: k.push_back(i); break;
    case 1: k.push_back(n - i); break;
    case 2: k.push_back(i & 1 ? n + i : n - i); break;
    case 3: k.push_back((i % 10) * 10000 + i / 10); break;
    default: k.push_back((int)((i * 2654435761ull + s) % 1000003)); break;
  }
  auto key = [](int i) { return fmt("k%08d", i); };
  std::set<int> have;
  for (int i : k) { onion_dict_add(d, key(i).c_str(), key(i).c_str(), OD_DUP_ALL | (dup ? OD_REPLACE : 0)); have.insert(i); if (dup) onion_dict_add(d, key(i).c_str(), key(i).c_str(), OD_DUP_ALL | OD_REPLACE); }
  std::vector<int> r(have.begin(), have.end());
  if (drop) for (size_t i = 0; i < r.size(); i++) if (drop == 1 ? i < r.size() / 2 : drop == 2 ? i >= r.size() / 2 : i % 2) { if (!onion_dict_remove(d, key(r[i]).c_str())) c.fail("key %d can not be removed", r[i]); have.erase(r[i]); }
  double lg = 0;
  for (size_t m = have.size() + 1; m > 1; m /= 2) lg++;
  long worst = 0;
  for (int i : have) {
    compares = 0;
    const char *v = onion_dict_get(d, key(i).c_str());
    long w = compares;
    if (!v || key(i) != v) c.fail("key %d of %zu is not found", i, have.size());
    worst = std::max(worst, w);
  }
  if (onion_dict_count(d) != (int)have.size()) c.fail("count %d of %zu keys", onion_dict_count(d), have.size());
  onion_dict_free(d);
  c.label(fmt("%ld comparisons over logarithm", (long)(worst / lg)));
  if (worst > 3 * lg + 8) c.fail("finding one of %zu keys took %ld comparisons", have.size(), worst);
}
void pbt::property(Gen &g, Ctx &c) {
  if (g.chance(1, 400)) { cost(g, c); return; }
  try { body(g, c); } catch (GiveUp &) { c.label("gave-up"); }
}
