// C07: a request goes to the first matching route, with the right rest and captures.
#include "http.hpp"
extern "C" {
#include <onion/handlers/path.h>
#include <onion/handlers/static.h>
}
using namespace hm;
pbt::Config pbt::config;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is a generated tree of routers, path handlers, handler chains and accepting or declining handlers, with 4 to 10 request paths made from its own patterns and damaged; non-trivial when some request is accepted below a nested router or path handler, after a decline, or with captured groups";
  config.leak_check = true;
}
// ---- patterns ---------------------------------------------------------------
struct Tok {
  enum K { LIT, GROUP, OPT, ANY } k;     // ANY: ungrouped class
  std::string lit;                       // LIT: text; OPT: optional text
  std::string cls;                       // allowed characters ("" = all)
  std::string not_cls;
  int min = 0, max = 1 << 20;
  std::string re;
};
struct Pattern {
  bool plain = false, anchored = true, dollar = false;
  std::string text;                      // what is registered
  std::vector<Tok> t;
};
static const char *LITS[] = {"a", "b", "ab", "/", "a/", "x/", "1", "-", "abc", "/b", ".", "%", "A", "Ab"};
static Tok gen_tok(Gen &g) {
  Tok t;
  switch (g.weighted({5, 4, 1, 1})) {
  case 0:
    t.k = Tok::LIT;
    t.lit = g.pick(LITS);
    for (char ch : t.lit) { if (ch == '.') t.re += '\\'; t.re += ch; }
    break;
  case 1: {
    t.k = Tok::GROUP;
    switch (g.below(7)) {
    case 0: t.cls = "abcdefghijklmnopqrstuvwxyz"; t.min = 1; t.re = "([a-z]+)"; break;
    case 1: t.cls = "0123456789"; t.min = 1; t.re = "([0-9]+)"; break;
    case 2: t.not_cls = "/"; t.re = "([^/]*)"; break;
    case 3: t.not_cls = "/"; t.min = 1; t.re = "([^/]+)"; break;
    case 4: t.re = "(.*)"; break;
    case 5: t.cls = "ab"; t.min = 1; t.max = 1; t.re = "([ab])"; break;
    case 6: t.cls = "0123456789"; t.min = 2; t.max = 3; t.re = "([0-9]{2,3})"; break;
    }
    break;
  }
  case 2:
    t.k = Tok::OPT;
    t.lit = g.pick({"a", "1", "x/", "-b"});
    t.re = "(" + t.lit + ")?";
    break;
  case 3:
    t.k = Tok::ANY;
    t.cls = "abcdefghijklmnopqrstuvwxyz";
    t.re = "[a-z]*";
    break;
  }
  return t;
}
static Pattern gen_pattern(Gen &g, bool for_path) {
  Pattern p;
  if (!for_path && g.chance(1, 3)) {
    p.plain = true;
    int n = (int)g.below(3);
    if (g.chance(1, 6)) p.text = std::string(g.len(260, {15, 16, 31, 32, 63, 64, 127, 128, 255, 256}), 'a');
    for (int i = 0; i <= n; i++) p.text += g.pick({"a", "b", "ab", "a/", "1", "", "a.b", "a*", "(a)", "x/b", "A"});
    return p;
  }
  p.anchored = !for_path || g.chance(3, 4);
  int n = g.chance(1, 12) ? 8 + (int)g.below(8) : (int)g.below(4);
  bool any = false;
  for (int i = 0; i < n; i++) {
    Tok t = n >= 8 ? Tok() : gen_tok(g);
    if (n >= 8) {                        // many groups: two digit numbers
      t.k = Tok::GROUP; t.cls = "ab"; t.min = t.max = 1; t.re = "([ab])";
    }
    if (t.k == Tok::ANY) { if (any) continue; any = true; }
    p.t.push_back(t);
  }
  p.dollar = g.chance(1, 4);
  p.text = p.anchored ? "^" : "";
  for (auto &t : p.t) p.text += t.re;
  if (p.dollar) p.text += "$";
  return p;
}
static bool in_cls(const Tok &t, char c) {
  if (!t.cls.empty()) return t.cls.find(c) != std::string::npos;
  return t.not_cls.find(c) == std::string::npos;
}
struct Match { bool ok = false; size_t end = 0; std::vector<int> b, e; std::vector<long> key; };
// Longest match; among those, earlier parts as long as possible (POSIX).
static bool too_hard;                    // the model gave up: the request is not judged
static void rec(const Pattern &p, const std::string &s, size_t ti, size_t pos, Match &cur, Match &best, long &budget) {
  if (--budget < 0) { too_hard = true; return; }
  if (ti == p.t.size()) {
    if (p.dollar && pos != s.size()) return;
    if (!best.ok || pos > best.end || (pos == best.end && cur.key > best.key)) { best = cur; best.ok = true; best.end = pos; }
    return;
  }
  const Tok &t = p.t[ti];
  if (t.k == Tok::LIT) {
    if (s.compare(pos, t.lit.size(), t.lit) == 0) { cur.key.push_back(t.lit.size()); rec(p, s, ti + 1, pos + t.lit.size(), cur, best, budget); cur.key.pop_back(); }
    return;
  }
  if (t.k == Tok::OPT) {
    if (s.compare(pos, t.lit.size(), t.lit) == 0) {
      cur.b.push_back(pos); cur.e.push_back(pos + t.lit.size()); cur.key.push_back(t.lit.size());
      rec(p, s, ti + 1, pos + t.lit.size(), cur, best, budget);
      cur.b.pop_back(); cur.e.pop_back(); cur.key.pop_back();
    }
    cur.b.push_back(-1); cur.e.push_back(-1); cur.key.push_back(0);
    rec(p, s, ti + 1, pos, cur, best, budget);
    cur.b.pop_back(); cur.e.pop_back(); cur.key.pop_back();
    return;
  }
  int n = 0;
  while (pos + n < s.size() && n < t.max && in_cls(t, s[pos + n])) n++;
  for (; n >= t.min; n--) {
    if (t.k == Tok::GROUP) { cur.b.push_back(pos); cur.e.push_back(pos + n); }
    cur.key.push_back(n);
    rec(p, s, ti + 1, pos + n, cur, best, budget);
    cur.key.pop_back();
    if (t.k == Tok::GROUP) { cur.b.pop_back(); cur.e.pop_back(); }
  }
}
static Match match(const Pattern &p, const std::string &s) {
  Match best;
  if (p.plain) {
    if (s == p.text) { best.ok = true; best.end = s.size(); }
    return best;
  }
  for (size_t st = 0; st <= s.size(); st++) {
    Match cur;
    long budget = 2000000;
    rec(p, s, 0, st, cur, best, budget);
    if (best.ok || p.anchored) break;
  }
  return best;
}
static std::string sample(Gen &g, const Pattern &p) {
  if (p.plain) return p.text;
  std::string r;
  if (!p.anchored && g.chance(1, 3)) r += g.pick(LITS);
  for (auto &t : p.t) {
    if (t.k == Tok::LIT) r += t.lit;
    else if (t.k == Tok::OPT) { if (g.coin()) r += t.lit; }
    else {
      size_t n = t.min + g.below(4);
      if ((int)n > t.max) n = t.max;
      for (size_t i = 0; i < n; i++) {
        char ch;
        int tries = 0;
        do ch = "ab1/2x-z"[tries++ > 20 ? (t.cls.find('1') != std::string::npos ? 2 : 0) : g.below(8)]; while (!in_cls(t, ch));
        r += ch;
      }
    }
  }
  return r;
}
// ---- route trees -------------------------------------------------------------
struct Node {
  enum K { LEAF, STATIC, ROUTER, PATH } k;
  int id = 0;
  bool accept = true;
  int code = 200;
  int adv = 0;                           // a declining leaf that first moves on in the path
  std::vector<std::pair<Pattern, std::vector<Node>>> routes;   // ROUTER; PATH uses routes[0]
};
struct Seen { int calls = 0, id = -1; std::string path; std::map<int, std::string> q; std::string k; bool has_k = false; std::vector<int> declined; };
static Seen seen;
static int leaf_accept(void *p, onion_request *r, onion_response *res) {
  seen.calls++;
  seen.id = (int)(long)p;
  seen.path = oh::str(onion_request_get_path(r));
  for (int i = 1; i < 16; i++) {
    const char *v = onion_request_get_query(r, fmt("%d", i).c_str());
    if (v) seen.q[i] = v;
  }
  const char *k = onion_request_get_query(r, "k");
  seen.has_k = k;
  if (k) seen.k = k;
  onion_response_printf(res, "leaf %d", seen.id);
  return OCS_PROCESSED;
}
static int leaf_decline(void *p, onion_request *r, onion_response *) {
  seen.declined.push_back((int)(long)p & 0xffff);
  size_t adv = (long)p >> 16;
  if (adv && strlen(onion_request_get_path(r)) >= adv) onion_request_advance_path(r, adv);
  return OCS_NOT_PROCESSED;
}
static int leaf_id;
static std::vector<Node> gen_chain(Gen &g, int depth);
static Node gen_node(Gen &g, int depth) {
  Node n;
  n.id = ++leaf_id;
  size_t k = depth <= 0 ? g.weighted({5, 1}) : g.weighted({4, 1, 3, 2});
  n.k = k == 0 ? Node::LEAF : k == 1 ? Node::STATIC : k == 2 ? Node::ROUTER : Node::PATH;
  n.accept = !g.chance(1, 3);
  if (n.k == Node::STATIC) n.code = g.pick({200, 404, 201, 403, 500});
  if (n.k == Node::ROUTER) {
    int r = (int)g.below(5);
    for (int i = 0; i < r; i++) { Pattern p = gen_pattern(g, false); auto ch = gen_chain(g, depth - 1); n.routes.push_back({p, ch}); }
  }
  if (n.k == Node::PATH) { Pattern p = gen_pattern(g, true); auto ch = gen_chain(g, depth - 1); n.routes.push_back({p, ch}); }
  return n;
}
static std::vector<Node> gen_chain(Gen &g, int depth) {
  std::vector<Node> r;
  int n = g.chance(1, 4) ? 2 + (int)g.below(2) : 1;
  for (int i = 0; i < n; i++) r.push_back(gen_node(g, depth));
  if (r.back().k == Node::LEAF && !r.back().accept && g.chance(1, 3)) r.back().adv = 1 + (int)g.below(2);
  return r;
}
static std::string show(const std::vector<Node> &c) {
  std::string r;
  for (auto &n : c) {
    if (!r.empty()) r += ", ";
    if (n.k == Node::LEAF) r += fmt("%s%d", n.accept ? "+" : "-", n.id);
    else if (n.k == Node::STATIC) r += fmt("static%d", n.id);
    else {
      r += n.k == Node::ROUTER ? "router(" : "path(";
      for (auto &x : n.routes) r += "'" + x.first.text + "'=>{" + show(x.second) + "} ";
      r += ")";
    }
  }
  return r;
}
static int counted;                        // handlers whose data is not released yet
static void uncount(void *) { counted--; }
static onion_handler *build(Gen &g, Ctx &c, const std::vector<Node> &ch);
static onion_handler *build1(Gen &g, Ctx &c, const Node &n) {
  switch (n.k) {
  case Node::LEAF: counted++; return onion_handler_new((onion_handler_handler)(n.accept ? leaf_accept : leaf_decline), (void *)(long)(n.id | n.adv << 16), uncount);
  case Node::STATIC: return onion_handler_static(fmt("static %d", n.id).c_str(), n.code);
  case Node::PATH: return onion_handler_path(n.routes[0].first.text.c_str(), build(g, c, n.routes[0].second));
  case Node::ROUTER: {
    onion_url *u = onion_url_new();
    for (auto &x : n.routes) {
      if (g.chance(1, 20)) {             // a pattern that is not an expression is refused and changes nothing
        onion_handler *h = onion_handler_static("bad", 200);
        if (onion_url_add_handler(u, g.pick({"^([", "^(a", "^a[b"}), h) == 0) c.fail("a malformed pattern was accepted");
        onion_handler_free(h);
        int held = counted;
        if (onion_url_add(u, g.pick({"^([", "^(a", "^a[b"}), (void *)leaf_accept) == 0) c.fail("a malformed pattern was accepted");
        if (onion_url_add_static(u, g.pick({"^([", "^(a", "^a[b"}), "bad", 200) == 0) c.fail("a malformed pattern was accepted");
        counted++;
        if (onion_url_add_with_data(u, g.pick({"^([", "^(a", "^a[b"}), (void *)leaf_accept, (void *)1, (void *)uncount) == 0) c.fail("a malformed pattern was accepted");
        if (counted != held) c.fail("the data of a refused route is released %d times", held + 1 - counted);
        counted++;
        if (onion_handler_path(g.pick({"^([", "(a", "a[b"}), onion_handler_new((onion_handler_handler)leaf_accept, (void *)1, uncount))) c.fail("a malformed path prefix was accepted");
        if (counted != held) c.fail("the handler inside a refused path prefix is released %d times", held + 1 - counted);
        c.label("malformed pattern refused");
      }
      int e;
      const Node &f = x.second[0];
      if (x.second.size() == 1 && f.k == Node::STATIC && g.coin()) e = onion_url_add_static(u, x.first.text.c_str(), fmt("static %d", f.id).c_str(), f.code);
      else if (x.second.size() == 1 && f.k == Node::LEAF && g.coin()) e = onion_url_add_with_data(u, x.first.text.c_str(), (void *)(f.accept ? leaf_accept : leaf_decline), (void *)(long)(f.id | f.adv << 16), (void *)uncount), counted++;
      else if (x.second.size() == 1 && f.k == Node::ROUTER && g.coin()) e = onion_url_add_url(u, x.first.text.c_str(), (onion_url *)build1(g, c, f));
      else e = onion_url_add_handler(u, x.first.text.c_str(), build(g, c, x.second));
      if (e) c.fail("pattern '%s' was refused", x.first.text.c_str());
    }
    return onion_url_to_handler(u);
  }
  }
  return NULL;
}
static onion_handler *build(Gen &g, Ctx &c, const std::vector<Node> &ch) {
  onion_handler *h = NULL;
  for (auto &n : ch) {
    onion_handler *x = build1(g, c, n);
    if (h) onion_handler_add(h, x); else h = x;
  }
  return h;
}
struct Want { bool ok = false; int id = 0; bool is_static = false; int code = 200; std::string rest; std::map<int, std::string> caps; std::set<int> unsure; int depth = 0; bool any_capture = false; std::set<int> touched; std::vector<int> declined; };
static bool eval(const std::vector<Node> &ch, const std::string &path, std::map<int, std::string> caps, std::set<int> unsure, int depth, Want &w) {
  for (auto &n : ch) {
    if (n.k == Node::LEAF && !n.accept) { w.declined.push_back(n.id); continue; }
    if (n.k == Node::LEAF || n.k == Node::STATIC) {
      w.ok = true; w.id = n.id; w.is_static = n.k == Node::STATIC; w.code = n.code; w.rest = path; w.caps = caps; w.unsure = unsure; w.depth = depth;
      return true;
    }
    for (auto &x : n.routes) {
      Match m = match(x.first, path);
      if (!m.ok) continue;
      auto cp = caps;
      auto un = unsure;
      if (n.k == Node::ROUTER)
        for (size_t i = 0; i < m.b.size(); i++) {
          if (i + 1 > 15) break;
          if (m.b[i] >= 0) { cp[i + 1] = path.substr(m.b[i], m.e[i] - m.b[i]); un.erase(i + 1); w.touched.insert(i + 1); }
          else un.insert(i + 1);
        }
      if (eval(x.second, path.substr(m.end), cp, un, depth + 1, w)) return true;
      unsure.insert(w.touched.begin(), w.touched.end());   // a declined branch may have reused the numbers
      break;                             // the first matching route decides; the search goes on after this handler
    }
  }
  return false;
}
static std::string sample_path(Gen &g, const std::vector<Node> &ch) {
  const Node &n = ch[g.below(ch.size())];
  if (n.routes.empty()) return g.chance(1, 4) ? std::string(g.pick(LITS)) : std::string();
  auto &x = n.routes[g.below(n.routes.size())];
  return sample(g, x.first) + sample_path(g, x.second);
}
void pbt::property(Gen &g, Ctx &c) {
  leaf_id = 0;
  std::vector<Node> root = gen_chain(g, 3);
  c.d("%s ; ", show(root).c_str());
  counted = 0;
  std::unique_ptr<Server> own(new Server(0, false));
  Server &sv = *own;
  onion_set_root_handler(sv.o, build(g, c, root));
  int nreq = 4 + (int)g.below(7);
  for (int i = 0; i < nreq; i++) {
    std::string path;
    if (g.chance(1, 8)) path = g.from("ab1/x-.", g.below(8));
    else path = sample_path(g, root);
    if (path.size() > 600) path.resize(600);
    if (g.chance(1, 4) && !path.empty()) {
      size_t p = g.below(path.size());
      if (g.coin()) path.erase(p, 1); else path.insert(p, 1, "ab1/x-."[g.below(7)]);
    }
    if (g.chance(1, 8) && !path.empty()) { char &ch = path[g.below(path.size())]; if (isalpha(ch)) ch ^= 32; }
    if (g.chance(1, 30)) path += std::string(g.len(300), 'a');
    std::string q, client1, k;
    bool has1 = g.chance(1, 4), hask = g.chance(1, 3);
    if (has1) { client1 = g.from("cdz9", 1 + g.below(3)); q += "?1=" + client1; if (g.chance(1, 3)) q += "&1=" + client1; }
    if (hask) { k = g.from("abc", g.below(4)); q += (q.empty() ? "?k=" : "&k=") + k; }
    Want w;
    too_hard = false;
    eval(root, path, {}, {}, 0, w);
    if (too_hard) { c.label("too hard for the model"); continue; }
    c.d("/%s%s ", path.c_str(), q.c_str());
    seen = Seen();
    Client cl(sv);
    cl.deliver("GET /" + pct(g, path, true) + q + " HTTP/1.1\r\nConnection: close\r\n\r\n", {});
    oh::Reply r = oh::read_reply(cl.c.out, false, true);
    if (!r.ok) c.fail("broken reply for /%s: %s", path.c_str(), r.error.c_str());
    if (seen.declined != w.declined) c.fail("/%s: the declining handlers tried are not the expected ones", path.c_str());
    if (!w.ok) {
      if (seen.calls) c.fail("/%s went to handler %d; no route accepts it", path.c_str(), seen.id);
      if (r.code != 404) c.fail("/%s: no route accepts it and the reply is %d", path.c_str(), r.code);
      c.label("not found");
      continue;
    }
    std::string body = fmt("%s %d", w.is_static ? "static" : "leaf", w.id);
    if (r.body != body || r.code != w.code) c.fail("/%s: expected \"%s\" %d, got \"%s\" %d", path.c_str(), body.c_str(), w.code, esc(r.body).c_str(), r.code);
    if (!w.is_static) {
      if (seen.calls != 1) c.fail("/%s: %d handlers ran", path.c_str(), seen.calls);
      if (seen.path != w.rest) c.fail("/%s: handler %d sees the rest \"%s\" instead of \"%s\"", path.c_str(), w.id, esc(seen.path).c_str(), w.rest.c_str());
      for (auto &x : w.caps) {
        if (w.unsure.count(x.first)) continue;
        if (!seen.q.count(x.first) || seen.q[x.first] != x.second) c.fail("/%s: group %d is \"%s\" instead of \"%s\"", path.c_str(), x.first, seen.q.count(x.first) ? esc(seen.q[x.first]).c_str() : "unset", x.second.c_str());
      }
      for (auto &x : seen.q)
        if (!w.touched.count(x.first) && !(x.first == 1 && has1 && x.second == client1)) c.fail("/%s: group %d is set to \"%s\" by no route", path.c_str(), x.first, esc(x.second).c_str());
      if (has1 && !w.touched.count(1) && !seen.q.count(1)) c.fail("/%s: the client's parameter 1 is lost", path.c_str());
      if (seen.has_k != hask || (hask && seen.k != k)) c.fail("/%s: parameter k changed", path.c_str());
    }
    if (w.depth >= 2) { c.nontrivial = true; c.label("nested"); }
    if (!w.declined.empty()) { c.nontrivial = true; c.label("after a decline"); }
    if (!w.caps.empty()) { c.nontrivial = true; c.label("captures"); }
    c.label("accepted");
  }
  own.reset();
  if (counted) c.fail("after the server was freed %d handlers have their data%s", counted, counted < 0 ? " (released too often)" : "");
}
