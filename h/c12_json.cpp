// C12: JSON encode/decode of dictionaries against an independent strict reader and a lenient structural one.
#include "http.hpp"
using namespace pbt;
Config pbt::config = {
  .rule = "a case is a random tree of string/nested entries (depth<=5) encoded by the library, or the text of one written with random "
          "whitespace/escapes by an independent encoder, or a truncation/mutation of such a text; non-trivial: the tree has at least 2 entries "
          "or the text is a mutation/truncation of a tree with at least 1 entry",
  .leak_check = true,
};
void pbt::harness_init() { oh::quiet_log(); }

struct V;
typedef std::map<std::string, V> Obj;
struct V { bool isd = false; std::string s; Obj o; };

static void u8(std::string &o, unsigned u) {
  if (u < 0x80) o += (char)u;
  else if (u < 0x800) { o += (char)(0xc0 | u >> 6); o += (char)(0x80 | (u & 63)); }
  else if (u < 0x10000) { o += (char)(0xe0 | u >> 12); o += (char)(0x80 | ((u >> 6) & 63)); o += (char)(0x80 | (u & 63)); }
  else { o += (char)(0xf0 | u >> 18); o += (char)(0x80 | ((u >> 12) & 63)); o += (char)(0x80 | ((u >> 6) & 63)); o += (char)(0x80 | (u & 63)); }
}
static bool utf8ok(const std::string &s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if (n < 0 || i + n >= s.size() + 0 + (n == 0)) { if (n < 0 || i + n >= s.size()) return false; }
    for (int k = 1; k <= n; k++) if (((unsigned char)s[i + k] & 0xc0) != 0x80) return false;
    i += n + 1;
  }
  return true;
}
static std::string gstr(Gen &g, bool key) {
  switch (g.below(5)) {
  case 0: { std::string s; int n = g.len(8); for (int i = 0; i < n; i++) u8(s, g.pick({0x41u, 0x22u, 0x5cu, 0x2fu, 1u, 8u, 9u, 10u, 12u, 13u, 0x1fu, 0x7fu, 0x80u, 0xe9u, 0x7ffu, 0x800u, 0x20acu, 0xd7ffu, 0xe000u, 0xfeffu, 0xffffu, 0x10000u, 0x1f602u, 0x10ffffu})); return s; }
  case 1: return g.from("{}[]:,\"\\ \n\tu0", g.len(10));
  case 2: { std::string s = g.raw(g.len(12)); for (auto &c : s) if (!c) c = 2; return s; }
  case 3: return g.from("abcdefgh", g.len(key ? 6 : 300, {15, 16, 31, 32, 64}));
  default: return g.from("0123456789", g.len(4));
  }
}
static Obj gobj(Gen &g, int depth) {
  Obj o;
  size_t n = g.len(depth == 0 ? 12 : 5);
  for (size_t i = 0; i < n; i++) {
    std::string k = gstr(g, true);
    V v;
    if (depth < 5 && g.chance(1, 4)) { v.isd = true; v.o = gobj(g, depth + 1); }
    else v.s = gstr(g, false);
    o[k] = v;
  }
  return o;
}
static size_t cnt(const Obj &o) { size_t n = 0; for (auto &x : o) n += 1 + (x.second.isd ? cnt(x.second.o) : 0); return n; }
static bool alls(const Obj &o) { for (auto &x : o) if (!utf8ok(x.first) || (x.second.isd ? !alls(x.second.o) : !utf8ok(x.second.s))) return false; return true; }
static onion_dict *mk(const Obj &o) {
  onion_dict *d = onion_dict_new();
  for (auto &x : o) {
    if (x.second.isd) onion_dict_add(d, x.first.c_str(), mk(x.second.o), OD_DUP_KEY | OD_DICT | OD_FREE_VALUE);
    else onion_dict_add(d, x.first.c_str(), x.second.s.c_str(), OD_DUP_ALL);
  }
  return d;
}
struct Rd { Obj o; int n = 0; bool dup = false; };
static void rd(void *p, const char *k, const void *v, int fl) {
  Rd *r = (Rd *)p;
  r->n++;
  V x;
  if (fl & OD_DICT) { Rd s; onion_dict_preorder((onion_dict *)v, (void *)rd, &s); x.isd = true; x.o = s.o; r->dup |= s.dup; }
  else x.s = (const char *)v;
  if (r->o.count(k)) r->dup = true;
  r->o[k] = x;
}
static bool eq(const Obj &a, const Obj &b) {
  if (a.size() != b.size()) return false;
  for (auto &x : a) { auto i = b.find(x.first); if (i == b.end() || i->second.isd != x.second.isd) return false; if (x.second.isd ? !eq(x.second.o, i->second.o) : x.second.s != i->second.s) return false; }
  return true;
}
// independent encoder with random spacing and escapes
static std::string ws(Gen &g) { std::string r; while (g.chance(1, 5)) r += g.pick({' ', '\n', '\t', '\r'}); return r; }
static std::string estr(Gen &g, const std::string &s) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    bool alt = g.chance(1, 6);
    if (c == '"' || c == '\\') { if (alt) r += fmt("\\u%04x", c); else { r += '\\'; r += c; } }
    else if (c == '\n' && !alt) r += "\\n";
    else if (c == '\t' && !alt) r += "\\t";
    else if (c == '\r' && !alt) r += "\\r";
    else if (c == 8 && !alt) r += "\\b";
    else if (c == 12 && !alt) r += "\\f";
    else if (c == '/' && alt) r += "\\/";
    else if (c < 32) r += fmt(g.coin() ? "\\u%04x" : "\\u%04X", c);
    else if (c >= 0x80 && alt) {
      // escape a whole code point
      int n = c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
      unsigned u = c & (0x3f >> n);
      bool ok = i + n < s.size() && c >= 0xc2 && c < 0xf5;
      if (ok) for (int k = 1; k <= n; k++) { if (((unsigned char)s[i + k] & 0xc0) != 0x80) ok = false; u = u << 6 | (s[i + k] & 0x3f); }
      if (ok && (u < (n == 1 ? 0x80u : n == 2 ? 0x800u : 0x10000u) || (u >= 0xd800 && u < 0xe000) || u > 0x10ffff)) ok = false;
      if (!ok) { r += c; continue; }
      if (u < 0x10000) r += fmt("\\u%04x", u);
      else r += fmt("\\u%04X\\u%04x", 0xd800 + ((u - 0x10000) >> 10), 0xdc00 + ((u - 0x10000) & 0x3ff));
      i += n;
    } else if (alt && c < 0x7f) r += fmt("\\u%04x", c);
    else r += c;
  }
  return r + "\"";
}
static std::string enc(Gen &g, const Obj &o) {
  std::string r = "{" + ws(g);
  bool first = true;
  for (auto &x : o) {
    if (!first) r += "," + ws(g);
    first = false;
    r += estr(g, x.first) + ws(g) + ":" + ws(g);
    r += x.second.isd ? enc(g, x.second.o) : estr(g, x.second.s);
    r += ws(g);
  }
  return r + "}";
}
// readers -----------------------------------------------------------------
struct P {
  const std::string &t; size_t i = 0; bool lenient, bad = false; bool dup = false;
  P(const std::string &t, bool l) : t(t), lenient(l) {}
  void sp() { while (i < t.size() && strchr(" \n\t\r", t[i]) && t[i]) i++; }
  bool hex4(unsigned &v) { v = 0; if (i + 4 > t.size()) return false; for (int k = 0; k < 4; k++) { if (!isxdigit((unsigned char)t[i + k])) return false; v = v * 16 + (unsigned)strtol(std::string(1, t[i + k]).c_str(), 0, 16); } i += 4; return true; }
  bool str(std::string &o) {
    o.clear();
    if (i >= t.size() || t[i] != '"') return false;
    i++;
    for (;;) {
      if (i >= t.size()) return false;
      unsigned char c = t[i];
      if (c == '"') { i++; return true; }
      if (c < 32 && !lenient) return false;
      if (c != '\\') { o += c; i++; continue; }
      i++;
      if (i >= t.size()) return false;
      c = t[i++];
      switch (c) {
      case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break;
      case '"': case '\\': case '/': o += c; break;
      case 'u': {
        unsigned u, w;
        if (!hex4(u)) return false;
        if (u == 0) return false;
        if (u >= 0xdc00 && u < 0xe000) return false;
        if (u >= 0xd800 && u < 0xdc00) { if (i + 2 > t.size() || t.compare(i, 2, "\\u")) return false; i += 2; if (!hex4(w) || w < 0xdc00 || w > 0xdfff) return false; u = 0x10000 + ((u - 0xd800) << 10) + (w - 0xdc00); }
        u8(o, u);
        break;
      }
      default: if (!lenient) return false; o += c;
      }
    }
  }
  bool obj(Obj &o) {
    if (i >= t.size() || t[i] != '{') return false;
    i++; sp();
    if (i < t.size() && t[i] == '}') { i++; return true; }
    for (;;) {
      std::string k;
      if (!str(k)) return false;
      sp();
      if (i >= t.size() || t[i] != ':') return false;
      i++; sp();
      V v;
      if (i < t.size() && t[i] == '{') { v.isd = true; if (!obj(v.o)) return false; }
      else if (i < t.size() && isdigit((unsigned char)t[i])) {
        size_t a = i;
        while (i < t.size() && isdigit((unsigned char)t[i])) i++;
        v.s = t.substr(a, i - a);
        if (!lenient && v.s.size() > 1 && v.s[0] == '0') return false;
      } else if (!str(v.s)) return false;
      if (o.count(k)) dup = true;
      o[k] = v;
      sp();
      if (i < t.size() && t[i] == '}') { i++; return true; }
      if (i >= t.size() || t[i] != ',') return false;
      i++; sp();
    }
  }
  bool doc(Obj &o) { sp(); if (!obj(o)) return false; sp(); return i == t.size(); }
};
static void check_text(Ctx &c, const std::string &t) {
  char *in = (char *)malloc(t.size() + 1);
  memcpy(in, t.data(), t.size());
  in[t.size()] = 0;
  onion_dict *d = onion_dict_from_json(in);
  free(in);
  Rd r;
  if (d) onion_dict_preorder(d, (void *)rd, &r);
  bool got = d != nullptr;
  onion_dict_free(d);
  Obj so, lo;
  P ps(t, false), pl(t, true);
  bool strict = ps.doc(so), lenient = pl.doc(lo);
  if (strict) {
    if (!got) c.fail("valid JSON refused: %s", esc(t, 600).c_str());
    if (!ps.dup && !eq(so, r.o)) c.fail("JSON read with another meaning: %s", esc(t, 600).c_str());
    c.label("text-valid");
  } else if (!lenient) {
    if (got) c.fail("malformed JSON accepted: %s", esc(t, 600).c_str());
    c.label("text-malformed");
  }
}
void pbt::property(Gen &g, Ctx &c) {
  int kind = g.below(4);
  Obj o = gobj(g, 0);
  if (kind == 0) {
    onion_dict *d = mk(o);
    onion_block *b = onion_dict_to_json(d);
    onion_dict_free(d);
    if (!b) c.fail("no JSON produced");
    std::string t(onion_block_data(b), onion_block_size(b));
    onion_block_free(b);
    c.d("encode %s", esc(t, 1500).c_str());
    Obj back;
    P p(t, false);
    if (alls(o)) { if (!p.doc(back)) c.fail("produced text is not valid JSON: %s", esc(t, 600).c_str()); if (!eq(o, back)) c.fail("produced JSON denotes another dictionary: %s", esc(t, 600).c_str()); }
    char *in = strdup(t.c_str());
    onion_dict *e = onion_dict_from_json(in);
    free(in);
    if (!e) c.fail("the library refuses its own JSON: %s", esc(t, 600).c_str());
    Rd r;
    onion_dict_preorder(e, (void *)rd, &r);
    onion_dict_free(e);
    if (r.dup || !eq(r.o, o)) c.fail("JSON round trip changed the dictionary: %s", esc(t, 600).c_str());
    if (g.chance(1, 4)) {                    // the same as a reply
      c.label("reply");
      hm::Server sv;
      sv.handler = [&](onion_request *q, onion_response *res) -> int { return onion_shortcut_response_json(mk(o), q, res); };
      hm::Client cl(sv);
      cl.deliver(std::string("GET / HTTP/1.1\r\nHost: x\r\n\r\n"), {});
      oh::Reply p2 = oh::read_reply(cl.c.out, false, !cl.open);
      if (!p2.ok || !p2.complete || p2.consumed != cl.c.out.size() || p2.code != 200) c.fail("broken JSON reply: %s", esc(cl.c.out, 300).c_str());
      if (p2.body != t) c.fail("the JSON reply differs from the JSON text: %s", esc(p2.body, 600).c_str());
      if (p2.count("Content-Type") != 1 || p2.get("Content-Type")->compare(0, 16, "application/json")) c.fail("a JSON reply of another type");
    }
    c.nontrivial = cnt(o) >= 2;
    return;
  }
  std::string t = ws(g) + enc(g, o) + ws(g);
  if (kind == 2) t = t.substr(0, g.below(t.size() + 1));
  if (kind == 3) {
    int n = 1 + g.below(3);
    for (int i = 0; i < n && !t.empty(); i++) {
      size_t p = g.below(t.size());
      switch (g.below(5)) {
      case 4: {                                  // surrogates that do not match
        unsigned a = g.pick({0xd7ffu, 0xd800u, 0xdbffu, 0xdc00u, 0xdfffu, 0xe000u, 0x0041u}), b = g.pick({0xdbffu, 0xdc00u, 0xdfffu, 0xe000u, 0xffffu, 0xd800u, 0x41u});
        size_t q = t.find('"', p);
        if (q != std::string::npos) t.insert(q + 1, fmt("\\u%04x\\u%04X", a, b));
        break;
      }
      case 0: t.erase(p, 1 + g.below(3)); break;
      case 1: t.insert(p, 1, g.pick({'{', '}', '"', ',', ':', '\\', 'u', '0', 'x', ' '})); break;
      case 2: t[p] = g.pick({'{', '}', '"', ',', ':', '\\', 'u', '0', 'x', ' ', '\x01'}); break;
      case 3: t += g.pick({std::string("}"), std::string(","), std::string("x"), std::string("{\"a\":\"b\"}"), std::string(" ")}); break;
      }
    }
  }
  c.d("text %s", esc(t, 1500).c_str());
  check_text(c, t);
  c.nontrivial = cnt(o) >= (kind == 1 ? 2u : 1u);
}
