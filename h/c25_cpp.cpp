// C25: the C++ interface gives the same results as the C interface.
#include "http.hpp"
#include "net.hpp"
#include <pthread.h>
extern "C" {
#include <onion/handlers/exportlocal.h>
#include <onion/https.h>
#include <onion/mime.h>
#include <onion/sessions_mem.h>
}
#include <onion.hpp>
#include <dict.hpp>
#include <exceptions.hpp>
#include <extrahandlers.hpp>
#include <handler.hpp>
#include <bindings/cpp/http.hpp>
#include <https.hpp>
#include <mime.hpp>
#include <request.hpp>
#include <response.hpp>
#include <shortcuts.hpp>
#include <url.hpp>
using namespace hm;
pbt::Config pbt::config;
static std::string exported;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is a history of up to 25 operations on several C++ dictionaries (construction, copies, assignments to themselves and others, nesting, sub-dictionaries that outlive their parent, JSON, maps, locks) mirrored by the C interface; or a generated request read through the C++ and the C accessors; or a generated reply program (stream output, headers, cookies, exceptions) run through both; or a generated route tree built through both and sent the same requests; or a server set up through both (limits, handlers, sessions, media types, certificates) and sent the same requests, or listening on a real port; non-trivial when at least eight operations ran, the request had parts to compare, the program had at least three steps, at least two requests were sent, or a server listened";
  config.leak_check = true;
}

// ---- dictionaries
struct Slot { std::unique_ptr<Onion::Dict> x; onion_dict *c = nullptr; };
static const char *KEYS[] = {"a", "b", "key", "z", "", "long key with blanks"};
static std::string cjson(onion_dict *d) { onion_block *b = onion_dict_to_json(d); std::string s = b ? onion_block_data(b) : "<none>"; if (b) onion_block_free(b); return s; }
static void tomap(void *p, const char *k, const void *v, int f) { if (!(f & OD_DICT)) (*(std::map<std::string, std::string> *)p)[k] = (const char *)v; }
static void compare(Ctx &c, Slot &s, int i) {
  Onion::Dict &x = *s.x;
  if ((x.c_handler() == nullptr) != (s.c == nullptr)) c.fail("dictionary %d: %s", i, s.c ? "is missing" : "should not exist");
  if ((int)x.count() != onion_dict_count(s.c)) c.fail("dictionary %d counts %zu, C counts %d", i, x.count(), onion_dict_count(s.c));
  for (auto k : KEYS) {
    const char *v = onion_dict_get(s.c, k);
    if (x.has(k) != (v != nullptr)) c.fail("dictionary %d has(%s) is %d", i, k, x.has(k));
    if (x.get(k) != (v ? v : "") || x.get(k, "dflt") != (v ? v : "dflt")) c.fail("dictionary %d get(%s) is %s", i, k, esc(x.get(k)).c_str());
    bool threw = false;
    std::string got;
    try { got = x[k]; } catch (const Onion::Dict::key_not_found &e) { threw = true; if (std::string(e.what()).find(k) == std::string::npos) c.fail("the exception does not name the key: %s", e.what()); }
    if (threw != (v == nullptr) || (v && got != v)) c.fail("dictionary %d [%s] %s", i, k, threw ? "throws" : esc(got).c_str());
  }
  if (!s.c) return;
  if (x.toJSON() != cjson(s.c)) c.fail("dictionary %d is %s, C has %s", i, esc(x.toJSON(), 300).c_str(), esc(cjson(s.c), 300).c_str());
  std::map<std::string, std::string> m = x, cm;
  onion_dict_preorder(s.c, (void *)tomap, &cm);
  if (m != cm) c.fail("dictionary %d as map has %zu entries, C %zu", i, m.size(), cm.size());
}
static void dict_case(Gen &g, Ctx &c) {
  std::vector<Slot> sl(4);
  std::vector<onion_dict *> borrowed;
  struct Cleanup { std::vector<Slot> &s; std::vector<onion_dict *> &b; ~Cleanup() { for (auto &k : s) { k.x.reset(); onion_dict_free(k.c); } for (auto d : b) onion_dict_free(d); } } cleanup{sl, borrowed};
  auto set = [&](int i, Onion::Dict *x, onion_dict *d) { sl[i].x.reset(x); onion_dict_free(sl[i].c); sl[i].c = d; };
  for (int i = 0; i < 4; i++) set(i, new Onion::Dict(), onion_dict_new());
  auto val = [&] { return g.from("abcXYZ \"\\\n<>&\xc3\xa1", g.len(40, {0, 1})); };
  int n = 1 + (int)g.below(25), done = 0;
  for (int step = 0; step < n; step++) {
    int i = (int)g.below(4), j = (int)g.below(4);
    std::string k = g.pick(KEYS), v = val();
    Slot &s = sl[i];
    bool null = !s.c;
    switch (g.below(20)) {
    case 0: c.d("%d=new; ", i); set(i, new Onion::Dict(), onion_dict_new()); break;
    case 1: {
      std::map<std::string, std::string> m;
      for (int q = (int)g.below(5); q > 0; q--) m[g.pick(KEYS)] = val();
      c.d("%d=map of %zu; ", i, m.size());
      onion_dict *d = onion_dict_new();
      for (auto &p : m) onion_dict_add(d, p.first.c_str(), p.second.c_str(), OD_DUP_ALL);
      set(i, new Onion::Dict(m), d);
      break;
    }
    case 2: {
      std::string v2 = val(), k2 = g.pick(KEYS);
      c.d("%d={%s,%s}; ", i, k.c_str(), k2.c_str());
      onion_dict *d = onion_dict_new();
      onion_dict_add(d, k.c_str(), v.c_str(), OD_DUP_ALL);
      onion_dict_add(d, k2.c_str(), v2.c_str(), OD_DUP_ALL);
      set(i, new Onion::Dict{{k, v}, {k2, v2}}, d);
      break;
    }
    case 3: c.d("%d=copy of %d; ", i, j); { Onion::Dict *x = new Onion::Dict(*sl[j].x); onion_dict *d = sl[j].c ? onion_dict_dup(sl[j].c) : nullptr; set(i, x, d); } break;
    case 4: c.d("%d:=%d; ", i, j); { *s.x = *sl[j].x; onion_dict *d = sl[j].c ? onion_dict_dup(sl[j].c) : nullptr; onion_dict_free(s.c); s.c = d; } break;
    case 5: if (sl[j].c) { c.d("%d:=C %d; ", i, j); *s.x = sl[j].x->c_handler(); onion_dict *d = onion_dict_dup(sl[j].c); onion_dict_free(s.c); s.c = d; } break;
    case 6: if (sl[j].c) { c.d("%d=hard copy of %d; ", i, j); Onion::Dict *x = new Onion::Dict(sl[j].x->hard_dup()); onion_dict *d = onion_dict_hard_dup(sl[j].c); set(i, x, d); } break;
    case 7: case 8: case 9: if (!null) { int fl = g.coin() ? OD_DUP_ALL : OD_DUP_ALL | OD_REPLACE; c.d("%d add %s=%s%s; ", i, k.c_str(), esc(v, 20).c_str(), fl & OD_REPLACE ? " replacing" : ""); if (&s.x->add(k, v, fl) != s.x.get()) c.fail("add returned another dictionary"); onion_dict_add(s.c, k.c_str(), v.c_str(), fl); } break;
    case 10: case 11: if (!null && sl[j].c && cjson(sl[j].c).size() + cjson(s.c).size() < 4000) { c.d("%d add %s=dict %d; ", i, k.c_str(), j); int fl = g.coin() ? OD_DUP_ALL : OD_DUP_ALL | OD_REPLACE; s.x->add(k, *sl[j].x, fl); onion_dict_add(s.c, k.c_str(), sl[j].c, fl | OD_DICT); } break;
    case 12: if (!null) { c.d("%d remove %s; ", i, k.c_str()); s.x->remove(k); onion_dict_remove(s.c, k.c_str()); } break;
    case 13: if (!null && sl[j].c && s.c != sl[j].c && cjson(sl[j].c).size() + cjson(s.c).size() < 4000) { c.d("%d merge %d; ", i, j); s.x->merge(*sl[j].x); onion_dict_merge(s.c, sl[j].c); } break;
    case 14: case 15: { c.d("%d=%d.getDict(%s); ", i, j, k.c_str()); Onion::Dict *x = new Onion::Dict(sl[j].x->getDict(k)); onion_dict *d = onion_dict_get_dict(sl[j].c, k.c_str()); if (d) { onion_dict_dup(d); c.label("sub-dictionary kept"); } set(i, x, d); break; }
    case 16: {
      std::string js = sl[j].c ? sl[j].x->toJSON() : "{}";
      if (g.chance(1, 3)) js = js.substr(0, g.below(js.size() + 1));
      c.d("%d=fromJSON %s; ", i, esc(js, 60).c_str());
      onion_dict *d = onion_dict_from_json(js.c_str());
      if (!d) c.label("wrong JSON");
      set(i, new Onion::Dict(Onion::Dict::fromJSON(js)), d);
      break;
    }
    case 17: if (!null) {
      c.d("%d locks; ", i);
      {
        auto l = s.x->readLock();
        if (pthread_rwlock_trywrlock(&s.x->c_handler()->lock) == 0) c.fail("a read lock does not keep writers out");
        auto l2 = std::move(l);
        if (pthread_rwlock_trywrlock(&s.x->c_handler()->lock) == 0) c.fail("a moved read lock does not keep writers out");
      }
      { auto l = s.x->writeLock(); if (pthread_rwlock_tryrdlock(&s.x->c_handler()->lock) == 0) c.fail("a write lock does not keep readers out"); }
      if (pthread_rwlock_trywrlock(&s.x->c_handler()->lock) != 0) c.fail("a lock outlived its scope");
      pthread_rwlock_unlock(&s.x->c_handler()->lock);
      break;
    } else break;
    case 18: {
      c.d("%d=C dictionary; ", i);
      onion_dict *d = onion_dict_new(), *e = onion_dict_new();
      onion_dict_add(d, k.c_str(), v.c_str(), OD_DUP_ALL);
      onion_dict_add(e, k.c_str(), v.c_str(), OD_DUP_ALL);
      bool own = g.coin();
      if (!own) borrowed.push_back(d);
      set(i, new Onion::Dict(d, own), e);
      break;
    }
    default: {
      c.d("%d media types; ", i);
      if (sl[i].c) {                                         // the dictionary goes on being usable
        Onion::Mime::set(*s.x);
        std::string f = "name." + k;
        const char *w = onion_dict_get(s.c, k.c_str());
        std::string got = Onion::Mime::get(f);
        if (k.find(' ') == std::string::npos && got != (w ? w : "text/plain")) c.fail("media type of %s is %s", f.c_str(), esc(got).c_str());
        onion_mime_set(NULL);
      }
    }
    }
    done++;
    for (int q = 0; q < 4; q++) compare(c, sl[q], q);
  }
  c.nontrivial = done >= 8;
  c.label("dictionary history");
}

// ---- requests
static Pairs pairs(const Onion::Dict &d, bool) {
  Pairs r;
  std::map<std::string, std::string> m = Onion::Dict(d);
  for (auto &p : m) r.push_back(p);
  return r;
}
static void request_case(Gen &g, Ctx &c) {
  GenOpts o;
  o.max_body = 2000;
  Model m = gen_request(g, o);
  bool cookie = g.coin() && m.cookies.empty(), sess = g.coin();      // one Cookie header at most
  std::string err;
  bool seen = false, rich = false;
  Server s;
  s.handler = [&](onion_request *r, onion_response *res) -> int {
    seen = true;
    Onion::Request q(r);
    Snap a = snapshot(r);
    auto eq = [&](const char *what, const std::string &x, const std::string &y) { if (x != y && err.empty()) err = std::string(what) + " is " + esc(x) + ", C gives " + esc(y); };
    eq("path", q.path(), oh::str(onion_request_get_path(r)));
    eq("fullpath", q.fullpath(), oh::str(onion_request_get_fullpath(r)));
    eq("method", q.methodName(), oh::str(onion_request_get_method_name(r)));
    eq("flags", fmt("%d", (int)q.flags()), fmt("%d", (int)onion_request_get_flags(r)));
    eq("secure", fmt("%d", (int)q.isSecure()), fmt("%d", (int)onion_request_is_secure(r)));
    const char *cd = onion_request_get_client_description(r);
    eq("client", q.clientDescription(), cd ? cd : "");
    const char *lc = onion_request_get_language_code(r);
    eq("language", q.languageCode(), oh::str(lc));
    onion_low_free((void *)lc);
    for (auto &p : a.headers) {
      const char *v = onion_request_get_header(r, p.first.c_str());
      try { eq("header", q[p.first], v ? v : "<null>"); } catch (std::exception &e) { eq("header", e.what(), oh::str(v)); }
      eq("header in dict", q.headers().get(p.first, "<none>"), oh::str(v));
    }
    try { q["X-Not-There-At-All"]; eq("missing header", "found", ""); } catch (const Onion::Dict::key_not_found &) {}
    for (auto &p : a.query) { eq("query", q.query(p.first, "<none>"), oh::str(onion_request_get_query(r, p.first.c_str()))); eq("query dict", q.query().get(p.first, "<none>"), oh::str(onion_request_get_query(r, p.first.c_str()))); }
    for (auto &p : a.post) { eq("post", q.post(p.first, "<none>"), oh::str(onion_request_get_post(r, p.first.c_str()))); eq("post dict", q.post().get(p.first, "<none>"), oh::str(onion_request_get_post(r, p.first.c_str()))); }
    eq("no query", q.query("not there"), "");
    eq("no query", q.query("not there", "d"), "d");
    eq("no post", q.post("not there", "d"), "d");
    eq("no cookie", q.cookies("not there", "d"), "d");
    const onion_dict *fd = onion_request_get_file_dict(r);
    eq("has files", fmt("%d", (int)q.hasFiles()), fmt("%d", fd ? 1 : 0));
    eq("files", fmt("%zu", q.files().count()), fmt("%d", onion_dict_count(fd)));
    for (auto &f : a.files) eq("file", q.files().get(f.first, "<none>"), oh::str(onion_request_get_file(r, f.first.c_str())));
    eq("posts", fmt("%zu", q.post().count()), fmt("%d", onion_dict_count(onion_request_get_post_dict(r))));
    eq("queries", fmt("%zu", q.query().count()), fmt("%d", onion_dict_count(onion_request_get_query_dict(r))));
    { Onion::Dict keep(q.query()), keep2(q.post()), keep3(q.files()), keep4(q.headers()); keep = keep2; }
    for (auto &k : m.cookies) eq("generated cookie", q.cookies(k.first), oh::str(onion_request_get_cookie(r, k.first.c_str())));
    if (cookie) { eq("cookie", q.cookies("ck"), oh::str(onion_request_get_cookie(r, "ck"))); eq("cookie dict", q.cookies().get("ck", "<none>"), oh::str(onion_request_get_cookie(r, "ck"))); eq("cookie dict", q.cookies().get("c2", "<none>"), "two"); }
    if (sess) {
      eq("no session value", q.session("sk", "d"), "d");
      q.session().add("sk", "sv");
      eq("session", q.session("sk"), "sv");
      eq("session", oh::str(onion_request_get_session(r, "sk")), "sv");
      onion_dict_add(onion_request_get_session_dict(r), "sk2", "sv2", OD_DUP_ALL);
      eq("session", q.session().get("sk2"), "sv2");
      if (a.query.size() % 2) { q.removeSession(); eq("removed session", q.session("sk", "gone"), "gone"); }
    }
    rich = a.query.size() + a.post.size() + a.files.size() > 0;
    onion_response_write0(res, "ok");
    return OCS_PROCESSED;
  };
  std::string bytes = m.bytes;
  if (cookie) bytes.insert(bytes.find('\n') + 1, "Cookie: ck=one; c2=two\r\n");
  if (g.coin()) bytes.insert(bytes.find('\n') + 1, "Accept-Language: es-ES,en;q=0.5\r\n");
  Client cl(s);
  c.d("%s%s%s", esc(bytes, 400).c_str(), cookie ? " cookie" : "", sess ? " session" : "");
  cl.deliver(bytes.data(), bytes.size());
  if (!err.empty()) c.fail("%s", err.c_str());
  c.nontrivial = seen && rich;
  c.label("request");
}

// ---- reply programs
struct Op { int kind; std::string a, b; long n; };
static int run_c(const std::vector<Op> &p, onion_request *r, onion_response *res) {
  for (auto &o : p) switch (o.kind) {
  case 0: onion_response_write(res, o.a.data(), o.a.size()); break;
  case 1: onion_response_write(res, o.a.data(), o.a.size()); break;
  case 2: onion_response_printf(res, "%ld", o.n); break;
  case 3: onion_response_write(res, o.a.data(), 1); break;
  case 4: onion_response_set_code(res, (int)o.n); break;
  case 5: onion_response_set_header(res, o.a.c_str(), o.b.c_str()); break;
  case 6: onion_response_set_length(res, o.n); break;
  case 7: onion_response_add_cookie(res, o.a.c_str(), o.b.c_str(), -1, o.n & 1 ? "/p" : NULL, o.n & 2 ? "example.com" : NULL, (int)(o.n >> 2)); break;
  case 8: onion_response_write_headers(res); break;
  case 9: onion_response_printf(res, "%g", o.n / 8.0); break;
  case 20: return onion_shortcut_response(o.a.c_str(), (int)o.n, r, res);
  case 21: return onion_shortcut_response(o.a.c_str(), HTTP_INTERNAL_ERROR, r, res);
  case 22: return onion_shortcut_response(o.a.c_str(), HTTP_NOT_FOUND, r, res);
  case 23: return onion_shortcut_redirect(o.a.c_str(), r, res);
  case 24: case 25: case 26: return OCS_INTERNAL_ERROR;
  case 27: return onion_shortcut_redirect(o.a.c_str(), r, res);
  default: return (int)o.n;
  }
  return OCS_PROCESSED;
}
static onion_connection_status run_cpp(const std::vector<Op> &p, Onion::Request &q, Onion::Response &res) {
  for (auto &o : p) switch (o.kind) {
  case 0: res.write(o.a.data(), (int)o.a.size()); break;
  case 1: res << o.a; break;
  case 2: res << o.n; break;
  case 3: res << o.a[0]; break;
  case 4: res.setCode((int)o.n); break;
  case 5: res.setHeader(o.a, o.b); break;
  case 6: res.setLength(o.n); break;
  case 7: res.addCookie(o.a, o.b, -1, o.n & 1 ? "/p" : "", o.n & 2 ? "example.com" : "", (int)(o.n >> 2)); break;
  case 8: res.writeHeaders(); break;
  case 9: res << o.n / 8.0; break;
  case 20: throw Onion::HttpException(o.a, (onion_response_codes)o.n);
  case 21: throw Onion::HttpInternalError(o.a);
  case 22: throw Onion::HttpNotFound(o.a);
  case 23: throw Onion::HttpRedirect(o.a);
  case 24: throw std::runtime_error(o.a);
  case 25: { Onion::Dict d; d["missing"]; break; }
  case 26: throw 42;
  case 27: return Onion::redirect(o.a, q, res);
  default: return (onion_connection_status)o.n;
  }
  return OCS_PROCESSED;
}
static std::vector<Op> gen_program(Gen &g) {
  std::vector<Op> p;
  int n = (int)g.below(8);
  static const int CODES[] = {200, 201, 404, 500, 403, 302};
  for (int i = 0; i < n; i++) {
    Op o{(int)g.weighted({4, 6, 2, 2, 2, 3, 1, 2, 1, 1}), "", "", 0};
    switch (o.kind) {
    case 0: case 1: o.a = g.chance(1, 5) ? g.raw(g.len(5000, {1500, 3000})) : g.from("text <>", g.below(20)); break;
    case 3: o.a = g.raw(1); break;
    case 2: case 9: o.n = (long)g.range(-1000, 100000); break;
    case 4: o.n = g.pick(CODES); break;
    case 5: o.a = "X-H" + g.from("abc", 1); o.b = g.from("value ;=", g.below(20)); break;
    case 6: o.n = g.below(3000); break;
    case 7: o.a = "ck" + g.from("ab", 1); o.b = g.from("abc", g.below(9)); o.n = g.below(4) | (g.coin() ? OC_HTTP_ONLY << 2 : 0); break;
    }
    p.push_back(o);
  }
  static const int RET[] = {OCS_PROCESSED, OCS_NOT_PROCESSED, OCS_CLOSE_CONNECTION, OCS_KEEP_ALIVE, OCS_INTERNAL_ERROR, OCS_NOT_IMPLEMENTED, OCS_FORBIDDEN};
  Op e{28, "", "", 0};
  e.kind = 20 + (int)g.weighted({2, 1, 1, 2, 1, 1, 1, 1, 6});
  if (e.kind == 28) e.n = g.pick(RET);
  else { e.n = g.pick(CODES); e.a = e.kind == 23 || e.kind == 27 ? "/to/" + g.from("abc", g.below(6)) : "message " + g.from("abc", g.below(30)); }
  p.push_back(e);
  return p;
}
static std::string differ(const std::string &x, bool xo, const std::string &y, bool yo, bool head) {
  if (xo != yo) return fmt("the connection is %s, over C %s", xo ? "open" : "closed", yo ? "open" : "closed");
  oh::Reply a = oh::read_reply(x, head, !xo), b = oh::read_reply(y, head, !yo);
  if (a.error.empty() != b.error.empty()) return "one reply is damaged: " + a.error + b.error;
  if (!a.error.empty()) return "";
  if (a.code != b.code) return fmt("status %d, over C %d", a.code, b.code);
  if (a.body != b.body) return fmt("body %s, over C %s", esc(a.body, 100).c_str(), esc(b.body, 100).c_str());
  auto hs = [](const oh::Reply &r) { std::vector<std::string> v; for (auto &h : r.headers) if (!oh::ieq(h.name, "Date")) v.push_back(oh::lower(h.name) + ": " + h.value); std::sort(v.begin(), v.end()); return v; };
  auto ha = hs(a), hb = hs(b);
  if (ha != hb) { std::string d; for (auto &h : ha) if (std::find(hb.begin(), hb.end(), h) == hb.end()) d += " +" + h; for (auto &h : hb) if (std::find(ha.begin(), ha.end(), h) == ha.end()) d += " -" + h; return "headers differ:" + esc(d); }
  if (a.framing != b.framing || a.complete != b.complete) return "framing differs";
  return "";
}
static std::string psum(const std::vector<Op> &p) { std::string s; for (auto &o : p) s += fmt("%d(%s,%ld) ", o.kind, esc(o.a, 12).c_str(), o.n); return s; }
static void reply_case(Gen &g, Ctx &c) {
  auto p = gen_program(g);
  bool head = g.chance(1, 6), minor = g.chance(4, 5), close_ = g.chance(1, 4);
  c.d("%s%s1.%d%s", psum(p).c_str(), head ? "HEAD " : "", minor, close_ ? " close" : "");
  bool own_error = g.chance(1, 4);
  auto errpage = [](onion_response *res) { onion_response_set_code(res, 500); onion_response_write0(res, "own error page"); };
  Onion::Onion o(O_ONE_LOOP | O_NO_SIGPIPE);
  switch (g.below(3)) {
  case 0: o.setRootHandler(new Onion::HandlerFunction([&](Onion::Request &q, Onion::Response &r) { return run_cpp(p, q, r); })); break;
  case 1: o.setRootHandler(Onion::Handler::make<Onion::HandlerFunction>([&](Onion::Request &q, Onion::Response &r) { return run_cpp(p, q, r); })); break;
  default: o.setRootHandler(Onion::onion_handler_c_to_cpp(Onion::onion_handler_cpp_to_c(new Onion::HandlerFunction([&](Onion::Request &q, Onion::Response &r) { return run_cpp(p, q, r); }))));
  }
  if (own_error) o.setInternalErrorHandler(new Onion::HandlerFunction([&](Onion::Request &, Onion::Response &r) { r.setCode(500); r << "own error page"; return OCS_PROCESSED; }));
  Server sx(o.c_handler());
  Server sc;
  sc.handler = [&](onion_request *r, onion_response *res) -> int { return run_c(p, r, res); };
  if (own_error) {
    onion_set_internal_error_handler(sc.o, onion_handler_new((onion_handler_handler)+[](void *d, onion_request *, onion_response *res) -> int { (*(decltype(errpage) *)d)(res); return OCS_PROCESSED; }, &errpage, NULL));
  }
  std::string req = std::string(head ? "HEAD" : "GET") + fmt(" /x HTTP/1.%d\r\nHost: h\r\n%s\r\n", minor, close_ ? "Connection: close\r\n" : "");
  Client x(sx), y(sc);
  x.deliver(req.data(), req.size());
  y.deliver(req.data(), req.size());
  std::string d = differ(x.c.out, x.open, y.c.out, y.open, head);
  if (!d.empty()) c.fail("%s", d.c_str());
  c.nontrivial = p.size() >= 3;
  c.label("reply program");
  if (p.back().kind < 27) c.label("exception");
}

// ---- routes
struct Route { int kind; std::string pattern, text; int code; std::vector<Route> sub; };
static std::string says(onion_request *r, const std::string &id) { const char *q1 = onion_request_get_query(r, "1"); return id + " path=" + oh::str(onion_request_get_path(r)) + " 1=" + (q1 ? q1 : "-"); }
static int c_plain(void *, onion_request *r, onion_response *res) { onion_response_write0(res, says(r, "plain").c_str()); return OCS_PROCESSED; }
static int c_text(void *d, onion_request *r, onion_response *res) { onion_response_write0(res, says(r, *(std::string *)d).c_str()); return OCS_PROCESSED; }
static int c_throwing(void *, onion_request *, onion_response *) { return OCS_INTERNAL_ERROR; }
static int c_red(void *d, onion_request *r, onion_response *res) { return onion_shortcut_redirect(((std::string *)d)->c_str(), r, res); }
static int c_ired(void *d, onion_request *r, onion_response *res) { return onion_shortcut_internal_redirect(((std::string *)d)->c_str(), r, res); }
static int c_file(void *d, onion_request *r, onion_response *res) { return onion_shortcut_response_file(((std::string *)d)->c_str(), r, res); }
struct Obj { std::string id; onion_connection_status call(Onion::Request &q, Onion::Response &r) { r << says(q.c_handler(), id); return OCS_PROCESSED; } };
struct Own : Onion::HandlerBase { std::string id; Own(std::string s) : id(s) {} onion_connection_status operator()(Onion::Request &q, Onion::Response &r) override { r << says(q.c_handler(), id); return OCS_PROCESSED; } };
static std::vector<Route> gen_routes(Gen &g, int depth) {
  static const char *PAT[] = {"", "a", "^a", "b", "^b/", "^([a-c]+)$", "^x/([0-9]*)/?$", "^d/", "c"};
  std::vector<Route> v;
  int n = 1 + (int)g.below(5);
  for (int i = 0; i < n; i++) {
    Route r;
    r.kind = (int)g.weighted({3, 2, 2, 1, 1, 2, 1, 1, 1, 1, 1, 1});
    if (r.kind == 5 && depth >= 2) r.kind = 0;
    r.pattern = g.pick(PAT);
    r.text = fmt("r%d.%d", depth, i);
    static const int CODES[] = {200, 404, 500, 201};
    r.code = g.pick(CODES);
    if (r.kind == 6) r.text = "/b/" + g.from("ab", g.below(3));
    if (r.kind == 7) r.text = "/c";
    if (r.kind == 9) r.text = exported + "/one.txt";
    if (r.kind == 5) r.sub = gen_routes(g, depth + 1);
    v.push_back(r);
  }
  return v;
}
struct Keep { std::vector<std::unique_ptr<Onion::Url>> urls; std::vector<std::unique_ptr<Obj>> objs; };
static void build_cpp(Onion::Url &u, std::vector<Route> &v, Keep &k) {
  for (auto &r : v) {
    std::string id = r.text;
    switch (r.kind) {
    case 0: u.add(r.pattern, Onion::HandlerFunction::fn_t([id](Onion::Request &q, Onion::Response &s) { s << says(q.c_handler(), id); return OCS_PROCESSED; })); break;
    case 1: k.objs.emplace_back(new Obj{id}); u.add(r.pattern, k.objs.back().get(), &Obj::call); break;
    case 2: u.add(r.pattern, r.text, r.code); break;
    case 3: u.add(r.pattern, (onion_handler_handler)c_plain); break;
    case 4: u.add(r.pattern, onion_handler_new((onion_handler_handler)c_text, &r.text, NULL)); break;
    case 5: { k.urls.emplace_back(new Onion::Url()); Onion::Url *n = k.urls.back().get(); build_cpp(*n, r.sub, k); u.add(r.pattern, std::move(*n)); break; }
    case 6: u.add(r.pattern, Onion::RedirectHandler(r.text)); break;
    case 7: u.add(r.pattern, Onion::InternalRedirectHandler(r.text)); break;
    case 8: u.add(r.pattern, Onion::ExportLocal(exported)); break;
    case 9: u.add(r.pattern, Onion::StaticHandler(r.text)); break;
    case 10: u.add(r.pattern, Onion::Handler(new Own(id))); break;
    default: u.add(r.pattern, Onion::HandlerFunction::fn_t([](Onion::Request &, Onion::Response &) -> onion_connection_status { throw std::logic_error("x"); }));
    }
  }
}
static void build_c(onion_url *u, std::vector<Route> &v) {
  for (auto &r : v) {
    const char *p = r.pattern.c_str();
    auto H = [&](int (*f)(void *, onion_request *, onion_response *)) { return onion_handler_new((onion_handler_handler)f, &r.text, NULL); };
    switch (r.kind) {
    case 0: case 1: case 4: case 10: onion_url_add_handler(u, p, H(c_text)); break;
    case 2: onion_url_add_static(u, p, r.text.c_str(), r.code); break;
    case 3: onion_url_add_handler(u, p, H(c_plain)); break;
    case 5: { onion_url *n = onion_url_new(); build_c(n, r.sub); onion_url_add_url(u, p, n); break; }
    case 6: onion_url_add_handler(u, p, H(c_red)); break;
    case 7: onion_url_add_handler(u, p, H(c_ired)); break;
    case 8: onion_url_add_handler(u, p, onion_handler_export_local_new(exported.c_str())); break;
    case 9: onion_url_add_handler(u, p, H(c_file)); break;
    default: onion_url_add_handler(u, p, H(c_throwing));
    }
  }
}
static void desc(Ctx &c, const std::vector<Route> &v) { for (auto &r : v) { c.d("%s:%d", r.pattern.c_str(), r.kind); if (!r.sub.empty()) { c.d("("); desc(c, r.sub); c.d(")"); } c.d(" "); } }
// an internal redirect to a route that redirects again never ends, over C as well
static bool loops(const std::vector<Route> &v) { for (auto &r : v) if (r.kind == 7 || loops(r.sub)) return true; return false; }
static void no_loop(std::vector<Route> &v) { bool seen = false; for (auto &r : v) { if (r.kind == 7) { r.kind = 0; seen = true; } no_loop(r.sub); } (void)seen; }
static void route_case(Gen &g, Ctx &c) {
  if (exported.empty()) {
    exported = pbt::scratch() + "/export";
    mkdir(exported.c_str(), 0755);
    oh::write_file(exported + "/one.txt", "first file");
    oh::write_file(exported + "/two.html", "<p>second</p>");
  }
  std::vector<Route> v = gen_routes(g, 0);
  std::vector<Route> redirect_target;
  if (loops(v)) {                                            // only as the last route of the root, with a target before it
    no_loop(v);
    Route t{2, "c", "the target", 200, {}};
    v.insert(v.begin(), t);
    v.push_back(Route{7, "^ir", "/c", 200, {}});
  }
  desc(c, v);
  Keep k;
  int how = (int)g.below(4);
  c.d("root %d; ", how);
  Onion::Onion o(O_ONE_LOOP | O_NO_SIGPIPE);
  std::unique_ptr<Onion::Url> u, moved;
  switch (how) {
  case 0: u.reset(new Onion::Url(o)); break;
  case 1: u.reset(new Onion::Url(&o)); break;
  case 2: u.reset(new Onion::Url(o)); moved.reset(new Onion::Url(std::move(*u))); break;
  default: u.reset(new Onion::Url());
  }
  build_cpp(moved && g.coin() ? *moved : *u, v, k);
  if (how == 3) {
    bool mv = g.coin();
    if (mv) moved.reset(new Onion::Url(std::move(*u)));
    Onion::Url *t = mv ? moved.get() : u.get();
    o.setRootHandler(new Onion::HandlerFunction([t](Onion::Request &q, Onion::Response &s) { return (*t)(q, s); }));
  }
  Server sx(o.c_handler());
  Server sc(0, false);
  std::vector<Route> w = v;
  build_c(onion_root_url(sc.o), w);
  int n = 1 + (int)g.below(6);
  static const char *PATHS[] = {"/", "/a", "/ab", "/a/", "/b", "/b/", "/b/a", "/b/abc", "/x/12", "/x/12/", "/d/one.txt", "/d/two.html", "/d/", "/d/nope", "/c", "/ir", "/abc", "/b/x/7", "/a/a/a", "/zz"};
  std::unique_ptr<Client> x(new Client(sx)), y(new Client(sc));
  for (int i = 0; i < n; i++) {
    std::string p = g.pick(PATHS);
    if (g.chance(1, 4)) p = "/" + g.from("abcdx/1", g.below(6));
    c.d("%s ", p.c_str());
    bool head = g.chance(1, 8);
    std::string req = (head ? "HEAD " : "GET ") + p + " HTTP/1.1\r\nHost: h\r\n\r\n";
    if (!x->open || !y->open) { x.reset(new Client(sx)); y.reset(new Client(sc)); }
    x->c.out.clear();
    y->c.out.clear();
    x->deliver(req.data(), req.size());
    y->deliver(req.data(), req.size());
    std::string d = differ(x->c.out, x->open, y->c.out, y->open, head);
    if (!d.empty()) c.fail("%s: %s", p.c_str(), d.c_str());
  }
  x.reset();
  y.reset();
  if (g.chance(1, 4)) {                                      // listen points: given to a server, or dropped
    Onion::HttpListenPoint h1, h2;
    Onion::ListenPoint l0;
    Onion::Onion o2(O_ONE_LOOP | O_NO_SIGPIPE);
    o2.addListenPoint("localhost", "0", std::move(h1));
    if (g.coin()) o2.addListenPoint("localhost", "0", std::move(l0));
    if (g.coin()) { Onion::HttpListenPoint h3(std::move(h2)); }
    if (h1.c_handler()) c.fail("the listen point given away is still there");
    c.label("listen points");
  }
  c.nontrivial = n >= 2;
  c.label("routes");
}
// ---- the server object: what is set through it is what the C server gets
static int settings_root(onion_request *r, onion_response *res) {
  std::string p = oh::str(onion_request_get_path(r));
  if (p == "deny") return OCS_FORBIDDEN;
  if (p == "none") return OCS_NOT_PROCESSED;
  if (p == "session") {
    onion_dict *d = onion_request_get_session_dict(r);
    const char *v = onion_dict_get(d, "n");
    std::string n = fmt("%d", v ? atoi(v) + 1 : 1);
    onion_dict_add(d, "n", n.c_str(), OD_DUP_ALL | OD_REPLACE);
    onion_response_write0(res, n.c_str());
    return OCS_PROCESSED;
  }
  const char *v = onion_request_get_post(r, "v"), *f = onion_request_get_file(r, "f");
  onion_response_write0(res, fmt("%s v=%zu f=%zu", p.c_str(), v ? strlen(v) : 0, f ? oh::read_file(f).size() : 0).c_str());
  return OCS_PROCESSED;
}
static int settings_c(void *, onion_request *r, onion_response *res) { return settings_root(r, res); }
static int settings_err_c(void *, onion_request *r, onion_response *res) {
  onion_response_set_code(res, 418);
  onion_response_write0(res, fmt("own page, flags %x", onion_request_get_flags(r) & 0x0F000).c_str());
  return OCS_PROCESSED;
}
static onion_sessions *given_to_cpp;
static void settings_case(Gen &g, Ctx &c) {
  size_t post = g.pick({1024ul * 1024, 10ul, 64ul, 500ul}), file = g.pick({1024ul * 1024, 0ul, 10ul, 300ul});
  bool err = g.coin(), sess = g.chance(1, 3), limits = g.chance(3, 4), meanwhile = g.coin();
  c.d("post %zu file %zu err %d sessions %d limits %d: ", post, file, err, sess, limits);
  int flags = O_ONE_LOOP | O_NO_SIGPIPE;
  Onion::Onion o(flags);
  Server sc(0, false);
  if (o.flags() != onion_flags(sc.o)) c.fail("flags are %x, and %x through C", o.flags(), onion_flags(sc.o));
  Server sx(o.c_handler());
  auto root = [](Onion::Request &q, Onion::Response &s) -> onion_connection_status { return (onion_connection_status)settings_root(q.c_handler(), s.c_handler()); };
  if (meanwhile) o.setRootHandler(Onion::Handler::make<Onion::HandlerFunction>([](Onion::Request &, Onion::Response &) { return OCS_INTERNAL_ERROR; })), onion_handler_free(onion_get_root_handler(o.c_handler()));       // replaced below, which does not free it
  o.setRootHandler(Onion::Handler::make<Onion::HandlerFunction>(root));
  onion_set_root_handler(sc.o, onion_handler_new((onion_handler_handler)settings_c, NULL, NULL));
  if (err) {
    auto page = [](Onion::Request &q, Onion::Response &s) -> onion_connection_status { return (onion_connection_status)settings_err_c(NULL, q.c_handler(), s.c_handler()); };
    o.setInternalErrorHandler(Onion::Handler::make<Onion::HandlerFunction>(page));
    onion_set_internal_error_handler(sc.o, onion_handler_new((onion_handler_handler)settings_err_c, NULL, NULL));
  }
  if (limits) {
    o.setMaxPostSize(post); o.setMaxFileSize(file);
    onion_set_max_post_size(sc.o, post); onion_set_max_file_size(sc.o, file);
  }
  o.setTimeout(1000 + (int)g.below(9000));
  o.setMaxThreads(1 + (int)g.below(9));
  if (sess) o.setSessionBackend(given_to_cpp = onion_sessions_mem_new());
  std::unique_ptr<Client> x(new Client(sx)), y(new Client(sc));
  std::string cx, cy;
  int n = 1 + (int)g.below(6);
  for (int i = 0; i < n; i++) {
    std::string p = g.pick({"/a", "/deny", "/none", "/session", "/session", "/post", "/post", "/upload", "/upload"}), rest = "\r\n";
    bool isp = p == "/post" || p == "/upload";
    if (isp) {
      size_t k = g.len(600, {post > 2 ? post - 2 : 0, post > 3 ? post - 3 : 0, post, file, file + 1}), l = g.len(600, {file, file + 1});
      std::string body = p == "/post" ? "v=" + std::string(k, 'p') : "--B\r\nContent-Disposition: form-data; name=\"v\"\r\n\r\n" + std::string(g.below(30), 'v') + "\r\n--B\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\n\r\n" + std::string(l, 'f') + "\r\n--B--\r\n";
      rest = fmt("Content-Length: %zu\r\nContent-Type: %s\r\n\r\n", body.size(), p == "/post" ? "application/x-www-form-urlencoded" : "multipart/form-data; boundary=B") + body;
      c.d("%s(%zu,%zu) ", p.c_str(), k, l);
    } else c.d("%s ", p.c_str());
    auto req = [&](const std::string &ck) { return (isp ? "POST " : "GET ") + p + " HTTP/1.1\r\nHost: h\r\n" + (ck.empty() ? "" : "Cookie: sessionid=" + ck + "\r\n") + rest; };
    if (!x->open || !y->open) { x.reset(new Client(sx)); y.reset(new Client(sc)); }
    x->c.out.clear();
    y->c.out.clear();
    std::string qx = req(cx), qy = req(cy);
    x->deliver(qx.data(), qx.size());
    y->deliver(qy.data(), qy.size());
    auto cookie = [](std::string &out, std::string &ck) {
      size_t a = out.find("sessionid=");
      if (a == std::string::npos) return;
      a += 10;
      size_t e = out.find(';', a);
      ck = out.substr(a, e - a);
      out.replace(a, e - a, "ID");
    };
    cookie(x->c.out, cx);
    cookie(y->c.out, cy);
    std::string d = differ(x->c.out, x->open, y->c.out, y->open, false);
    if (!d.empty()) c.fail("%s on servers set up alike: %s", p.c_str(), d.c_str());
    if (sess && p == "/session" && !cx.empty()) {
      onion_dict *k = onion_sessions_get(given_to_cpp, cx.c_str());
      if (!k) c.fail("a session is not in the session store given");
      onion_dict_free(k);
    }
  }
  x.reset();
  y.reset();
  if (g.chance(1, 3)) {                                      // media types
    std::map<std::string, std::string> m;
    static const char *EXT[] = {"txt", "html", "xyz", "a", "tar.gz"};
    Onion::Dict d;
    for (const char *e : EXT) if (g.coin()) { m[e] = std::string("type/") + e; d.add(e, m[e]); }
    Onion::Mime::set(d);
    for (int i = 0; i < 6; i++) {
      std::string e = g.pick(EXT), t = fmt("t%d/x", i);
      switch (g.below(3)) {
      case 0: Onion::Mime::update(e, t); m[e] = t; break;
      case 1: Onion::Mime::remove(e); m.erase(e); break;
      default: break;
      }
      if (e == "tar.gz") continue;                           // an extension is what follows the last dot
      std::string got = Onion::Mime::get("some.file." + e), want = m.count(e) ? m[e] : "text/plain";
      if (got != want || got != oh::str(onion_mime_get(("some.file." + e).c_str()))) c.fail("media type of .%s is %s, not %s", e.c_str(), got.c_str(), want.c_str());
    }
    onion_mime_set(NULL);
    c.label("media types");
  }
  if (g.chance(1, 6)) {                                      // certificates
    std::string T = std::string(VERIF_DIR) + "/h/tls/";
    Onion::HttpsListenPoint h;
    onion_listen_point *lp = onion_https_new();
    bool good = g.coin();
    std::string cert = T + (good ? "rsa.pem" : "none.pem"), key = T + (g.chance(3, 4) ? "rsa.key" : "ec.key");
    int a = h.setCertificate(O_SSL_CERTIFICATE_KEY, cert.c_str(), key.c_str()), b = onion_https_set_certificate(lp, O_SSL_CERTIFICATE_KEY, cert.c_str(), key.c_str());
    onion_listen_point_free(lp);
    if (a != b) c.fail("a certificate gives %d, and %d through C", a, b);
    if (g.coin()) o.addListenPoint("localhost", "0", std::move(h));
    c.label("certificates");
  }
  c.nontrivial = n >= 2;
  c.label("settings");
}
// ---- a server listening where it was told
static void listen_case(Gen &g, Ctx &c) {
  std::string addr = net::own_addr();
  int port = net::free_port(addr), port2 = net::free_port(addr);
  bool two = g.coin() && port2 != port, text = g.coin();
  c.d("listen%s%s ", text ? " port as text" : "", two ? " two points" : "");
  {
    Onion::Onion o(O_POOL | O_DETACH_LISTEN | O_NO_SIGTERM);
    o.setMaxThreads(2);
    o.setTimeout(5000);
    o.setHostname(addr);
    if (text) o.setPort(fmt("%d", port)); else o.setPort(port);
    if (two) o.addListenPoint(addr, fmt("%d", port2), Onion::HttpListenPoint());
    Onion::Url u(o);
    u.add("", std::string("here"), 200);
    bool r = o.listen();
    if (r) { c.label("port taken meanwhile"); return; }
    for (int p : {port, two ? port2 : 0}) {
      if (!p) continue;
      int fd = net::dial(addr, p);
      if (fd < 0) c.fail("nobody listens at the %s port", p == port ? "first" : "second");
      std::string rest;
      net::send_all(fd, "GET / HTTP/1.1\r\nHost: x\r\n\r\n");
      net::Got q = net::read_reply(fd, rest, false);
      ::close(fd);
      if (!q.r.ok || q.r.body != "here") c.failk(q.timeout ? "time" : "", "the server answers \"%s\"", esc(q.raw).c_str());
    }
    o.listenStop();
    int fd = net::dial(addr, port);
    if (fd >= 0) { ::close(fd); c.fail("the server still listens after listenStop"); }
  }
  c.nontrivial = true;
  c.label("listening");
}
void pbt::property(Gen &g, Ctx &c) {
  if (g.chance(1, 300)) { listen_case(g, c); return; }
  switch (g.below(5)) {
  case 4: settings_case(g, c); break;
  case 0: dict_case(g, c); break;
  case 1: request_case(g, c); break;
  case 2: reply_case(g, c); break;
  default: route_case(g, c);
  }
}
