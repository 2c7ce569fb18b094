// C02: a well formed request reaches the handler as the client meant it.
#include "http.hpp"
extern "C" {
#include <onion/low.h>
}
using namespace hm;
pbt::Config pbt::config;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is one abstract request (method, path, query, headers, form/multipart/raw/PUT body), an encoding of it and a partition into reads; non-trivial when it carries a query, a body or an extra header";
  config.leak_check = true;
}
void pbt::property(Gen &g, Ctx &c) {
  GenOpts go;
  go.max_body = g.chance(1, 4) ? 9000 : 300;
  Model m = gen_request(g, go);
  size_t eol = m.bytes.find('\n') + 1, ver = m.bytes.rfind(" HTTP/1.", eol);
  std::string lang = "C";
  bool has = false;
  for (auto &h : m.headers) if (oh::ieq(h.first, "Accept-Language")) has = true;
  if (g.chance(1, 6) && !has) {  // what language it wants
    lang = g.pick({"en", "es", "pt", "x", "", "de"});
    std::string v = lang + g.pick({"", "-US", ";q=0.8", ",fr;q=0.5", "-br,pt;q=0.3"}), l = (g.coin() ? "Accept-Language: " : "accept-language:") + v + "\r\n";
    m.bytes.insert(eol, l);
    m.head_size += l.size();
    m.headers.push_back({"Accept-Language", v});
  }
  if (g.chance(1, 25) && ver != std::string::npos) {     // the old way, without a version
    m.bytes.erase(ver, 9);
    m.head_size -= 9;
    m.minor = 0;
    c.label("no version");
  }
  std::vector<size_t> cuts = gen_cuts(g, m.bytes.size(), m.head_size);
  c.d("%s | %s", esc(m.bytes, 3000).c_str(), cuts_str(cuts).c_str());
  static const char *kinds[] = {"nobody", "urlencoded", "multipart", "raw", "put"};
  c.label(kinds[m.kind]);
  c.nontrivial = !m.query.empty() || m.kind != NOBODY || m.headers.size() > 2;
  Server sv;
  Snap snap;
  std::string extra;
  int calls = 0;
  sv.handler = [&](onion_request *r, onion_response *res) -> int {
    calls++;
    snap = snapshot(r);
    // the accessors agree with the dictionaries
    for (auto &h : m.headers) {
      const char *v = onion_request_get_header(r, g.coin() ? h.first.c_str() : oh::lower(h.first).c_str());
      bool found = false;
      for (auto &k : m.headers) if (oh::ieq(k.first, h.first) && v && k.second == v) found = true;
      if (!found) extra = "header " + h.first + " reads as " + oh::str(v);
    }
    for (auto &q : m.query) {
      const char *v = onion_request_get_query(r, q.first.c_str());
      bool found = false;
      for (auto &k : m.query) if (k.first == q.first && v && k.second == v) found = true;
      if (!found) extra = "query " + esc(q.first) + " reads as " + oh::str(v);
    }
    if (onion_request_get_queryd(r, "no such key", "dflt") != std::string("dflt")) { bool has = false; for (auto &q : m.query) if (q.first == "no such key") has = true; if (!has) extra = "default query value not used"; }
    for (auto &q : m.form) {
      const char *v = onion_request_get_post(r, q.first.c_str());
      bool found = false;
      for (auto &k : m.form) if (k.first == q.first && v && k.second == v) found = true;
      if (!found) extra = "post " + esc(q.first) + " reads as " + oh::str(v);
    }
    for (auto &q : m.cookies) {
      const char *v = onion_request_get_cookie(r, q.first.c_str());
      bool found = false;
      for (auto &k : m.cookies) if (k.first == q.first && v && k.second == v) found = true;
      if (!found) extra = "cookie " + esc(q.first) + " reads as " + oh::str(v);
    }
    const char *lc = onion_request_get_language_code(r);
    if (!has && lang != lc) extra = "language " + lang + " reads as " + oh::str(lc);
    onion_low_free((void *)lc);
    onion_response_write0(res, "ok");
    return OCS_PROCESSED;
  };
  Client cl(sv, g.chance(1, 3));
  size_t b = 0;
  cuts.push_back(m.bytes.size());
  for (size_t e : cuts) {
    if (calls && e < m.bytes.size()) break;
    if (calls) break;
    if (!cl.deliver(m.bytes.data() + b, e - b)) break;
    b = e;
  }
  if (!calls) c.fail("the request never reached the handler (%s)", cl.open ? "still waiting" : "connection closed");
  std::string d = check_against(m, snap);
  if (!d.empty()) c.fail("%s", d.c_str());
  if (!extra.empty()) c.fail("%s", extra.c_str());
}
