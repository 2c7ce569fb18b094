// C20: every cookie the application sets reaches the client exactly as set.
#include "http.hpp"
#include <time.h>
using namespace hm;
pbt::Config pbt::config;
static bool vclock;
static time_t now_v;
extern "C" time_t __real_time(time_t *);
extern "C" time_t __wrap_time(time_t *p) { if (!vclock) return __real_time(p); if (p) *p = now_v; return now_v; }
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is a reply on which 1 to 8 cookies are set (empty, ordinary, long around the 4096 byte limit, with line breaks; any combination of expiry at a virtual clock, path, domain and flags; repeated names), possibly with other headers, a session and a HEAD request; non-trivial when at least two attributes were used or a cookie was refused";
  config.leak_check = true;
}
struct Cookie { std::string name, value, path, domain; bool haspath, hasdomain; long validity; int flags; bool accepted; };
static std::string str(const Cookie &k) { return esc(k.name, 20) + "=" + esc(k.value, 30) + fmt("(%zu) validity %ld path %s domain %s flags %d", k.value.size(), k.validity, k.haspath ? esc(k.path, 30).c_str() : "none", k.hasdomain ? esc(k.domain, 30).c_str() : "none", k.flags); }
// "" or what differs between the line sent and the cookie meant
static std::string judge(const std::string &l, const Cookie &k) {
  std::string nv = k.name + "=" + k.value;
  if (l.compare(0, nv.size(), nv) != 0 || (l.size() > nv.size() && l.compare(nv.size(), 2, "; ") != 0)) return "name and value differ";
  std::string rest = l.substr(nv.size());
  // the path and domain may hold anything but a line break: cut them out first
  auto cut = [&](const std::string &s) { size_t p = rest.find(s); while (p != std::string::npos && p + s.size() != rest.size() && rest.compare(p + s.size(), 2, "; ") != 0) p = rest.find(s, p + 1); if (p == std::string::npos) return false; rest.erase(p, s.size()); return true; };
  if (k.haspath && !cut("; path=" + k.path)) return "path is missing or differs";
  if (k.hasdomain && !cut("; domain=" + k.domain)) return "domain is missing or differs";
  if ((k.flags & OC_HTTP_ONLY) && !cut("; HttpOnly")) return "HttpOnly is missing";
  if ((k.flags & OC_SECURE) && !cut("; Secure")) return "Secure is missing";
  int ss = k.flags & (OC_SAMESITE_NONE | OC_SAMESITE_LAX | OC_SAMESITE_STRICT);
  if (ss == OC_SAMESITE_NONE && !cut("; SameSite=None")) return "SameSite=None is missing";
  if (ss == OC_SAMESITE_LAX && !cut("; SameSite=Lax")) return "SameSite=Lax is missing";
  if (ss == OC_SAMESITE_STRICT && !cut("; SameSite=Strict")) return "SameSite=Strict is missing";
  if (k.validity >= 0) {
    if (rest.compare(0, 10, "; expires=") != 0) return "expires is missing";
    size_t e = rest.find(';', 10);
    std::string d = rest.substr(10, (e == std::string::npos ? rest.size() : e) - 10);
    rest.erase(0, 10 + d.size());
    struct tm tm;
    memset(&tm, 0, sizeof tm);
    const char *end = strptime(d.c_str(), "%a, %d %b %Y %H:%M:%S ", &tm);
    if (!end || (strcmp(end, "GMT") && strcmp(end, "UTC"))) return "expiry date " + d + " cannot be read";
    int wd = tm.tm_wday;
    time_t t = timegm(&tm);
    if (tm.tm_wday != wd) return "expiry date " + d + " has the wrong day of the week";
    if (k.validity == 0 ? t > now_v : t != now_v + k.validity) return "expiry date " + d + fmt(" is not %ld s after %ld", k.validity, (long)now_v);
  }
  if (!rest.empty()) return "extra attributes: " + esc(rest, 60);
  return "";
}
void pbt::property(Gen &g, Ctx &c) {
  vclock = true;
  now_v = g.coin() ? 1700000000 + (time_t)g.below(400000000) : 1 + (time_t)g.below(2000000000u);
  std::vector<Cookie> ks;
  int n = 1 + (int)g.below(8);
  static const long V[] = {-1, 0, 1, 60, 3600, 86400, 31536000, 1000000000};
  static const char *NAMES[] = {"a", "id", "lang", "X-Y", "sessionid2", "a", "n_1"};
  for (int i = 0; i < n; i++) {
    Cookie k;
    k.name = g.pick(NAMES);
    k.value = g.from("abcXYZ019-_.%=\"+/ ,", g.len(60));
    k.validity = g.coin() ? g.pick(V) : (long)g.range(-1, 2000000000);
    if (g.chance(1, 20)) k.validity = (long)1 << 61;                     // no date can tell it
    k.haspath = g.coin();
    k.hasdomain = g.coin();
    if (k.haspath) k.path = "/" + g.from("abc/-", g.below(12));
    if (k.hasdomain) k.domain = g.from("abc.", g.below(12)) + ".example.com";
    static const int SS[] = {0, OC_SAMESITE_NONE, OC_SAMESITE_LAX, OC_SAMESITE_STRICT};
    k.flags = (g.coin() ? OC_HTTP_ONLY : 0) | (g.coin() ? OC_SECURE : 0) | g.pick(SS);
    if (g.chance(1, 5)) {                           // long
      size_t L = g.len(9000, {4096, 4095, 4094, 4090, 4080, 4050, 4000, 4097, 4100, 4350, 4352, 8192});
      std::string filler = g.from("qrst", L);
      switch (g.below(4)) { case 0: k.value = filler; break; case 1: k.name = filler; break; case 2: k.path = filler; k.haspath = true; break; default: k.domain = filler; k.hasdomain = true; }
      if (k.name.empty()) k.name = "e";
    }
    if (g.chance(1, 8)) {                           // line breaks
      static const char *BR[] = {"\r\n", "\n", "\r", "\r\nX-Evil: 1", "\n\nbody", "\r\n\r\n<script>"};
      std::string b = g.pick(BR);
      std::string *f = &k.value;
      switch (g.below(4)) { case 0: f = &k.value; break; case 1: f = &k.name; break; case 2: f = &k.path; k.haspath = true; break; default: f = &k.domain; k.hasdomain = true; }
      f->insert(g.below(f->size() + 1), b);
    }
    ks.push_back(k);
    c.d("%s; ", str(k).c_str());
  }
  bool session = g.chance(1, 6), head = g.chance(1, 6), others = g.coin();
  std::string err;
  bool fancy = false;
  Server s;
  s.handler = [&](onion_request *r, onion_response *res) -> int {
    if (others) { onion_response_set_header(res, "X-One", "1"); onion_response_set_header(res, "Zeta", "z"); }
    if (session) onion_dict_add(onion_request_get_session_dict(r), "k", "v", OD_DUP_ALL);
    for (auto &k : ks) {
      k.accepted = onion_response_add_cookie(res, k.name.c_str(), k.value.c_str(), k.validity, k.haspath ? k.path.c_str() : NULL, k.hasdomain ? k.domain.c_str() : NULL, k.flags);
      std::string all = k.name + k.value + k.path + k.domain;
      bool brk = all.find_first_of("\r\n") != std::string::npos;
      size_t line = all.size() + 1 + (k.validity >= 0 ? 39 : 0) + (k.haspath ? 7 : 0) + (k.hasdomain ? 9 : 0) + 60;   // upper bound
      bool far = k.validity > 8000000000000L;
      if (k.accepted && brk) err = "a cookie with a line break was accepted: " + str(k);
      if (k.accepted && all.size() > 4096) err = "a cookie of more than 4096 bytes was accepted: " + str(k);
      if (k.accepted && far) err = "an expiry that no date can tell was accepted: " + str(k);
      if (!k.accepted && !brk && !far && line < 4096) err = "a fitting cookie was refused: " + str(k);
      if (!k.accepted || k.haspath + k.hasdomain + (k.validity >= 0) + (k.flags != 0) > 1) fancy = true;
    }
    onion_response_write0(res, "body");
    return OCS_PROCESSED;
  };
  Client cl(s);
  std::string req = std::string(head ? "HEAD" : "GET") + " / HTTP/1.1\r\nHost: h\r\n\r\n";
  cl.deliver(req.data(), req.size());
  if (!err.empty()) c.fail("%s", err.c_str());
  oh::Reply rep = oh::read_reply(cl.c.out, head, !cl.open);
  if (!rep.error.empty() || !rep.complete) c.fail("reply: %s in %s", rep.error.c_str(), esc(cl.c.out).c_str());
  if (rep.code != 200 || (!head && rep.body != "body") || rep.consumed != cl.c.out.size()) c.fail("the cookies disturbed the reply: %s", esc(cl.c.out).c_str());
  std::vector<std::string> lines;
  bool sess = false;
  for (auto &h : rep.headers) {
    if (oh::ieq(h.name, "Set-Cookie")) {
      if (session && h.value.compare(0, 10, "sessionid=") == 0) {
        if (sess) c.fail("two session cookies");
        sess = true;
        std::string id = h.value.substr(10, h.value.find(';') - 10);
        if (id.size() < 8 || h.value.find("; Path=/") == std::string::npos || oh::lower(h.value).find("; httponly") == std::string::npos) c.fail("session cookie %s", esc(h.value).c_str());
        continue;
      }
      lines.push_back(h.value);
    } else if (oh::ieq(h.name, "X-Evil")) c.fail("a cookie added a header");
  }
  if (session != sess) c.fail("session cookie is %s", sess ? "sent without a session" : "missing");
  if (others && (rep.count("X-One") != 1 || rep.count("Zeta") != 1)) c.fail("other headers are disturbed");
  // one line per accepted cookie
  std::vector<bool> used(lines.size());
  size_t acc = 0;
  for (auto &k : ks) {
    if (!k.accepted) continue;
    acc++;
    std::string why = "no line";
    bool ok = false;
    for (size_t i = 0; i < lines.size() && !ok; i++) {
      if (used[i]) continue;
      std::string w = judge(lines[i], k);
      if (w.empty()) used[i] = true, ok = true;
      else if (w != "name and value differ") why = w + ": " + esc(lines[i], 160);
    }
    if (!ok) c.fail("cookie %s: %s", str(k).c_str(), why.c_str());
  }
  if (acc != lines.size()) c.fail("%zu Set-Cookie lines for %zu accepted cookies", lines.size(), acc);
  // of cookies with the same name the client keeps the last one: their order counts
  std::map<std::string, std::vector<std::string>> order;
  for (auto &l : lines) order[l.substr(0, l.find('='))].push_back(l);
  std::map<std::string, size_t> nth;
  for (auto &k : ks) if (k.accepted && k.name.find('=') == std::string::npos) {
    auto &v = order[k.name];
    size_t i = nth[k.name]++;
    if (i >= v.size() || !judge(v[i], k).empty()) c.fail("cookies named %s are not sent in the order they were set", esc(k.name).c_str());
  }
  if (acc != ks.size()) c.label("refused");
  if (session) c.label("session");
  c.nontrivial = fancy;
  vclock = false;
}
