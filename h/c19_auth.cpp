// C19: protected content is reached only with credentials the authenticator accepted.
#include "http.hpp"
#include "fakepam.hpp"
extern "C" {
#include <onion/handlers/auth_pam.h>
}
using namespace hm;
pbt::Config pbt::config;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is a table of users (empty, long, with colons, UTF-8, locked accounts), a realm and a service name, and a history of 2 to 16 requests by up to three clients on reused or fresh connections, to protected and public paths, with right, wrong, near-miss, damaged, truncated, re-padded and missing Authorization headers and with their own, stale, forged or no session cookie, with logouts; non-trivial when at least one request was let in and one was refused";
  config.leak_check = true;
}
static std::string b64(const std::string &d) {
  static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for (size_t i = 0; i < d.size(); i += 3) {
    uint32_t v = 0;
    int n = 0;
    for (int j = 0; j < 3; j++) { v <<= 8; if (i + j < d.size()) { v |= (uint8_t)d[i + j]; n++; } }
    for (int j = 0; j < 4; j++) r += j <= n ? A[(v >> (18 - 6 * j)) & 63] : '=';
  }
  return r;
}
static int ran, logout_now;
static std::string saw_user;
static int inside(void *, onion_request *r, onion_response *res) {
  ran++;
  saw_user = oh::str(onion_request_get_session(r, "username"));
  if (oh::str(onion_request_get_session(r, "pam_logged_in")) != saw_user) saw_user = "<not the one logged in>";
  if (logout_now) onion_request_session_free(r);
  onion_response_write0(res, "SECRET");
  return OCS_PROCESSED;
}
static int pub(void *, onion_request *r, onion_response *res) {
  onion_request_get_session_dict(r);                // sessions without a login exist too
  onion_response_write0(res, "public");
  return OCS_PROCESSED;
}
void pbt::property(Gen &g, Ctx &c) {
  fakepam::st = fakepam::State();
  auto &P = fakepam::st;
  static const char *NAMES[] = {"root", "ana", "", "a", "\xc3\xb1u", "user name", "al", "anna"};
  std::vector<std::string> us;
  int nu = 1 + (int)g.below(4);
  for (int i = 0; i < nu; i++) {
    std::string u = g.pick(NAMES), p;
    if (g.chance(1, 12)) u = g.from("abc", 200 + g.below(700));
    switch (g.below(5)) {
    case 0: p = ""; break;
    case 1: p = "pw"; break;
    case 2: p = g.from("ab:=/+ \xff\xc3", g.len(40)); break;
    case 3: p = ":" + g.from("a:", g.below(4)); break;
    default: p = g.from("xyz123", 1 + g.len(300)); break;
    }
    if (P.users.insert({u, p}).second) us.push_back(u);
    else P.users[u] = p;
    if (g.chance(1, 8)) P.locked.insert(u);
    c.d("%s/%s%s ", esc(u, 20).c_str(), esc(p, 20).c_str(), P.locked.count(u) ? " locked" : "");
  }
  std::string realm = g.coin() ? "Onion" : g.from("Re al-m9.", g.len(200, {1, 64})), service = g.coin() ? "login" : "svc";
  P.service = service;
  Server s(0, false);
  onion_url *u = onion_root_url(s.o);
  onion_url_add_handler(u, "^priv/", onion_handler_auth_pam(realm.c_str(), service.c_str(), onion_handler_new((onion_handler_handler)inside, NULL, NULL)));
  onion_url_add_handler(u, "^pub", onion_handler_new((onion_handler_handler)pub, NULL, NULL));
  int nc = 1 + (int)g.below(3), n = 2 + (int)g.below(15);
  std::vector<std::unique_ptr<Client>> conn(nc);
  std::vector<std::string> jar(nc);
  std::map<std::string, std::string> logged;        // session id -> user
  std::set<std::string> dead;
  int in = 0, refused = 0;
  for (int i = 0; i < n; i++) {
    int k = (int)g.below(nc);
    if (!conn[k] || !conn[k]->open || g.coin()) conn[k].reset(new Client(s));
    Client &cl = *conn[k];
    bool priv = !g.chance(1, 6);
    // ---- credentials
    std::string user, pass, hdr;
    bool has = false, exact = false, near = false;
    switch (g.weighted({5, 4, 4, 3})) {
    case 0: user = g.pick(us); pass = P.users[user]; has = exact = true; break;
    case 1: {                                       // near misses
      user = g.pick(us); pass = P.users[user]; has = exact = true;
      switch (g.below(6)) {
      case 0: pass += g.from("a: ", 1); break;
      case 1: if (pass.size()) pass.pop_back(); else user += "x"; break;
      case 2: user += g.from("a ", 1); break;
      case 3: if (user.size()) user.pop_back(); else pass += "x"; break;
      case 4: std::swap(user, pass); break;
      case 5: pass = P.users[g.pick(us)]; break;
      }
      if (user.find(':') != std::string::npos) user = "nobody";
      break;
    }
    case 2: {                                       // damaged
      user = g.pick(us); pass = P.users[user];
      has = near = true;
      break;
    }
    default: break;
    }
    std::string plain = user + ":" + pass;
    if (has && exact) hdr = "Basic " + b64(plain);
    if (has && near) {
      std::string e = b64(plain);
      switch (g.below(11)) {
      case 0: e.resize(g.below(e.size() + 1)); break;
      case 1: e.insert(g.below(e.size() + 1), g.from("!*-_ \t", 1)); break;
      case 2: e = b64(user); break;                 // no colon
      case 3: e = b64(user + ":" + pass + std::string("\0x", 2)); break;
      case 4: e = b64(user + std::string("\0x", 2) + ":" + pass); break;
      case 5: e = ""; break;
      case 6: e = plain; break;
      case 7: while (e.size() && e.back() == '=') e.pop_back(); break;
      case 8: e += g.coin() ? "====" : b64(":x"); break;
      case 9: { size_t p = g.below(e.size()); e[p] = g.from("ABab09+/=", 1)[0]; break; }
      case 10: e = b64(g.coin() ? ":" : ""); break;
      }
      static const char *SCH[] = {"Basic ", "Basic ", "Basic ", "Basic  ", "Digest ", "Bearer ", "Basic", "", "Negotiate Basic "};
      hdr = g.pick(SCH) + e;
    }
    // ---- session
    std::string cookie;
    int how = (int)g.weighted({6, 3, 1, 1, 1});
    if (how == 0) cookie = jar[k];
    if (how == 2) cookie = jar[g.below(nc)];
    if (how == 3 && !dead.empty()) { auto it = dead.begin(); std::advance(it, g.below(dead.size())); cookie = *it; }
    if (how == 4) cookie = g.coin() ? std::string("forged") : jar[k].empty() ? "x" : jar[k].substr(1);
    logout_now = g.chance(1, 10);
    ran = 0;
    saw_user = "";
    P.tries.clear();
    P.fail_start = g.chance(1, 20);
    std::string req = std::string(g.chance(1, 8) ? "POST" : "GET") + (priv ? " /priv/x" : " /pub") + " HTTP/1.1\r\nHost: h\r\n";
    if (req[0] == 'P') req += "Content-Length: 0\r\n";
    if (!hdr.empty()) req += "Authorization: " + hdr + "\r\n";
    if (!cookie.empty()) req += "Cookie: sessionid=" + cookie + "\r\n";
    req += "\r\n";
    c.d("| %d%s %s cookie=%s%s%s ", k, priv ? "" : " public", esc(hdr, 40).c_str(), cookie.empty() ? "no" : logged.count(cookie) ? "in" : "out", logout_now ? " logout" : "", P.fail_start ? " pamdown" : "");
    size_t o0 = cl.c.out.size();
    cl.deliver(req.data(), req.size());
    oh::Reply rep = oh::read_reply(cl.c.out.substr(o0), false, !cl.open);
    if (!rep.error.empty() || !rep.complete) c.fail("request %d: reply %s", i, rep.error.c_str());
    if (P.open) c.fail("request %d: a PAM transaction was left open", i);
    std::string newid;
    if (auto sc = rep.get("Set-Cookie")) { size_t p = sc->find("sessionid="); if (p != std::string::npos) newid = sc->substr(p + 10, sc->find(';') - p - 10); }
    bool by_session = logged.count(cookie);
    bool by_creds = exact && !P.fail_start && P.users.count(user) && P.users[user] == pass && !P.locked.count(user);
    if (!priv) {
      if (ran) c.fail("request %d: the public path ran the protected handler", i);
      if (rep.code != 200 || rep.body != "public") c.fail("request %d: public content refused (%d)", i, rep.code);
      if (!newid.empty()) jar[k] = newid;
      continue;
    }
    for (auto &t : P.tries) {
      if (t.service != service) c.fail("request %d: PAM asked with service %s", i, esc(t.service).c_str());
      if (exact && (t.user != user || t.password != pass)) c.fail("request %d: PAM asked about %s/%s, the client sent %s/%s", i, esc(t.user).c_str(), esc(t.password).c_str(), esc(user).c_str(), esc(pass).c_str());
    }
    bool let = ran > 0;
    if (ran > 1) c.fail("request %d: the protected handler ran %d times", i, ran);
    if (let) {
      if (rep.code != 200 || rep.body != "SECRET") c.fail("request %d: let in but answered %d", i, rep.code);
      bool ok = by_session || by_creds;
      if (!ok && near) {                            // damaged encodings may be read leniently, but only as what they say
        std::string e = hdr.size() > 6 ? hdr.substr(6) : "", clean;
        for (char ch : e) if (isalnum((unsigned char)ch) || ch == '+' || ch == '/') clean += ch;
        while (clean.size() % 4) clean += '=';
        std::string acc = b64(user + ":" + pass);
        std::string a2 = acc, c2 = clean;
        while (a2.size() && a2.back() == '=') a2.pop_back();
        while (c2.size() && c2.back() == '=') c2.pop_back();
        // same bytes, whatever the padding or the unused bits of the last digit
        bool same = c2.size() == a2.size() && (c2 == a2 || (a2.size() % 4 && c2.substr(0, c2.size() - 1) == a2.substr(0, a2.size() - 1)));
        bool ptried = false;
        for (auto &t : P.tries) if (P.users.count(t.user) && P.users[t.user] == t.password && !P.locked.count(t.user)) ptried = true;
        if (hdr.compare(0, 6, "Basic ") == 0 && ptried && !P.fail_start) {
          if (same) ok = true;
          else if (P.users.count("") && P.users[""] == "" && clean.size() && c2 == "Og") ok = true;
          else for (auto &x : P.users) { std::string z = b64(x.first + ":" + x.second); while (z.size() && z.back() == '=') z.pop_back(); if (z == c2 || (z.size() % 4 && z.size() == c2.size() && c2.substr(0, c2.size() - 1) == z.substr(0, z.size() - 1))) ok = true; }
        }
      }
      if (!ok) c.fail("request %d: protected content reached with Authorization '%s' and %s", i, esc(hdr).c_str(), cookie.empty() ? "no session" : "a session that is not logged in");
      std::string who = by_session ? logged[cookie] : user;
      if ((by_session || by_creds) && saw_user != who) c.fail("request %d: the session names %s, the login was by %s", i, esc(saw_user).c_str(), esc(who).c_str());
      std::string sid = by_session ? cookie : newid.empty() ? cookie : newid;
      if (!by_session && newid.empty() && cookie.empty() && !logout_now) c.fail("request %d: logged in without getting a session", i);
      if (!newid.empty()) jar[k] = newid;
      if (logout_now) { logged.erase(sid); if (!sid.empty()) dead.insert(sid); jar[k] = ""; }
      else { logged[sid] = saw_user; }
      in++;
    } else {
      if (by_session || by_creds) c.fail("request %d: refused (%d) although %s", i, rep.code, by_session ? "its session is logged in" : "the credentials are right");
      if (rep.code != 401) c.fail("request %d: refused with %d", i, rep.code);
      auto ch = rep.get("WWW-Authenticate");
      if (!ch || *ch != "Basic realm=\"" + realm + "\"") c.fail("request %d: challenge is %s", i, ch ? esc(*ch).c_str() : "missing");
      if (rep.body.find("SECRET") != std::string::npos) c.fail("request %d: refused but got the content", i);
      if (!newid.empty()) jar[k] = newid;
      refused++;
    }
  }
  if (in && refused) c.nontrivial = true;
  c.label(in ? refused ? "mixed" : "all let in" : "all refused");
}
