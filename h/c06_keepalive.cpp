// C06: requests on a reused connection are independent and answered in order.
#include "http.hpp"
extern "C" {
#include <onion/handlers/exportlocal.h>
}
using namespace hm;
pbt::Config pbt::config;
static std::string root;
void pbt::harness_init() {
  oh::quiet_log();
  pbt::drop_privileges();
  root = pbt::scratch() + "/files";
  mkdir(root.c_str(), 0777);
  oh::write_file(root + "/a.txt", "the file");
  oh::write_file(root + "/b.bin", std::string(5000, 'B'));
  config.rule = "a case is 2 to 6 different requests (forms, uploads, raw bodies, cookies, sessions, captures, redirects, files, HEAD, both versions) sent one after another on one connection in generated partitions; non-trivial when at least two were answered on the same connection";
  config.leak_check = true;
}
static void dump(onion_request *r, std::string &s) {
  Snap sn = snapshot(r);
  for (auto &f : sn.temp_names) (void)f;
  s += "path=" + esc(sn.path) + " " + sn.str();
  s += " a=" + oh::str(onion_request_get_cookie(r, "a")) + " b=" + oh::str(onion_request_get_cookie(r, "b"));
  s += fmt(" secure=%d ka=%d", onion_request_is_secure(r), onion_request_keep_alive(r));
}
static onion_connection_status echo(void *, onion_request *r, onion_response *res) {
  std::string s;
  dump(r, s);
  const char *m = onion_request_get_query(r, "how");
  if (m && *m == 'h') onion_response_write_headers(res);
  if (m && *m == 'l') onion_response_set_length(res, s.size());
  if (m && *m == 'x') onion_response_set_header(res, "X-Extra", s.substr(0, 5).c_str());
  if (m && *m == 'c') onion_response_add_cookie(res, "ck", "v", -1, "/", NULL, 0);
  if (m && *m == 'e') return OCS_INTERNAL_ERROR;
  if (m && *m == 'n') return OCS_NOT_PROCESSED;
  if (m && *m == 'd') return OCS_CLOSE_CONNECTION;
  if (m && *m == 'f') return OCS_FORBIDDEN;
  if (m && *m == 's') onion_response_set_code(res, 404);
  if (m && *m == 'k') onion_request_set_no_keep_alive(r);
  if (m && *m == '2') onion_response_set_code(res, 204);
  onion_response_write(res, s.data(), s.size());
  if (m && *m == 'b') onion_response_write(res, std::string(4000, 'b').data(), 4000);
  return OCS_PROCESSED;
}
static onion_connection_status redirect(void *, onion_request *r, onion_response *res) { return onion_shortcut_internal_redirect("echo", r, res); }
static onion_connection_status session(void *, onion_request *r, onion_response *res) {
  onion_dict *d = onion_request_get_session_dict(r);
  std::string had = oh::str(onion_dict_get(d, "v"));
  const char *q = onion_request_get_query(r, "v");
  if (q) onion_dict_add(d, "v", q, OD_DUP_ALL | OD_REPLACE);
  if (onion_request_get_query(r, "end")) onion_request_session_free(r);
  onion_response_write0(res, ("had " + had).c_str());
  return OCS_PROCESSED;
}
static void mount(Server &sv) {
  onion_url *u = onion_root_url(sv.o);
  onion_url_add(u, "echo", (void *)echo);
  onion_url_add(u, "^re/([a-z]*)/?([0-9]*)", (void *)echo);
  onion_url_add(u, "red", (void *)redirect);
  onion_url_add(u, "sess", (void *)session);
  onion_url_add_handler(u, "^f/", onion_handler_export_local_new(root.c_str()));
  onion_url_add_static(u, "static", "static", 200);
}
static std::string mask(std::string s) {
  s = no_date(s);
  for (size_t p = 0; (p = s.find("sessionid=", p)) != std::string::npos;) { p += 10; while (p < s.size() && isalnum((unsigned char)s[p])) s.erase(p, 1); }
  return s;
}
void pbt::property(Gen &g, Ctx &c) {
  int n = 2 + (int)g.below(5);
  std::vector<std::string> reqs;
  std::vector<bool> head;
  std::vector<std::vector<size_t>> cuts;
  for (int i = 0; i < n; i++) {
    GenOpts go;
    go.max_body = 500;
    go.connection = g.chance(1, 5) ? -1 : (int)g.below(2);
    Model m = gen_request(g, go);
    if (g.chance(9, 10)) {
      static const char *paths[] = {"/echo", "/echo?how=h", "/echo?how=l", "/echo?how=x", "/echo?how=c", "/echo?how=e", "/echo?how=n", "/echo?how=b", "/echo?how=s&z=1", "/echo?how=f", "/echo?how=2", "/echo?how=d", "/echo?how=k", "/re/abc/12", "/re/abc", "/re/abc/7?1=no&k=v", "/red?a=b", "/sess?v=1", "/sess", "/sess?end=1", "/f/a.txt", "/f/b.bin", "/f/none", "/f/", "/static", "/none"};
      size_t a = m.bytes.find(' '), b = m.bytes.find(' ', a + 1);
      m.bytes.replace(a + 1, b - a - 1, g.pick(paths));
    }
    size_t hl = m.bytes.find('\n') + 1;
    std::string add;
    if (g.chance(1, 3)) add += std::string("Cookie: ") + g.pick({"a=1", "b=2", "a=3; b=4", "sessionid=forged; a=5"}) + "\r\n";
    if (g.chance(1, 8)) add += "Range: bytes=1-3\r\n";
    m.bytes.insert(hl, add);
    reqs.push_back(m.bytes);
    head.push_back(m.method == "HEAD");
    cuts.push_back(gen_cuts(g, m.bytes.size()));
    c.d("[%s | %s] ", esc(m.bytes, 500).c_str(), cuts_str(cuts.back()).c_str());
  }
  // each alone on a fresh server and connection
  std::vector<std::string> alone;
  std::vector<bool> alone_open;
  auto feed = [&](Client &cl, int i, size_t before) {
    size_t b = 0;
    std::vector<size_t> cc = cuts[i];
    cc.push_back(reqs[i].size());
    for (size_t e : cc) {
      if (cl.c.out.size() > before) return false;       // answered before its end: not a case of ours
      if (e > b && !cl.deliver(reqs[i].data() + b, e - b)) return true;
      b = e;
    }
    return true;
  };
  std::vector<bool> early;
  for (int i = 0; i < n; i++) {
    Server sv(0, false);
    mount(sv);
    Client cl(sv);
    bool whole = feed(cl, i, 0);
    early.push_back(!whole);
    alone.push_back(mask(cl.c.out));
    alone_open.push_back(cl.open);
  }
  Server sv(0, false);
  mount(sv);
  bool sock = g.chance(1, 3);
  if (sock) c.label("over a socket");
  Client cl(sv, sock);
  int answered = 0;
  for (int i = 0; i < n; i++) {
    if (early[i]) break;
    size_t before = cl.c.out.size();
    feed(cl, i, before);
    std::string got = mask(cl.c.out.substr(before));
    if (got != alone[i]) {
      size_t k = 0;
      while (k < got.size() && k < alone[i].size() && got[k] == alone[i][k]) k++;
      c.fail("request %d is answered differently on a reused connection: \"%s\" instead of \"%s\"", i + 1, esc(got.substr(k > 20 ? k - 20 : 0), 200).c_str(), esc(alone[i].substr(k > 20 ? k - 20 : 0), 200).c_str());
    }
    if (cl.open != alone_open[i]) c.fail("request %d leaves the connection %s, alone %s", i + 1, cl.open ? "open" : "closed", alone_open[i] ? "open" : "closed");
    if (got.empty() && cl.open) break;                  // waiting for more: the next bytes would be its continuation
    if (!got.empty()) {
      answered++;
      oh::Reply r = oh::read_reply(cl.c.out.substr(before), head[i], !cl.open);
      if (!r.ok) c.fail("reply %d is broken: %s", i + 1, r.error.c_str());
      if (cl.open && (!r.complete || r.consumed != cl.c.out.size() - before)) c.fail("reply %d does not end where the client would look for the next one", i + 1);
      if (cl.open && reqs[i].find(" /echo?how=k ") != std::string::npos) c.fail("the handler asked for no keep alive and the connection is kept open");
      if (cl.open && !r.keep_alive()) c.fail("connection kept open after a reply that announces the close");
    }
    if (!cl.open) {
      size_t end = cl.c.out.size();
      if (cl.deliver(std::string("GET /static HTTP/1.1\r\n\r\n"), {}) || cl.c.out.size() != end) c.fail("answered after closing");
      break;
    }
  }
  c.nontrivial = answered >= 2;
  c.label(fmt("%d answered", answered));
}
