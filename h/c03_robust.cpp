// C03: no byte stream crashes, hangs, corrupts or leaks the server.
#include "http.hpp"
#include "fakepam.hpp"
#include "tmpwatch.hpp"
extern "C" {
#include <onion/handlers/auth_pam.h>
#include <onion/handlers/exportlocal.h>
#include <onion/handlers/internal_status.h>
#include <onion/handlers/path.h>
#include <onion/handlers/static.h>
#include <onion/handlers/webdav.h>
}
using namespace hm;
pbt::Config pbt::config;
static std::string root;
static int devnull;
void pbt::harness_init() {
  oh::quiet_log();
  pbt::drop_privileges();
  root = pbt::scratch() + "/share";
  config.rule = "a case is a byte stream on one connection (1-4 requests to the library's own handlers, websocket frames, then edits, cuts and truncation) followed by a plain request on a new connection; non-trivial when the stream made a handler run or was refused after its first line";
  config.leak_check = true;
  config.cpu_limit_s = 10;
  devnull = open("/dev/null", O_RDWR);
  fakepam::st.users = {{"user", "pass"}, {"", ""}};
  fakepam::st.record = false;
}
static void reset_tree() {
  oh::rm_rf(root);
  mkdir(root.c_str(), 0777);
  mkdir((root + "/sub").c_str(), 0777);
  oh::write_file(root + "/a.txt", "hello world, this is a file");
  oh::write_file(root + "/empty", "");
  oh::write_file(root + "/sub/big.bin", std::string(20000, 'B'));
  oh::write_file(root + "/sub/it's <b>.html", "<b>");
}
static int calls;
static onion_connection_status ws_cb(void *, onion_websocket *ws, ssize_t len) {
  calls++;
  if (len < 0) return OCS_NEED_MORE_DATA;
  char buf[256];
  int n = onion_websocket_read(ws, buf, len > 256 ? 256 : len);
  if (n <= 0) { return n < 0 ? OCS_CLOSE_CONNECTION : OCS_NEED_MORE_DATA; }
  onion_websocket_write(ws, buf, n);
  if (n == 3) onion_websocket_printf(ws, "%s-%.*s", "got", n, buf);
  return OCS_NEED_MORE_DATA;
}
static onion_connection_status ws_handler(void *, onion_request *r, onion_response *res) {
  calls++;
  onion_websocket *ws = onion_websocket_new(r, res);
  if (!ws) { onion_response_write0(res, "not a websocket"); return OCS_PROCESSED; }
  onion_websocket_set_callback(ws, ws_cb);
  return OCS_WEBSOCKET;
}
static onion_connection_status all_handler(void *, onion_request *r, onion_response *res) {
  calls++;
  Snap s = snapshot(r);
  onion_dict *ck = onion_request_get_cookies_dict(r);
  std::string cs = oh::str(onion_request_get_cookie(r, "a"));
  onion_block *j = onion_dict_to_json(ck);
  const char *lang = onion_request_get_language_code(r);
  onion_response_set_header(res, "X-Lang", "x");
  onion_response_write_html_safe(res, s.str().c_str());
  onion_response_printf(res, "%s %s", cs.c_str(), onion_block_data(j));
  onion_block_free(j);
  onion_low_free((void *)lang);
  return OCS_PROCESSED;
}
static onion_connection_status sess_handler(void *, onion_request *r, onion_response *res) {
  calls++;
  onion_dict *d = onion_request_get_session_dict(r);
  const char *q = onion_request_get_query(r, "v");
  if (q) onion_dict_add(d, "v", q, OD_DUP_ALL | OD_REPLACE);
  if (onion_request_get_query(r, "end")) onion_request_session_free(r);
  else onion_response_printf(res, "v=%s", oh::str(onion_dict_get(d, "v")).c_str());
  onion_response_add_cookie(res, "c", q ? q : "none", 10, "/", NULL, OC_SECURE);
  return OCS_PROCESSED;
}
static onion_connection_status re_handler(void *, onion_request *r, onion_response *res) {
  calls++;
  onion_response_printf(res, "1=%s 2=%s", oh::str(onion_request_get_query(r, "1")).c_str(), oh::str(onion_request_get_query(r, "2")).c_str());
  return OCS_PROCESSED;
}
static onion_connection_status json_handler(void *, onion_request *r, onion_response *res) {
  calls++;
  const onion_block *b = onion_request_get_data(r);
  onion_dict *d = b ? onion_dict_from_json(onion_block_data(b)) : NULL;
  if (!d) return OCS_INTERNAL_ERROR;
  return onion_shortcut_response_json(d, r, res);
}
static std::string frame(Gen &g) {
  std::string f;
  int op = g.pick({1, 2, 9, 9, 8, 10, 0, 5});
  f += (char)((g.chance(4, 5) ? 0x80 : 0) | op);
  bool mask = g.chance(5, 6);
  size_t n = g.len(op >= 8 ? 130 : 3000, {125, 126, 127, 1024});
  size_t claim = g.chance(1, 8) ? g.pick({0ul, 1ul, 65535ul, 65536ul, 1ul << 31, (1ul << 40), (1ul << 63), ~0ul}) : n;
  char m = mask ? (char)0x80 : 0;
  if (claim < 126 && !g.chance(1, 10)) f += (char)(m | claim);
  else if (claim < 65536 && !g.chance(1, 10)) { f += (char)(m | 126); f += (char)(claim >> 8); f += (char)claim; }
  else { f += (char)(m | 127); for (int i = 7; i >= 0; i--) f += (char)(claim >> (8 * i)); }
  if (mask) f += g.raw(4);
  f += g.raw(n);
  return f;
}
static std::string target_path(Gen &g) {
  static const char *mounts[] = {"/all", "/re/abc/12", "/re/x", "/exp/", "/exp", "/dav/", "/dav", "/auth/in", "/status", "/static", "/sess", "/json", "/ws", "/", "", "/nope", "/path/x"};
  std::string p = g.pick(mounts);
  if (g.chance(1, 2)) {
    static const char *tails[] = {"a.txt", "sub", "sub/", "sub/big.bin", "empty", "../x", "%2e%2e/%2e%2e/etc/passwd", "sub/it's%20%3Cb%3E.html", "new", "new/dir", "?v=1", "?v=%3c&end=1", "?1=2", "/", "//", ".", "..", "x"};
    p += g.pick(tails);
  }
  if (g.chance(1, 30)) p += std::string(g.len(9000), 'a');
  if (g.chance(1, 30)) { size_t n = g.pick({4096, 8192}) - 2 + g.below(5); if (p.size() < n) p.resize(n, 'a'); }   // around the size of internal buffers
  return p;
}
void pbt::property(Gen &g, Ctx &c) {
  reset_tree();
  calls = 0;
  tmpwatch::names.clear();
  std::string stream;
  int n = 1 + g.below(3);
  bool ws = false;
  for (int i = 0; i < n; i++) {
    std::string p = target_path(g);
    if (g.chance(1, 3)) {
      GenOpts go;
      go.max_body = 600;
      go.connection = g.below(8) ? 0 : -1;
      Model m = gen_request(g, go);
      size_t a = m.bytes.find(' '), b = m.bytes.find(' ', a + 1);
      if (g.chance(3, 4)) m.bytes.replace(a + 1, b - a - 1, p);
      stream += m.bytes;
    } else {
      static const char *methods[] = {"GET", "GET", "GET", "POST", "HEAD", "PUT", "PROPFIND", "PROPPATCH", "DELETE", "MOVE", "MKCOL", "OPTIONS", "PATCH"};
      std::string body;
      std::string meth = g.pick(methods);
      if (g.chance(1, 60)) meth.resize(g.pick({1024, 4096, 8192}) - 2 + g.below(5), 'M');
      std::string h = meth + " " + p + (g.chance(1, 20) ? "\n" : " HTTP/1.1\r\n");
      size_t k = g.len(8);
      for (size_t q = 0; q < k; q++) {
        switch (g.below(14)) {
        case 0: h += "Range: " + std::string(g.pick({"bytes=0-5", "bytes=5-", "bytes=-5", "bytes=100-200", "bytes=3-1", "bytes=", "bytes=-", "bytes=0-99999999999999999999", "x", "bytes=1-2,4-5"})) + (g.chance(1, 10) ? std::string(g.len(200), '1') : "") + "\r\n"; break;
        case 1: h += "Cookie: " + std::string(g.pick({"a=b", "a=b; c=d", "a", "a=", "=b", ";;; ", "sessionid=xx", "xsessionid=1; sessionid=2", "a=b;", " a = b ; c=\"d\"", "sessionid="})) + "\r\n"; break;
        case 2: h += "Authorization: " + std::string(g.pick({"Basic", "Basic ", "Basic dXNlcjpwYXNz", "Basic dXNlcg==", "Basic !!!!", "Basic Og==", "Digest x", "Basic dXNlcjpwYXNz\x80", "Basic dXNl"})) + "\r\n"; break;
        case 3: case 4: h += "Upgrade: websocket\r\nSec-Websocket-Version: 13\r\nSec-Websocket-Key: " + g.from("abcDEF019+/=", g.len(60)) + "\r\n"; ws = true; break;
        case 5: h += "Depth: " + std::string(g.pick({"0", "1", "infinity", "x", "-1", ""})) + "\r\n"; break;
        case 6: h += "Destination: " + std::string(g.pick({"http://x/dav/new2", "/dav/x", "http://x", "x", "http://x/other/y", "http://x/dav/../../../x", "///", "http://x/dav"})) + (g.chance(1, 10) ? std::string(g.len(700), 'd') : "") + "\r\n"; break;
        case 7: h += "If-None-Match: " + std::string(g.pick({"x", "\"\"", "*"})) + "\r\n"; break;
        case 8: h += "Accept-Language: " + std::string(g.pick({"es-ES,en", "", "-", "e"})) + "\r\n"; break;
        case 9: h += "Connection: " + std::string(g.pick({"close", "keep-alive", "Upgrade"})) + "\r\n"; break;
        case 10: h += "Content-Type: " + std::string(g.pick({"multipart/form-data; boundary=", "multipart/form-data; boundary=x", "application/x-www-form-urlencoded", "boundary", "text/xml"})) + "\r\n"; break;
        case 11: h += "Content-Length: " + std::string(g.pick({"0", "-1", "5", "x", "99999999999999999999", "2147483648", "4294967297", "1048577", "10"})) + "\r\n"; break;
        case 12: {
          static const std::string b[] = {"<?xml version=\"1.0\"?><propfind xmlns=\"DAV:\"><prop><resourcetype/><getcontentlength/><getlastmodified/><creationdate/><getetag/><getcontenttype/><displayname/><executable/></prop></propfind>",
            "<propfind/>", "<propertyupdate><set><prop><executable>T</executable></prop></set></propertyupdate>", "<propertyupdate><set><prop><executable/></prop></set></propertyupdate>", "not xml", "<a", "{\"a\":\"b\",\"c\":{\"d\":\"e\"}}", "{\"a\":", "a=b&c=d&&=&e", "--x\r\nContent-Disposition: form-data; name=\"n\"; filename=\"f\"\r\n\r\nfile\r\n--x--\r\n", "--x\r\nContent-Disposition: form-data; name=n\r\n\r\nv\r\n--x--", "--x\r\n\r\nv\r\n--x--", "--x\r\nContent-Disposition:\r\n\r\nv\r\n--x--"};
          body = g.pick(b);
          h += fmt("Content-Length: %zu\r\n", body.size());
          break;
        }
        case 13: if (g.chance(1, 8)) { int w = g.below(3); std::string big(g.pick({1024, 4096, 8192}) - 2 + g.below(5), 'n'); h += (w == 0 ? big : "X-Long") + ": " + (w == 1 ? big : w == 2 ? big + "\r\n " + big : "v") + "\r\n"; break; }
          h += g.from("ab:\t \"", g.len(20)) + ": " + g.from("ab \t;=,\"", g.len(30)) + "\r\n"; break;
        }
      }
      stream += h + "\r\n" + body;
    }
    if (ws && g.chance(2, 3)) { int f = g.below(4); for (int k = 0; k < f; k++) stream += frame(g); }
  }
  if (g.chance(1, 2)) {
    int k = 1 + g.below(5);
    for (int i = 0; i < k && !stream.empty(); i++) {
      size_t p = g.below(stream.size());
      static const std::string frag[] = {"\n", "\r\n", "\r", " ", ":", std::string(1, '\0'), "\t", "--", "\n \n", "=", "\"", ";", "%", "%4", "&", "?", "/", "..", "\r\n--x", "name=", "filename="};
      switch (g.below(5)) {
      case 0: stream[p] = (char)g.below(256); break;
      case 1: stream.erase(p, 1 + g.len(30)); break;
      case 2: stream.insert(p, g.pick(frag)); break;
      case 3: stream.insert(p, std::string(g.len(9000, {4095, 4096, 1500, 8190, 8191, 8192, 8193}), g.pick({'a', ' ', '\n', '0', '%', '/', '\0'}))); break;
      case 4: { size_t q = g.below(stream.size()), l = g.len(60); stream.insert(p, stream.substr(q, l)); break; }
      }
    }
    c.label("mutated");
  }
  if (g.chance(1, 4)) stream.resize(g.below(stream.size() + 1));
  std::vector<size_t> cuts = gen_cuts(g, stream.size());
  c.d("%s | %s", esc(stream, 4000).c_str(), cuts_str(cuts).c_str());
  int fds = pbt::open_fds();
  {
    Server sv(0, false);
    onion_set_max_post_size(sv.o, g.pick({1ul << 20, 100ul, 1000ul}));
    onion_set_max_file_size(sv.o, g.pick({1ul << 20, 100ul, 1000ul}));
    onion_url *u = onion_root_url(sv.o);
    onion_url_add(u, "all", (void *)all_handler);
    onion_url_add(u, "^re/([a-z]*)/?([0-9]*)", (void *)re_handler);
    onion_url_add_handler(u, "^exp", onion_handler_export_local_new(root.c_str()));
    onion_url_add_handler(u, "^dav", onion_handler_webdav(root.c_str(), NULL));
    onion_url_add_handler(u, "^auth/", onion_handler_auth_pam("realm", "svc", onion_handler_new((onion_handler_handler)all_handler, NULL, NULL)));
    onion_url_add_handler(u, "status", onion_internal_status());
    onion_url_add_static(u, "static", "static text", 200);
    onion_url_add_handler(u, "^path", onion_handler_path("/x", onion_handler_static("in path", 200)));
    onion_url_add(u, "sess", (void *)sess_handler);
    onion_url_add(u, "json", (void *)json_handler);
    onion_url_add(u, "ws", (void *)ws_handler);
    onion_url_add_static(u, "health", "alive", 200);
    {
      Client cl(sv);
      cl.r->connection.fd = dup(devnull);      // pollable, so a websocket loop does not sleep
      cl.deliver(stream, cuts);
      if (cl.open && cl.c.out.empty() && !calls) c.label("waiting");
      if (!cl.open) c.label("closed by server");
      c.nontrivial = calls > 0 || !cl.c.out.empty() || (!cl.open && stream.find('\n') != std::string::npos);
    }
    Client h(sv);
    std::string q = "GET /health HTTP/1.1\r\nHost: x\r\n\r\n";
    h.deliver(q, {});
    oh::Reply rep = oh::read_reply(h.c.out, false, !h.open);
    if (!rep.ok || rep.code != 200 || rep.body != "alive") c.fail("the next connection is not served: %s", esc(h.c.out).c_str());
  }
  std::string l = tmpwatch::left();
  if (!l.empty()) c.fail("temporary file left behind");
  int f2 = pbt::open_fds();
  if (f2 != fds) c.fail("%d descriptor(s) left open", f2 - fds);
}
