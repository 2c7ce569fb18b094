// C26: unanswered, refused and failing requests always get the right error reply.
#include "http.hpp"
using namespace hm;
pbt::Config pbt::config;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is 1 to 5 requests (GET, HEAD, POST, PUT; HTTP/1.0 and 1.1; keep-alive or close; to handled and unrouted paths) on one connection, each answered by a generated handler program (codes, headers, lengths, cookies, writes below and above the buffer, flushes) ending in any connection status, with the default or an own error handler (page only, own code, large page, declining), or a request no handler should see; non-trivial when at least one error outcome was judged";
  config.leak_check = true;
}
struct Prog { int ret; int code; bool hdr, setlen, flush, wh, cookie; std::vector<size_t> writes; int chain; };
static Prog prog;
static int ran, err_ran, err_kind, err_flags;
static std::string err_page;
static int hnd(void *p, onion_request *r, onion_response *res) {
  ran++;
  if (prog.code) onion_response_set_code(res, prog.code);
  if (prog.hdr) onion_response_set_header(res, "X-App", "1");
  if (prog.cookie) onion_response_add_cookie(res, "c", "v", -1, NULL, NULL, 0);
  if (prog.setlen) { size_t t = 0; for (size_t w : prog.writes) t += w; onion_response_set_length(res, t); }
  if (prog.wh) onion_response_write_headers(res);
  for (size_t w : prog.writes) { std::string s(w, 'h'); onion_response_write(res, s.data(), s.size()); }
  if (prog.flush) onion_response_flush(res);
  return prog.ret;
}
static int second(void *, onion_request *r, onion_response *res) { if (prog.chain != 2) return OCS_NOT_PROCESSED; onion_response_write0(res, "second"); return OCS_PROCESSED; }
static int eh(void *, onion_request *r, onion_response *res) {
  err_ran++;
  err_flags = onion_request_get_flags(r) & 0x0F000;
  if (err_kind == 4) return OCS_NOT_PROCESSED;
  if (err_kind == 2) onion_response_set_code(res, 410);
  if (err_kind == 5) onion_response_set_length(res, err_page.size());
  onion_response_write(res, err_page.data(), err_page.size());
  return OCS_PROCESSED;
}
void pbt::property(Gen &g, Ctx &c) {
  Server s(0, false);
  onion_url *u = onion_root_url(s.o);
  onion_handler *h = onion_handler_new((onion_handler_handler)hnd, NULL, NULL);
  onion_handler_add(h, onion_handler_new((onion_handler_handler)second, NULL, NULL));
  onion_url_add_handler(u, "^h", h);
  err_kind = (int)g.weighted({6, 2, 2, 2, 1, 2});
  err_page = err_kind == 3 ? g.from("EP", 2000 + g.below(4000)) : err_kind ? "own page" : "";
  if (err_kind) {
    onion_set_internal_error_handler(s.o, onion_handler_new((onion_handler_handler)eh, NULL, NULL));
  }
  int n = 1 + (int)g.below(5);
  std::unique_ptr<Client> cl(new Client(s));
  for (int i = 0; i < n; i++) {
    if (!cl->open) cl.reset(new Client(s));
    prog = Prog();
    static const int R[] = {OCS_PROCESSED, OCS_NOT_PROCESSED, OCS_INTERNAL_ERROR, OCS_NOT_IMPLEMENTED, OCS_FORBIDDEN, OCS_CLOSE_CONNECTION, OCS_NEED_MORE_DATA, OCS_KEEP_ALIVE, OCS_WEBSOCKET};
    prog.ret = R[g.weighted({3, 4, 4, 4, 4, 2, 1, 1, 1})];
    if (g.coin()) { static const int C[] = {200, 201, 302, 404, 500, 204}; prog.code = g.pick(C); if (prog.code == 204) prog.code = 206; }
    prog.hdr = g.coin();
    prog.cookie = g.chance(1, 4);
    int nw = (int)g.below(3);
    for (int k = 0; k < nw; k++) prog.writes.push_back(g.len(4000, {0, 1, 1499, 1500, 1501}));
    prog.setlen = g.chance(1, 3);
    prog.flush = g.chance(1, 6);
    prog.wh = g.chance(1, 8);
    prog.chain = prog.ret == 0 && nw == 0 && !prog.flush && !prog.wh && !prog.setlen && g.coin() ? 2 : 0;
    ran = err_ran = err_flags = 0;
    static const char *M[] = {"GET", "GET", "HEAD", "POST", "PUT"};
    std::string m = g.pick(M);
    bool h10 = g.chance(1, 5);
    int conn = (int)g.below(3);
    bool handled = !g.chance(1, 6);
    int bad = g.chance(1, 10) ? 1 + (int)g.below(2) : 0;
    std::string body = m == "POST" || m == "PUT" ? "a=b" : "";
    std::string req = m + (handled ? " /h" : " /other") + (h10 ? " HTTP/1.0\r\n" : " HTTP/1.1\r\n") + "Host: x\r\n";
    if (conn == 1) req += "Connection: keep-alive\r\n";
    if (conn == 2) req += "Connection: close\r\n";
    if (!body.empty()) req += fmt("Content-Length: %zu\r\n", body.size());
    req += "\r\n" + body;
    if (bad == 1) { static const char *X[] = {"FOO", "get", "GETT", "POS", "\x01"}; req = std::string(g.pick(X)) + " /h HTTP/1.1\r\nHost: x\r\n\r\n"; }
    if (bad == 2) req = "POST /h HTTP/1.1\r\nHost: x\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: 30\r\n\r\n--b\r\nX: y\r\n\r\nnoname\r\n--b--\r\n\r\n";
    c.d("%s%s%s conn=%d bad=%d ret=%d code=%d%s%s%s%s%s writes", m.c_str(), handled ? "" : " unrouted", h10 ? " 1.0" : "", conn, bad, prog.ret, prog.code, prog.hdr ? " hdr" : "", prog.setlen ? " len" : "", prog.flush ? " flush" : "", prog.wh ? " headers" : "", prog.chain ? " chain" : "");
    for (size_t w : prog.writes) c.d(" %zu", w);
    c.d(" err=%d; ", err_kind);
    size_t o0 = cl->c.out.size();
    cl->deliver(req.data(), req.size());
    std::string out = cl->c.out.substr(o0);
    if (bad) {
      if (ran || err_ran) c.fail("request %d: a handler saw a request that is malformed (%d)", i, bad);
      if (cl->open) c.fail("request %d: the connection stays open after a malformed request (%d)", i, bad);
      if (!out.empty()) { oh::Reply rep = oh::read_reply(out, false, true); if (!rep.error.empty() || rep.code < 400) c.fail("request %d: malformed request answered %s", i, esc(out).c_str()); }
      c.label("malformed");
      c.nontrivial = true;
      continue;
    }
    if (handled && ran != 1) c.fail("request %d: the handler ran %d times", i, ran);
    if (!handled && ran) c.fail("request %d: a handler ran for an unrouted path", i);
    size_t total = 0;
    for (size_t w : prog.writes) total += w;
    bool head = m == "HEAD";
    oh::Reply rep = oh::read_reply(out, head, !cl->open, h10);
    int st = handled ? prog.ret : 0;
    if (handled && prog.chain == 2 && st == 0) st = OCS_PROCESSED;
    if (st == OCS_WEBSOCKET) st = OCS_INTERNAL_ERROR;             // it never began one
    bool error = st == 0 || st == OCS_INTERNAL_ERROR || st == OCS_NOT_IMPLEMENTED || st == OCS_FORBIDDEN;
    bool sent = handled && prog.wh;                              // headers certainly sent before the error
    bool maybe = handled && (total > 1000 || prog.flush);        // may have been, depending on the buffer
    for (size_t w : prog.writes) if (w == 0 && handled) maybe = true;   // an empty write is a flush
    bool page = err_kind ? err_ran > 0 : rep.body.compare(0, 4, "<h1>") == 0;   // the error page is what was sent
    if (error && maybe && !sent && head && !err_kind) continue;  // cannot be told apart
    if (error && (sent || maybe) && !out.empty() && !page) {
      // too late: the reply of the handler, ended or cut, and the connection closed
      if (cl->open) c.fail("request %d: the connection stays open after an error in the middle of a reply", i);
      std::string hd = out.substr(0, out.find("\r\n\r\n") + 4);
      if (rep.code != (prog.code ? prog.code : 200)) c.fail("request %d: the reply in progress has code %d, the handler set %d", i, rep.code, prog.code);
      if (out.find("HTTP/1.", 8) != std::string::npos) c.fail("request %d: a second reply follows the one in progress", i);
      if (rep.body.find_first_not_of('h') != std::string::npos && rep.ok) c.fail("request %d: the reply in progress carries foreign bytes", i);
      c.label("error after headers");
      c.nontrivial = true;
      continue;
    }
    if (error && sent && err_ran) c.fail("request %d: the error handler ran after headers were sent", i);
    if (!rep.error.empty() || !rep.complete) c.fail("request %d: no complete reply (%s): %s", i, rep.error.c_str(), esc(out).c_str());
    if (rep.consumed != out.size()) c.fail("request %d: %zu bytes after the reply: %s", i, out.size() - rep.consumed, esc(out.substr(rep.consumed)).c_str());
    if (error) {
      int code = st == 0 ? 404 : st == OCS_INTERNAL_ERROR ? 500 : st == OCS_NOT_IMPLEMENTED ? 501 : 403;
      int flag = st == 0 ? OR_NOT_FOUND : st == OCS_INTERNAL_ERROR ? OR_INTERNAL_ERROR : st == OCS_NOT_IMPLEMENTED ? OR_NOT_IMPLEMENTED : OR_FORBIDDEN;
      if (err_kind == 2) code = 410;
      if (rep.code != code) c.fail("request %d: status %d, %d expected", i, rep.code, code);
      if (err_kind) {
        if (err_ran != 1) c.fail("request %d: the own error handler ran %d times", i, err_ran);
        if (err_flags != flag) c.fail("request %d: the error handler is told 0x%x, the outcome is 0x%x", i, err_flags, flag);
        if (!head && err_kind != 4 && rep.body != err_page) c.fail("request %d: the page is not the one of the own error handler: %s", i, esc(rep.body).c_str());
      }
      if (!head && rep.body.find('h') != std::string::npos && rep.body.find("hhh") != std::string::npos) c.fail("request %d: the error page holds what the handler wrote before", i);
      if (!err_kind && rep.body.find('\0') != std::string::npos) c.fail("request %d: the default page holds a NUL", i);
      if (!err_kind && !head && rep.body.find(fmt("%d", code)) == std::string::npos) c.fail("request %d: the default page does not tell %d: %s", i, code, esc(rep.body).c_str());
      c.label(fmt("error %d", code));
      c.nontrivial = true;
    } else {
      if (err_ran) c.fail("request %d: the error handler ran for a handled request", i);
      int code = prog.chain == 2 ? rep.code : prog.code ? prog.code : 200;
      if (rep.code != code) c.fail("request %d: status %d, %d expected", i, rep.code, code);
      std::string want = prog.chain == 2 ? "second" : std::string(total, 'h');
      if (!head && rep.body != want) c.fail("request %d: body of %zu bytes instead of %zu", i, rep.body.size(), want.size());
    }
    if (conn == 2 && cl->open) c.fail("request %d: the connection stays open although close was asked for", i);
    if (st == OCS_CLOSE_CONNECTION && cl->open) c.fail("request %d: the handler closed the connection and it stays open", i);
    // the announcement counts
    auto cn = rep.get("Connection");
    bool says_close = cn && oh::ieq(*cn, "close");
    if (cl->open && says_close) c.fail("request %d: the connection stays open although close is announced", i);
    if (cl->open && rep.framing == oh::Reply::CLOSE && !head) c.fail("request %d: the connection stays open although the body ends with it", i);
    if (!cl->open && !h10 && conn != 2 && st != OCS_CLOSE_CONNECTION && !says_close && rep.framing != oh::Reply::CLOSE && error) c.label("closed unannounced");
  }
}
