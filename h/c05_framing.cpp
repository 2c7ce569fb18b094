// C05: every reply is one well-formed HTTP message carrying exactly what was written.
#include "http.hpp"
using namespace hm;
pbt::Config pbt::config;
static ssize_t through_va(onion_response *res, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  ssize_t r = onion_response_vprintf(res, f, ap);
  va_end(ap);
  return r;
}
void pbt::harness_init() {
  oh::quiet_log();
  setenv("TZ", "XST-5:30", 1);           // not the zone of HTTP dates
  tzset();
  config.rule = "a case is a request (method, version, connection header), a handler program over the response interface (status, headers, length, write/write0/printf/html_safe, flush, explicit headers) and a transport policy (full, short or failing writes); non-trivial when the program writes a body, sets a header or the transport misbehaves";
  config.leak_check = true;
}
static std::string html(const std::string &s) {
  std::string r;
  for (char c : s) switch (c) {
    case '<': r += "&lt;"; break;
    case '>': r += "&gt;"; break;
    case '&': r += "&amp;"; break;
    case '"': r += "&quot;"; break;
    case '\'': r += "&#39;"; break;
    default: r += c;
  }
  return r;
}
// does text decode as html to s? (the escape of each character may vary)
static std::string unhtml(const std::string &t, bool &bad) {
  static const std::pair<const char *, const char *> ent[] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", "\""}, {"&#39;", "'"}, {"&#x27;", "'"}, {"&apos;", "'"}, {"&#34;", "\""}};
  std::string r;
  for (size_t i = 0; i < t.size();) {
    if (t[i] == '<' || t[i] == '>' || t[i] == '"') { bad = true; }
    if (t[i] == '&') {
      bool f = false;
      for (auto &e : ent) if (!t.compare(i, strlen(e.first), e.first)) { r += e.second; i += strlen(e.first); f = true; break; }
      if (!f) { bad = true; r += t[i++]; }
    } else r += t[i++];
  }
  return r;
}
struct Op { int k; std::string a, b; int n = 0; };
enum { CODE, HEADER, DICTHEADER, WRITE, WRITE0, PRINTF, HTML, FLUSH, FLUSH2, HEADERS, LENGTH };
static const std::map<int, const char *> reasons = {{200, "OK"}, {201, "Created"}, {206, "Partial Content"}, {207, "Multi-Status"}, {301, "Moved Permanently"}, {302, "Found"}, {303, "See Other"}, {304, "Not Modified"}, {307, "Temporary Redirect"}, {400, "Bad Request"}, {401, "Unauthorized"}, {403, "Forbidden"}, {404, "Not Found"}, {405, "Method Not Allowed"}, {500, "Internal Server Error"}, {501, "Not Implemented"}, {502, "Bad Gateway"}, {503, "Service Unavailable"}};

struct Outcome {
  std::string out;
  bool open = false;
  std::string bad;                 // immediate complaint
  bool second_ran = false;
  size_t first_end = 0;
};
struct Case {
  std::string request, second;
  std::vector<Op> ops;
  int ret;
  bool head, direct, sock = false;       // sock: onion's own socket functions
  size_t body_len = 0;
};
static Outcome run(const Case &cs, std::function<ssize_t(std::string &, const char *, size_t)> tr, bool faults) {
  Outcome o;
  Server sv;
  int calls = 0;
  std::string sofar;
  oh::Conn *conn = nullptr;
  auto program = [&](onion_request *r, onion_response *res) {
    bool html_used = false;
    for (auto &op : cs.ops) {
      ssize_t w = -1000, want = -1000;
      switch (op.k) {
      case CODE: onion_response_set_code(res, op.n); break;
      case HEADER: onion_response_set_header(res, op.a.c_str(), op.b.c_str()); break;
      case DICTHEADER: onion_dict_add(onion_response_get_headers(res), op.a.c_str(), op.b.c_str(), OD_DUP_ALL); break;
      case WRITE: want = op.a.size(); { char *exact = (char *)malloc(op.a.size()); memcpy(exact, op.a.data(), op.a.size()); w = onion_response_write(res, exact, op.a.size()); free(exact); } break;
      case WRITE0: want = op.a.size(); w = onion_response_write0(res, op.a.c_str()); break;
      case PRINTF: w = (op.n & 1 ? through_va : onion_response_printf)(res, "%s|%d|%s", op.a.c_str(), op.n, op.b.c_str()); want = fmt("%s|%d|%s", op.a.c_str(), op.n, op.b.c_str()).size(); break;
      case HTML: onion_response_write_html_safe(res, op.a.c_str()); html_used = true; break;
      case FLUSH: onion_response_flush(res); break;
      case FLUSH2: onion_response_write(res, "", 0); break;
      case HEADERS: onion_response_write_headers(res); break;
      case LENGTH: onion_response_set_length(res, cs.body_len); break;
      }
      if (op.k == WRITE || op.k == WRITE0) sofar += op.a;
      if (op.k == PRINTF) sofar += fmt("%s|%d|%s", op.a.c_str(), op.n, op.b.c_str());
      if (!faults && !cs.head && want >= 0 && w != want && o.bad.empty() && !(res->flags & OR_SKIP_CONTENT)) o.bad = fmt("a write of %zd bytes returned %zd", want, w);
      if ((op.k == FLUSH || op.k == FLUSH2) && !faults && !cs.head && !sofar.empty() && !html_used && o.bad.empty() && !(res->flags & OR_SKIP_CONTENT)) {
        oh::Reply p = oh::read_reply(conn->out, false, true);
        if (!p.ok || p.body != sofar) o.bad = fmt("after a flush only %zu of %zu body bytes were sent", p.body.size(), sofar.size());
      }
    }
  };
  sv.handler = [&](onion_request *r, onion_response *res) -> int {
    if (calls++) { o.second_ran = true; onion_response_write0(res, "second!"); return OCS_PROCESSED; }
    program(r, res);
    return cs.ret;
  };
  Client cl(sv, cs.sock && !faults);
  conn = &cl.c;
  cl.c.on_write = [&](const char *d, size_t n) -> ssize_t { return tr(cl.c.out, d, n); };
  if (cs.direct) {                 // a response made and freed outside of the handler, as long polling does
    int st = onion_request_write(cl.r, cs.request.data(), cs.request.size());
    if (st != OCS_REQUEST_READY) { o.bad = "the request is not ready"; return o; }
    calls++;
    onion_response *res = onion_response_new(cl.r);
    program(cl.r, res);
    o.open = onion_response_free(res) == OCS_KEEP_ALIVE;
    o.out = cl.c.out;
    o.first_end = o.out.size();
    return o;
  }
  cl.deliver(cs.request, {});
  if (!calls) o.bad = "the handler did not run";
  o.open = cl.open;
  o.first_end = cl.c.out.size();
  if (cl.open) cl.deliver(cs.second, {});
  o.out = cl.c.out;
  return o;
}
// The ready made replies: onion_shortcut_response* and a handler that declares another length than it writes.
static void shortcuts(Gen &g, Ctx &c) {
  const size_t B = ONION_RESPONSE_BUFFER_SIZE;
  int kind = (int)g.below(4);
  int code = g.pick({200, 404, 500, 201, 403});
  std::string text = g.from("abc <>\n&%s\"{}", g.len(90000, {1, B - 1, B, B + 1, 65535, 65536, 65537, 70000})), loc, ct;
  std::vector<std::pair<std::string, std::string>> extra;
  bool abs = g.coin();
  size_t declared = 0;
  for (size_t i = 0, n = g.below(4); i < n; i++) extra.push_back({fmt("X-H%zu", i), g.from("abc;= ", 1 + g.len(30))});
  for (auto &e : extra) { while (!e.second.empty() && e.second.front() == ' ') e.second.erase(0, 1); while (!e.second.empty() && e.second.back() == ' ') e.second.pop_back(); if (e.second.empty()) e.second = "v"; }
  loc = "/" + g.from("abc/?=&-", g.len(300));
  if (g.coin()) ct = "application/x-c";
  if (kind == 3) declared = g.coin() ? g.below(text.size() + 1) : text.size() + 1 + g.len(3000);
  bool flush = g.coin();
  c.d("shortcut kind %d code %d text %zu extra %zu loc %s abs %d declared %zu flush %d", kind, code, text.size(), extra.size(), loc.c_str(), abs, declared, flush);
  c.nontrivial = true;
  Server sv;
  int calls = 0;
  sv.handler = [&](onion_request *r, onion_response *res) -> int {
    if (calls++) { onion_response_write0(res, "second!"); return OCS_PROCESSED; }
    if (kind == 0) return onion_shortcut_response(text.c_str(), code, r, res);
    if (kind == 1) {
      switch (extra.size()) {
      case 0: return onion_shortcut_response_extra_headers(text.c_str(), code, r, res, NULL);
      case 1: return onion_shortcut_response_extra_headers(text.c_str(), code, r, res, extra[0].first.c_str(), extra[0].second.c_str(), NULL);
      case 2: return onion_shortcut_response_extra_headers(text.c_str(), code, r, res, extra[0].first.c_str(), extra[0].second.c_str(), extra[1].first.c_str(), extra[1].second.c_str(), NULL);
      default: return onion_shortcut_response_extra_headers(text.c_str(), code, r, res, extra[0].first.c_str(), extra[0].second.c_str(), extra[1].first.c_str(), extra[1].second.c_str(), extra[2].first.c_str(), extra[2].second.c_str(), NULL);
      }
    }
    if (kind == 2) return abs ? onion_shortcut_redirect(loc.c_str(), r, res) : onion_shortcut_internal_redirect(loc.c_str(), r, res);
    onion_response_set_length(res, declared);
    if (flush) onion_response_write_headers(res);
    onion_response_write(res, text.data(), text.size());
    return OCS_PROCESSED;
  };
  Client cl(sv, g.chance(1, 3));
  cl.deliver(std::string("GET / HTTP/1.1\r\nHost: x\r\n\r\n"), {});
  size_t first = cl.c.out.size();
  bool open = cl.open;
  if (open) cl.deliver(std::string("GET /second HTTP/1.1\r\nHost: x\r\n\r\n"), {});
  oh::Reply r = oh::read_reply(cl.c.out, false, !open);
  if (!r.ok) c.fail("not a valid reply: %s", r.error.c_str());
  if (kind == 2 && !abs) { if (r.body != "second!" || !open) c.fail("internal redirect was not answered by its target"); c.label("internal redirect"); return; }
  if (kind == 3) {
    c.label("declared another length");
    if (!open) return;                       // the client can tell that something went wrong
    if (!r.complete || r.consumed != first) c.fail("kept open after declaring %zu bytes and writing %zu: the client is out of step", declared, text.size());
    return;
  }
  if (!r.complete || !open || r.consumed != first) c.fail("incomplete reply or closed connection (%zu of %zu bytes)", r.consumed, first);
  if (kind == 2) {
    c.label("redirect");
    if (r.code < 301 || r.code > 308 || !r.get("Location") || *r.get("Location") != loc) c.fail("redirect to %s: %d %s", loc.c_str(), r.code, r.get("Location") ? r.get("Location")->c_str() : "nowhere");
    return;
  }
  c.label("shortcut");
  if (r.code != code) c.fail("status %d, %d asked", r.code, code);
  if (r.body != text) c.fail("shortcut reply of %zu bytes arrives as %zu", text.size(), r.body.size());
  if (kind == 1) for (auto &e : extra) if (r.count(e.first.c_str()) != 1 || *r.get(e.first.c_str()) != e.second) c.fail("extra header %s=%s is not sent so", e.first.c_str(), esc(e.second).c_str());
}
void pbt::property(Gen &g, Ctx &c) {
  if (g.chance(1, 12)) { shortcuts(g, c); return; }
  Case cs;
  std::string method = g.pick({"GET", "GET", "POST", "HEAD", "OPTIONS", "DELETE"});
  cs.head = method == "HEAD";
  int minor = g.chance(1, 3) ? 0 : 1;
  int conn = g.below(3);
  cs.request = method + " / HTTP/1." + char('0' + minor) + "\r\nHost: x\r\n";
  if (conn == 1) cs.request += g.coin() ? "Connection: keep-alive\r\n" : "connection: Keep-Alive\r\n";
  if (conn == 2) cs.request += g.coin() ? "Connection: close\r\n" : "Connection: Close\r\n";
  if (method == "POST") cs.request += "Content-Length: 0\r\n";
  cs.request += "\r\n";
  bool wants = minor == 1 ? conn != 2 : conn == 1;
  cs.second = "GET /second HTTP/1.1\r\nHost: x\r\n\r\n";
  cs.direct = g.chance(1, 5);
  cs.sock = g.chance(1, 3);
  cs.ret = g.chance(1, 8) ? OCS_CLOSE_CONNECTION : OCS_PROCESSED;
  const size_t B = ONION_RESPONSE_BUFFER_SIZE;
  bool setlen = g.chance(1, 4);
  size_t nops = g.len(14);
  int code = 200;
  std::map<std::string, std::string> hdr;             // lower name -> value expected
  std::vector<std::pair<std::string, std::string>> rep;   // repeated, via the dictionary
  std::set<std::string> forbidden;
  std::string body;
  bool headers_out = false, has_html = false;
  std::vector<std::pair<size_t, std::string>> parts;  // kind 0 raw, 1 html-escaped
  // an upper bound of what may be buffered: headers are only settled while nothing was flushed
  for (size_t i = 0; i < nops; i++) {
    Op op;
    op.k = (int)g.weighted({2, 4, 1, 6, 3, 3, 2, 2, 1, 1});
    if (headers_out && (op.k == CODE || op.k == HEADER || op.k == DICTHEADER)) op.k = WRITE;
    switch (op.k) {
    case CODE:
      op.n = g.pick({200, 201, 404, 500, 302, 304, 204, 401, 206, 299, 418, 503, 207, 301, 303, 307, 400, 403, 405, 501, 502});
      code = op.n;
      break;
    case HEADER: {
      static const char *names[] = {"X-A", "x-a", "X-B", "Content-Type", "content-type", "Server", "ETag", "Cache-Control", "X-Empty", "Location"};
      op.a = g.pick(names);
      size_t l = g.chance(1, 10) ? g.len(3200, {B - 10, B, B + 5}) : g.len(20);
      for (size_t k = 0; k < l; k++) op.b += (char)g.range(33, 126);
      if (g.chance(1, 10)) {                          // would be response splitting
        op.a = g.pick({"X-Evil", "X-A"});
        std::string inj = g.pick({"\r\nX-Inj: 1", "\nX-Inj: 1", "\r\n\r\nX-Inj body", "\rX-Inj: 1", "\n"});
        op.b.insert(g.below(op.b.size() + 1), inj);
      }
      hdr[oh::lower(op.a)] = op.b;
      break;
    }
    case DICTHEADER:
      op.a = g.pick({"X-Multi", "Set-Cookie"});
      op.b = g.from("abc=123", 1 + g.len(8));
      rep.push_back({op.a, op.b});
      break;
    case WRITE: op.a = g.raw(g.len(2 * B + 300, {1, B - 1, B, B + 1, 2 * B, 2 * B - 1, 3 * B, B / 2})); parts.push_back({0, op.a}); break;
    case WRITE0: op.a = g.from("abcdef <>&\n", g.len(B, {B - 1, B})); parts.push_back({0, op.a}); break;
    case PRINTF: op.a = g.from("xyz%", g.len(1400, {500, 509, 510, 511, 512})); op.n = g.below(100000); op.b = g.from("uv", g.len(20)); parts.push_back({0, fmt("%s|%d|%s", op.a.c_str(), op.n, op.b.c_str())}); break;
    case HTML: op.a = g.from("ab<>&\"' \xc3\xa9", g.len(600)); parts.push_back({1, op.a}); has_html = true; break;
    default: break;
    }
    if (op.k == HEADERS) headers_out = true;
    size_t total = 0;
    for (auto &p : parts) total += p.first ? 6 * p.second.size() : p.second.size();
    if ((op.k == FLUSH || op.k == FLUSH2 || ((op.k == WRITE || op.k == WRITE0 || op.k == HTML) && op.a.empty())) && total) headers_out = true;
    if (total >= B) headers_out = true;
    cs.ops.push_back(op);
  }
  // the escaped text may be written in several legal ways: ask for a fixed length only without it
  if (has_html) setlen = false;
  for (auto &p : parts) cs.body_len += p.second.size();
  if (setlen) { Op op; op.k = LENGTH; cs.ops.insert(cs.ops.begin(), op); }
  bool nobody = cs.head || code == 204 || code == 304;
  int fault = (int)g.weighted({3, 2, 2});
  uint32_t fseed = g.below(1 << 30);
  size_t fail_at = g.below(6000);
  ssize_t fail_ret = g.coin() ? -1 : 0;
  c.d("%s ret=%d %s fault=%d len=%d:", esc(cs.request).c_str(), cs.ret, cs.direct ? "direct" : "handler", fault, setlen);
  for (auto &op : cs.ops) c.d(" %d(%s,%zu,%d)", op.k, esc(op.k == HEADER ? op.a + "=" + op.b : op.a.substr(0, 8), 60).c_str(), op.a.size(), op.n);
  c.nontrivial = cs.body_len > 0 || !hdr.empty() || fault;
  Outcome o = run(cs, [](std::string &out, const char *d, size_t n) -> ssize_t { out.append(d, n); return n; }, false);
  if (!o.bad.empty()) c.fail("%s", o.bad.c_str());
  oh::Reply r = oh::read_reply(o.out, cs.head, !o.open || o.out.size() == o.first_end);
  if (!r.ok) c.fail("not a valid reply: %s\n%s", r.error.c_str(), esc(o.out, 600).c_str());
  if (r.minor != minor) c.fail("HTTP/1.%d request answered with HTTP/1.%d", minor, r.minor);
  if (r.code != code) c.fail("status %d sent, %d set", r.code, code);
  auto re = reasons.find(code);
  if (re != reasons.end() && r.reason != re->second) c.fail("reason \"%s\" for %d", esc(r.reason).c_str(), code);
  if (!r.complete) c.fail("the reply never completes (%s, body %zu)", r.framing == oh::Reply::CHUNKED ? "chunked" : "length", r.body.size());
  if (r.framing == oh::Reply::CHUNKED && minor == 0) c.fail("chunked reply to a HTTP/1.0 client");
  if (r.consumed != o.first_end) c.fail("%zd bytes after the end of the reply: %s", (ssize_t)o.first_end - (ssize_t)r.consumed, esc(o.out.substr(std::min(r.consumed, o.first_end)), 100).c_str());
  // body
  if (nobody) { if (!r.body.empty()) c.fail("body on a reply that has none"); }
  else if (!has_html) {
    std::string want;
    for (auto &p : parts) want += p.second;
    if (r.body != want) {
      size_t i = 0;
      while (i < want.size() && i < r.body.size() && want[i] == r.body[i]) i++;
      c.fail("body differs from what was written: %zu bytes, wrote %zu, first difference at %zu", r.body.size(), want.size(), i);
    }
  } else {
    // raw parts literally in place, escaped parts decoding to their text
    size_t pos = 0;
    for (size_t i = 0; i < parts.size(); i++) {
      auto &p = parts[i];
      if (p.first == 0) {
        if (r.body.compare(pos, p.second.size(), p.second)) c.fail("body differs from what was written in part %zu", i);
        pos += p.second.size();
      } else {
        // take escaped characters one at a time
        size_t q = pos;
        bool bad = false;
        for (char ch : p.second) {
          size_t e = q + 1;
          if (q >= r.body.size()) { bad = true; break; }
          if (r.body[q] == '&') { e = r.body.find(';', q); e = e == std::string::npos ? q + 1 : e + 1; }
          bool b2 = false;
          std::string t = unhtml(r.body.substr(q, e - q), b2);
          if (b2 || t != std::string(1, ch)) { bad = true; break; }
          q = e;
        }
        if (bad) c.fail("html safe text is not escaped to itself: %s at %s", esc(p.second).c_str(), esc(r.body.substr(pos, 80)).c_str());
        pos = q;
      }
    }
    if (pos != r.body.size()) c.fail("extra bytes in the body");
  }
  // headers
  for (auto &h : hdr) {
    bool broken = h.second.find_first_of("\r\n") != std::string::npos;
    int n = r.count(h.first.c_str());
    if (broken) continue;
    if (n != 1) c.fail("header %s set once appears %d times", h.first.c_str(), n);
    if (*r.get(h.first.c_str()) != h.second) c.fail("header %s: sent \"%s\", set \"%s\"", h.first.c_str(), esc(*r.get(h.first.c_str())).c_str(), esc(h.second).c_str());
  }
  if (r.count("X-Inj")) c.fail("a header value injected another header");
  if (r.body.find("X-Inj body") != std::string::npos) c.fail("a header value injected content");
  for (const char *name : {"X-Multi", "Set-Cookie"}) {
    std::multiset<std::string> want, got;
    for (auto &p : rep) if (p.first == name) want.insert(p.second);
    for (auto &h : r.headers) if (oh::ieq(h.name, name)) got.insert(h.value);
    if (want != got) c.fail("repeated header %s: %zu values sent of %zu", name, got.size(), want.size());
  }
  if (r.count("Date") == 1) {
    const std::string &d = *r.get("Date");
    bool right = false;
    time_t now = time(NULL);
    for (int k = -30; k <= 2 && !right; k++) {          // a slow case may be a while old
      char b[64];
      time_t t = now + k;
      struct tm tm;
      gmtime_r(&t, &tm);
      static const char *D[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
      snprintf(b, sizeof b, "%s, %02d %s %04d %02d:%02d:%02d GMT", D[tm.tm_wday], tm.tm_mday, M[tm.tm_mon], tm.tm_year + 1900, tm.tm_hour, tm.tm_min, tm.tm_sec);
      right = d == b;
    }
    if (!right) c.fail("Date: %s is not the current date as HTTP writes it", esc(d).c_str());
  }
  if (r.count("Date") != 1 || r.count("Server") != 1 || r.count("Content-Type") != 1) c.fail("default headers missing or repeated");
  if (setlen && !nobody && (!r.get("Content-Length") || *r.get("Content-Length") != fmt("%zu", cs.body_len))) c.fail("the length set is not sent");
  for (auto &h : r.headers) {                           // and nothing that nobody asked for
    if (oh::ieq(h.name, "Connection") && !oh::ieq(h.value, "close") && !oh::ieq(h.value, "keep-alive")) c.fail("Connection: %s on a plain reply", esc(h.value).c_str());
    if (hdr.count(oh::lower(h.name))) continue;
    bool known = false;
    for (const char *k : {"Date", "Server", "Content-Type", "Content-Length", "Transfer-Encoding", "Connection", "X-Multi", "Set-Cookie", "X-Evil", "X-A"}) if (oh::ieq(h.name, k)) known = true;
    if (!known) c.fail("header %s was set by nobody", esc(h.name).c_str());
  }
  // the connection
  c.label(r.framing == oh::Reply::LENGTH ? "by length" : r.framing == oh::Reply::CHUNKED ? "chunked" : r.framing == oh::Reply::CLOSE ? "until close" : "no body");
  bool says_close = r.get("Connection") && oh::ieq(*r.get("Connection"), "close");
  if (o.open) {
    if (!wants) c.fail("kept open although the client did not ask for it");
    if (r.framing == oh::Reply::CLOSE) c.fail("kept open although the client can not find the end of the reply");
    if (says_close) c.fail("kept open after announcing close");
    if (!cs.direct && cs.ret == OCS_CLOSE_CONNECTION) c.fail("kept open although the handler asked to close");
    if (!cs.direct) {
      if (!o.second_ran) c.fail("the next request on the kept connection was not served");
      std::string rest = o.out.substr(o.first_end);
      oh::Reply r2 = oh::read_reply(rest, false, false);
      if (!r2.ok || !r2.complete || r2.body != "second!" || r2.consumed != rest.size()) c.fail("the next reply on the connection is broken: %s", esc(rest).c_str());
    }
  } else if (wants && cs.ret == OCS_PROCESSED && r.framing != oh::Reply::CLOSE && !says_close)
    c.fail("closed although the client asked to reuse the connection and the reply allows it");
  // transport
  if (fault == 1) {
    c.label("short writes");
    uint64_t s = fseed | 1;
    Outcome o2 = run(cs, [&](std::string &out, const char *d, size_t n) -> ssize_t {
      s = s * 6364136223846793005ull + 1442695040888963407ull;
      size_t k = 1 + (s >> 33) % (((s >> 20) & 3) ? 7 : n);
      if (k > n) k = n;
      out.append(d, k);
      return k;
    }, true);
    std::string a = no_date(o.out), b = no_date(o2.out);
    a = a.substr(0, a.size() - (o.out.size() - o.first_end));
    b = b.substr(0, b.size() - (o2.out.size() - o2.first_end));
    if (a != b) c.fail("short transport writes change the reply: %zu bytes instead of %zu", b.size(), a.size());
    if (o.open != o2.open) c.fail("short transport writes change the fate of the connection");
  } else if (fault == 2 && fail_at < o.first_end) {
    c.label("failing write");
    size_t taken = 0;
    bool failed = false;
    Outcome o2 = run(cs, [&](std::string &out, const char *d, size_t n) -> ssize_t {
      if (!failed && taken + n > fail_at) {
        size_t k = fail_at - taken;
        if (k) { out.append(d, k); taken += k; return k; }
        failed = true;
        return fail_ret;
      }
      out.append(d, n);
      taken += n;
      return n;
    }, true);
    std::string full = o.out.substr(0, o.first_end);
    // dates may differ between both runs: blank what both hold
    std::string got = o2.out;
    size_t dp = full.find("Date: ");
    auto same = [&](size_t i) { return i >= got.size() || full[i] == got[i] || (dp != std::string::npos && i >= dp && i < dp + 36); };
    if (got.size() > full.size()) c.fail("bytes sent after a failed write: %zu, full reply is %zu", got.size(), full.size());
    for (size_t i = 0; i < got.size(); i++) if (!same(i)) c.fail("bytes sent after a failed write leave a hole at %zu", i);
    if (got.size() != fail_at) c.fail("%zu bytes sent, the transport failed at %zu", got.size(), fail_at);
    if (o2.open && r.framing != oh::Reply::NONE) c.fail("connection reused after a failed write");
  }
}
