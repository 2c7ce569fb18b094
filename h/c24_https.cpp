// C24: HTTPS serves exactly what HTTP serves.
// One real server with a plain and a TLS listen point and the same handlers; a GnuTLS client
// that cuts requests into records and records into TCP pieces as the case says.
#include "http.hpp"
#include "net.hpp"
#include <atomic>
#include <errno.h>
#include <gnutls/gnutls.h>
#include <poll.h>
#include <sys/socket.h>
extern "C" {
#include <onion/https.h>
}
pbt::Config pbt::config;
static std::string dir, addr;
static std::vector<std::string> files;
static onion *srv, *quick;                    // quick: short timeout, for clients that say nothing
static int port_plain, port_tls, port_ec, port_quick;
static std::atomic<int> calls;
static gnutls_certificate_credentials_t cred;
static int base_fds;
static unsigned h32(const std::string &s) { unsigned h = 2166136261u; for (unsigned char c : s) h = (h ^ c) * 16777619u; return h; }
static onion_connection_status h_echo(void *, onion_request *req, onion_response *res) {
  calls++;
  std::string s = hm::snapshot(req).str();
  onion_response_set_header(res, "X-Secure", onion_request_is_secure(req) ? "yes" : "no");
  int fill = atoi(onion_request_get_queryd(req, "fill", "0"));
  onion_response_printf(res, "%u:%zu\n", h32(s), s.size());
  onion_response_write(res, s.data(), s.size() < 3000 ? s.size() : 3000);
  std::string chunk;
  for (int i = 0; i < fill; i++) { chunk += (char)('a' + (i * 7 + i / 26) % 26); if (chunk.size() == 1000 || i == fill - 1) { onion_response_write(res, chunk.data(), chunk.size()); chunk.clear(); } }
  return OCS_PROCESSED;
}
static onion_connection_status h_len(void *, onion_request *req, onion_response *res) {
  calls++;
  size_t n = atoi(onion_request_get_queryd(req, "n", "0"));
  std::string b;
  for (size_t i = 0; i < n; i++) b += (char)(i * 31 + i / 251);
  onion_response_set_header(res, "X-Secure", onion_request_is_secure(req) ? "yes" : "no");
  onion_response_set_length(res, n);
  onion_response_write(res, b.data(), b.size());
  return OCS_PROCESSED;
}
static onion_connection_status h_file(void *, onion_request *req, onion_response *res) {
  calls++;
  onion_response_set_header(res, "X-Secure", onion_request_is_secure(req) ? "yes" : "no");
  return onion_shortcut_response_file((dir + "/" + onion_request_get_path(req)).c_str(), req, res);
}
static onion_connection_status ws_cb(void *, onion_websocket *ws, ssize_t n) {
  if (n <= 0) return n < 0 ? OCS_CLOSE_CONNECTION : OCS_NEED_MORE_DATA;
  bool whole = n > 300 && (n & 1);                  // frames of an odd length come back as one
  size_t lim = whole ? n : 250, left = n, have = 0;
  std::string b(lim, 0);
  while (left > 0) {
    int k = onion_websocket_read(ws, &b[have], std::min(left, lim - have));
    if (k <= 0) return OCS_CLOSE_CONNECTION;
    left -= k;
    have += k;
    if (whole && left) continue;
    onion_websocket_write(ws, b.data(), have);
    have = 0;
  }
  return OCS_NEED_MORE_DATA;
}
static onion_connection_status h_ws(void *, onion_request *req, onion_response *res) {
  calls++;
  onion_websocket *ws = onion_websocket_new(req, res);
  if (!ws) { onion_response_write0(res, "no websocket"); return OCS_PROCESSED; }
  onion_websocket_set_callback(ws, ws_cb);
  return OCS_WEBSOCKET;
}
static onion *make(int timeout) {
  onion *o = onion_new(O_POOL | O_DETACH_LISTEN | O_NO_SIGTERM);
  onion_set_max_threads(o, 3);
  onion_set_timeout(o, timeout);
  onion_set_max_post_size(o, 4000000);
  onion_set_max_file_size(o, 4000000);
  onion_url *u = onion_root_url(o);
  onion_url_add(u, "^len$", (void *)h_len);
  onion_url_add(u, "^file/", (void *)h_file);
  onion_url_add(u, "^ws$", (void *)h_ws);
  onion_url_add(u, "^", (void *)h_echo);
  return o;
}
static int tls_point(onion *o, const char *kind) {
  int port = net::free_port(addr);
  onion_listen_point *lp = onion_https_new();
  std::string c = std::string(VERIF_DIR) + "/h/tls/" + kind + ".pem", k = std::string(VERIF_DIR) + "/h/tls/" + kind + ".key";
  if (onion_https_set_certificate(lp, O_SSL_CERTIFICATE_KEY, c.c_str(), k.c_str()) < 0) { fprintf(stderr, "cannot set the certificate\n"); exit(3); }
  onion_add_listen_point(o, addr.c_str(), fmt("%d", port).c_str(), lp);
  return port;
}
static bool started;
static void start() {
  if (started) return;
  started = true;
  addr = net::own_addr();
  srv = make(60000);
  port_plain = net::free_port(addr);
  onion_add_listen_point(srv, addr.c_str(), fmt("%d", port_plain).c_str(), onion_http_new());
  port_tls = tls_point(srv, "rsa");
  port_ec = tls_point(srv, "ec");
  quick = make(600);
  port_quick = tls_point(quick, "ec");
  if (onion_listen(srv) || onion_listen(quick)) { fprintf(stderr, "cannot listen\n"); exit(3); }
  gnutls_certificate_allocate_credentials(&cred);
  for (int p : {port_plain, port_tls, port_ec, port_quick}) { int fd = net::dial(addr, p); if (fd >= 0) close(fd); }
  usleep(50000);
  base_fds = pbt::open_fds();
}
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is a script of 1 to 4 TLS connections to a server that also listens in plain text: generated requests (forms, uploads, raw bodies up to 300 kB), long, chunked and file replies up to 600 kB, WebSocket echoes with several frames per record, each cut into TLS records and TCP pieces as generated, with key updates between; or connections that break the handshake or a record, stay silent or speak plain HTTP, followed by a good one; every reply is compared with the plain one; non-trivial when a TLS reply was compared or a broken connection was seen dropped";
  config.wall_limit_s = 100;
  config.cpu_limit_s = 100;
  config.flaky_retries = 3;
  dir = pbt::scratch() + "/files";
  mkdir(dir.c_str(), 0755);
  static const size_t N[] = {0, 1, 1499, 16384, 16385, 200000};
  for (int i = 0; i < 6; i++) {
    std::string d;
    for (size_t k = 0; k < N[i]; k++) d += (char)('a' + (k * 7 + i * 3 + k / 97) % 26);
    files.push_back(d);
    oh::write_file(dir + fmt("/f%d.txt", i), d);
  }
}
// ---- the client ----
struct Link {
  int fd = -1;
  gnutls_session_t s = nullptr;
  std::vector<size_t> pieces;                  // sizes of TCP pieces, repeating; empty: whole
  size_t at = 0;
  long flip = -1;                              // damage: flip a bit of this byte of the stream from now on
  long cut = -1;                               // send nothing after this many bytes
  std::string rest;
  std::string error;
  bool timeout = false;
  bool ended = false;
  int end_code = 0;
  int warn = 0;                                // a warning alert before this record
  ~Link() { end(false); }
  void end(bool bye) {
    if (s) { if (bye) gnutls_bye(s, GNUTLS_SHUT_WR); gnutls_deinit(s); s = nullptr; }
    if (fd >= 0) { close(fd); fd = -1; }
  }
  static ssize_t push(gnutls_transport_ptr_t p, const void *d, size_t n) {
    Link *l = (Link *)p;
    size_t k = n;
    if (!l->pieces.empty()) k = std::max<size_t>(1, std::min(n, l->pieces[l->at++ % l->pieces.size()]));
    std::string b((const char *)d, k);
    if (l->cut >= 0) { if (l->cut == 0) return n; if ((size_t)l->cut < k) { b.resize(l->cut); } l->cut -= b.size(); if (b.size() < k) { ::send(l->fd, b.data(), b.size(), MSG_NOSIGNAL); return n; } }
    if (l->flip >= 0) { if ((size_t)l->flip < k) { b[l->flip] ^= 0x10; l->flip = -1; } else l->flip -= k; }
    ssize_t r = ::send(l->fd, b.data(), b.size(), MSG_NOSIGNAL);
    if (r < 0) gnutls_transport_set_errno(l->s, errno);
    return r;
  }
  static ssize_t pull(gnutls_transport_ptr_t p, void *d, size_t n) {
    Link *l = (Link *)p;
    ssize_t r = ::recv(l->fd, d, n, 0);
    if (r < 0) gnutls_transport_set_errno(l->s, errno == EAGAIN ? EIO : errno), l->timeout |= errno == EAGAIN;
    return r;
  }
  static int pull_timeout(gnutls_transport_ptr_t p, unsigned ms) { pollfd f = {((Link *)p)->fd, POLLIN, 0}; return poll(&f, 1, ms == GNUTLS_INDEFINITE_TIMEOUT ? 30000 : ms); }
  bool dial(int port, int ms = 30000) {
    fd = net::dial(addr, port);
    if (fd < 0) { error = fmt("connection refused: %s", strerror(-fd)); return false; }
    struct timeval tv = {ms / 1000, ms % 1000 * 1000};
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    return true;
  }
  void init(const char *prio) {
    gnutls_init(&s, GNUTLS_CLIENT);
    const char *e;
    if (gnutls_priority_set_direct(s, prio, &e) < 0) { fprintf(stderr, "priority %s: at %s\n", prio, e); exit(3); }
    gnutls_credentials_set(s, GNUTLS_CRD_CERTIFICATE, cred);
    gnutls_transport_set_ptr(s, this);
    gnutls_transport_set_push_function(s, push);
    gnutls_transport_set_pull_function(s, pull);
    gnutls_transport_set_pull_timeout_function(s, pull_timeout);
  }
  bool shake(const char *prio) {
    init(prio);
    int r;
    do r = gnutls_handshake(s); while (r < 0 && !gnutls_error_is_fatal(r));
    if (r < 0) { error = fmt("handshake failed: %s", gnutls_strerror(r)); return false; }
    return true;
  }
  void half() {                                // starts a handshake and gives up on the answer
    struct timeval tv = {0, 1000};
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    init("NORMAL");
    gnutls_handshake(s);
  }
  bool write(const std::string &d, const std::vector<size_t> &cuts) {
    size_t a = 0;
    for (size_t i = 0; i <= cuts.size(); i++) {
      if (warn && (int)i == warn) { gnutls_alert_send(s, GNUTLS_AL_WARNING, GNUTLS_A_UNRECOGNIZED_NAME); warn = 0; }
      size_t e = i < cuts.size() ? cuts[i] : d.size();
      while (a < e) {
        ssize_t r = s ? gnutls_record_send(s, d.data() + a, e - a) : ::send(fd, d.data() + a, e - a, MSG_NOSIGNAL);
        if (s && (r == GNUTLS_E_AGAIN || r == GNUTLS_E_INTERRUPTED)) continue;
        if (r <= 0) { error = s ? gnutls_strerror(r) : strerror(errno); return false; }
        a += r;
      }
    }
    return true;
  }
  ssize_t read(char *b, size_t n) {
    if (!s) { ssize_t r = ::recv(fd, b, n, 0); if (r < 0 && errno == EAGAIN) timeout = true; return r; }
    for (;;) {
      ssize_t r = gnutls_record_recv(s, b, n);
      if (r == GNUTLS_E_AGAIN && !timeout) continue;
      if (r == GNUTLS_E_INTERRUPTED) continue;
      return r;
    }
  }
  oh::Reply reply(bool head, std::string &raw) {
    std::string buf;
    buf.swap(rest);
    bool eof = false;
    oh::Reply r;
    char b[20000];
    for (;;) {
      if (eof || buf.find("\r\n\r\n") != std::string::npos) { r = oh::read_reply(buf, head, eof); if (eof || (r.ok && r.complete)) break; }
      ssize_t n = read(b, sizeof b);
      if (n <= 0) { eof = ended = true; end_code = (int)n; if (timeout) break; continue; }
      buf.append(b, n);
    }
    raw = buf;
    if (r.ok && r.complete && r.consumed < buf.size()) rest = buf.substr(r.consumed);
    return r;
  }
  bool wait_eof(int ms) {
    double until = net::now() + ms / 1000.0;
    char b[4096];
    for (;;) {
      pollfd f = {fd, POLLIN, 0};
      int d = (int)((until - net::now()) * 1000);
      if (d < 0 || poll(&f, 1, d + 1) <= 0) { if (d < 0) return false; continue; }
      ssize_t r = ::recv(fd, b, sizeof b, MSG_DONTWAIT);
      if (r == 0 || (r < 0 && errno != EAGAIN)) return true;
    }
  }
};
static const char *PRIO[] = {"NORMAL", "NORMAL:-VERS-ALL:+VERS-TLS1.3", "NORMAL:-VERS-ALL:+VERS-TLS1.2", "NORMAL:-VERS-ALL:+VERS-TLS1.2:-KX-ALL:+ECDHE-RSA:+ECDHE-ECDSA:-CIPHER-ALL:+AES-128-CBC:+AES-256-CBC", "NORMAL:-VERS-ALL:+VERS-TLS1.3:-GROUP-ALL:+GROUP-SECP384R1"};
static std::vector<size_t> gen_pieces(Gen &g) {
  std::vector<size_t> v;
  switch (g.below(4)) {
  case 0: break;
  case 1: { int n = 1 + (int)g.below(4); for (int i = 0; i < n; i++) v.push_back(1 + g.below(3000)); break; }
  case 2: v.push_back(1 + g.below(200)); v.push_back(100000); break;
  case 3: v.push_back(5); v.push_back(100000); break;          // record header apart from its body
  }
  return v;
}
static std::string norm(const oh::Reply &r) {
  std::string s = fmt("%d %s\n", r.code, r.reason.c_str());
  for (auto &h : r.headers) if (!oh::ieq(h.name, "Date") && !oh::ieq(h.name, "X-Secure")) s += h.name + ": " + h.value + "\n";
  return s + "\n" + r.body;
}
static std::string where(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t f = i > 30 ? i - 30 : 0;
  return fmt("at byte %zu of %zu and %zu: \"%s\" and \"%s\"", i, a.size(), b.size(), esc(a.substr(f, 120)).c_str(), esc(b.substr(f, 120)).c_str());
}
struct Q { std::string raw; bool head; };
static Q gen_q(Gen &g) {
  Q q;
  q.head = false;
  switch (g.weighted({5, 3, 3, 2, 2})) {
  case 4: {                                         // a request of an exact size, around the size of the read buffer
    static const size_t S[] = {1498, 1499, 1500, 1501, 1502, 2999, 3000, 3001, 4501, 16383, 16384};
    std::string a = "POST /echo HTTP/1.1\r\nHost: h\r\nContent-Type: text/plain\r\nContent-Length: ";
    size_t want = g.pick(S), body = 1 + g.below(1200), used = a.size() + fmt("%zu", body).size() + 4 + body;
    if (g.coin() && used + 10 < want) a.insert(a.find("Content-Type"), "X-Pad: " + std::string(std::min<size_t>(900, want - used - 9), 'p') + "\r\n");
    for (body = 0; a.size() + fmt("%zu", body).size() + 4 + body < want; ) body++;
    q.raw = a + fmt("%zu", body) + "\r\n\r\n" + std::string(body, 'b');
    break;
  }
  case 0: {
    hm::GenOpts o;
    o.max_body = g.chance(1, 4) ? 300000 : 6000;
    o.methods = {"GET", "POST", "PUT", "HEAD"};
    hm::Model m = hm::gen_request(g, o);
    q.raw = m.bytes;
    q.head = m.method == "HEAD";
    break;
  }
  case 1: q.raw = fmt("GET /len?n=%zu HTTP/1.1\r\nHost: h\r\n\r\n", g.len(600000, {0, 1500, 16384, 65536})); break;
  case 2: { int f = (int)g.below(6); std::string rg = g.coin() ? fmt("Range: bytes=%d-%d\r\n", (int)g.below(1500), 1400 + (int)g.below(60000)) : ""; q.raw = fmt("%s /file/f%d.txt HTTP/1.1\r\nHost: h\r\n%s\r\n", (q.head = g.chance(1, 5)) ? "HEAD" : "GET", f, rg.c_str()); break; }
  case 3: q.raw = fmt("GET /echo?fill=%u&x=%s HTTP/1.1\r\nHost: h\r\n\r\n", g.below(100000), g.from("abc%20+", g.below(8)).c_str()); break;
  }
  if (q.raw.find("HTTP/1.1\r\nHost: h\r\n") != std::string::npos) {
    size_t p = q.raw.find("HTTP/1.1\r\nHost: h\r\n");
    if (g.chance(1, 5)) q.raw[p + 7] = '0';
    if (q.raw.find("X-Pad") == std::string::npos && q.raw[0] != 'P' && g.chance(1, 6)) q.raw.insert(p + 10, "Connection: close\r\n");
  }
  return q;
}
static std::string plain_reply(Ctx &c, const Q &q, oh::Reply *out) {
  Link l;
  std::string raw;
  if (!l.dial(port_plain) || !l.write(q.raw, {})) c.fail("plain connection: %s", l.error.c_str());
  *out = l.reply(q.head, raw);
  if (l.timeout) c.failk("time", "the plain connection gets no complete reply to \"%s\"", esc(q.raw, 150).c_str());
  return norm(*out);
}
static void good_link(Gen &g, Ctx &c) {
  Link l;
  const char *prio = PRIO[g.weighted({4, 2, 2, 1, 1})];
  bool ec = g.chance(2, 3);
  int nq = 1 + (int)g.below(4);
  l.pieces = gen_pieces(g);
  std::vector<std::pair<Q, std::vector<size_t>>> qs;
  bool ku = g.chance(1, 5);
  for (int i = 0; i < nq; i++) {
    Q q = gen_q(g);
    std::vector<size_t> cuts;
    if (g.chance(1, 4)) { static const size_t R[] = {1499, 1500, 1501, 3001, 16384}; size_t r = g.pick(R); for (size_t p = g.chance(1, 3) ? g.below(r) : r; p < q.raw.size(); p += r) if (p) cuts.push_back(p); }
    else if (!g.chance(1, 4)) cuts = hm::gen_cuts(g, q.raw.size());
    qs.push_back({q, cuts});
  }
  bool alert = g.chance(1, 6);
  c.d("[%s %s pieces=%zu:%zu ", prio, ec ? "ec" : "rsa", l.pieces.size(), l.pieces.empty() ? 0 : l.pieces[0]);
  bool open = false;
  for (auto &x : qs) {
    Q &q = x.first;
    c.d("\"%s\"/%zu cuts %s ", esc(q.raw, 60).c_str(), q.raw.size(), hm::cuts_str(x.second).substr(0, 60).c_str());
    oh::Reply pr, tr;
    std::string want = plain_reply(c, q, &pr), raw;
    if (!open) {
      l.end(false);
      l.rest.clear();
      l.ended = false;
      if (!l.dial(ec ? port_ec : port_tls)) c.fail("%s", l.error.c_str());
      if (!l.shake(prio)) c.failk(l.timeout ? "time" : "", "a TLS client gets no connection: %s", l.error.c_str());
      open = true;
    }
    if (ku && gnutls_protocol_get_version(l.s) == GNUTLS_TLS1_3) { gnutls_session_key_update(l.s, GNUTLS_KU_PEER); c.label("key updates"); }
    if (alert && gnutls_protocol_get_version(l.s) == GNUTLS_TLS1_2) {      // warnings end nothing
      if (g.coin() || x.second.empty()) gnutls_alert_send(l.s, GNUTLS_AL_WARNING, GNUTLS_A_UNRECOGNIZED_NAME);
      else l.warn = 1 + (int)g.below(x.second.size());
      c.label("warning alerts");
    }
    bool wrote = l.write(q.raw, x.second);
    tr = l.reply(q.head, raw);
    if (l.timeout) c.failk("stall", "over TLS (%s) no complete reply comes to \"%s\" (%zu bytes, cut %s); got %zu bytes", prio, esc(q.raw, 150).c_str(), q.raw.size(), hm::cuts_str(x.second).substr(0, 200).c_str(), raw.size());
    std::string got = norm(tr);
    if (!wrote && !tr.complete && !pr.complete) { open = false; continue; }   // refused by both before it was all sent
    if (got != want || tr.complete != pr.complete) {
      // A server that refuses a request before reading all of it resets the connection: the reply may be lost on either side.
      bool early = (!tr.complete && tr.code == 0) || (!pr.complete && pr.code == 0);
      if (early && q.raw.size() > 1500 && (pr.code == 0 || tr.code == 0) && (pr.code >= 400 || tr.code >= 400 || pr.code == tr.code)) { open = false; continue; }
      c.fail("\"%s\" (%zu bytes) is answered differently over TLS (%s) and in plain text, %s", esc(q.raw, 200).c_str(), q.raw.size(), prio, where(got, want).c_str());
    }
    if (tr.code == 200) {
      const std::string *a = tr.get("X-Secure"), *b = pr.get("X-Secure");
      if ((a && *a != "yes") || (b && *b != "no")) c.fail("the handler is told the wrong security of the connection: TLS %s, plain %s", a ? a->c_str() : "none", b ? b->c_str() : "none");
    }
    c.label(tr.code ? fmt("replies %d", tr.code) : "closed without reply");
    c.nontrivial = true;
    if (!tr.ok || !tr.complete || !tr.keep_alive() || tr.framing == oh::Reply::CLOSE || oh::lower(q.raw.substr(0, q.raw.find("\r\n\r\n"))).find("close") != std::string::npos) open = false;
    else if (q.raw.find("HTTP/1.0") != std::string::npos) open = false;
    if ((!tr.keep_alive() || tr.framing == oh::Reply::CLOSE) && tr.ok && tr.complete && tr.code == 200) {          // the end of the data is told, so that a cut can be known from it
      char b[100];
      int e = l.ended ? l.end_code : (int)l.read(b, sizeof b);
      if (l.timeout) c.failk("time", "the connection is not closed after its last reply");
      if (e > 0) c.fail("data after the last reply");
      if (e < 0) c.fail("the TLS connection ends without saying so: %s", gnutls_strerror(e));
      c.label("ended by the server");
    }
  }
  c.d("]");
  l.end(g.coin());
}
static void ws_link(Gen &g, Ctx &c) {
  Link l;
  l.pieces = gen_pieces(g);
  std::string want, wire;
  int n = 1 + (int)g.below(6);
  for (int i = 0; i < n; i++) {
    std::string m = g.from("abcdefgh", i == 0 && g.chance(1, 3) ? 16000 + g.below(44000) : 1 + g.len(3000, {125, 126, 250}));
    std::string f = "\x81";
    if (m.size() < 126) f += (char)(0x80 | m.size());
    else { f += (char)(0x80 | 126); f += (char)(m.size() >> 8); f += (char)m.size(); }
    static const char K[] = {0x12, 0x55, (char)0xa7, 0x3c};
    f.append(K, 4);
    for (size_t k = 0; k < m.size(); k++) f += (char)(m[k] ^ K[k & 3]);
    wire += f;
    want += m;
  }
  auto cuts = hm::gen_cuts(g, wire.size());
  const char *prio = PRIO[g.below(3)];
  c.d("[ws %s %d frames %zu bytes cuts %s]", prio, n, wire.size(), hm::cuts_str(cuts).substr(0, 80).c_str());
  if (!l.dial(port_ec)) c.fail("%s", l.error.c_str());
  if (!l.shake(prio)) c.failk(l.timeout ? "time" : "", "a TLS client gets no connection: %s", l.error.c_str());
  std::string raw;
  l.write("GET /ws HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n", {});
  oh::Reply r = l.reply(false, raw);
  if (r.code != 101) c.failk(l.timeout ? "stall" : "", "WebSocket handshake over TLS answered with %d", r.code);
  if (!l.write(wire, cuts)) c.fail("WebSocket frames over TLS are not taken: %s", l.error.c_str());
  std::string buf = l.rest, got;
  char b[8192];
  while (got.size() < want.size()) {
    while (buf.size() >= 2) {
      size_t h = 2, k = buf[1] & 127;
      if (k == 126) { if (buf.size() < 4) break; k = (unsigned char)buf[2] << 8 | (unsigned char)buf[3]; h = 4; }
      if (buf.size() < h + k) break;
      got += buf.substr(h, k);
      buf.erase(0, h + k);
    }
    if (got.size() >= want.size()) break;
    ssize_t k = l.read(b, sizeof b);
    if (k <= 0) c.failk(l.timeout ? "stall" : "", "%d WebSocket frames in TLS records cut at %s: only %zu of %zu bytes come back%s", n, hm::cuts_str(cuts).substr(0, 200).c_str(), got.size(), want.size(), l.timeout ? " in time" : " before the connection ends");
    buf.append(b, k);
  }
  if (got != want) c.fail("WebSocket frames over TLS come back changed, %s", where(got, want).c_str());
  c.label("WebSocket over TLS");
  c.nontrivial = true;
}
static bool ping(int port, std::string *why) {
  Link l;
  std::string raw;
  if (!l.dial(port, 20000) || !l.shake("NORMAL")) { *why = l.error; return false; }
  l.write("GET /len?n=5 HTTP/1.1\r\nHost: h\r\n\r\n", {});
  oh::Reply r = l.reply(false, raw);
  if (r.code != 200 || r.body.size() != 5) { *why = fmt("status %d, %zu bytes", r.code, r.body.size()); return false; }
  return true;
}
// What the client does wrong. Returns true if the server has to end the connection by itself.
static bool misbehave(int kind, unsigned arg, Ctx &c, Link &l, int port, int *want_calls) {
  *want_calls = 0;
  if (!l.dial(port)) c.fail("%s", l.error.c_str());
  switch (kind) {
  case 0: l.write(arg & 1 ? "GET /len?n=3 HTTP/1.1\r\nHost: h\r\n\r\n" : "POST / HTTP/1.1\r\nContent-Length: 5\r\n\r\nhello", {}); return true;
  case 1: { std::string s; unsigned x = arg | 1; for (unsigned i = 0; i < 20 + arg % 600; i++) { x = x * 1103515245 + 12345; s += (char)(x >> 16); } s[0] = 0x47; l.write(s, {}); return true; }
  case 2: return false;                                             // closes at once
  case 3: l.cut = 1 + arg % 150; l.half(); return false;     // part of a hello, then gone
  case 4: {                                                          // a hello of TLS 1.0 or SSL 3
    char v = (char)(arg & 1);
    std::string hs = std::string("\x03", 1) + v + std::string(32, 'r') + std::string("\0\0\x04\0\x2f\0\x35\x01\0", 9);
    std::string m = std::string("\x01\0\0", 3) + (char)hs.size() + hs;
    l.write(std::string("\x16\x03", 2) + v + std::string(1, '\0') + (char)m.size() + m, {});
    return true;
  }
  case 5: l.flip = 5 + arg % 120; l.shake(PRIO[arg % 3]); return false;     // damaged hello: refused, or still readable
  case 6: case 7: {                                                  // damaged or cut application data
    if (!l.shake(PRIO[arg % 3])) c.failk(l.timeout ? "time" : "", "a TLS client gets no connection: %s", l.error.c_str());
    std::string q = "GET /len?n=3 HTTP/1.1\r\nHost: h\r\nX-Filler: " + std::string(arg % 900, 'f') + "\r\n\r\n";
    if (kind == 6) l.flip = 6 + arg % 40; else l.cut = 1 + arg % (q.size() > 20 ? q.size() - 1 : 1);
    l.write(q, {});
    return kind == 6;
  }
  case 8: l.shake(PRIO[arg % 3]); return false;                      // handshake, then gone without a word
  }
  return false;
}
static const char *KIND[] = {"plain HTTP", "garbage", "closed at once", "part of a hello", "old version", "damaged hello", "damaged record", "part of a record", "abandoned after the handshake"};
static void bad_link(Gen &g, Ctx &c) {
  int kind = (int)g.below(9);
  unsigned arg = g.below(1 << 20);
  int times = g.chance(1, 6) ? 12 : 1;
  c.d("[%s %u x%d]", KIND[kind], arg, times);
  long before = 0;
  for (int i = 0; i < times; i++) {
    if (i == 4) {                                   // settled: what comes now must not accumulate
      for (int w = 0; w < 200 && pbt::open_fds() > base_fds; w++) usleep(5000);
      usleep(20000);
      before = pbt::live_allocs();
    }
    int n0 = calls, want = 0;
    Link l;
    bool ends = misbehave(kind, arg, c, l, g.chance(1, 3) ? port_tls : port_ec, &want);
    if (ends && !l.wait_eof(30000)) c.failk("time", "a connection with %s is not dropped", KIND[kind]);
    l.end(false);
    if (calls - n0 > want) c.fail("a connection with %s reached a handler", KIND[kind]);
  }
  std::string why;
  int n0 = calls;
  if (times == 12) {
    long grown = 0;
    for (int w = 0; w < 400; w++) { if (pbt::open_fds() <= base_fds && (grown = pbt::live_allocs() - before) < 8) break; usleep(10000); }
    if (grown >= 8) c.fail("8 connections with %s leave %ld allocations behind", KIND[kind], grown);
    c.label("repeated, allocations counted");
  }
  if (!ping(port_ec, &why)) c.failk("time", "after %s a good TLS client is not served: %s", KIND[kind], why.c_str());
  if (calls - n0 != 1) c.fail("%d handler calls for one good request after %s", calls - n0, KIND[kind]);
  c.label(KIND[kind]);
  c.nontrivial = true;
}
static void silent_link(Gen &g, Ctx &c) {
  int n = 1 + (int)g.below(4);
  c.d("[%d silent clients]", n);
  std::vector<std::unique_ptr<Link>> ls;
  for (int i = 0; i < n; i++) {
    std::unique_ptr<Link> l(new Link);
    if (!l->dial(port_quick)) c.fail("%s", l->error.c_str());
    switch (g.below(3)) {
    case 0: l->cut = 1 + g.below(100); l->half(); break;
    case 1:                                         // part of a record, then nothing
      if (!l->shake("NORMAL")) break;               // it may be late behind the others
      l->cut = 1 + g.below(60);
      l->write("GET /len?n=3 HTTP/1.1\r\nHost: h\r\nX-Filler: ffffffffffffffffffffffffffffffffff\r\n\r\n", {});
      break;
    }
    ls.push_back(std::move(l));
  }
  std::string why;
  bool ok = false;
  for (int t = 0; t < 4 && !ok; t++) ok = ping(port_quick, &why);
  if (!ok) c.failk("time", "%d clients that do not finish the handshake keep a good client from being served: %s", n, why.c_str());
  for (auto &l : ls) if (!l->wait_eof(30000)) c.failk("time", "a client that does not finish the handshake is kept beyond the timeout");
  c.label("silent clients");
  c.nontrivial = true;
}
void pbt::property(Gen &g, Ctx &c) {
  start();
  int n = 1 + (int)g.below(3);
  for (int i = 0; i < n; i++) {
    switch (g.weighted({24, 8, 12, 1})) {
    case 0: good_link(g, c); break;
    case 1: ws_link(g, c); break;
    case 2: bad_link(g, c); break;
    case 3: silent_link(g, c); break;
    }
  }
  for (int w = 0; pbt::open_fds() > base_fds; w++) {
    if (w > 4000) c.failk("time", "%d descriptors are open after all clients left, %d at the start", pbt::open_fds(), base_fds);
    usleep(5000);
  }
}
