// C28: a server can be configured, started, stopped and freed in any order, cleanly.
// Real servers on real loopback sockets; every descriptor, thread and allocation is accounted for.
#include "net.hpp"
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <gnutls/gnutls.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/socket.h>
#include <thread>
extern "C" {
#include <onion/https.h>
}
pbt::Config pbt::config;
static std::atomic<int> created, joined;
static gnutls_certificate_credentials_t cred;
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *d) { int r = __real_pthread_create(t, a, f, d); if (!r) created++; return r; }
int __wrap_pthread_join(pthread_t t, void **v) { int r = __real_pthread_join(t, v); if (!r) joined++; return r; }
int __wrap_pthread_detach(pthread_t t) { int r = __real_pthread_detach(t); if (!r) joined++; return r; }
}
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is a history of 4 to 30 operations on up to three servers (new, in each of the modes O_ONE, O_ONE_LOOP, O_POLL, O_THREADED, O_POOL, detached or in a thread of the harness; listen points at free, taken, foreign and nonsensical addresses; timeouts, threads, error handlers; listen, listen twice, requests, idle and half sent connections; stop from outside, from a handler, at once after listen, from two threads; listen again; free; plain and TLS listen points, with certificates in every form, promoted ones), or a server that is given its socket by the service manager; non-trivial when a server was stopped or freed while listening or listened again";
  gnutls_global_init();
  gnutls_certificate_allocate_credentials(&cred);
  config.leak_check = true;
  config.wall_limit_s = 60;
  config.flaky_retries = 4;
}
struct LP { std::string host; int port; bool good; const char *cert = nullptr; };      // cert: the one it must show, null: plain HTTP
// ---- certificates, in every way they can be given ----
static std::string tls_file(const char *n) { return std::string(VERIF_DIR) + "/h/tls/" + n; }
static const struct { const char *what, *cert; int type; const char *file, *arg; bool arg_is_file; } CERT[] = {
  {"rsa pem", "rsa.der", O_SSL_CERTIFICATE_KEY, "rsa.pem", "rsa.key", true},
  {"ec pem", "ec.der", O_SSL_CERTIFICATE_KEY, "ec.pem", "ec.key", true},
  {"rsa der", "rsa.der", O_SSL_CERTIFICATE_KEY | O_SSL_DER, "rsa.der", "rsa.key.der", true},
  {"ec der", "ec.der", O_SSL_CERTIFICATE_KEY | O_SSL_DER, "ec.der", "ec.key.der", true},
  {"pkcs12", "rsa.der", O_SSL_CERTIFICATE_PKCS12 | O_SSL_DER, "rsa.p12", "secret", false},
};
// ---- a connection, plain or not ----
struct Wire {
  int fd = -1;
  gnutls_session_t s = nullptr;
  std::string rest;
  double dialed = 0;
  ~Wire() { end(); }
  void forget() { if (s) { gnutls_deinit(s); s = nullptr; } }       // and leave the connection open
  void end() { forget(); if (fd >= 0) { close(fd); fd = -1; } }
  std::string hello(const LP &l) {                                  // empty when all went well
    if (!l.cert) return "";
    struct timeval tv = {20, 0};
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    gnutls_init(&s, GNUTLS_CLIENT | GNUTLS_NO_SIGNAL);
    gnutls_set_default_priority(s);
    gnutls_credentials_set(s, GNUTLS_CRD_CERTIFICATE, cred);
    gnutls_transport_set_int(s, fd);
    int r;
    do r = gnutls_handshake(s); while (r < 0 && !gnutls_error_is_fatal(r) && r != GNUTLS_E_AGAIN);
    if (r < 0) return fmt("the handshake fails: %s", gnutls_strerror(r));
    unsigned n = 0;
    const gnutls_datum_t *d = gnutls_certificate_get_peers(s, &n);
    std::string want = oh::read_file(tls_file(l.cert));
    if (!d || n < 1 || std::string((const char *)d->data, d->size) != want) return "it shows another certificate";
    return "";
  }
  bool send(const std::string &d) {
    if (!s) return net::send_all(fd, d);
    size_t a = 0;
    while (a < d.size()) { ssize_t r = gnutls_record_send(s, d.data() + a, d.size() - a); if (r == GNUTLS_E_AGAIN || r == GNUTLS_E_INTERRUPTED) continue; if (r <= 0) return false; a += r; }
    return true;
  }
  net::Got reply() {
    if (!s) return net::read_reply(fd, rest, false);
    net::Got g;
    std::string buf;
    buf.swap(rest);
    char b[16384];
    double until = net::now() + 20;
    for (;;) {
      if (g.eof || buf.find("\r\n\r\n") != std::string::npos) { g.r = oh::read_reply(buf, false, g.eof); if (g.eof || (g.r.ok && g.r.complete)) break; }
      ssize_t n = gnutls_record_recv(s, b, sizeof b);
      if (n == GNUTLS_E_AGAIN || n == GNUTLS_E_INTERRUPTED) { if (net::now() > until) { g.timeout = true; break; } continue; }
      if (n <= 0) { g.eof = true; continue; }
      buf.append(b, n);
    }
    g.raw = buf;
    if (g.r.ok && g.r.complete && g.r.consumed < buf.size()) rest = buf.substr(g.r.consumed);
    return g;
  }
};
struct Srv {
  int id = 0, mode = 0, timeout = 5000, listens = 0;
  bool detached = false, listening = false, custom_err = false, signals = false;
  onion *o = nullptr;
  std::vector<LP> lps;
  std::thread th;
  std::atomic<bool> returned{false};
  std::atomic<int> ret{0};
  std::atomic<int> served{0}, data_freed{0};
  bool has_data = false;
  bool one() const { return mode & O_ONE; }
  bool just_one() const { return one() && (mode & O_ONE_LOOP) != O_ONE_LOOP; }
  bool serves(size_t i) const { return lps[i].good && (!one() || i == 0); }
  bool can() const { for (size_t i = 0; i < lps.size(); i++) if (serves(i)) return true; return false; }
};
static std::atomic<int> client_freed;
static void free_client(void *p) { ((Srv *)p)->data_freed++; }
static onion_connection_status handler(void *p, onion_request *req, onion_response *res) {
  Srv *s = (Srv *)p;
  s->served++;
  const char *path = onion_request_get_path(req);
  if (!strcmp(path, "stop")) onion_listen_stop(s->o);
  if (!strcmp(path, "declined")) return OCS_NOT_PROCESSED;
  onion_response_printf(res, "server %d %s", s->id, path);
  return OCS_PROCESSED;
}
static onion_connection_status errors(void *p, onion_request *, onion_response *res) {
  onion_response_set_code(res, 404);
  onion_response_printf(res, "own error of %d", ((Srv *)p)->id);
  return OCS_PROCESSED;
}
struct Idle { int fd; Srv *s; double t; int timeout; };
// A server that gets its listening socket from the service manager, as descriptor 3.
static void activated(Gen &g, Ctx &c) {
  std::string addr = net::own_addr();
  int port = net::free_port(addr), other = net::free_port(addr);
  int keep = fcntl(3, F_DUPFD_CLOEXEC, 100);         // what is there now
  int fd = net::listen_at(addr, port);
  if (fd < 0) { if (keep >= 0) close(keep); return; }
  if (fd != 3) { dup2(fd, 3); close(fd); }
  static const int M[] = {O_POLL, O_POOL, O_THREADED, O_ONE_LOOP};
  Srv s;
  s.mode = M[g.below(4)];
  s.detached = g.coin();
  bool tls = g.chance(1, 3), early = g.coin();
  LP l = {addr, port, true, tls ? "rsa.der" : nullptr};
  c.d("activated(%#x%s%s%s) ", s.mode, s.detached ? " detached" : "", tls ? " tls" : "", early ? " client first" : "");
  Wire first;
  if (early) first.fd = net::dial(addr, port);       // the manager listens before the server is there
  s.o = onion_new(s.mode | O_SYSTEMD | O_NO_SIGTERM | (s.detached ? O_DETACH_LISTEN : 0));
  onion_set_root_handler(s.o, onion_handler_new(handler, &s, NULL));
  onion_listen_point *p = tls ? onion_https_new() : onion_http_new();
  if (tls) onion_https_set_certificate(p, O_SSL_CERTIFICATE_KEY, tls_file("rsa.pem").c_str(), tls_file("rsa.key").c_str());
  onion_add_listen_point(s.o, addr.c_str(), fmt("%d", other).c_str(), p);
  setenv("LISTEN_PID", fmt("%d", (int)getpid()).c_str(), 1);
  setenv("LISTEN_FDS", "1", 1);
  std::string bad;
  if (s.detached) { if (onion_listen(s.o)) bad = "onion_listen fails with a given socket"; }
  else s.th = std::thread([&s] { s.ret = onion_listen(s.o); s.returned = true; });
  for (int i = 0, n = 1 + (int)g.below(3); i < n && bad.empty(); i++) {
    Wire w;
    if (!i && early && first.fd >= 0) std::swap(w.fd, first.fd);
    else w.fd = net::dial(addr, port);
    if (w.fd < 0) { bad = "no connection through the given socket"; break; }
    std::string e = w.hello(l);
    if (!e.empty()) { bad = e; break; }
    w.send(fmt("GET /p%d HTTP/1.1\r\nHost: x\r\n\r\n", i));
    net::Got r = w.reply();
    if (!r.r.ok || !r.r.complete || r.r.code != 200 || r.r.body != fmt("server 0 p%d", i)) bad = fmt("the answer through the given socket is \"%s\"", esc(r.raw).c_str());
  }
  int no = net::dial(addr, other);
  if (no >= 0) { close(no); if (bad.empty()) bad = "it also listens at its own address"; }
  double until = net::now() + 20;
  while (!(onion_flags(s.o) & O_LISTENING) && net::now() < until) usleep(200);
  onion_listen_stop(s.o);
  if (s.th.joinable()) s.th.join();
  unsetenv("LISTEN_PID");
  unsetenv("LISTEN_FDS");
  no = net::dial(addr, port);
  if (no >= 0) { close(no); if (bad.empty()) bad = "the given socket still accepts connections after the server was stopped"; }
  onion_free(s.o);
  first.end();
  if (keep >= 0) { dup2(keep, 3); fcntl(3, F_SETFD, FD_CLOEXEC); close(keep); }
  if (!bad.empty()) c.fail("%s", bad.c_str());
  c.label("socket activation");
  c.nontrivial = true;
}
void pbt::property(Gen &g, Ctx &c) {
  if (g.chance(1, 30)) { activated(g, c); return; }
  std::string addr = net::own_addr();
  int fds0 = open_fds(), th0 = net::threads();
  int c0 = created, j0 = joined;
  std::vector<std::unique_ptr<Srv>> sv;
  std::vector<Idle> idle;
  std::vector<int> taken;
  std::string bad;
  auto fail = [&](const std::string &m) { if (bad.empty()) bad = m; };
  int nid = 0;
  Srv *last = nullptr;                                // the one that a signal stops
  bool nontrivial = false;
  auto name = [&](Srv *s) { return fmt("server %d (mode %#x%s)", s->id, s->mode, s->detached ? ", detached" : ""); };
  auto drop_idle = [&](Srv *s) { for (size_t i = 0; i < idle.size();) if (!s || idle[i].s == s) { close(idle[i].fd); idle.erase(idle.begin() + i); } else i++; };
  auto wait_ret = [&](Srv *s, const char *why) {      // the thread of the harness that listens must end
    if (s->detached || !s->th.joinable()) return;
    double until = net::now() + 20;
    while (!s->returned && net::now() < until) usleep(200);
    if (!s->returned) c.fail("%s: onion_listen does not return after %s", name(s).c_str(), why);
    s->th.join();
  };
  auto dial = [&](Srv *s, size_t i, Wire &w) {        // a detached server may need a moment to be there
    double until = net::now() + 8;
    for (;;) {
      w.dialed = net::now();
      w.fd = net::dial(s->lps[i].host, s->lps[i].port);
      if (w.fd >= 0) break;
      if (net::now() > until) { fail(fmt("%s does not accept connections at listen point %zu: %s", name(s).c_str(), i, strerror(-w.fd))); return false; }
      usleep(500);
    }
    std::string e = w.hello(s->lps[i]);
    if (e.empty()) return true;
    if (s->timeout < 0 || net::now() - w.dialed < s->timeout / 2000.0) fail(fmt("%s at listen point %zu: %s", name(s).c_str(), i, e.c_str()));
    w.end();
    return false;
  };
  auto refused = [&](Srv *s, const char *when) {
    for (size_t i = 0; i < s->lps.size(); i++) {
      if (!s->lps[i].good) continue;
      int fd = net::dial(s->lps[i].host, s->lps[i].port);
      if (fd >= 0) { close(fd); fail(fmt("%s still accepts connections at its listen point %zu %s", name(s).c_str(), i, when)); }
    }
  };
  auto stop = [&](Srv *s, int how) {
    bool was = s->listening;
    c.d("stop%d(%d) ", s->id, how);
    if (was && s->one() && !s->detached && how == 1) how = 0;
    if (s->one()) drop_idle(s);                       // it is serving them, one by one
    if (was && how == 3 && last == s && s->signals) { // by a signal
      c.label("stopped by a signal");
      raise(g.coin() ? SIGTERM : SIGINT);
    } else if (was && how == 1 && !s->just_one()) {   // from a handler
      size_t i = 0;
      while (!s->serves(i)) i++;
      Wire w;
      if (!dial(s, i, w)) { onion_listen_stop(s->o); how = 0; }
      else {
        w.send("GET /stop HTTP/1.1\r\nHost: x\r\n\r\n");
        net::Got q = w.reply();
        if (q.timeout) fail(fmt("%s: the request that stops it gets no answer", name(s).c_str()));
        w.end();
      }
      if (s->detached && g.coin()) onion_listen_stop(s->o);        // also from outside
    } else if (was && how == 2) {
      std::thread t([&] { onion_listen_stop(s->o); });
      onion_listen_stop(s->o);
      t.join();
    } else onion_listen_stop(s->o);
    if (!was) return;
    nontrivial = true;
    s->listening = false;
    if (how == 1 && !s->just_one()) {                 // the thread that serves is still ending
      if (s->detached) { double u = net::now() + 20; while (net::now() < u) { int fd = net::dial(s->lps[0].host, s->lps[0].port); if (fd < 0) break; close(fd); usleep(200); } onion_listen_stop(s->o); }
    }
    refused(s, "after it was stopped");
    wait_ret(s, "onion_listen_stop");
    if (s->ret) fail(fmt("%s: onion_listen returned %d", name(s).c_str(), (int)s->ret));
  };
  auto request = [&](Srv *s, size_t i, bool keep) {
    Wire w;
    if (!dial(s, i, w)) { if (s->just_one()) { s->listening = false; stop(s, 0); } return; }
    double t0 = w.dialed;
    int k = s->just_one() ? 1 : 1 + (int)g.below(3);
    for (int q = 0; q < k; q++) {
      std::string path = g.chance(1, 5) ? "declined" : fmt("p%d", (int)g.below(100));
      std::string text = "GET /" + path + " HTTP/1.1\r\nHost: x\r\n\r\n";
      if (g.chance(1, 3)) {                           // in two pieces, a moment apart
        size_t cut = 1 + g.below(text.size() - 1);
        w.send(text.substr(0, cut));
        usleep(200 + g.below(3000));
        text.erase(0, cut);
      }
      w.send(text);
      double took = net::now() - t0;
      net::Got r = w.reply();
      t0 = net::now();
      std::string want = path != "declined" ? fmt("server %d %s", s->id, path.c_str()) : s->custom_err ? fmt("own error of %d", s->id) : "";
      if (s->timeout > 0 && took > s->timeout / 2000.0 && !r.r.complete) break;      // this harness was held up
      if (!r.r.ok || !r.r.complete) { fail(fmt("%s does not answer at listen point %zu%s: \"%s\"", name(s).c_str(), i, r.timeout ? " (no answer in time)" : "", esc(r.raw).c_str())); break; }
      if (r.r.code != (path == "declined" ? 404 : 200) || (!want.empty() && r.r.body != want)) { fail(fmt("%s answers %d \"%s\" to /%s", name(s).c_str(), r.r.code, esc(r.r.body).c_str(), path.c_str())); break; }
      if (!r.r.keep_alive() || s->one()) break;
    }
    if (s->just_one()) {                              // that was all it had to do
      w.end();
      s->listening = false;
      if (s->detached) { double u = net::now() + 20; while ((onion_flags(s->o) & O_LISTENING) && net::now() < u) usleep(200); }
      wait_ret(s, "its only request");
      if (!s->detached) refused(s, "after its only request");
      return;
    }
    if (keep && !s->one() && idle.size() < 12) { w.forget(); idle.push_back({w.fd, s, net::now(), s->timeout}); w.fd = -1; }
  };
  // Gives a certificate to the server, or to a listen point.
  auto set_cert = [&](size_t k, onion *o, onion_listen_point *p) {
    std::string file = tls_file(CERT[k].file), arg = CERT[k].arg_is_file ? tls_file(CERT[k].arg) : CERT[k].arg;
    auto set = [&](int type, const std::string &f, const std::string &a) {
      return o ? onion_set_certificate(o, (onion_ssl_certificate_type)type, f.c_str(), a.c_str()) : onion_https_set_certificate(p, (onion_ssl_certificate_type)type, f.c_str(), a.c_str());
    };
    if (g.chance(1, 5)) {                             // mistakes first
      int e = 0;
      switch (g.below(4)) {
      case 0: e = set(CERT[k].type, tls_file("none.pem"), arg); break;
      case 1: e = set(CERT[k].type, file, CERT[k].arg_is_file ? tls_file("none.key") : std::string("wrong")); break;
      case 2: e = set(CERT[k].type ^ O_SSL_DER, file, arg); break;
      default: e = set(77, file, arg); break;
      }
      if (e >= 0) fail("an unusable certificate is accepted");
      c.d("(refused) ");
    }
    if (set(CERT[k].type, file, arg) < 0) fail(fmt("a certificate (%s) is refused", CERT[k].what));
    if (g.chance(1, 5) && set(O_SSL_CERTIFICATE_TRUST, tls_file("ec.pem"), "") < 0) fail("a trusted certificate is refused");
    if (g.chance(1, 5) && set(O_SSL_CERTIFICATE_TRUST | O_SSL_DER, tls_file("ec.der"), "") < 0) fail("a trusted certificate (der) is refused");
    if (g.chance(1, 5) && (set(O_SSL_CERTIFICATE_TRUST, tls_file("rsa.pem"), "") < 0 || set(O_SSL_CERTIFICATE_CRL, tls_file("rsa.crl"), "") < 0)) fail("a revocation list is refused");
    c.label(fmt("certificate: %s", CERT[k].what));
    c.d("(%s) ", CERT[k].what);
  };
  int ops = 4 + (int)g.below(27);
  bool slow = g.chance(1, 14);                        // waits for a real timeout
  for (int op = 0; op < ops && bad.empty(); op++) {
    Srv *s = sv.empty() ? nullptr : sv[g.below(sv.size())].get();
    size_t k = slow ? g.weighted({3, 3, 2, 6, 7, 6, 1, 1, idle.empty() ? 0u : 5u}) : g.weighted({3, 3, 2, 6, 7, 3, 4, 2, 1, 1});
    if (!s) k = 0;
    switch (k) {
    case 0: {                                         // new
      if (sv.size() >= 3) break;
      std::unique_ptr<Srv> n(new Srv);
      n->id = nid++;
      static const int M[] = {O_POLL, O_POOL, O_THREADED, O_ONE_LOOP, O_ONE};
      n->mode = M[g.weighted({4, 5, 2, 3, 1})];
      n->detached = g.chance(3, 5);
      n->signals = g.coin();
      n->o = onion_new(n->mode | (n->detached ? O_DETACH_LISTEN : 0) | (n->signals ? 0 : O_NO_SIGTERM) | (g.chance(1, 4) ? O_SYSTEMD : 0));
      last = n.get();
      if (!n->o) c.fail("onion_new fails");
      onion_set_root_handler(n->o, onion_handler_new(handler, n.get(), NULL));
      if (slow && !n->one()) { n->timeout = g.chance(1, 3) ? 1300 : 2000; onion_set_timeout(n->o, n->timeout); }
      if (n->one() && g.chance(1, 3)) { n->timeout = 900; onion_set_timeout(n->o, n->timeout); }
      c.d("new%d(%#x%s) ", n->id, n->mode, n->detached ? " detached" : "");
      sv.push_back(std::move(n));
      s = sv.back().get();
    } // fall through: most servers get a listen point at once
    case 1: {                                         // add listen point
      if (s->listening || s->lps.size() >= 4) break;
      LP l;
      switch (g.weighted({12, 2, 1, 1})) {
      case 0: l = {addr, net::free_port(addr), true}; break;
      case 1: { int p = net::free_port(addr); int fd = net::listen_at(addr, p); if (fd < 0) continue; taken.push_back(fd); l = {addr, p, false}; break; }
      case 2: l = {"192.0.2.7", net::free_port(addr), false}; break;     // not an address of this host
      default: l = {"300.1.2.3", 80, false}; break;                      // no address at all
      }
      bool dup = false;
      for (auto &o : sv) for (auto &x : o->lps) if (x.host == l.host && x.port == l.port) dup = true;
      if (dup) break;
      if (s->lps.empty() && g.chance(1, 3)) {         // by its parts, which may change
        if (g.coin()) { onion_set_hostname(s->o, "192.0.2.9"); onion_set_port(s->o, "1"); }
        if (g.coin()) { onion_set_port(s->o, fmt("%d", l.port).c_str()); onion_set_hostname(s->o, l.host.c_str()); }
        else { onion_set_hostname(s->o, l.host.c_str()); onion_set_port(s->o, fmt("%d", l.port).c_str()); }
        c.d("parts ");
      } else {
        onion_listen_point *p;
        if (g.chance(1, 3)) {
          size_t k = g.below(5);
          p = onion_https_new();
          if (!p) c.fail("onion_https_new fails");
          set_cert(k, nullptr, p);
          l.cert = CERT[k].cert;
        } else {
          p = onion_http_new();
          if (g.chance(1, 8) && onion_https_set_certificate(p, O_SSL_CERTIFICATE_KEY, tls_file("rsa.pem").c_str(), tls_file("rsa.key").c_str()) >= 0) fail("a plain listen point takes a certificate");
        }
        if (onion_add_listen_point(s->o, l.host.c_str(), fmt("%d", l.port).c_str(), p)) fail("onion_add_listen_point fails");
      }
      s->lps.push_back(l);
      c.d("point%d(%s%s %s) ", s->id, l.good ? "free" : "unusable", l.cert ? " tls" : "", l.good ? "" : l.host.c_str());
      for (size_t i = 0; i <= s->lps.size(); i++) {
        onion_listen_point *p = onion_get_listen_point(s->o, (int)i);
        if ((p != NULL) != (i < s->lps.size())) fail(fmt("onion_get_listen_point(%zu) with %zu points gives %p", i, s->lps.size(), (void *)p));
      }
      break;
    }
    case 2: {                                         // configure
      if (s->listening) break;
      switch (g.below(7)) {
      case 6: if (s->lps.size() && !s->lps[0].cert) { size_t k = g.below(5); set_cert(k, s->o, nullptr); s->lps[0].cert = CERT[k].cert; c.d("promote%d ", s->id); nontrivial = true; } break;
      case 5: if (s->lps.size() && s->lps[0].good) { s->lps[0].port = net::free_port(addr); onion_set_port(s->o, fmt("%d", s->lps[0].port).c_str()); c.d("move%d ", s->id); } break;
      case 0: if (!slow) { static const int T[] = {-1, 300, 900, 1000, 5000, 60000}; s->timeout = T[g.below(6)]; onion_set_timeout(s->o, s->timeout); c.d("timeout%d(%d) ", s->id, s->timeout); } break;
      case 1: { int n = (int)g.below(7); onion_set_max_threads(s->o, n); c.d("threads%d(%d) ", s->id, n); break; }
      case 2: if (!s->custom_err) { onion_set_internal_error_handler(s->o, onion_handler_new(errors, s, NULL)); s->custom_err = true; c.d("errors%d ", s->id); } break;
      case 3: if (!s->has_data) { onion_set_client_data(s->o, s, free_client); s->has_data = true; if (onion_client_data(s->o) != s) fail("onion_client_data gives another value"); } break;
      case 4: onion_set_user(s->o, g.coin() ? "nobody" : "somebody"); break;
      }
      break;
    }
    case 3: {                                         // listen
      if (s->lps.empty()) break;                      // would be port 8080, maybe somebody else's
      if (s->listening) {
        if (s->detached && !s->one()) { if (onion_listen(s->o) == 0) fail(name(s) + ": listening twice gives no error"); c.d("listen%d(again) ", s->id); }
        break;
      }
      c.d("listen%d ", s->id);
      if (s->listens++) nontrivial = true;
      s->returned = false;
      s->ret = 0;
      bool can = s->can();
      if (s->detached) {
        double t0 = net::now();
        int r = onion_listen(s->o);
        if (net::now() - t0 > 20) fail(name(s) + ": onion_listen does not return at once");
        if (can && r) fail(fmt("%s: onion_listen returns %d", name(s).c_str(), r));
        s->listening = can && !r;
      } else {
        s->th = std::thread([s] { s->ret = onion_listen(s->o); s->returned = true; });
        double until = net::now() + 20;
        if (can) {
          size_t i = 0;
          while (!s->serves(i)) i++;
          int fd = -1;
          // a connection would be the only request of O_ONE: look at the flags there
          while (net::now() < until && !s->returned) {
            if (s->just_one()) { if (onion_flags(s->o) & O_LISTENING) { fd = 1 << 20; break; } }
            else if ((fd = net::dial(s->lps[i].host, s->lps[i].port)) >= 0) { close(fd); break; }
            usleep(200);
          }
          if (fd < 0) { fail(fmt("%s does not listen (onion_listen %s)", name(s).c_str(), s->returned ? fmt("returned %d", (int)s->ret).c_str() : "is running")); }
          else {
            until = net::now() + 20;
            while (!(onion_flags(s->o) & O_LISTENING) && !s->returned && net::now() < until) usleep(200);
            s->listening = true;
          }
        } else {
          wait_ret(s, "finding no address to listen at");
          if (s->ret == 0) fail(fmt("%s: onion_listen with no usable address returns 0", name(s).c_str()));
        }
      }
      if (s->listening && g.chance(1, 5)) { c.d("at once: "); stop(s, g.coin() ? 0 : 3); }
      break;
    }
    case 4: {                                         // request
      if (s->lps.empty()) break;
      size_t i = g.below(s->lps.size());
      if (!s->listening) { refused(s, "while it is not listening"); break; }
      if (s->serves(i)) { c.d("get%d.%zu ", s->id, i); request(s, i, g.chance(1, 3)); }
      break;
    }
    case 5: {                                         // idle or half sent connection
      if (!s->listening || idle.size() >= 12 || s->just_one()) break;
      if (s->one() && (s->timeout < 0 || s->timeout > 500)) break;
      size_t i = g.below(s->lps.size());
      if (!s->serves(i)) break;
      Wire w;
      if (!dial(s, i, w)) break;
      c.d("idle%d ", s->id);
      if (g.coin()) w.send(std::string("GET /half HTTP/1.1\r\nHost: x\r\n\r\n").substr(0, g.below(31)));
      if (g.chance(1, 4)) break;
      w.forget();
      idle.push_back({w.fd, s, net::now(), s->timeout});
      w.fd = -1;
      break;
    }
    case 6: stop(s, (int)g.weighted({4, 3, 2, 3})); break;
    case 7: {                                         // free, listening or not
      if (s->listening && !s->detached) stop(s, 0);
      if (s->one()) drop_idle(s);
      if (s->listening) nontrivial = true;
      c.d("free%d ", s->id);
      onion_free(s->o);
      last = nullptr;
      s->listening = false;
      refused(s, "after it was freed");
      for (size_t i = 0; i < idle.size();) {
        if (idle[i].s != s) { i++; continue; }
        if (!net::wait_eof(idle[i].fd, 20000)) fail(name(s) + ": a connection stays open after the server was freed");
        close(idle[i].fd);
        idle.erase(idle.begin() + i);
      }
      if (s->data_freed != (s->has_data ? 1 : 0)) fail(fmt("%s: its client data was released %d times", name(s).c_str(), (int)s->data_freed));
      for (size_t i = 0; i < sv.size(); i++) if (sv[i].get() == s) { sv.erase(sv.begin() + i); break; }
      break;
    }
    case 9: {                                         // a client that takes its time, less than the timeout
      if (!s->listening || s->just_one() || s->lps.empty()) break;
      if (s->timeout > 0 && s->timeout < 900) break;
      size_t i = g.below(s->lps.size());
      if (!s->serves(i)) break;
      Wire w;
      if (!dial(s, i, w)) break;
      double t0 = w.dialed;
      std::string q = "GET /slow HTTP/1.1\r\nHost: x\r\n\r\n";
      size_t cut = 1 + g.below(q.size() - 1);
      usleep(1000 * (1 + g.below(40)));
      w.send(q.substr(0, cut));
      usleep(1000 * (1 + g.below(60)));
      w.send(q.substr(cut));
      double d = net::now() - t0;
      net::Got r = w.reply();
      c.d("slow%d ", s->id);
      if ((s->timeout < 0 || d < s->timeout / 1000.0 * 0.6) && (!r.r.ok || !r.r.complete || r.r.code != 200))
        fail(fmt("%s: a request sent within %.3f s is not answered (timeout %d ms): \"%s\"", name(s).c_str(), d, s->timeout, esc(r.raw).c_str()));
      break;
    }
    case 8: {                                         // wait for idle connections to be closed
      if (!slow) break;
      for (auto &i : idle) if (i.s->listening && (i.timeout == 2000 || i.timeout == 1300)) {
        bool e = net::wait_eof(i.fd, 25000);
        double d = net::now() - i.t;
        if (!e) fail(fmt("%s: an idle connection is open after %.1f s, the timeout is %d ms", name(i.s).c_str(), d, i.timeout));
        else if (d < i.timeout / 1000.0 - 0.25) fail(fmt("%s: an idle connection is closed after %.2f s, the timeout is %d ms", name(i.s).c_str(), d, i.timeout));
        c.label(fmt("idle connection timed out, %d ms", i.timeout));
        break;
      }
      drop_idle(nullptr);
      slow = false;
      c.d("idled ");
      break;
    }
    }
  }
  for (auto &p : sv) {
    Srv *s = p.get();
    if (s->one()) drop_idle(s);
    if (s->listening && !s->detached) { onion_listen_stop(s->o); }
    else if (s->listening) nontrivial = true;
    if (s->th.joinable()) wait_ret(s, "onion_listen_stop");
    onion_free(s->o);
    s->listening = false;
    if (bad.empty()) refused(s, "after it was freed");
    if (s->data_freed != (s->has_data ? 1 : 0)) fail(fmt("%s: its client data was released %d times", name(s).c_str(), (int)s->data_freed));
  }
  for (auto &i : idle) { if (bad.empty() && !net::wait_eof(i.fd, 20000)) fail("a connection stays open after its server was freed"); close(i.fd); }
  for (int fd : taken) close(fd);
  sv.clear();
  if (!bad.empty()) c.fail("%s", bad.c_str());
  double until = net::now() + 10;
  while (net::threads() > th0 && net::now() < until) usleep(200);
  if (net::threads() > th0) c.fail("%d threads are left", net::threads() - th0);
  int lost = (created - c0) - (joined - j0);
  if (lost > 0) c.fail("%d threads of the library were never joined", lost);
  if (open_fds() != fds0) c.fail("%d descriptors were open before the history and %d after it", fds0, open_fds());
  c.nontrivial = nontrivial;
}
