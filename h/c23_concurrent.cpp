// C23: concurrent clients each get their own correct replies, without data races.
// A real server with a thread pool on loopback sockets, real client threads; under TSan and ASan.
#include "net.hpp"
#include "fakeredis.hpp"
#include "perturb.hpp"
#include <atomic>
#include <errno.h>
#include <mutex>
#include <pthread.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <thread>
#include <deque>
extern "C" {
#include <onion/handlers/exportlocal.h>
#include <onion/sessions_sqlite3.h>
#include <onion/sessions_redis.h>
}
pbt::Config pbt::config;
static std::string dir;
static int rport;
static std::vector<std::string> files;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is either a server (thread pool of 2 to 8 threads, or a single poller thread; sessions in memory or in SQLite) with 2 to 8 client threads running generated request scripts at once (echo of every request part, uploads, files, long chunked replies, own and shared sessions, shared dictionaries, WebSocket echoes, slow and abandoned connections), maybe stopped or freed meanwhile; or 2 to 6 threads working on shared dictionaries, references and session stores directly; non-trivial when two or more threads used shared state at once";
  config.wall_limit_s = 80;
  config.cpu_limit_s = 120;
  config.flaky_retries = 6;
  config.trust_first = true;
  dir = pbt::scratch() + "/files";
  rport = fakeredis::start();
  mkdir(dir.c_str(), 0755);
  static const size_t N[] = {0, 1, 1499, 1500, 20000, 70000};
  static const char *E[] = {"txt", "html", "png", "css", "js", "bin"};
  for (int i = 0; i < 6; i++) {
    std::string d;
    for (size_t k = 0; k < N[i]; k++) d += (char)('a' + (k * 7 + i * 3 + k / 97) % 26);
    files.push_back(d);
    oh::write_file(dir + fmt("/f%d.%s", i, E[i]), d);
  }
}
static const char *EXTS[] = {"txt", "html", "png", "css", "js", "bin"};
// ---- the application ----
static onion_dict *shared;                         // counters, used under its own lock
static onion_dict *published;                      // replaced as a whole
static std::mutex pub_mx;
static unsigned h32(const std::string &s) { unsigned h = 2166136261u; for (unsigned char c : s) h = (h ^ c) * 16777619u; return h; }
static onion_connection_status h_echo(void *, onion_request *req, onion_response *res) {
  onion_response_set_header(res, "X-Path", onion_request_get_fullpath(req));
  const char *q = onion_request_get_query(req, "q"), *p = onion_request_get_post(req, "p"), *hd = onion_request_get_header(req, "X-Id"), *ck = onion_request_get_cookie(req, "ck"), *f = onion_request_get_file(req, "up");
  std::string fc = f ? oh::read_file(f) : "";
  socklen_t n = 0;
  sockaddr_in *a = (sockaddr_in *)onion_request_get_sockadd_storage(req, &n);
  const char *who = onion_request_get_client_description(req);
  onion_response_printf(res, "path=%s q=%s p=%s id=%s ck=%s file=%u:%zu from=%s %d", onion_request_get_path(req), q ? q : "-", p ? p : "-", hd ? hd : "-", ck ? ck : "-", h32(fc), fc.size(), who ? who : "-", a && n >= sizeof *a && a->sin_family == AF_INET ? ntohs(a->sin_port) : -1);
  return OCS_PROCESSED;
}
static onion_connection_status h_big(void *, onion_request *req, onion_response *res) {
  int n = atoi(onion_request_get_queryd(req, "n", "0"));
  const char *tag = onion_request_get_queryd(req, "tag", "");
  for (int i = 0; i < n; i++) onion_response_printf(res, "%s-%d;", tag, i);
  return OCS_PROCESSED;
}
static onion_connection_status h_session(void *, onion_request *req, onion_response *res) {
  onion_dict *d = onion_request_get_session_dict(req);
  onion_dict_lock_write(d);
  const char *v = onion_dict_get(d, "n");
  int n = (v ? atoi(v) : 0) + 1;
  if (onion_request_get_query(req, "yield")) sched_yield();
  onion_dict_add(d, "n", fmt("%d", n).c_str(), OD_DUP_ALL | OD_REPLACE);
  const char *who = onion_request_get_query(req, "who");
  if (who && n == 1) onion_dict_add(d, "who", who, OD_DUP_ALL | OD_REPLACE);
  const char *owner = onion_dict_get(d, "who");
  std::string o = owner ? owner : "-";
  onion_dict_unlock(d);
  onion_response_printf(res, "n=%d who=%s", n, o.c_str());
  return OCS_PROCESSED;
}
static onion_connection_status h_drop(void *, onion_request *req, onion_response *res) {
  onion_request_session_free(req);
  onion_response_write0(res, "dropped");
  return OCS_PROCESSED;
}
static onion_connection_status h_count(void *, onion_request *req, onion_response *res) {
  const char *k = onion_request_get_queryd(req, "k", "x");
  onion_dict_lock_write(shared);
  const char *v = onion_dict_get(shared, k);
  int n = (v ? atoi(v) : 0) + 1;
  onion_dict_add(shared, k, fmt("%d", n).c_str(), OD_DUP_ALL | OD_REPLACE);
  onion_dict_unlock(shared);
  onion_response_printf(res, "%d", n);
  return OCS_PROCESSED;
}
static onion_connection_status h_pub(void *, onion_request *req, onion_response *res) {
  const char *set = onion_request_get_query(req, "set");
  if (set) {
    onion_dict *n = onion_dict_new(), *old;
    for (int i = 0; i < 5; i++) onion_dict_add(n, fmt("k%d", i).c_str(), set, OD_DUP_ALL);
    { std::lock_guard<std::mutex> l(pub_mx); old = published; published = n; }
    onion_dict_free(old);
    onion_response_write0(res, "set");
    return OCS_PROCESSED;
  }
  onion_dict *d;
  { std::lock_guard<std::mutex> l(pub_mx); d = onion_dict_dup(published); }
  std::string s;
  for (int i = 0; i < 5; i++) { const char *v = onion_dict_get(d, fmt("k%d", i).c_str()); s += std::string(v ? v : "?") + ","; }
  onion_dict_free(d);
  onion_response_write(res, s.data(), s.size());
  return OCS_PROCESSED;
}
static onion_connection_status h_file(void *, onion_request *req, onion_response *res) {
  std::string p = dir + "/" + onion_request_get_path(req);
  return onion_shortcut_response_file(p.c_str(), req, res);
}
static onion_connection_status ws_cb(void *, onion_websocket *ws, ssize_t n) {
  char b[256];
  while (n > 0) {
    int k = onion_websocket_read(ws, b, n < 250 ? n : 250);
    if (k <= 0) return OCS_CLOSE_CONNECTION;
    onion_websocket_write(ws, b, k);
    n -= k;
  }
  return OCS_NEED_MORE_DATA;
}
static onion_connection_status h_ws(void *, onion_request *req, onion_response *res) {
  onion_websocket *ws = onion_websocket_new(req, res);
  if (!ws) { onion_response_write0(res, "no websocket"); return OCS_PROCESSED; }
  onion_websocket_set_callback(ws, ws_cb);
  return OCS_WEBSOCKET;
}
static onion_connection_status h_slow(void *, onion_request *, onion_response *res) {
  onion_response_write0(res, "slow ");
  usleep(3000);
  onion_response_write0(res, "done");
  return OCS_PROCESSED;
}
// Answered later, by a thread of the application.
struct Later { onion_request *req; onion_response *res; int n; std::string tag; bool flush; };
static std::mutex later_mx;
static std::deque<Later> later;
static onion_connection_status h_later(void *, onion_request *req, onion_response *res) {
  Later l{req, res, atoi(onion_request_get_queryd(req, "n", "0")), onion_request_get_queryd(req, "tag", ""), onion_request_get_query(req, "flush") != NULL};
  if (l.flush) { onion_response_write0(res, "wait;"); onion_response_flush(res); }
  else onion_response_write0(res, "wait;");
  std::lock_guard<std::mutex> g(later_mx);
  later.push_back(l);
  return OCS_YIELD;
}
static void answer_later(onion *o, std::atomic<bool> *end) {
  std::vector<Later> now;
  for (;;) {
    bool last = *end;
    { std::lock_guard<std::mutex> g(later_mx); while (!later.empty()) { now.push_back(later.front()); later.pop_front(); } }
    if (now.empty()) { if (last) return; usleep(300); continue; }
    for (auto &l : now) {
      while (onion_poller_get(onion_get_poller(o), l.req->connection.fd)) usleep(50);       // until the server let go of it
      for (int i = 0; i < l.n; i++) { onion_response_printf(l.res, "%s-%d;", l.tag.c_str(), i); if (l.flush) onion_response_flush(l.res); }
      onion_response_free(l.res);
      onion_request_free(l.req);
    }
    now.clear();
  }
}
// ---- client scripts ----
struct Req { int kind; std::string raw, want; bool reconnect = false, prefix = false, head = false; int arg = 0; std::vector<std::string> msgs; };
struct Client { std::vector<Req> reqs; std::string cookie, from; bool group = false; std::string bad; bool timeout = false; std::vector<int> counts, group_n; int done = 0; };
static std::atomic<bool> stopping;
static std::string ws_frame(const std::string &m) {
  std::string f = "\x81";
  if (m.size() < 126) f += (char)(0x80 | m.size());
  else { f += (char)(0x80 | 126); f += (char)(m.size() >> 8); f += (char)m.size(); }
  static const char K[] = {0x12, 0x55, (char)0xa7, 0x3c};
  f.append(K, 4);
  for (size_t i = 0; i < m.size(); i++) f += (char)(m[i] ^ K[i & 3]);
  return f;
}
static void run_client(Client *c, std::string addr, int port, std::atomic<int> *go) {
  go->fetch_sub(1);
  while (go->load() > 0) sched_yield();
  int fd = -1;
  std::string rest;
  auto fail = [&](const std::string &m) { if (c->bad.empty()) c->bad = m; };
  for (auto &r : c->reqs) {
    if (!c->bad.empty()) break;
    if (fd < 0 || r.reconnect || r.kind == 9) {
      if (fd >= 0) close(fd);
      rest.clear();
      fd = net::dial(addr, port, 10000, c->from);
      if (fd < 0) { if (!stopping) { c->timeout = fd == -ETIMEDOUT; fail(fmt("the server refuses a connection: %s", strerror(-fd))); } return; }
    }
    std::string raw = r.raw;
    size_t at = raw.find("@SESSION@");
    if (at != std::string::npos) raw.replace(at, 9, c->cookie.empty() ? "" : "Cookie: sessionid=" + c->cookie + "\r\n");
    if (!net::send_all(fd, raw)) { if (stopping) { close(fd); return; } fail("the server closed a connection while it was being written to"); break; }
    if (r.kind == 8) { close(fd); fd = -1; continue; }           // abandoned
    net::Got g = net::read_reply(fd, rest, false, 25000);
    if (!g.r.ok || !g.r.complete) {
      if (stopping && g.eof && !g.timeout) { close(fd); return; }
      c->timeout = g.timeout;
      fail(fmt("%s to \"%s\": \"%s\"", g.timeout ? "no complete answer in time" : "incomplete answer", esc(raw, 120).c_str(), esc(g.raw, 200).c_str()));
      break;
    }
    if (r.kind == 9) {
      if (g.r.code != 101) { fail(fmt("WebSocket handshake answered with %d", g.r.code)); break; }
      std::string buf = rest;
      rest.clear();
      bool dead = false;
      for (auto &m : r.msgs) {
        if (!net::send_all(fd, ws_frame(m))) { dead = true; break; }
        std::string got;
        double until = net::now() + 25;
        while (got.size() < m.size()) {
          while (buf.size() >= 2) {
            size_t h = 2, n = buf[1] & 127;
            if (n == 126) { if (buf.size() < 4) break; n = (unsigned char)buf[2] << 8 | (unsigned char)buf[3]; h = 4; }
            if (buf.size() < h + n) break;
            got += buf.substr(h, n);
            buf.erase(0, h + n);
          }
          if (got.size() >= m.size()) break;
          char b[4096];
          struct timeval tv = {5, 0};
          setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
          ssize_t k = recv(fd, b, sizeof b, 0);
          if (k > 0) buf.append(b, k);
          else if (k == 0 || net::now() > until) { dead = true; c->timeout = k != 0; break; }
        }
        if (dead) break;
        if (got != m) { fail(fmt("a WebSocket message \"%s\" comes back as \"%s\"", esc(m, 60).c_str(), esc(got, 60).c_str())); break; }
      }
      close(fd);
      fd = -1;
      if (dead && !stopping) fail("a WebSocket connection ended without reason");
      if (dead) return;
      c->done++;
      continue;
    }
    if (g.r.code != 200) { fail(fmt("status %d to \"%s\"", g.r.code, esc(raw, 120).c_str())); break; }
    const std::string *sc = g.r.get("Set-Cookie");
    if (sc && sc->compare(0, 10, "sessionid=") == 0) c->cookie = sc->substr(10, sc->find(';') - 10);
    const std::string &b = g.r.body;
    if (r.kind == 5) c->counts.push_back(atoi(b.c_str()));
    else if (r.kind == 4) c->group_n.push_back(atoi(b.c_str() + 2));
    else if (r.kind == 6) {
      std::string v = b.substr(0, b.find(','));
      if (b != v + "," + v + "," + v + "," + v + "," + v + ",") fail("a published dictionary is seen half changed or released: \"" + esc(b) + "\"");
    } else if (b != (r.kind == 0 ? r.want + net::own_end(fd) : r.want)) fail(fmt("\"%s\" is answered with \"%s\" (%zu bytes) and not with \"%s\" (%zu bytes)", esc(raw, 160).c_str(), esc(b, 160).c_str(), b.size(), esc(r.want, 160).c_str(), r.want.size()));
    if (r.kind == 0) { const std::string *xp = g.r.get("X-Path"); if (!xp || "GET " + *xp != raw.substr(raw.find('/') - 4, xp->size() + 4)) { if (!xp || raw.find(" " + *xp) == std::string::npos) fail("the reply has the headers of another request: " + (xp ? *xp : "none")); } }
    c->done++;
    if (!g.r.keep_alive() || raw.find("Connection: close") != std::string::npos || r.kind == 12) { close(fd); fd = -1; }
  }
  if (fd >= 0) close(fd);
}
static void server_case(Gen &g, Ctx &c) {
  bool sqlite = g.chance(1, 4), redis = sqlite && g.chance(1, 3);      // redis stands in for it
  int threads = g.chance(1, 6) ? 1 : 2 + (int)g.below(7);
  int nc = 2 + (int)g.below(7);
  int stop = (int)g.weighted({6, 2, 1});                 // 0 at the end, 1 stopped meanwhile, 2 freed meanwhile
  bool groups = !sqlite && g.coin();
  shared = onion_dict_new();
  published = onion_dict_new();
  for (int i = 0; i < 5; i++) onion_dict_add(published, fmt("k%d", i).c_str(), "first", OD_DUP_ALL);
  onion *o = onion_new((threads == 1 ? O_POLL : O_POOL) | O_DETACH_LISTEN | O_NO_SIGTERM);
  onion_set_max_threads(o, threads);
  onion_set_timeout(o, g.chance(1, 4) ? 60000 : 30000);
  std::string db = pbt::scratch() + "/s.db";
  if (redis) { fakeredis::flush(); onion_set_session_backend(o, onion_sessions_redis_new("127.0.0.1", rport)); }
  else if (sqlite) { unlink(db.c_str()); onion_set_session_backend(o, onion_sessions_sqlite3_new(db.c_str())); }
  onion_url *u = onion_root_url(o);
  onion_url_add(u, "^echo/", (void *)h_echo);
  onion_url_add(u, "^big", (void *)h_big);
  onion_url_add(u, "^session$", (void *)h_session);
  onion_url_add(u, "^drop$", (void *)h_drop);
  onion_url_add(u, "^count$", (void *)h_count);
  onion_url_add(u, "^pub$", (void *)h_pub);
  onion_url_add(u, "^file/", (void *)h_file);
  onion_url_add(u, "^ws$", (void *)h_ws);
  onion_url_add(u, "^slow$", (void *)h_slow);
  onion_url_add(u, "^later$", (void *)h_later);
  onion_url_add_static(u, "^static$", "static text", 200);
  onion_url_add_handler(u, "^dir/", onion_handler_export_local_new(dir.c_str()));
  std::string addr = net::own_addr();
  int port = net::free_port(addr);
  onion_add_listen_point(o, addr.c_str(), fmt("%d", port).c_str(), onion_http_new());
  c.d("server threads=%d clients=%d stop=%d%s: ", threads, nc, stop, redis ? " redis" : sqlite ? " sqlite" : "");
  std::vector<std::unique_ptr<Client>> cl;
  int npub = 0, ncounts = 0, nlater = 0;
  for (int i = 0; i < nc; i++) {
    std::unique_ptr<Client> k(new Client);
    k->group = groups && i % 3 != 2;
    k->from = fmt("127.66.%d.%d", (int)g.below(200), 1 + i);         // each client comes from an address of its own
    int n = 2 + (int)g.below(14);
    int own = 0;
    for (int q = 0; q < n; q++) {
      Req r;
      static const std::vector<uint32_t> W = {6, 3, 4, 2, 3, 4, 3, 2, 1, 2, 1, 2, 2};
      r.kind = (int)g.weighted(W);
      if (r.kind == 12 && stop == 2) r.kind = 7;
      r.reconnect = g.chance(1, 5);
      std::string tag = fmt("c%dq%d", i, q), H = "Host: h\r\n";
      auto get = [&](const std::string &p, const std::string &extra = "") { return "GET " + p + " HTTP/1.1\r\n" + H + extra + "\r\n"; };
      switch (r.kind) {
      case 0: {
        std::string id = "id" + tag, ck = "v" + tag, pv = g.from("abcdefgh", g.below(40));
        bool post = g.coin(), up = post && g.coin();
        std::string file = up ? std::string(g.below(5000), (char)('A' + i)) : "";
        std::string path = "/echo/" + tag, body;
        if (up) body = "--bnd\r\nContent-Disposition: form-data; name=\"p\"\r\n\r\n" + pv + "\r\n--bnd\r\nContent-Disposition: form-data; name=\"up\"; filename=\"x.bin\"\r\n\r\n" + file + "\r\n--bnd--\r\n";
        else body = "p=" + pv;
        r.raw = std::string(post ? "POST " : "GET ") + path + "?q=q" + tag + " HTTP/1.1\r\n" + H + "X-Id: " + id + "\r\nCookie: ck=" + ck + "\r\n";
        if (post) r.raw += fmt("Content-Length: %zu\r\nContent-Type: %s\r\n", body.size(), up ? "multipart/form-data; boundary=bnd" : "application/x-www-form-urlencoded");
        r.raw += "\r\n" + (post ? body : "");
        r.want = "path=" + tag + " q=q" + tag + " p=" + (post ? pv : "-") + " id=" + id + " ck=" + ck + fmt(" file=%u:%zu from=", h32(file), file.size());
        break;
      }
      case 1: { int m = (int)g.below(900); r.raw = get(fmt("/big?n=%d&tag=%s", m, tag.c_str())); for (int x = 0; x < m; x++) r.want += fmt("%s-%d;", tag.c_str(), x); break; }
      case 2: case 10: {
        int f = (int)g.below(6);
        r.raw = get(fmt("/%s/f%d.%s", r.kind == 10 ? "dir" : "file", f, EXTS[f]));
        r.want = files[f];
        r.kind = 2;
        break;
      }
      case 3:                                          // own session: counts alone
        if (k->group) { r.kind = 7; r.raw = get("/static"); r.want = "static text"; break; }
        if (own && g.chance(1, 5)) { own = 0; r.raw = get("/drop", "@SESSION@"); r.want = "dropped"; break; }
        own++;
        r.raw = get("/session?who=" + fmt("c%dx%d", i, q - own) + (g.coin() ? "&yield=1" : ""), "@SESSION@");
        r.want = "@OWN@";
        break;
      case 4:                                          // session shared by a group
        if (!k->group) { r.kind = 7; r.raw = get("/slow"); r.want = "slow done"; break; }
        r.raw = get(std::string("/session") + (g.coin() ? "?yield=1" : ""), "@SESSION@");
        break;
      case 5: ncounts++; r.raw = get("/count?k=all"); break;
      case 6: if (g.coin()) { npub++; r.kind = 7; r.raw = get("/pub?set=" + tag); r.want = "set"; } else r.raw = get("/pub"); break;
      case 7: r.raw = get(g.coin() ? "/static" : "/slow"); r.want = r.raw.find("static") != std::string::npos ? "static text" : "slow done"; break;
      case 8: r.raw = get("/echo/" + tag).substr(0, 5 + g.below(20)); if (g.coin()) r.raw = get(stop != 2 && g.coin() ? "/later?n=300&flush=1&tag=gone" : "/big?n=3000&tag=gone"); break;
      case 9: {
        r.raw = get("/ws", "Upgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n");
        int m = 1 + (int)g.below(4);
        for (int x = 0; x < m; x++) r.msgs.push_back(tag + fmt("m%d", x) + std::string(g.below(300), (char)('a' + i)));
        break;
      }
      case 12: { int m = (int)g.below(60); r.raw = get(fmt("/later?n=%d&tag=%s%s", m, tag.c_str(), g.coin() ? "&flush=1" : "")); r.want = "wait;"; for (int x = 0; x < m; x++) r.want += fmt("%s-%d;", tag.c_str(), x); nlater++; break; }
      case 11: r.kind = 7; r.raw = get("/static", "Connection: close\r\n"); r.want = "static text"; break;
      }
      k->reqs.push_back(r);
    }
    // expectations of own sessions, in order
    int n_own = 0;
    std::string who;
    for (auto &r : k->reqs) {
      if (r.want == "dropped") n_own = 0;
      if (r.want == "@OWN@") {
        size_t a = r.raw.find("who=") + 4;
        if (++n_own == 1) who = r.raw.substr(a, r.raw.find_first_of("& ", a) - a);
        r.want = fmt("n=%d who=%s", n_own, who.c_str());
      }
    }
    c.d("%zu ", k->reqs.size());
    cl.push_back(std::move(k));
  }
  int lr = onion_listen(o);
  if (lr) c.fail("onion_listen returns %d", lr);
  stopping = false;
  int base = 0;
  if (groups) {                                       // one shared session
    Client first;
    Req r;
    r.kind = 4;
    r.raw = "GET /session HTTP/1.1\r\nHost: h\r\n\r\n";
    first.reqs.push_back(r);
    std::atomic<int> z{0};
    run_client(&first, addr, port, &z);
    if (!first.bad.empty() || first.cookie.empty()) { std::string b = first.bad; onion_free(o); c.fail("creating the shared session: %s", b.c_str()); }
    base = 1;
    for (auto &k : cl) if (k->group) k->cookie = first.cookie;
  }
  std::atomic<bool> end{false};
  std::thread lt;
  if (stop != 2) lt = std::thread(answer_later, o, &end);
  std::atomic<int> go{nc};
  std::vector<std::thread> th;
  for (auto &k : cl) th.emplace_back(run_client, k.get(), addr, port, &go);
  if (stop) {
    usleep(g.below(4) ? g.below(8000) : 0);
    stopping = true;
    if (stop == 1) { onion_listen_stop(o); end = true; lt.join(); }      // what is to be answered later needs the server
    else onion_free(o);
    if (stop == 1 && g.coin()) { onion_free(o); stop = 2; }
    if (stop == 1) {                                  // connections of a stopped server are served by nobody
      onion_free(o);
      stop = 2;
    }
  }
  for (auto &t : th) t.join();
  std::vector<int> counts, gn;
  if (nlater) c.label("answered later");
  std::string bad;
  bool time = false;
  int busy = 0;
  for (auto &k : cl) {
    if (!k->bad.empty() && bad.empty()) { bad = k->bad; time = k->timeout; }
    counts.insert(counts.end(), k->counts.begin(), k->counts.end());
    gn.insert(gn.end(), k->group_n.begin(), k->group_n.end());
    if (k->done) busy++;
  }
  if (lt.joinable()) {
    // an abandoned request may still have to reach its handler
    std::string rest;
    int fd = net::dial(addr, port);
    if (fd >= 0) { net::send_all(fd, "GET /static HTTP/1.1\r\nConnection: close\r\n\r\n"); net::read_reply(fd, rest, false, 5000); ::close(fd); }
    if (stop != 2) onion_listen_stop(o);
    end = true;
    lt.join();
  }
  if (stop != 2) onion_free(o);
  onion_dict_free(shared);
  onion_dict_free(published);
  if (!bad.empty()) c.failk(time ? "time" : "", "%s", bad.c_str());
  std::sort(counts.begin(), counts.end());
  std::sort(gn.begin(), gn.end());
  if (!stopping) {
    for (size_t i = 0; i < counts.size(); i++) if (counts[i] != (int)i + 1) c.fail("a counter in a shared dictionary gave %d where %zu was due: an increment was lost or repeated", counts[i], i + 1);
    for (size_t i = 0; i < gn.size(); i++) if (gn[i] != (int)i + 1 + base) c.fail("a counter in a shared session gave %d where %zu was due: an increment was lost or repeated", gn[i], i + 1 + base);
  } else for (size_t i = 1; i < counts.size(); i++) if (counts[i] == counts[i - 1]) c.fail("a counter in a shared dictionary gave %d twice", counts[i]);
  if (stopping) c.label("stopped with requests in flight");
  c.label(redis ? "server, Redis sessions" : sqlite ? "server, SQLite sessions" : "server");
  c.nontrivial = busy >= 2;
}
// ---- dictionaries and stores without a server ----
struct DOp { int k, a, b; };
static void dict_case(Gen &g, Ctx &c) {
  int nt = 2 + (int)g.below(5);
  c.d("dict threads=%d: ", nt);
  onion_dict *d = onion_dict_new();
  onion_dict *sub = onion_dict_new();
  onion_dict_add(sub, "name", "sub", OD_DUP_ALL);
  onion_dict_add(d, "sub", sub, OD_DUP_KEY | OD_FREE_VALUE | OD_DICT);
  onion_sessions *ss = onion_sessions_new();
  char *sid = onion_sessions_create(ss);
  std::vector<std::vector<DOp>> ops(nt);
  for (auto &v : ops) { int n = 5 + (int)g.below(40); for (int i = 0; i < n; i++) v.push_back({(int)g.weighted({5, 3, 4, 2, 3, 3, 3, 3, 1}), (int)g.below(12), (int)g.below(1000)}); c.d("%d ", n); }
  std::vector<std::string> bad(nt);
  std::vector<std::map<std::string, std::string>> mine(nt);
  std::atomic<int> go{nt}, incs{0};
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
    go--;
    while (go > 0) sched_yield();
    auto fail = [&](const std::string &m) { if (bad[t].empty()) bad[t] = m; };
    std::vector<onion_dict *> refs;
    std::vector<std::string> own;
    for (auto &o : ops[t]) {
      std::string k = fmt("t%d-%d", t, o.a), v = fmt("%d", o.b);
      switch (o.k) {
      case 0: onion_dict_lock_write(d); onion_dict_add(d, k.c_str(), v.c_str(), OD_DUP_ALL | OD_REPLACE); onion_dict_unlock(d); mine[t][k] = v; break;
      case 1: onion_dict_lock_write(d); onion_dict_remove(d, k.c_str()); onion_dict_unlock(d); mine[t].erase(k); break;
      case 2: {
        onion_dict_lock_read(d);
        const char *r = onion_dict_get(d, k.c_str());
        std::string got = r ? r : "<none>";
        onion_dict_unlock(d);
        std::string want = mine[t].count(k) ? mine[t][k] : "<none>";
        if (got != want) fail("key " + k + " of this thread only reads " + got + ", " + want + " was stored");
        break;
      }
      case 3: { onion_dict_lock_write(d); const char *r = onion_dict_get(d, "counter"); int n = (r ? atoi(r) : 0) + 1; onion_dict_add(d, "counter", fmt("%d", n).c_str(), OD_DUP_ALL | OD_REPLACE); onion_dict_unlock(d); incs++; break; }
      case 4: {                                         // references
        onion_dict_lock_read(d);
        onion_dict *r = onion_dict_dup(onion_dict_get_dict(d, "sub"));
        onion_dict_unlock(d);
        refs.push_back(r);
        break;
      }
      case 5: if (!refs.empty()) { const char *n = onion_dict_get(refs.back(), "name"); if (!n || strcmp(n, "sub")) fail("a held dictionary lost its contents"); onion_dict_free(refs.back()); refs.pop_back(); } break;
      case 6: {                                         // replaced by an equal one: holders keep the old
        onion_dict *n = onion_dict_new();
        onion_dict_add(n, "name", "sub", OD_DUP_ALL);
        onion_dict_lock_write(d);
        onion_dict_add(d, "sub", n, OD_DUP_KEY | OD_FREE_VALUE | OD_DICT | OD_REPLACE);
        onion_dict_unlock(d);
        break;
      }
      case 7: {                                         // session store
        if (own.empty() || o.b % 3 == 0) {
          char *id = onion_sessions_create(ss);
          onion_dict *s = onion_sessions_get(ss, id);
          if (!s) fail("a new session is not found");
          else { onion_dict_add(s, "owner", fmt("%d", t).c_str(), OD_DUP_ALL | OD_REPLACE); onion_sessions_save(ss, id, s); onion_dict_free(s); }
          own.push_back(id);
          onion_low_free(id);
        } else if (o.b % 3 == 1) {
          onion_dict *s = onion_sessions_get(ss, own[o.a % own.size()].c_str());
          const char *w = s ? onion_dict_get(s, "owner") : NULL;
          if (!w || atoi(w) != t) fail(s ? "a session has the contents of another" : "a session was lost");
          if (s) onion_dict_free(s);
          onion_dict *sh = onion_sessions_get(ss, sid);
          if (!sh) fail("the shared session was lost");
          else { onion_dict_lock_write(sh); onion_dict_add(sh, fmt("t%d", t).c_str(), v.c_str(), OD_DUP_ALL | OD_REPLACE); onion_dict_unlock(sh); onion_dict_free(sh); }
        } else {
          size_t i = o.a % own.size();
          onion_sessions_remove(ss, own[i].c_str());
          onion_dict *s = onion_sessions_get(ss, own[i].c_str());
          if (s) { fail("a removed session is still there"); onion_dict_free(s); }
          own.erase(own.begin() + i);
        }
        break;
      }
      case 8: { onion_dict_lock_read(d); onion_block *b = onion_dict_to_json(d); int n = onion_dict_count(d); onion_dict_unlock(d); if (!b || n < 1) fail("a shared dictionary does not turn into JSON"); if (b) onion_block_free(b); break; }
      }
    }
    for (auto r : refs) { const char *n = onion_dict_get(r, "name"); if (!n || strcmp(n, "sub")) fail("a held dictionary lost its contents"); onion_dict_free(r); }
  });
  for (auto &t : th) t.join();
  std::string err;
  for (auto &b : bad) if (!b.empty() && err.empty()) err = b;
  size_t total = 1;
  for (int t = 0; t < nt; t++) {
    total += mine[t].size();
    for (auto &kv : mine[t]) { const char *v = onion_dict_get(d, kv.first.c_str()); if (err.empty() && (!v || kv.second != v)) err = "key " + kv.first + " holds " + oh::str(v) + " and not " + kv.second; }
  }
  const char *n = onion_dict_get(d, "counter");
  if (n) total++;
  if (err.empty() && (n ? atoi(n) : 0) != incs) err = fmt("%d increments leave the counter at %s", (int)incs, n ? n : "nothing");
  if (err.empty() && onion_dict_count(d) != (int)total) err = fmt("the dictionary has %d keys, %zu were left", onion_dict_count(d), total);
  onion_dict_free(d);
  onion_low_free(sid);
  onion_sessions_free(ss);
  if (!err.empty()) c.fail("%s", err.c_str());
  c.label("dictionaries and session stores");
  c.nontrivial = true;
}
// ---- every thread with pollers and servers of its own ----
struct Mine { onion_poller *p; int fd, called = 0, closed = 0; std::string got; };
static int mine_ready(void *v) { Mine *m = (Mine *)v; char b[16]; ssize_t r = read(m->fd, b, sizeof b); m->called++; if (r > 0) m->got.assign(b, r); onion_poller_stop(m->p); return m->called > 1 ? -1 : 0; }
static void mine_closed(void *v) { Mine *m = (Mine *)v; m->closed++; close(m->fd); }
struct Kept { std::atomic<int> *freed; int owner; };
static void kept_free(void *v) { Kept *k = (Kept *)v; (*k->freed)++; if (k->owner < 0) abort(); k->owner = -1; delete k; }
static void own_case(Gen &g, Ctx &c) {
  onion *common = onion_new(O_POOL | O_NO_SIGTERM | O_NO_SIGPIPE);     // whose data they all set
  std::atomic<int> freed{0}, given{0};
  int nt = 2 + (int)g.below(5);
  std::vector<std::vector<int>> ops(nt);
  c.d("own pollers and servers, threads=%d: ", nt);
  for (auto &v : ops) { int n = 1 + (int)g.below(6); for (int i = 0; i < n; i++) v.push_back((int)g.below(16)); c.d("%d ", n); }
  std::vector<std::string> bad(nt);
  std::atomic<int> go{nt};
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
    go--;
    while (go > 0) sched_yield();
    auto fail = [&](const std::string &m) { if (bad[t].empty()) bad[t] = m; };
    for (int o : ops[t]) {
      if (o == 1 || o == 5) {
        given++;
        onion_set_client_data(common, new Kept{&freed, t}, kept_free);
        if (!onion_client_data(common)) fail("the server's client data is not there");
        continue;
      }
      if (o % 4 == 3) {                                 // a server, asked without a socket
        onion *s = onion_new(O_POOL | O_NO_SIGTERM | O_NO_SIGPIPE);
        if (!s) { fail("no server is made"); continue; }
        onion_set_root_handler(s, onion_handler_new(h_slow, NULL, NULL));
        onion_free(s);
        continue;
      }
      Mine m;
      int p[2];
      m.p = onion_poller_new(4);
      if (!m.p) { fail("no poller is made"); continue; }
      if (pipe(p)) { onion_poller_free(m.p); continue; }
      m.fd = p[0];
      perturb::opened(p[0]);
      onion_poller_slot *sl = onion_poller_slot_new(p[0], mine_ready, &m);
      if (!sl) { fail("no slot is made"); close(p[0]); close(p[1]); onion_poller_free(m.p); continue; }
      onion_poller_slot_set_shutdown(sl, mine_closed, &m);
      if (o & 4) onion_poller_slot_set_timeout(sl, 60000);
      onion_poller_add(m.p, sl);
      std::string w = fmt("%d.%d", t, o);
      if (write(p[1], w.data(), w.size()) > 0) onion_poller_poll(m.p);
      if (m.called != 1 || m.got != w) fail(fmt("the callback of a thread's own descriptor ran %d times and read \"%s\"", m.called, m.got.c_str()));
      if (o & 8) onion_poller_remove(m.p, p[0]);
      onion_poller_free(m.p);
      if (m.closed != 1) fail(fmt("the shutdown of a thread's own descriptor ran %d times", m.closed));
      close(p[1]);
    }
  });
  for (auto &t : th) t.join();
  onion_free(common);
  if (freed != given) c.fail("client data was set %d times and released %d times", (int)given, (int)freed);
  for (auto &b : bad) if (!b.empty()) c.fail("%s", b.c_str());
  c.label("own pollers and servers");
  c.nontrivial = true;
}
// ---- one poller that several threads poll while others add to it ----
struct Shared { int fd; std::atomic<int> *left; std::atomic<int> closed{0}, inside{0}, n{0}; int overlap = 0, after = 0; std::string got; };
static int shared_ready(void *v) {
  Shared *s = (Shared *)v;
  if (s->inside++) s->overlap++;
  if (s->closed) s->after++;
  char b[7];
  ssize_t r = read(s->fd, b, sizeof b);
  if (r > 0) { s->got.append(b, r); s->n += (int)r; }
  s->inside--;
  return r > 0 ? 0 : -1;
}
static void shared_closed(void *v) { Shared *s = (Shared *)v; close(s->fd); s->closed++; (*s->left)--; }
static void shared_case(Gen &g, Ctx &c) {
  struct Op { int timeout, writes, kind; };              // kind 0: the peer closes, 1: it is left to its time-out, 2: removed
  int nt = 1 + (int)g.below(5), np = 1 + (int)g.below(4);
  std::vector<std::vector<Op>> ops(nt);
  std::vector<std::vector<std::unique_ptr<Shared>>> sl(nt);
  std::vector<std::vector<std::string>> sent(nt);
  std::atomic<int> left{0}, done{0};
  c.d("one poller, polled by %d, added to by %d:", np, nt);
  for (int t = 0; t < nt; t++) {
    int n = 1 + (int)g.below(8);
    for (int i = 0; i < n; i++) {
      Op o;
      o.kind = (int)g.below(3);
      o.timeout = o.kind == 1 ? 1 + (int)g.below(40) : g.coin() ? 30000 + (int)g.below(60000) : -1;
      o.writes = o.kind == 2 ? 0 : (int)g.below(4);
      ops[t].push_back(o);
      c.d(" %d/%d/%d", o.kind, o.timeout, o.writes);
    }
    c.d(";");
  }
  onion_poller *p = onion_poller_new(4);
  if (!p) { c.fail("no poller is made"); return; }
  std::vector<std::thread> pollers, adders;
  std::vector<std::string> bad(nt);
  for (int i = 0; i < np; i++) pollers.emplace_back([&] { onion_poller_poll(p); done++; });
  for (int t = 0; t < nt; t++) adders.emplace_back([&, t] {
    for (auto &o : ops[t]) {
      int sp[2];
      if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sp)) continue;
      perturb::opened(sp[0]);
      perturb::opened(sp[1]);
      sl[t].emplace_back(new Shared);
      Shared *s = sl[t].back().get();
      s->fd = sp[0];
      s->left = &left;
      left++;
      onion_poller_slot *slot = onion_poller_slot_new(sp[0], shared_ready, s);
      onion_poller_slot_set_shutdown(slot, shared_closed, s);
      if (o.timeout > 0) onion_poller_slot_set_timeout(slot, o.timeout);
      onion_poller_add(p, slot);
      std::string all;
      for (int i = 0; i < o.writes; i++) {
        std::string m = fmt("<%d.%zu.%d>", t, sl[t].size(), i);
        if (send(sp[1], m.data(), m.size(), MSG_NOSIGNAL) != (ssize_t)m.size()) break;
        all += m;
        perturb::point();
      }
      sent[t].push_back(all);
      if (o.kind == 2) {
        if (s->closed && bad[t].empty()) bad[t] = "a descriptor that nothing happened to was closed";
        onion_poller_remove(p, sp[0]);
        if (s->closed != 1 && bad[t].empty()) bad[t] = fmt("the shutdown of a removed descriptor ran %d times", (int)s->closed);
      } else if (o.kind == 0) {                           // a hang-up comes before what is unread
        double until = net::now() + 20;
        while (s->n < (int)all.size() && net::now() < until) usleep(100);
      } else {                                            // the peer stays open until its time-out
        double until = net::now() + 20;
        while (!s->closed && net::now() < until) usleep(500);
        if (!s->closed && bad[t].empty()) bad[t] = fmt("a descriptor with a time-out of %d ms is still there after 20 s", o.timeout);
      }
      close(sp[1]);
    }
  });
  for (auto &t : adders) t.join();
  double until = net::now() + 20;
  while (left && net::now() < until) usleep(500);
  int stayed = left;
  until = net::now() + 20;                                // one that begins only now would miss a single order
  while (done < np && net::now() < until) { onion_poller_stop(p); usleep(2000); }
  for (auto &t : pollers) t.join();
  onion_poller_free(p);
  for (auto &b : bad) if (!b.empty()) c.fail("%s", b.c_str());
  if (stayed) c.fail("%d descriptors whose peers are gone are still in the poller", stayed);
  for (int t = 0; t < nt; t++) for (size_t i = 0; i < sl[t].size(); i++) {
    Shared *s = sl[t][i].get();
    if (s->overlap || s->after) c.fail("a callback ran while it was running, or after its shutdown");
    if (s->closed != 1) c.fail("the shutdown of a descriptor ran %d times", (int)s->closed);
    if (ops[t][i].kind != 1 && s->got != sent[t][i]) c.fail("\"%s\" was written and \"%s\" was read", sent[t][i].c_str(), s->got.c_str());
    if (sent[t][i].compare(0, s->got.size(), s->got)) c.fail("\"%s\" was written and \"%s\" was read", sent[t][i].c_str(), s->got.c_str());
  }
  c.label("one poller for many threads");
  c.nontrivial = true;
}
// ---- a stored session store under several threads, each with sessions of its own ----
static void store_case(Gen &g, Ctx &c) {
  bool redis = g.chance(1, 3);
  std::string db = dir + "/store.db";
  onion_sessions *ss;
  if (redis) { fakeredis::flush(); ss = onion_sessions_redis_new("127.0.0.1", rport); }
  else { unlink(db.c_str()); ss = onion_sessions_sqlite3_new(db.c_str()); }
  if (!ss) { c.fail("the session store is not opened"); return; }
  int nt = 2 + (int)g.below(4);
  std::vector<std::vector<std::pair<int, unsigned>>> ops(nt);
  c.d("%s store, %d threads: ", redis ? "redis" : "sqlite", nt);
  for (auto &v : ops) { int n = 2 + (int)g.below(9); for (int i = 0; i < n; i++) { v.push_back({(int)g.below(5), (unsigned)g.below(1000)}); c.d("%d", v.back().first); } c.d(" "); }
  std::vector<std::string> bad(nt);
  std::vector<std::map<std::string, std::string>> model(nt);
  auto value = [&](const std::string &id) -> std::string {
    onion_dict *s = onion_sessions_get(ss, id.c_str());
    if (!s) return "(none)";
    const char *v = onion_dict_get(s, "v");
    std::string r = v ? v : "";
    onion_dict_free(s);
    return r;
  };
  std::atomic<int> go{nt};
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
    go--;
    while (go > 0) sched_yield();
    std::map<std::string, std::string> &m = model[t];
    auto one = [&](unsigned a) { auto it = m.begin(); std::advance(it, a % m.size()); return it; };
    for (auto &o : ops[t]) {
      if (o.first == 0 || m.empty()) { char *id = onion_sessions_create(ss); if (!id) { bad[t] = "no session is made"; break; } m[id] = ""; free(id); }
      auto it = one(o.second);
      if (o.first == 1 || o.first == 2) {
        onion_dict *s = onion_sessions_get(ss, it->first.c_str());
        if (!s) { if (it->second != "(none)" && bad[t].empty()) bad[t] = "a stored session is not there"; continue; }
        it->second = fmt("%d.%u", t, o.second);
        onion_dict_add(s, "v", it->second.c_str(), OD_DUP_ALL | OD_REPLACE);
        onion_sessions_save(ss, it->first.c_str(), s);
        onion_dict_free(s);
      } else if (o.first == 3) {
        onion_sessions_remove(ss, it->first.c_str());
        it->second = "(none)";
      }
      std::string v = value(it->first);
      if (v != it->second && bad[t].empty()) bad[t] = "a session holds " + v + " and not " + it->second;
    }
  });
  for (auto &t : th) t.join();
  for (auto &b : bad) if (!b.empty()) c.fail("%s", b.c_str());
  for (auto &m : model) for (auto &kv : m) { std::string v = value(kv.first); if (v != kv.second) c.fail("at the end a session holds %s and not %s", v.c_str(), kv.second.c_str()); }
  onion_sessions_free(ss);
  c.label(redis ? "Redis store under threads" : "SQLite store under threads");
  c.nontrivial = true;
}
// ---- the table of file types, filled by whoever asks first ----
static void mime_case(Gen &g, Ctx &c) {
  onion_mime_set(NULL);
  bool sets = g.chance(1, 3);
  int nt = 2 + (int)g.below(5);
  std::vector<std::vector<int>> ops(nt);
  for (auto &v : ops) { int n = 1 + (int)g.below(12); for (int i = 0; i < n; i++) v.push_back((int)g.below(8)); }
  c.d("file types, %d threads%s", nt, sets ? ", replacing the table" : "");
  std::vector<std::string> bad(nt);
  std::atomic<int> go{nt};
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++) th.emplace_back([&, t] {
    go--;
    while (go > 0) sched_yield();
    std::string ext = fmt("own%d", t), want = "text/plain";
    auto is = [&](const std::string &name, const std::string &w) {
      const char *r = onion_mime_get(name.c_str());
      if (!r) bad[t] = "no type for " + name;
      else if (!sets && w != r) bad[t] = name + " is " + r + " and not " + w;
    };
    for (int o : ops[t]) {
      if (o < 2 && sets) { onion_dict *d = onion_dict_new(); onion_dict_add(d, "html", "text/html", 0); onion_mime_set(d); }
      else if (o < 3) { want = fmt("x/%d.%d", t, o); onion_mime_update(ext.c_str(), want.c_str()); }
      else if (o == 3) { want = "text/plain"; onion_mime_update(ext.c_str(), NULL); }
      else if (o == 4) is("a.html", "text/html");
      else if (o == 5) is("b." + ext + "no", "text/plain");
      is("c." + ext, want);
    }
  });
  for (auto &t : th) t.join();
  onion_mime_set(NULL);
  for (auto &b : bad) if (!b.empty()) c.fail("%s", b.c_str());
  c.label("file types");
  c.nontrivial = true;
}
void pbt::property(Gen &g, Ctx &c) {
  perturb::level = (int)g.below(3);
  perturb::seed = g.below(1 << 30) + 1;
  if (g.chance(1, 4)) dict_case(g, c);
  else if (g.chance(1, 8)) own_case(g, c);
  else if (g.chance(1, 10)) shared_case(g, c);
  else if (g.chance(1, 20)) mime_case(g, c);
  else if (g.chance(1, 10)) store_case(g, c);
  else server_case(g, c);
}
