// C30: an application's own memory and thread functions are the ones that are used.
// Tracking functions are installed; activities all over the library must take each block from them and give it
// back to them, once. Then one allocation of the same activities fails, in a child.
#include "ws.hpp"
#include "net.hpp"
#include "fakepam.hpp"
#include "fakeredis.hpp"
#include <atomic>
#include <errno.h>
#include <mutex>
#include <sys/wait.h>
#include <thread>
#include <unordered_map>
extern "C" {
#include <onion/handlers/auth_pam.h>
#include <onion/handlers/opack.h>
#include <onion/https.h>
#include <onion/sessions_mem.h>
#include <sys/resource.h>
#include <onion/handlers/exportlocal.h>
#include <onion/handlers/internal_status.h>
#include <onion/handlers/path.h>
#include <onion/handlers/static.h>
#include <onion/handlers/webdav.h>
#include <onion/sessions_mem.h>
#include <onion/sessions_sqlite3.h>
#include <onion/sessions_redis.h>
}
using namespace hm;
static int rport;
pbt::Config pbt::config;
static const uint64_t MAGIC = 0x0c30a110c8ed0000ull;
struct Head { uint64_t magic; size_t size; long serial; uint64_t pad; };
static std::mutex mu;
static std::unordered_map<void *, long> live;
static std::string complaint;
static std::atomic<long> serial{0}, total{0}, fail_at{-1}, failed{0};
static std::atomic<int> t_created{0}, t_ended{0}, t_direct{0}, t_fail_at{-1}, t_asked{0};
static thread_local int in_low = 0;
static void complain(const char *m) { std::lock_guard<std::mutex> l(mu); if (complaint.empty()) complaint = m; }
static bool injected() { long n = total++; if (fail_at >= 0 && n == fail_at) { failed++; errno = ENOMEM; return true; } return false; }
static void *give(size_t n, bool zero) {
  if (injected()) return NULL;
  Head *h = (Head *)::malloc(sizeof(Head) + n);
  *h = {MAGIC, n, ++serial, 0};
  memset(h + 1, zero ? 0 : 0xa5, n);
  std::lock_guard<std::mutex> l(mu);
  live[h + 1] = h->serial;
  return h + 1;
}
static bool known(void *p) { std::lock_guard<std::mutex> l(mu); return live.count(p); }
static void take(void *p) {
  if (!p) return;
  {
    std::lock_guard<std::mutex> l(mu);
    if (!live.erase(p)) { if (complaint.empty()) complaint = "memory that did not come from the application's functions was given to its free"; return; }
  }
  Head *h = (Head *)p - 1;
  memset(p, 0xdd, h->size);
  ::free(h);
}
static thread_local int last_used = -1;
static void *t_malloc(size_t n) { last_used = 0; return give(n, false); }
static void *t_scalar(size_t n) { last_used = 1; return give(n, false); }
static void *t_calloc(size_t a, size_t b) { last_used = 2; return give(a * b, true); }
static void *t_realloc(void *p, size_t n) {
  last_used = 3;
  if (!p) return give(n, false);
  if (!known(p)) { complain("memory that did not come from the application's functions was given to its realloc"); return give(n, false); }
  void *q = give(n, false);
  if (!q) return NULL;
  memcpy(q, p, std::min(n, ((Head *)p - 1)->size));
  take(p);
  return q;
}
static char *t_strdup(const char *s) { last_used = 4; size_t n = strlen(s) + 1; char *p = (char *)give(n, false); if (p) memcpy(p, s, n); return p; }
static std::atomic<bool> in_child{false};
static void t_failure(const char *msg) {
  if (in_child && msg && *msg) _exit(failed ? 77 : 78);
  fprintf(stderr, "memory failure reported without a failed allocation: %s\n", msg ? msg : "(null)");
  _exit(79);
}
static std::atomic<long> asked_time{0};
extern "C" time_t __real_time(time_t *);
extern "C" time_t __wrap_time(time_t *t) {             // a second passes every third time it is asked for, so that what is kept for a second is renewed in each case
  time_t r = __real_time(NULL) + asked_time++ / 3;
  if (t) *t = r;
  return r;
}
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *d) { if (!in_low) t_direct++; return __real_pthread_create(t, a, f, d); }
int __wrap_pthread_join(pthread_t t, void **v) { if (!in_low) t_direct++; return __real_pthread_join(t, v); }
int __wrap_pthread_detach(pthread_t t) { if (!in_low) t_direct++; return __real_pthread_detach(t); }
}
struct In { In() { in_low++; } ~In() { in_low--; } };
static int p_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *d) {
  In i;
  if (t_asked++ == t_fail_at) return EAGAIN;
  int r = pthread_create(t, a, f, d);
  if (!r) t_created++;
  return r;
}
static int p_join(pthread_t t, void **v) { In i; int r = pthread_join(t, v); if (!r) t_ended++; return r; }
static int p_detach(pthread_t t) { In i; int r = pthread_detach(t); if (!r) t_ended++; return r; }
static std::atomic<int> n_cancel{0}, n_exit{0}, n_sigmask{0}, n_detach{0}, n_join{0};
static int p_cancel(pthread_t t) { n_cancel++; return pthread_cancel(t); }
static void p_exit(void *v) { n_exit++; pthread_exit(v); }
static int p_sigmask(int h, const sigset_t *s, sigset_t *o) { n_sigmask++; return pthread_sigmask(h, s, o); }

static std::string root;
void pbt::harness_init() {
  onion_low_initialize_memory_allocation(t_malloc, t_scalar, t_calloc, t_realloc, t_strdup, take, t_failure);
  onion_low_initialize_threads(p_create, p_join, p_cancel, p_detach, p_exit, p_sigmask);
  oh::quiet_log();
  pbt::drop_privileges();
  rport = fakeredis::start();
  root = pbt::scratch() + "/tree";
  fakepam::st.users["user"] = "pass";
  fakepam::st.record = false;
  config.rule = "a case is 1 to 5 generated activities (requests of any kind to every handler the library brings, sessions in both stores, web sockets, dictionaries and JSON, codecs, blocks, templates of routes, media types, pollers, pooled servers) run with the application's own allocator, thread functions included; in half of the cases they are repeated in a child in which one generated allocation fails; non-trivial when at least 10 blocks were taken";
  config.leak_check = false;       // counted here
  config.wall_limit_s = 60;
  Server sv;                       // whatever is made once for all
  Client cl(sv);
  cl.deliver(std::string("GET / HTTP/1.1\r\n\r\n"), {});
}
typedef std::function<void(std::string &)> Act;        // reports through its argument
static void fresh_tree() {
  oh::rm_rf(root);
  mkdir(root.c_str(), 0755);
  mkdir((root + "/d").c_str(), 0755);
  oh::write_file(root + "/a.txt", "hello");
  oh::write_file(root + "/d/b.html", std::string(20000, 'b'));
  oh::write_file(root + "/d/q\"u<o>te&.txt", "odd");
  oh::write_file(root + "/<b>", "odd");
  if (symlink("/", (root + "/out").c_str())) {}
  if (symlink("d", (root + "/in").c_str())) {}
}
static const unsigned g_six = 6;
static void free_it(void *p) { onion_low_free(p); }
static Act requests(Gen &g, Ctx &c) {
  int kind = (int)g.below(10);
  static const char *names[] = {"program", "export", "webdav", "routes", "sessions-mem", "sessions-sqlite", "auth", "status", "export file", "sessions-redis"};
  c.label(names[kind]);
  c.d("%s: ", names[kind]);
  std::vector<std::string> rq;
  int n = 1 + (int)g.below(4);
  std::string auth = g.pick({"dXNlcjpwYXNz", "dXNlcjp4", "", "%%%"});
  static const char *PATHS[] = {"/a.txt", "/", "/d/", "/d", "/d/b.html", "/out/etc", "/in/b.html", "/missing", "/../x", "/new", "/d/new.txt", "/aa/bb", "/x", "/num/12/33"};
  for (int i = 0; i < n; i++) {
    std::string q;
    if (kind == 0 || g.chance(1, 4)) { GenOpts o; o.max_body = 2500; q = gen_request(g, o).bytes; }
    else {
      std::string m = g.pick({"GET", "GET", "HEAD", "PUT", "DELETE", "PROPFIND", "MOVE", "MKCOL", "OPTIONS", "POST"}), p = g.pick(PATHS);
      q = m + " " + p + " HTTP/1.1\r\nHost: x\r\n";
      if (g.chance(1, 4)) q += "Range: bytes=1-3\r\n";
      if (g.chance(1, 3)) q += "Depth: " + std::string(g.pick({"0", "1", "infinity"})) + "\r\n";
      if (m == "MOVE") q += "Destination: http://x" + std::string(g.pick(PATHS)) + "\r\n";
      if (kind == 6 && g.chance(4, 5)) q += "Authorization: Basic " + auth + "\r\n";
      if (m == "PUT" || m == "POST") { std::string b = g.from("abc=&", g.len(3000)); q += fmt("Content-Length: %zu\r\n\r\n", b.size()) + b; }
      else if (m == "PROPFIND" && g.coin()) { std::string b = "<?xml version=\"1.0\"?><D:propfind xmlns:D=\"DAV:\"><D:prop><D:getetag/><D:getcontentlength/></D:prop></D:propfind>"; q += fmt("Content-Length: %zu\r\n\r\n", b.size()) + b; }
      else q += "\r\n";
    }
    if (g.chance(1, 8)) q = q.substr(0, g.below(q.size() + 1));
    rq.push_back(q);
    c.d("%s ", esc(q, 60).c_str());
  }
  bool sysmime = g.chance(1, 10);
  bool keep_cookie = g.coin(), end_session = g.chance(1, 4), nested = g.coin(), two = g.chance(1, 3), full = kind != 5 && g.chance(1, 8);
  std::vector<int> prog;
  for (int i = 0, k = (int)g.below(6); i < k; i++) prog.push_back(g.below(9));
  return [=](std::string &bad) {
    fresh_tree();
    if (!sysmime) { onion_dict *m = onion_dict_new(); onion_dict_add(m, "txt", "text/plain", OD_DUP_ALL); onion_mime_set(m); }
    onion *o = onion_new(O_ONE_LOOP | O_NO_SIGPIPE);
    if (kind == 5) {
      std::string db = pbt::scratch() + "/c30.sqlite";
      unlink(db.c_str());
      onion_sessions *s = onion_sessions_sqlite3_new(db.c_str());
      if (s) onion_set_session_backend(o, s);
    }
    if (kind == 9) {
      onion_sessions *s = onion_sessions_redis_new("127.0.0.1", rport);
      if (s) onion_set_session_backend(o, s);
    }
    Server sv(o);
    sv.owned = false;
    struct P { const std::vector<int> *prog; bool end, nested; } pr{&prog, end_session, nested};
    struct H {
      static int f(void *v, onion_request *r, onion_response *res) {
        P *p = (P *)v;
        snapshot(r);
        onion_low_free((void *)onion_request_get_language_code(r));
        for (int k : *p->prog) switch (k) {
          case 0: onion_response_set_header(res, "X-A", "b"); break;
          case 1: onion_response_printf(res, "%s %d", onion_request_get_fullpath(r), k); break;
          case 2: onion_response_write_html_safe(res, "<a&b>"); break;
          case 3: onion_response_add_cookie(res, "k", "v", 100, "/", "x", 0); break;
          case 4: onion_response_printf(res, "%s", std::string(3000, 'p').c_str()); break;
          case 5: { onion_dict *d = onion_request_get_session_dict(r); if (d) { onion_dict_add(d, "k", "some value", OD_DUP_ALL | OD_REPLACE); } break; }
          case 6: { onion_dict *d = onion_request_get_session_dict(r); if (d && p->nested) { onion_dict *s = onion_dict_new(); onion_dict_add(s, "a", "b", 0); onion_dict_add(d, "sub", s, OD_DICT | OD_FREE_VALUE | OD_REPLACE); } break; }
          case 7: if (p->end) onion_request_session_free(r); break;
          case 8: { onion_dict *d = onion_dict_new(); onion_dict_add(d, "x", "y\"z", OD_DUP_ALL); return onion_shortcut_response_json(d, r, res); }
        }
        onion_response_write0(res, ".");
        return OCS_PROCESSED;
      }
    };
    onion_handler *h = onion_handler_new((onion_handler_handler)H::f, &pr, NULL), *top = h;
    switch (kind) {
    case 1: top = onion_handler_export_local_new(root.c_str()); onion_handler_add(top, h); break;
    case 8: top = onion_handler_export_local_new((root + "/a.txt").c_str()); onion_handler_add(top, h); break;
    case 2: top = onion_handler_webdav(root.c_str(), NULL); onion_handler_add(top, h); break;
    case 3: {
      onion_url *u = onion_url_new();
      onion_url_add_static(u, "x", "static text", 200);
      onion_url_add_handler(u, "^num/([0-9]+)/([0-9]+)", onion_handler_new((onion_handler_handler)H::f, &pr, NULL));
      onion_url_add(u, "a.txt", (void *)onion_shortcut_redirect);
      onion_handler *p = onion_handler_path("^aa", onion_handler_static("aa", 201));
      onion_url_add_handler(u, "^.*bb", p);
      onion_url_add_handler(u, "^d/", onion_handler_opack("b.html", [](onion_response *r) { onion_response_write0(r, "packed"); }, g_six));
      if (onion_url_add(u, "^broken([", (void *)onion_shortcut_redirect) == 0) bad = "a broken expression is accepted";
      if (onion_handler_export_local_new((root + "/none").c_str())) bad = "a directory that is not there is exported";
      onion_url_add_handler(u, "^", h);
      top = onion_url_to_handler(u);
      break;
    }
    case 6: top = onion_handler_auth_pam("realm", "service", h); break;
    case 7: top = onion_internal_status(); onion_handler_add(top, h); break;
    }
    onion_set_root_handler(o, top);
    std::string cookie;
    struct rlimit was, small;
    getrlimit(RLIMIT_FSIZE, &was);
    small = was;
    small.rlim_cur = 200;                             // what is sent does not fit in the disk
    if (full) { signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &small); }
    for (auto q : rq) {
      if (keep_cookie && !cookie.empty()) { size_t e = q.find("\r\n"); if (e != std::string::npos) q.insert(e + 2, "Cookie: " + std::string(two ? "sessionid=gone; a=b; " : "") + cookie + "\r\n"); }
      Client cl(sv);
      cl.deliver(q, {});
      size_t p = cl.c.out.find("Set-Cookie: sessionid=");
      if (p != std::string::npos) cookie = cl.c.out.substr(p + 12, cl.c.out.find(';', p) - p - 12);
    }
    if (full) setrlimit(RLIMIT_FSIZE, &was);
    onion_free(o);
  };
}
static Act websocket(Gen &g, Ctx &c) {
  c.label("web socket");
  std::string hs = ws::handshake_request(g, "dGhlIHNhbXBsZSBub25jZQ=="), in;
  int n = (int)g.below(4);
  for (int i = 0; i < n; i++) {
    unsigned char mask[4] = {1, 2, 3, 4};
    ws::Frame f;
    f.masked = true;
    f.op = g.pick({1, 2, 9, 8});
    f.payload = g.from("xyz", g.len(f.op > 7 ? 100 : 700));
    in += ws::encode(f, mask);
  }
  bool data = g.coin();
  c.d("web socket %d frames, ", n);
  return [=](std::string &bad) {
    Server sv;
    sv.handler = [&](onion_request *r, onion_response *res) -> int {
      onion_websocket *w = onion_websocket_new(r, res);
      if (!w) return OCS_PROCESSED;
      if (data) { void *p = onion_low_malloc(10); onion_websocket_set_userdata(w, p, free_it); }
      onion_websocket_printf(w, "hi %d %s", 3, std::string(600, 'w').c_str());
      onion_websocket_set_callback(w, [](void *, onion_websocket *ws, ssize_t k) -> onion_connection_status {
        char b[128];
        while (k > 0) { int r = onion_websocket_read(ws, b, std::min<ssize_t>(k, sizeof b)); if (r <= 0) return OCS_CLOSE_CONNECTION; k -= r; onion_websocket_write(ws, b, r); }
        return OCS_NEED_MORE_DATA;
      });
      return OCS_WEBSOCKET;
    };
    Client cl(sv);
    cl.deliver(hs, {});
    for (size_t i = 0; i < in.size() && cl.open; i += 50) cl.deliver(in.substr(i, 50), {});
  };
}
static Act dicts(Gen &g, Ctx &c) {
  c.label("dictionary");
  struct Op { int k; std::string a, b; int f; };
  std::vector<Op> ops;
  int n = 1 + (int)g.below(15);
  for (int i = 0; i < n; i++) ops.push_back({(int)g.below(9), g.from("abc", 1 + g.below(2)), g.from("xyz\"\n\xc3\xa9", g.len(20)), (int)g.below(4)});
  c.d("dictionary of %d operations ", n);
  for (auto &o : ops) c.d("%d%s", o.k, o.a.c_str());
  return [=](std::string &bad) {
    onion_dict *d = onion_dict_new();
    std::vector<onion_dict *> more;
    for (auto &o : ops) switch (o.k) {
      case 0: onion_dict_add(d, o.a.c_str(), o.b.c_str(), OD_DUP_ALL | (o.f & 1 ? OD_REPLACE : 0)); break;
      case 1: onion_dict_add(d, onion_low_strdup(o.a.c_str()), onion_low_strdup(o.b.c_str()), OD_FREE_ALL | (o.f & 1 ? OD_REPLACE : 0)); break;
      case 2: onion_dict_remove(d, o.a.c_str()); break;
      case 3: { onion_dict *s = onion_dict_new(); onion_dict_add(s, o.a.c_str(), o.b.c_str(), OD_DUP_ALL); onion_dict_add(d, o.a.c_str(), s, OD_DUP_KEY | OD_DICT | OD_FREE_VALUE | (o.f & 1 ? OD_REPLACE : 0)); break; }
      case 4: more.push_back(onion_dict_hard_dup(d)); break;
      case 5: { onion_block *b = onion_dict_to_json(d); if (b) { onion_dict *e = onion_dict_from_json(onion_block_data(b)); if (e) onion_dict_free(e); onion_block_free(b); } break; }
      case 6: if (!more.empty() && more.back() != d) onion_dict_merge(d, more.back()); break;
      case 7: { onion_dict *e = onion_dict_from_json(("{\"a\":\"" + o.a + "\", \"b\":{\"c\":\"d\"}" + (o.f ? "}" : ",")).c_str()); if (e) onion_dict_free(e); break; }
      case 8: more.push_back(onion_dict_dup(d)); break;
    }
    // merging keeps pointers into the other one
    onion_dict_free(d);
    for (auto *m : more) onion_dict_free(m);
  };
}
static Act codecs(Gen &g, Ctx &c) {
  c.label("codecs");
  std::string s = g.from("ab<>&\"+/=%41 \xc3\xa9", g.len(400)), mt = g.pick({"a.png", "b", "c.txt", "x.zzz"});
  int n = 1 + (int)g.below(20);
  bool setmime = g.coin();
  c.d("codecs of %zu, ", s.size());
  return [=](std::string &bad) {
    char *e = onion_base64_encode(s.data(), s.size());
    int l = 0;
    char *d = onion_base64_decode(e, &l);
    onion_low_free(d);
    onion_low_free(e);
    d = onion_base64_decode(s.c_str(), &l);                  // mostly nonsense
    if (d) onion_low_free(d);
    d = onion_base64_decode(s.c_str(), NULL);
    if (d) onion_low_free(d);
    onion_low_free(onion_quote_new(s.c_str()));
    std::string u = s;
    onion_unquote_inplace(&u[0]);
    char *h = onion_html_quote(s.c_str());
    if (h) onion_low_free(h);
    onion_low_free((void *)onion_html_quote_dup(s.c_str()));
    onion_low_free(onion_c_quote_new(s.c_str()));
    onion_block *b = onion_block_new();
    for (int i = 0; i < n; i++) onion_block_add_str(b, s.c_str());
    onion_block *b2 = onion_block_new();
    onion_block_add_block(b2, b);
    onion_block_free(b2);
    onion_block_free(b);
    onion_ptr_list *pl = onion_ptr_list_new();
    for (int i = 0; i < n; i++) pl = onion_ptr_list_add(pl, onion_low_malloc(i + 1));
    if (n > 2 && setmime) { void *x = pl->next->ptr; pl = onion_ptr_list_remove(pl, x); onion_low_free(x); x = pl->ptr; pl = onion_ptr_list_remove(pl, x); onion_low_free(x); }
    int odd = 0;
    if (n > 5) pl = onion_ptr_list_filter(pl, [](void *d, void *p) -> bool { if (++*(int *)d % 3) return true; onion_low_free(p); return false; }, &odd);
    onion_ptr_list_foreach(pl, (void (*)(void *))free_it);
    onion_ptr_list_free(pl);
    if (setmime) { onion_dict *m = onion_dict_new(); onion_dict_add(m, "zzz", "a/b", OD_DUP_ALL); onion_mime_set(m); }
    onion_mime_get(mt.c_str());
    onion_mime_set(NULL);
  };
}
static Act poller(Gen &g, Ctx &c) {
  c.label("poller");
  int n = 1 + (int)g.below(5);
  std::vector<int> how;
  for (int i = 0; i < n; i++) how.push_back(g.below(4));
  c.d("poller with %d slots, ", n);
  return [=](std::string &bad) {
    onion_poller *p = onion_poller_new(8);
    if (!p) return;
    std::vector<int> fds;
    for (int h : how) {
      int q[2];
      if (pipe(q)) break;
      fds.push_back(q[0]);
      fds.push_back(q[1]);
      onion_poller_slot *s = onion_poller_slot_new(q[0], [](void *) -> int { return -1; }, NULL);
      if (!s) continue;
      onion_poller_slot_set_shutdown(s, free_it, onion_low_malloc(7));
      onion_poller_slot_set_timeout(s, 5000);
      if (h == 3) { onion_poller_slot_free(s); continue; }
      onion_poller_add(p, s);
      if (h == 1) onion_poller_remove(p, q[0]);
      if (h == 2 && write(q[1], "x", 1) == 1) {}
    }
    onion_poller_free(p);
    for (int f : fds) close(f);
  };
}
static Act pool(Gen &g, Ctx &c, int &fail_thread) {
  c.label("pooled server");
  int nt = 1 + (int)g.below(4), nr = (int)g.below(4), how = (int)g.below(3);
  if (g.chance(1, 3)) { fail_thread = g.below(4); c.label("failing thread creation"); }
  bool https_lp = g.chance(1, 6);
  c.d("server of %d threads mode %d, %d requests, ", nt, how, nr);
  return [=](std::string &bad) {
    std::string addr = net::own_addr();
    onion *o = onion_new((how == 0 ? O_POOL : how == 1 ? O_POLL : O_THREADED) | O_DETACH_LISTEN | O_NO_SIGPIPE | O_NO_SIGTERM);
    onion_set_max_threads(o, nt);
    std::atomic<int> n{0};
    struct H { static int f(void *p, onion_request *r, onion_response *res) { (*(std::atomic<int> *)p)++; onion_request_get_client_description(r); onion_response_write0(res, "ok"); return OCS_PROCESSED; } };
    onion_set_root_handler(o, onion_handler_new((onion_handler_handler)H::f, &n, NULL));
    if (https_lp) { onion_set_hostname(o, "x"); onion_set_port(o, "1"); }
    int port = net::free_port(addr);
    onion_add_listen_point(o, addr.c_str(), std::to_string(port).c_str(), onion_http_new());
    if (https_lp) { onion_free(o); return; }
    int asked = t_asked;
    int r = onion_listen(o);
    if (r && t_fail_at != asked && bad.empty()) bad = fmt("onion_listen: %s", strerror(r));
    if (!r && t_fail_at == asked && bad.empty()) bad = "onion_listen detached although the thread could not be made";
    if (!r) for (int i = 0; i < nr; i++) {
      int fd = net::dial(addr, port);
      if (fd < 0) { if (bad.empty()) bad = "the server does not accept connections"; break; }
      net::send_all(fd, "GET / HTTP/1.1\r\nConnection: close\r\n\r\n");
      std::string rest;
      net::Got q = net::read_reply(fd, rest, false);
      if (q.r.body != "ok" && bad.empty()) bad = "the server does not answer";
      close(fd);
    }
    onion_listen_stop(o);
    onion_free(o);
  };
}
static Act settings(Gen &g, Ctx &c) {
  c.label("settings");
  std::vector<int> ops;
  int n = 1 + (int)g.below(8);
  for (int i = 0; i < n; i++) ops.push_back(g.weighted({4, 4, 4, 2, 2, 1, 2}));
  bool nofd = g.chance(1, 6);
  c.d("%d settings%s, ", n, nofd ? " without descriptors" : "");
  return [=](std::string &bad) {
    if (nofd) {
      struct rlimit old, none;
      getrlimit(RLIMIT_NOFILE, &old);
      none = old;
      none.rlim_cur = 3;
      setrlimit(RLIMIT_NOFILE, &none);
      onion_poller *p = onion_poller_new(8);
      onion *q = onion_new(O_POLL | O_NO_SIGPIPE | O_NO_SIGTERM);
      setrlimit(RLIMIT_NOFILE, &old);
      if (p) { onion_poller_free(p); bad = "there is a poller without descriptors"; }
      if (q) onion_free(q);
    }
    onion *o = onion_new(O_POLL | O_NO_SIGPIPE | O_NO_SIGTERM);
    std::string T = std::string(VERIF_DIR) + "/h/tls/";
    bool cert = false;
    for (int k : ops) switch (k) {
      case 0: onion_set_port(o, "8123"); break;
      case 1: onion_set_hostname(o, "localhost"); break;
      case 2: onion_set_user(o, "nobody"); break;
      case 3: onion_add_listen_point(o, "127.0.0.1", "8124", onion_http_new()); break;
      case 4: onion_add_listen_point(o, NULL, NULL, onion_http_new()); break;
      case 5: if (!cert) onion_set_certificate(o, O_SSL_CERTIFICATE_KEY, (T + "ec.pem").c_str(), (T + "ec.key").c_str()); cert = true; break;
      case 6: onion_set_session_backend(o, onion_sessions_mem_new()); break;
    }
    onion_free(o);
  };
}
static Act https(Gen &g, Ctx &c) {
  c.label("https");
  bool good = g.coin(), listen = g.coin(), talk = g.coin(), stop = g.coin();
  std::string junk = g.from("GET / HTTP\x16\x03\x01\r\n", g.below(40));
  c.d("https%s%s%s, ", good ? " certificate" : "", listen ? " listens" : "", talk ? " nonsense" : "");
  return [=](std::string &bad) {
    onion_listen_point *lp = onion_https_new();
    std::string T = std::string(VERIF_DIR) + "/h/tls/";
    onion_https_set_certificate(lp, O_SSL_CERTIFICATE_KEY, (T + (good ? "ec.pem" : "none.pem")).c_str(), (T + "ec.key").c_str());
    if (!listen) { onion_listen_point_free(lp); return; }
    onion *o = onion_new(O_POLL | O_DETACH_LISTEN | O_NO_SIGPIPE | O_NO_SIGTERM);
    std::string addr = net::own_addr();
    int port = net::free_port(addr);
    onion_add_listen_point(o, addr.c_str(), std::to_string(port).c_str(), lp);
    onion_set_root_handler(o, onion_handler_static("ok", 200));
    if (!onion_listen(o) && talk) {
      int fd = net::dial(addr, port);
      if (fd >= 0) { net::send_all(fd, junk); if (stop) usleep(2000); close(fd); }
    }
    if (stop) onion_listen_stop(o);
    onion_free(o);
  };
}
// the thread functions themselves: each one reaches the application's, with what it was given
static void *masks(void *v) {
  sigset_t s, o;
  sigemptyset(&s);
  sigaddset(&s, SIGUSR2);
  bool ok = onion_low_pthread_sigmask(SIG_BLOCK, &s, NULL) == 0 && onion_low_pthread_sigmask(SIG_UNBLOCK, &s, &o) == 0 && sigismember(&o, SIGUSR2);
  onion_low_pthread_exit(ok ? v : NULL);
  return NULL;
}
static void *waits(void *) { for (;;) pause(); return NULL; }
static Act threads(Gen &g, Ctx &c) {
  c.label("thread functions");
  int n = 1 + (int)g.below(3);
  std::vector<int> how;
  for (int i = 0; i < n; i++) how.push_back(g.below(3));
  c.d("%d threads, ", n);
  return [=](std::string &bad) {
    int want_exit = n_exit, want_cancel = n_cancel, want_sigmask = n_sigmask;
    for (int h : how) {
      pthread_t t;
      if (onion_low_pthread_create(&t, NULL, h == 1 ? waits : masks, (void *)0x1234)) continue;
      void *r = NULL;
      if (h == 1) { want_cancel++; onion_low_pthread_cancel(t); onion_low_pthread_join(t, &r); if (r != PTHREAD_CANCELED) bad = "a cancelled thread ends with a value"; continue; }
      want_exit++;
      want_sigmask += 2;
      if (h == 0) { onion_low_pthread_join(t, &r); if (r != (void *)0x1234) bad = "a thread ends with another value, or its signal mask was not the one set"; continue; }
      onion_low_pthread_detach(t);
      for (int i = 0; i < 20000 && n_exit < want_exit; i++) usleep(100);
    }
    if (n_exit != want_exit || n_cancel != want_cancel || n_sigmask != want_sigmask) bad = fmt("the application's thread functions were called %d, %d, %d times more often than asked for (exit, cancel, sigmask)", n_exit - want_exit, n_cancel - want_cancel, n_sigmask - want_sigmask);
  };
}
// the functions themselves: which one is asked, what is passed on, and what happens when it gives nothing
static void direct(Gen &g, Ctx &c) {
  struct Op { int k; bool tryit; size_t n, m; };
  std::vector<Op> ops;
  int n = 1 + (int)g.below(12), at = (int)g.below(n + 1);
  for (int i = 0; i < n; i++) ops.push_back({(int)g.below(5), g.coin(), 1 + g.len(3000), 1 + g.below(4)});
  c.d("direct calls, call %d fails: ", at);
  for (auto &o : ops) c.d("%s%d(%zu,%zu) ", o.tryit ? "try " : "", o.k, o.n, o.m);
  c.nontrivial = true;
  c.label("direct");
  fflush(NULL);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    in_child = true;
    void *p = NULL;
    std::string have;
    for (int i = 0; i < n; i++) {
      const Op &o = ops[i];
      total = 0;
      fail_at = i == at ? 0 : -1;
      last_used = -1;
      std::string text(o.n, 'a' + i);
      void *q = NULL;
      if (o.k != 3 && p) { onion_low_free(p); p = NULL; have.clear(); if (fail_at == 0) total = 0; }
      last_used = -1;
      switch (o.k) {
      case 0: q = o.tryit ? onion_low_try_malloc(o.n) : onion_low_malloc(o.n); break;
      case 1: q = o.tryit ? onion_low_try_scalar_malloc(o.n) : onion_low_scalar_malloc(o.n); break;
      case 2: q = o.tryit ? onion_low_try_calloc(o.m, o.n) : onion_low_calloc(o.m, o.n); break;
      case 3: q = o.tryit ? onion_low_try_realloc(p, o.n) : onion_low_realloc(p, o.n); break;
      case 4: q = o.tryit ? onion_low_try_strdup(text.c_str()) : onion_low_strdup(text.c_str()); break;
      }
      if (last_used != o.k) _exit(81);
      if (i == at) { if (!o.tryit || q) _exit(82); if (o.k == 3 && p && !known(p)) _exit(87); continue; }
      if (!q) _exit(83);
      if (!known(q)) _exit(84);
      Head *h = (Head *)q - 1;
      size_t want = o.k == 2 ? o.n * o.m : o.k == 4 ? o.n + 1 : o.n;
      if (h->size != want) _exit(85);
      if (o.k == 2) for (size_t j = 0; j < want; j++) if (((char *)q)[j]) _exit(86);
      if (o.k == 4 && memcmp(q, text.c_str(), want)) _exit(86);
      if (o.k == 3 && memcmp(q, have.data(), std::min(have.size(), want))) _exit(86);
      p = q;
      memset(p, 'A' + i, want);
      have.assign((char *)p, want);
    }
    onion_low_free(p);
    onion_low_free(NULL);
    _exit(complaint.empty() ? 0 : 80);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  int want = at < n && !ops[at].tryit ? 77 : 0;
  if (!WIFEXITED(st) || WEXITSTATUS(st) != want) c.fail("direct calls end with %d instead of %d", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), want);
}
void pbt::property(Gen &g, Ctx &c) {
  if (g.chance(1, 12)) { direct(g, c); return; }
  std::vector<Act> acts;
  int k = 1 + (int)g.below(5), fail_thread = -1;
  bool pooled = false;
  for (int i = 0; i < k; i++) switch (g.weighted({16, 4, 6, 4, 2, 2, 1, 1, 3})) {
    case 8: acts.push_back(settings(g, c)); break;
    case 7: if (!pooled) { acts.push_back(https(g, c)); pooled = true; } break;
    case 6: acts.push_back(threads(g, c)); break;
    case 0: acts.push_back(requests(g, c)); break;
    case 1: acts.push_back(websocket(g, c)); break;
    case 2: acts.push_back(dicts(g, c)); break;
    case 3: acts.push_back(codecs(g, c)); break;
    case 4: acts.push_back(poller(g, c)); break;
    case 5: if (!pooled) { acts.push_back(pool(g, c, fail_thread)); pooled = true; } break;
  }
  bool inject = g.coin();
  uint32_t where = g.below(1 << 20);
  {
    std::lock_guard<std::mutex> l(mu);
    complaint.clear();
  }
  onion_mime_set(NULL);
  std::set<long> before;
  for (auto &b : live) before.insert(b.second);
  t_created = t_ended = t_direct = t_asked = 0;
  t_fail_at = fail_thread;
  total = 0;
  std::string bad;
  for (auto &a : acts) a(bad);
  t_fail_at = -1;
  onion_mime_set(NULL);
  long used = total;
  if (!complaint.empty()) c.fail("%s", complaint.c_str());
  if (!bad.empty()) c.fail("%s", bad.c_str());
  long left = 0;
  std::string what;
  for (auto &b : live) if (!before.count(b.second)) { left++; what += fmt(" %zu bytes", ((Head *)b.first - 1)->size); if (what.size() > 200) break; }
  left = std::min<long>(left, (long)live.size() - (long)before.size());     // the date is kept, and renewed each second
  if (left > 0) c.fail("%ld of %ld blocks were not given back:%s", left, used, what.c_str());
  if (t_direct) c.fail("threads are handled without the application's functions (%d calls)", (int)t_direct);
  if (t_created != t_ended) c.fail("%d threads made and %d joined or detached", (int)t_created, (int)t_ended);
  c.nontrivial = used >= 10;
  if (!inject || !used) return;
  c.label("failing allocation");
  long at = where % used;
  c.d("allocation %ld of %ld fails", at, used);
  fflush(NULL);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    in_child = true;
    total = 0;
    fail_at = at;
    alarm(40);
    std::string b2;
    for (auto &a : acts) a(b2);
    _exit(complaint.empty() ? 0 : 80);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { c.label("reported"); return; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { c.label("survived"); return; }
  c.fail("when allocation %ld of %ld fails: status %d%s", at, used, WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st), WIFEXITED(st) && WEXITSTATUS(st) == 80 ? " (foreign memory freed)" : "");
}
