// C09: a served file arrives byte-exact, whole or as exactly the requested range.
#include "http.hpp"
#include <errno.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <atomic>
#include <thread>
using namespace hm;
pbt::Config pbt::config;
static std::string dir;
// the kernel may send less than it was asked for: so does this one, when told to
static std::atomic<size_t> sendfile_most{0};
// and the file may end early or turn out to be unreadable while it is served
static std::atomic<long> budget{-1};                // bytes that can still be had from the file
static std::atomic<bool> broken{false};             // afterwards: an error, or the end
static std::atomic<size_t> read_most{0};
static std::atomic<unsigned long> target{0};        // its inode
static bool is_target(int fd) { struct stat st; return target && fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && st.st_ino == target; }
extern "C" ssize_t sendfile(int out, int in, off_t *off, size_t n) noexcept {
  size_t most = sendfile_most;
  if (most && n > most) n = most;
  if (budget >= 0 && is_target(in)) {
    if (budget == 0) { if (!broken) return 0; errno = EIO; return -1; }
    n = std::min<size_t>(n, budget);
    ssize_t r = syscall(SYS_sendfile, out, in, off, n);
    if (r > 0) budget -= r;
    return r;
  }
  return syscall(SYS_sendfile, out, in, off, n);
}
extern "C" ssize_t __real_read(int, void *, size_t);
extern "C" ssize_t __wrap_read(int fd, void *b, size_t n) {
  if ((budget < 0 && !read_most) || !is_target(fd)) return __real_read(fd, b, n);
  if (read_most) n = std::min<size_t>(n, read_most);
  if (budget >= 0) {
    if (budget == 0) { if (!broken) return 0; errno = EIO; return -1; }
    n = std::min<size_t>(n, budget);
  }
  ssize_t r = __real_read(fd, b, n);
  if (r > 0 && budget >= 0) budget -= r;
  return r;
}
extern "C" ssize_t sendfile64(int out, int in, off64_t *off, size_t n) noexcept { return sendfile(out, in, (off_t *)off, n); }
static const char *EXT[] = {"a.txt", "a.html", "a.zz9", "a.none", "noext", "a.b.txt", "a.TXT", "dir.txt/b.html", "dir.html/plain"};
static std::string mime_of(const std::string &f) {
  std::string n = f;
  size_t d = n.rfind('.');
  if (n.rfind('/') != std::string::npos && (d == std::string::npos || d < n.rfind('/'))) return "text/plain";
  if (d == std::string::npos) return "text/plain";
  std::string e = n.substr(d + 1);
  if (e == "txt") return "text/plain";
  if (e == "html") return "text/html";
  if (e == "zz9") return "application/x-zz9";
  return "text/plain";
}
void pbt::harness_init() {
  oh::quiet_log();
  pbt::drop_privileges();
  dir = pbt::scratch() + "/f";
  mkdir(dir.c_str(), 0755);
  mkdir((dir + "/dir.txt").c_str(), 0755);
  mkdir((dir + "/dir.html").c_str(), 0755);
  config.rule = "a case is a file of generated size and content and 1 to 6 requests for it (methods, generated and damaged Range headers, If-None-Match with current, stale, foreign-range or made-up tags, changes of the file in between), over the in-memory transport or a real socket where the sendfile path is taken, also with short reads, files that end early or break while served and clients that go away; non-trivial when a request used a range or a tag or the reply was cut";
  config.leak_check = true;
}
struct Ans { oh::Reply r; bool open; };
static long gone_after = -1;                        // the client goes away after this many bytes (in-memory transport)
static Ans ask(Server &sv, onion_listen_point *sock_lp, bool sock, const std::string &req, bool head, const std::string &file) {
  Ans a;
  if (!sock) {
    Client cl(sv);
    if (gone_after >= 0) cl.c.on_write = [&cl](const char *d, size_t n) -> ssize_t {
      size_t left = cl.c.out.size() < (size_t)gone_after ? gone_after - cl.c.out.size() : 0;
      if (!left) return -1;
      n = std::min(n, left);
      cl.c.out.append(d, n);
      return n;
    };
    cl.deliver(req, {});
    a.open = cl.open;
    a.r = oh::read_reply(cl.c.out, head, true);
    return a;
  }
  int fd[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) { perror("socketpair"); exit(3); }
  int small = 4096;
  setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
  std::string out;
  std::thread t([&] {
    char b[3000];
    ssize_t n;
    while ((n = ::read(fd[1], b, sizeof b)) > 0) out.append(b, n);
  });
  if (write(fd[1], req.data(), req.size()) != (ssize_t)req.size()) exit(3);
  onion_request *r = onion_request_new(sock_lp);
  r->connection.fd = fd[0];
  int st = sock_lp->read_ready(r);
  a.open = st >= 0;
  onion_request_free(r);
  t.join();
  ::close(fd[1]);
  a.r = oh::read_reply(out, head, true);
  return a;
}
static int noinit(onion_request *) { return 0; }
static void shutclose(onion_request *r) { if (r->connection.fd >= 0) { shutdown(r->connection.fd, SHUT_RDWR); ::close(r->connection.fd); r->connection.fd = -1; } }
static void nolisten(onion_listen_point *) {}
struct Range { std::string header; int kind; size_t a, b; };   // kind: 0 none/ignored, 1 a-b, 2 unsatisfiable
static Range gen_range(Gen &g, size_t n) {
  Range r{"", 0, 0, 0};
  auto num = [&]() -> size_t {
    switch (g.below(6)) {
    case 0: return g.below(4);
    case 1: return n ? n - 1 : 0;
    case 2: return n;
    case 3: return n + 1 + g.below(5);
    case 4: return n ? g.below(n) : 0;
    default: return g.chance(1, 4) ? 4000000000ull + g.below(1000) : n / 2;
    }
  };
  switch (g.weighted({4, 2, 3, 2})) {
  case 0: {
    size_t a = num(), b = num();
    r.header = fmt("bytes=%zu-%zu", a, b);
    if (a > b || a >= n) r.kind = 2;
    else { r.kind = 1; r.a = a; r.b = std::min(b, n - 1); }
    if (a > b && a < n) r.kind = 3;          // syntactically wrong: ignored or refused
    break;
  }
  case 1: {
    size_t a = num();
    r.header = fmt("bytes=%zu-", a);
    if (a >= n) r.kind = 2; else { r.kind = 1; r.a = a; r.b = n - 1; }
    break;
  }
  case 2: {
    size_t k = num();
    r.header = fmt("bytes=-%zu", k);
    if (k == 0 || n == 0) r.kind = 2; else { r.kind = 1; r.a = k < n ? n - k : 0; r.b = n - 1; }
    break;
  }
  case 3:
    r.header = g.pick({"bytes=", "bytes=-", "bytes=a-b", "bytes=1", "items=0-1", "bytes=0-1,3-4", "0-1", "bytes=1-x", "bytes=--1", "bytes=0x1-3", "bytes", ""});
    if (g.chance(1, 4)) r.header = "bytes=" + std::string(60 + g.below(100), '0') + "-1";
    r.kind = 3;
    break;
  }
  return r;
}
// ---- files too big for 32 bits (with holes): ranges and headers of them ----
static void huge_case(Gen &g, Ctx &c) {
  std::string path = dir + "/huge.bin";
  Server sv(0, false);
  struct H { static int f(void *p, onion_request *r, onion_response *res) { return onion_shortcut_response_file(((std::string *)p)->c_str(), r, res); } };
  onion_set_root_handler(sv.o, onion_handler_new((onion_handler_handler)H::f, &path, NULL));
  std::map<std::string, std::pair<size_t, long>> tags;   // what version each tag was of
  size_t small = g.below(20000);
  long t0 = 1000000000 + (long)g.below(1000000);
  int fds = pbt::open_fds(), versions = 1 + (int)g.below(3);
  for (int v = 0; v < versions; v++) {
    size_t n = g.coin() ? small + ((size_t)g.below(3) << 32) : (size_t)g.pick({0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x140000000ull}) + g.below(3000);
    if (v && g.chance(1, 3)) t0 += (long)g.below(2) << 32;
    ::unlink(path.c_str());
    int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0644);
    if (fd < 0 || ftruncate(fd, n)) { if (fd >= 0) ::close(fd); c.label("no room"); return; }
    for (size_t at : {(size_t)0, (size_t)0x7ffff000, (size_t)0x7fffff00, (size_t)0xfffff000, (size_t)0xffffff80, (size_t)0x100000200, n > 900 ? n - 900 : 0})
      if (at < n) { std::string m = g.raw(1 + g.below(700)); if (pwrite(fd, m.data(), std::min(m.size(), n - at), at) < 0) {} }
    struct timeval tv[2] = {{t0, 0}, {t0, 0}};
    futimes(fd, tv);
    struct stat st;
    fstat(fd, &st);
    c.d("[%zu bytes, time %ld] ", n, (long)st.st_mtime);
    int k = 1 + (int)g.below(4);
    for (int i = 0; i < k; i++) {
      bool head = g.chance(1, 3) || !n, ranged = !head || g.coin();
      size_t a = 0, b = n ? n - 1 : 0;
      std::string rh;
      if (ranged && n) {
        size_t len = 1 + g.below(5000);
        a = std::min<size_t>(n - 1, g.pick({0ull, 0x7fffffffull, 0x7ffffff0ull, 0x80000000ull, 0xfffffff0ull, 0xffffffffull, 0x100000000ull, (unsigned long long)n - 1, (unsigned long long)(n > 100 ? n - 100 : 0)}) + g.below(50));
        b = std::min(n - 1, a + len - 1);
        rh = b == n - 1 && g.coin() ? g.coin() ? fmt("bytes=%zu-", a) : fmt("bytes=-%zu", n - a) : fmt("bytes=%zu-%zu", a, b);
      } else ranged = false;
      std::string sent, req = fmt("%s /x HTTP/1.1\r\n", head ? "HEAD" : "GET");
      if (ranged) req += "Range: " + rh + "\r\n";
      if (!ranged && !tags.empty() && g.coin()) { auto it = tags.begin(); std::advance(it, g.below(tags.size())); sent = it->first; req += "If-None-Match: " + sent + "\r\n"; }
      req += "\r\n";
      c.d("%s ", esc(req).c_str());
      c.nontrivial = true;
      Ans r = ask(sv, nullptr, false, req, head, path);
      oh::Reply &p = r.r;
      if (!p.ok || !p.complete) { ::close(fd); c.fail("broken or incomplete reply to %s: %s", esc(req).c_str(), p.error.c_str()); }
      if (pbt::open_fds() > fds + 1) c.fail("the file is left open after the reply: %s", esc(req).c_str());
      std::pair<size_t, long> me{n, (long)st.st_mtime};
      if (!sent.empty() && tags[sent] == me) { if (p.code != 304) c.fail("the current tag %s was presented and the reply is %d", sent.c_str(), p.code); c.label("304"); continue; }
      if (p.code == 304) c.fail("304 for the tag %s, of a version of %zu bytes, when the file has %zu", esc(sent).c_str(), sent.empty() ? 0 : tags[sent].first, n);
      if (p.code != (ranged ? 206 : 200)) c.fail("status %d for %s on %zu bytes", p.code, esc(req).c_str(), n);
      const std::string *cr = p.get("Content-Range"), *cl = p.get("Content-Length"), *et = p.get("Etag");
      if (!cl || *cl != fmt("%zu", n ? b - a + 1 : 0)) c.fail("Content-Length %s instead of %zu", cl ? cl->c_str() : "missing", b - a + 1);
      if (ranged && (!cr || *cr != fmt("bytes %zu-%zu/%zu", a, b, n))) c.fail("Content-Range %s for %s on %zu bytes", cr ? cr->c_str() : "missing", rh.c_str(), n);
      if (!ranged && et) {
        auto it = tags.find(*et);
        if (it != tags.end() && it->second != me) c.fail("versions of %zu and %zu bytes have the same tag %s", it->second.first, n, et->c_str());
        tags[*et] = me;
      }
      if (!head) {
        std::string want(b - a + 1, 0);
        if (pread(fd, &want[0], want.size(), a) != (ssize_t)want.size()) exit(3);
        if (p.body != want) c.fail("range %s of %zu bytes has other content", rh.c_str(), n);
      }
    }
    ::close(fd);
  }
  ::unlink(path.c_str());
  c.label("huge file");
}
void pbt::property(Gen &g, Ctx &c) {
  if (g.chance(1, 30)) { huge_case(g, c); return; }
  std::string name = g.pick(EXT), path = dir + "/" + name;
  size_t n = g.len(70000, {1500, 4046, 8092, 16384, 65536, 1024, 32768});
  std::string data = g.raw(n);
  bool sock = g.chance(1, 4);
  oh::write_file(path, data);
  long t0 = 1000000000 + g.below(1000000);
  struct timeval tv[2] = {{t0, 0}, {t0, 0}};
  utimes(path.c_str(), tv);
  Server sv(0, false);
  struct H { static int f(void *p, onion_request *r, onion_response *res) { return onion_shortcut_response_file(((std::string *)p)->c_str(), r, res); } };
  onion_set_root_handler(sv.o, onion_handler_new((onion_handler_handler)H::f, &path, NULL));
  onion_dict *d = onion_dict_new();
  onion_dict_add(d, "txt", "text/plain", 0);
  onion_dict_add(d, "html", "text/html", 0);
  onion_dict_add(d, "zz9", "application/x-zz9", 0);
  onion_mime_set(d);
  onion_listen_point *slp = nullptr;
  if (sock) {
    slp = onion_http_new();
    slp->request_init = noinit;
    slp->close = shutclose;
    slp->listen = nolisten;
    onion_add_listen_point(sv.o, NULL, NULL, slp);
  }
  c.d("%s %zu bytes %s: ", name.c_str(), n, sock ? "socket" : "memory");
  struct Tag { std::string tag, range; int version; bool odd; };
  std::vector<Tag> tags;
  int version = 0;
  std::set<long> times{t0};
  int fds = pbt::open_fds();
  int k = 1 + (int)g.below(6);
  for (int i = 0; i < k; i++) {
    if (i && g.chance(1, 4)) {               // the file changes: other size, or same size and other time
      version++;
      if (g.coin()) { n = g.chance(1, 3) ? g.len(70000, {16384}) : data.size() + 1 + g.below(3); }
      data = g.raw(n);
      oh::write_file(path, data);
      switch (g.below(4)) {
      case 0: t0 += 1; break;
      case 1: t0 += 1 + g.below(100000); break;
      case 2: t0 += g.pick({256, 65536, 86400, 3600, 60, 131072, 1000, 16777216}) * (1 + (long)g.below(3)); break;
      case 3: t0 = std::max(1l, t0 - 1 - (long)g.below(1000)); while (times.count(t0)) t0--; break;
      }
      times.insert(t0);
      tv[0].tv_sec = tv[1].tv_sec = t0;
      utimes(path.c_str(), tv);
      c.d("[changed to %zu bytes] ", n);
    }
    std::string method = g.pick({"GET", "GET", "GET", "GET", "HEAD", "HEAD", "POST", "OPTIONS", "DELETE", "PROPFIND", "MOVE", "MKCOL"}), req;
    Range r{"", 0, 0, 0};
    bool ranged = g.chance(3, 5);
    req = method + " /x HTTP/1.1\r\n";
    if (method == "POST") req += "Content-Length: 0\r\n";
    sendfile_most = g.coin() ? 0 : g.pick({1, 1000, 4096, 16384, 65535});
    if (sendfile_most == 1 && n > 20000) sendfile_most = 777;
    if (ranged) { r = gen_range(g, n); req += "Range: " + r.header + "\r\n"; }
    int expect304 = 0;                       // 0 no, 1 yes
    bool may304 = false;                     // a range that is ignored, and a tag of the whole file
    std::string sent;
    if (g.chance(1, 2)) {
      if (!tags.empty() && !g.chance(1, 5)) {
        const Tag &t = tags[g.below(tags.size())];
        sent = t.tag;
        if (t.version == version && t.range == (ranged ? r.header : "")) expect304 = 1;
        if (t.version == version && (r.kind == 3 || t.odd)) { may304 = true; expect304 = 0; }
      } else sent = g.pick({"x", "\"\"", "*x", "00"});
      req += "If-None-Match: " + sent + "\r\n";
    }
    req += "\r\n";
    c.d("%s ", esc(req).c_str());
    bool head = method == "HEAD";
    struct stat fst;
    target = stat(path.c_str(), &fst) == 0 ? fst.st_ino : 0;
    read_most = g.chance(1, 4) ? (size_t)g.pick({1, 7, 1000, 4045}) : 0;
    if (read_most == 1 && n > 5000) read_most = 100;
    int fault = g.chance(1, 8) ? 1 + (int)g.below(3) : 0;      // the file ends early, breaks, the client goes away
    if (fault == 3 && sock) fault = 1;
    long after = fault ? (long)g.below(n + 300) : -1;
    if (fault) c.d("(fault %d after %ld) ", fault, after);
    broken = fault == 2;
    budget = fault == 1 || fault == 2 ? after : -1;
    gone_after = fault == 3 ? after : -1;
    Ans a = ask(sv, slp, sock, req, head, path);
    bool hit = fault == 3 ? a.r.consumed > 0 && !a.r.complete : budget == 0;
    budget = -1;
    read_most = 0;
    gone_after = -1;
    oh::Reply &p = a.r;
    if (fault && (hit || !p.ok || !p.complete)) {              // cut: the client can tell, and what it has is right
      if (pbt::open_fds() > fds) c.fail("the file is left open after it could not be served: %s", esc(req).c_str());
      size_t from = r.kind == 1 ? r.a : 0;
      std::string part = r.kind == 1 ? data.substr(r.a, r.b - r.a + 1) : data;
      if (p.ok && !head && (p.code == 200 || p.code == 206)) {
        if (p.body.size() > part.size() || part.compare(0, p.body.size(), p.body)) c.fail("a file that could not be served to its end arrives changed (range from %zu)", from);
        if (p.complete && p.body != part) c.fail("a file that could not be served to its end arrives as complete with %zu of %zu bytes", p.body.size(), part.size());
        if (!p.complete && a.open) c.fail("the connection stays open after only %zu of %zu bytes were sent", p.body.size(), part.size());
      }
      c.label(fmt("fault %d", fault));
      if (!p.complete) { c.nontrivial = true; continue; }
    }
    if (!p.ok || !p.complete) c.fail("broken or incomplete reply to %s: %s", esc(req).c_str(), p.error.c_str());
    const std::string *et = p.get("Etag");
    if (et) {
      for (auto &t : tags)
        if (t.tag == *et && t.version != version) c.fail("two versions of the file have the same tag %s", et->c_str());
      tags.push_back({*et, ranged ? r.header : "", version, r.kind == 3});
    }
    if (ranged || !sent.empty()) c.nontrivial = true;
    if (pbt::open_fds() > fds) c.fail("the file is left open after the reply: %s", esc(req).c_str());
    if (expect304 && r.kind == 2 && p.code == 416) { c.label("416"); continue; }
    if (expect304) {
      if (p.code != 304) c.fail("the current tag %s was presented and the reply is %d: %s", esc(sent).c_str(), p.code, esc(req).c_str());
      c.label("304");
      continue;
    }
    if (p.code == 304 && may304) { c.label("304 with an ignored range"); continue; }
    if (p.code == 304) c.fail("304 for tag %s, which is not of this version and range: %s", esc(sent).c_str(), esc(req).c_str());
    std::string want = data;
    bool partial = false;
    if (r.kind == 2) {
      if (p.code != 416) c.fail("range %s of a file of %zu bytes: %d", r.header.c_str(), n, p.code);
      const std::string *cr = p.get("Content-Range");
      if (!p.body.empty()) c.fail("416 with content");
      if (cr && *cr != fmt("bytes */%zu", n)) c.fail("416 with Content-Range %s", cr->c_str());
      c.label("416");
      continue;
    }
    if (r.kind == 3) {                       // not understood: ignored (whole file) or refused
      if (p.code == 416 || p.code == 400) { if (!p.body.empty()) c.fail("refused range with content"); c.label("odd range refused"); continue; }
      c.label("odd range ignored");
    }
    if (r.kind == 1) { partial = true; want = data.substr(r.a, r.b - r.a + 1); c.label("206"); }
    if (p.code != (partial ? 206 : 200)) c.fail("status %d for %s on %zu bytes", p.code, esc(req).c_str(), n);
    const std::string *cr = p.get("Content-Range"), *cl = p.get("Content-Length"), *ct = p.get("Content-Type");
    if (partial && (!cr || *cr != fmt("bytes %zu-%zu/%zu", r.a, r.b, n))) c.fail("Content-Range %s for %s on %zu bytes", cr ? cr->c_str() : "missing", r.header.c_str(), n);
    if (!partial && cr) c.fail("Content-Range %s on a whole file", cr->c_str());
    if (!cl || *cl != fmt("%zu", want.size())) c.fail("Content-Length %s instead of %zu", cl ? cl->c_str() : "missing", want.size());
    std::string mt = mime_of(name);
    if (mt != "*" && (!ct || *ct != mt)) c.fail("Content-Type %s instead of %s", ct ? ct->c_str() : "missing", mt.c_str());
    if (head) { if (!p.body.empty()) c.fail("HEAD with a body"); c.label("HEAD"); }
    else if (p.body != want) {
      size_t d = 0;
      while (d < p.body.size() && d < want.size() && p.body[d] == want[d]) d++;
      c.fail("content differs at byte %zu of %zu (got %zu bytes)", d, want.size(), p.body.size());
    }
    if (!p.keep_alive() && a.open) c.fail("connection kept open but announced closed");
    if (sock && n >= 16384) c.label("sendfile");
  }
}
