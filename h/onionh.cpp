#include "onionh.hpp"
#include <dirent.h>
#include <ftw.h>
#include <stdarg.h>
#include <sys/socket.h>
namespace oh {
static void silent(onion_log_level, const char *, int, const char *f, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);     // arguments are still read, so dangling ones are still caught
  va_end(ap);
  static bool show = getenv("PBT_LOG") != nullptr;
  if (show) fprintf(stderr, "log: %s\n", b);
}
void quiet_log() { onion_log = silent; }

Conn *conn_of(onion_request *r) { return (Conn *)r->connection.user_data; }
static ssize_t (*http_write)(onion_request *, const char *, size_t);
static ssize_t (*http_read)(onion_request *, char *, size_t);
static void (*http_close)(onion_request *);
void Conn::use_socket() {
  int p[2];
  if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p)) { perror("socketpair"); exit(3); }
  fd = p[0];
  peer = p[1];
  fcntl(fd, F_SETFL, O_NONBLOCK);
  fcntl(peer, F_SETFL, O_NONBLOCK);
}
void Conn::drain() {
  char b[8192];
  ssize_t n;
  while ((n = ::read(peer, b, sizeof b)) > 0) out.append(b, n);
}
Conn::~Conn() { if (fd >= 0 && !closed) ::close(fd); if (peer >= 0) ::close(peer); }
static ssize_t mwrite(onion_request *r, const char *d, size_t n) {
  Conn *c = conn_of(r);
  if (c->peer >= 0) { ssize_t k = http_write(r, d, n); c->drain(); return k; }
  if (c->on_write) return c->on_write(d, n);
  c->out.append(d, n);
  return n;
}
static ssize_t mread(onion_request *r, char *d, size_t n) {
  Conn *c = conn_of(r);
  if (c->peer >= 0) return http_read(r, d, n);
  if (c->on_read) return c->on_read(d, n);
  size_t k = std::min(n, c->in.size() - c->in_pos);
  memcpy(d, c->in.data() + c->in_pos, k);
  c->in_pos += k;
  return k;
}
static void mclose(onion_request *r) {
  if (conn_of(r) && conn_of(r)->peer >= 0) { conn_of(r)->closed = true; http_close(r); return; }
  if (conn_of(r)) conn_of(r)->closed = true; if (r->connection.fd >= 0) { ::close(r->connection.fd); r->connection.fd = -1; } }
static int minit(onion_request *r) { return 0; }
static void mlisten(onion_listen_point *) {}
onion_listen_point *mem_listen_point() {
  onion_listen_point *lp = onion_http_new();
  http_write = lp->write;
  http_read = lp->read;
  http_close = lp->close;
  lp->request_init = minit;
  lp->write = mwrite;
  lp->read = mread;
  lp->close = mclose;
  lp->listen = mlisten;
  return lp;
}
onion_request *mem_request(onion_listen_point *lp, Conn *c) {
  onion_request *r = onion_request_new(lp);
  if (r) { r->connection.user_data = c; r->connection.fd = c->fd; }
  return r;
}
bool ieq(const std::string &a, const std::string &b) { return a.size() == b.size() && strncasecmp(a.data(), b.data(), a.size()) == 0; }
std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
std::string str(const char *s) { return s ? std::string(s) : std::string("<null>"); }
const std::string *Reply::get(const char *n) const { for (auto &h : headers) if (ieq(h.name, n)) return &h.value; return nullptr; }
int Reply::count(const char *n) const { int k = 0; for (auto &h : headers) if (ieq(h.name, n)) k++; return k; }
bool Reply::keep_alive() const {
  const std::string *c = get("Connection");
  if (c && ieq(*c, "close")) return false;
  if (framing == CLOSE) return false;
  if (minor >= 1) return true;
  return c && ieq(*c, "keep-alive");
}
static bool tokenchar(unsigned char c) { return c > 32 && c < 127 && !strchr("()<>@,;:\\\"/[]?={}", c); }
Reply read_reply(const std::string &s, bool head, bool at_eof, bool) {
  Reply r;
  auto err = [&](const std::string &m) { r.error = m; return r; };
  size_t p = s.find("\r\n");
  if (p == std::string::npos) return err("no status line end");
  std::string l = s.substr(0, p);
  if (l.size() < 12 || l.compare(0, 7, "HTTP/1.") || (l[7] != '0' && l[7] != '1') || l[8] != ' ' || !isdigit(l[9]) || !isdigit(l[10]) || !isdigit(l[11]) || (l.size() > 12 && l[12] != ' '))
    return err("bad status line \"" + esc(l) + "\"");
  r.minor = l[7] - '0';
  r.code = atoi(l.c_str() + 9);
  r.reason = l.size() > 13 ? l.substr(13) : "";
  if (r.code < 100 || r.code > 599) return err("bad status code " + l);
  p += 2;
  for (;;) {
    size_t e = s.find("\r\n", p);
    if (e == std::string::npos) return err("header section not terminated: \"" + esc(s.substr(p)) + "\"");
    if (e == p) { p += 2; break; }
    std::string h = s.substr(p, e - p);
    p = e + 2;
    size_t c = h.find(':');
    if (c == std::string::npos || c == 0) return err("bad header line \"" + esc(h) + "\"");
    for (size_t i = 0; i < c; i++) if (!tokenchar(h[i])) return err("bad header name \"" + esc(h) + "\"");
    size_t b = c + 1;
    while (b < h.size() && (h[b] == ' ' || h[b] == '\t')) b++;
    std::string v = h.substr(b);
    for (unsigned char ch : v) if (ch == '\n' || ch == '\r' || ch == 0) return err("line break inside header \"" + esc(h) + "\"");
    r.headers.push_back({h.substr(0, c), v});
  }
  if (r.count("Content-Length") > 1) return err("several Content-Length headers");
  if (r.count("Transfer-Encoding") > 1) return err("several Transfer-Encoding headers");
  const std::string *cl = r.get("Content-Length"), *te = r.get("Transfer-Encoding");
  if (cl && te) return err("both Content-Length and Transfer-Encoding");
  bool nobody = head || r.code == 204 || r.code == 304 || r.code / 100 == 1;
  if (cl) {
    if (cl->empty() || cl->find_first_not_of("0123456789") != std::string::npos) return err("bad Content-Length " + esc(*cl));
    r.framing = Reply::LENGTH;
    size_t n = strtoull(cl->c_str(), nullptr, 10);
    if (nobody) { r.complete = true; }
    else {
      if (s.size() - p < n) { r.body = s.substr(p); p = s.size(); r.ok = true; r.consumed = p; return r; }
      r.body = s.substr(p, n);
      p += n;
      r.complete = true;
    }
  } else if (te) {
    if (!ieq(*te, "chunked")) return err("unknown transfer encoding");
    r.framing = Reply::CHUNKED;
    if (nobody) r.complete = true;
    else for (;;) {
      size_t e = s.find("\r\n", p);
      if (e == std::string::npos) { if (at_eof) r.ok = true; r.consumed = s.size(); if (!at_eof) r.error = "chunk header incomplete"; return r; }
      std::string n = s.substr(p, e - p);
      if (n.empty() || n.size() > 8 || n.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) return err("bad chunk size \"" + esc(n) + "\"");
      size_t k = strtoul(n.c_str(), nullptr, 16);
      p = e + 2;
      if (s.size() < p + k + 2) { r.ok = true; r.consumed = s.size(); return r; }
      r.body += s.substr(p, k);
      if (s.compare(p + k, 2, "\r\n")) return err("chunk not terminated by CRLF");
      p += k + 2;
      if (k == 0) break;
      r.complete = true;
      r.complete = false;
    }
    r.complete = true;
  } else if (nobody || r.code / 100 == 1) {
    r.framing = Reply::NONE;
    r.complete = true;
  } else {
    r.framing = Reply::CLOSE;
    r.body = s.substr(p);
    p = s.size();
    r.complete = at_eof;
  }
  r.ok = true;
  r.consumed = p;
  return r;
}
std::string read_file(const std::string &p, bool *ok) {
  std::string r;
  FILE *f = fopen(p.c_str(), "rb");
  if (ok) *ok = f != nullptr;
  if (!f) return r;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
  fclose(f);
  return r;
}
void write_file(const std::string &p, const std::string &d) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f) { fprintf(stderr, "harness: cannot write %s\n", p.c_str()); exit(3); }
  fwrite(d.data(), 1, d.size(), f);
  fclose(f);
}
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { remove(p); return 0; }
void rm_rf(const std::string &p) {
  std::string s = pbt::scratch();
  if (p.compare(0, s.size(), s) != 0) { fprintf(stderr, "harness: refusing to remove %s\n", p.c_str()); exit(3); }
  nftw(p.c_str(), rmcb, 64, FTW_DEPTH | FTW_PHYS);
}
std::vector<std::string> list_dir(const std::string &p) {
  std::vector<std::string> r;
  DIR *d = opendir(p.c_str());
  if (!d) return r;
  while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") r.push_back(n); }
  closedir(d);
  std::sort(r.begin(), r.end());
  return r;
}
}
