#include "net.hpp"
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <time.h>
namespace net {
static sockaddr_in sa(const std::string &a, int port) {
  sockaddr_in s;
  memset(&s, 0, sizeof s);
  s.sin_family = AF_INET;
  s.sin_port = htons(port);
  inet_pton(AF_INET, a.c_str(), &s.sin_addr);
  return s;
}
int listen_at(const std::string &addr, int port) {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  int one = 1;
  setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in s = sa(addr, port);
  if (bind(fd, (sockaddr *)&s, sizeof s) || listen(fd, 5)) { close(fd); return -1; }
  return fd;
}
std::string own_addr() {
  static pid_t pid;
  static std::string a;
  if (pid != getpid()) {
    pid = getpid();
    a = fmt("127.%d.%d.%d", 1 + (pid >> 16) % 250, (pid >> 8) & 255, 1 + (pid & 255) % 254);
    int fd = listen_at(a, 10000);
    if (fd >= 0) close(fd);
    else a = "127.0.0.1";
  }
  return a;
}
int free_port(const std::string &addr) {
  static int n = 0;
  for (int i = 0; i < 20000; i++) {
    int port = 10000 + (getpid() * 7 + n++) % 20000;
    int fd = listen_at(addr, port);
    if (fd < 0) continue;
    close(fd);
    return port;
  }
  return 10001;
}
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
std::string own_end(int fd) {
  sockaddr_in s{};
  socklen_t l = sizeof s;
  if (getsockname(fd, (sockaddr *)&s, &l)) return "";
  unsigned a = ntohl(s.sin_addr.s_addr);
  return fmt("%u.%u.%u.%u %d", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255, ntohs(s.sin_port));
}
int dial(const std::string &addr, int port, int timeout_ms, const std::string &from) {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
  if (fd < 0) return -errno;
  sockaddr_in s = sa(addr, port);
  int e = 0;
  if (!from.empty()) { sockaddr_in f = sa(from, 0); int one = 1; setsockopt(fd, IPPROTO_IP, IP_BIND_ADDRESS_NO_PORT, &one, sizeof one); if (bind(fd, (sockaddr *)&f, sizeof f)) { /* the system's choice, then */ } }
  if (connect(fd, (sockaddr *)&s, sizeof s)) {
    if (errno != EINPROGRESS) { e = errno; close(fd); return -e; }
    pollfd p = {fd, POLLOUT, 0};
    if (poll(&p, 1, timeout_ms) <= 0) { close(fd); return -ETIMEDOUT; }
    socklen_t l = sizeof e;
    getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &l);
    if (e) { close(fd); return -e; }
  }
  int one = 1;
  setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) & ~O_NONBLOCK);
  return fd;
}
bool send_all(int fd, const std::string &d) {
  size_t n = 0;
  while (n < d.size()) {
    ssize_t r = send(fd, d.data() + n, d.size() - n, MSG_NOSIGNAL);
    if (r <= 0) return false;
    n += r;
  }
  return true;
}
static int wait_in(int fd, double until) {
  for (;;) {
    double d = until - now();
    if (d < 0) d = 0;
    pollfd p = {fd, POLLIN, 0};
    int r = poll(&p, 1, (int)(d * 1000) + 1);
    if (r > 0) return 1;
    if (r == 0) return 0;
    if (errno != EINTR) return -1;
  }
}
Got read_reply(int fd, std::string &rest, bool head, int timeout_ms) {
  Got g;
  double until = now() + timeout_ms / 1000.0;
  std::string buf;
  buf.swap(rest);
  char b[16384];
  for (;;) {
    if (buf.find("\r\n\r\n") != std::string::npos || g.eof) {
      g.r = oh::read_reply(buf, head, g.eof);
      if (g.eof || (g.r.ok && g.r.complete)) break;
    }
    int w = wait_in(fd, until);
    if (w <= 0) { g.timeout = true; g.r = oh::read_reply(buf, head, false); break; }
    ssize_t n = recv(fd, b, sizeof b, 0);
    if (n <= 0) { g.eof = true; continue; }
    buf.append(b, n);
  }
  g.raw = buf;
  if (g.r.ok && g.r.complete && g.r.consumed < buf.size()) rest = buf.substr(g.r.consumed);
  return g;
}
bool wait_eof(int fd, int timeout_ms) {
  double until = now() + timeout_ms / 1000.0;
  char b[4096];
  for (;;) {
    if (wait_in(fd, until) <= 0) return false;
    if (recv(fd, b, sizeof b, 0) <= 0) return true;
  }
}
int threads() {
  int n = 0;
  DIR *d = opendir("/proc/self/task");
  if (!d) return -1;
  while (dirent *e = readdir(d)) if (e->d_name[0] != '.') n++;
  closedir(d);
  return n;
}
}
