#include "fakeredis.hpp"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <unistd.h>
namespace fakeredis {
static int port, control = -1;
struct Conn { std::string in; bool harness = false; };
// one command in RESP, or false when there is not a whole one
static bool take(std::string &in, std::vector<std::string> &a) {
  a.clear();
  size_t at = 0;
  auto line = [&](std::string &l) { size_t e = in.find("\r\n", at); if (e == std::string::npos) return false; l = in.substr(at, e - at); at = e + 2; return true; };
  std::string l;
  if (!line(l)) return false;
  if (l.empty() || l[0] != '*') { in.erase(0, at); a = {l}; return true; }
  int n = atoi(l.c_str() + 1);
  for (int i = 0; i < n; i++) {
    if (!line(l)) return false;
    size_t k = strtoul(l.c_str() + 1, NULL, 10);
    if (in.size() < at + k + 2) return false;
    a.push_back(in.substr(at, k));
    at += k + 2;
  }
  in.erase(0, at);
  return true;
}
static void say(int fd, const std::string &s) {
  size_t at = 0;
  while (at < s.size()) { ssize_t w = send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL); if (w <= 0) return; at += w; }
}
static std::string bulk(const std::string *s) { return s ? "$" + std::to_string(s->size()) + "\r\n" + *s + "\r\n" : "$-1\r\n"; }
static std::string num(long n) { return ":" + std::to_string(n) + "\r\n"; }
static void serve(int ls) {
  std::map<std::string, std::map<std::string, std::string>> h;
  std::map<std::string, std::string> str;
  std::map<int, Conn> cs;
  int failing = 0;
  for (;;) {
    std::vector<struct pollfd> p{{ls, POLLIN, 0}};
    for (auto &x : cs) p.push_back({x.first, POLLIN, 0});
    if (ppoll(p.data(), p.size(), NULL, NULL) < 0) continue;
    if (p[0].revents) { int c = accept(ls, NULL, NULL); if (c >= 0) { int one = 1; setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); cs[c]; } }
    for (size_t i = 1; i < p.size(); i++) {
      if (!p[i].revents || !cs.count(p[i].fd)) continue;
      int fd = p[i].fd;
      char b[65536];
      ssize_t r = recv(fd, b, sizeof b, 0);
      if (r <= 0) { close(fd); cs.erase(fd); continue; }
      cs[fd].in.append(b, r);
      std::vector<std::string> a;
      while (cs.count(fd) && take(cs[fd].in, a)) {
        std::string c = a.empty() ? "" : a[0], out;
        for (auto &ch : c) ch = toupper(ch);
        size_t n = a.size();
        if (c == "HARNESS") { cs[fd].harness = true; out = "+OK\r\n"; }
        else if (failing && !cs[fd].harness) { failing--; out = "-LOADING not ready\r\n"; }
        else if (c == "DROP") { for (auto it = cs.begin(); it != cs.end();) if (!it->second.harness) { close(it->first); it = cs.erase(it); } else ++it; out = "+OK\r\n"; }
        else if (c == "FAIL" && n == 2) { failing = atoi(a[1].c_str()); out = "+OK\r\n"; }
        else if (c == "FLUSHALL") { h.clear(); str.clear(); failing = 0; out = "+OK\r\n"; }
        else if (c == "PING") out = "+PONG\r\n";
        else if (c == "SELECT" || c == "AUTH") out = "+OK\r\n";
        else if (c == "HEXISTS" && n == 3) out = num(h.count(a[1]) && h[a[1]].count(a[2]));
        else if (c == "HLEN" && n == 2) out = num(h.count(a[1]) ? h[a[1]].size() : 0);
        else if (c == "HGET" && n == 3) out = bulk(h.count(a[1]) && h[a[1]].count(a[2]) ? &h[a[1]][a[2]] : nullptr);
        else if ((c == "HSET" || c == "HMSET") && n >= 4 && n % 2 == 0) { long k = 0; for (size_t x = 2; x < n; x += 2) { k += !h[a[1]].count(a[x]); h[a[1]][a[x]] = a[x + 1]; } out = c == "HSET" ? num(k) : "+OK\r\n"; }
        else if (c == "HDEL" && n >= 3) { long k = 0; for (size_t x = 2; x < n; x++) k += h.count(a[1]) && h[a[1]].erase(a[x]); out = num(k); }
        else if (c == "GET" && n == 2) out = bulk(str.count(a[1]) ? &str[a[1]] : nullptr);
        else if (c == "SET" && n >= 3) { str[a[1]] = a[2]; out = "+OK\r\n"; }
        else if (c == "DEL" && n >= 2) { long k = 0; for (size_t x = 1; x < n; x++) k += str.erase(a[x]) + h.erase(a[x]); out = num(k); }
        else if (c == "EXISTS" && n == 2) out = num(str.count(a[1]) || h.count(a[1]));
        else if (c == "EXPIRE" || c == "PERSIST") out = num(1);
        else out = "-ERR unknown command or wrong number of arguments\r\n";
        if (cs.count(fd)) say(fd, out);
      }
    }
  }
}
int start() {
  if (port) return port;
  int ls = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  struct sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t l = sizeof a;
  if (ls < 0 || bind(ls, (struct sockaddr *)&a, sizeof a) || listen(ls, 64) || getsockname(ls, (struct sockaddr *)&a, &l)) { perror("fakeredis"); exit(3); }
  pid_t me = getpid(), ch = fork();
  if (ch < 0) { perror("fork"); exit(3); }
  if (!ch) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != me) _exit(0);
    for (int s = 1; s < 32; s++) signal(s, SIG_DFL);
    int z = open("/dev/null", O_RDWR);
    for (int i = 0; i < 3; i++) dup2(z, i);
    for (int i = 3; i < 1024; i++) if (i != ls) close(i);
    serve(ls);
    _exit(0);
  }
  close(ls);
  return port = ntohs(a.sin_port);
}
std::string ask(const std::vector<std::string> &args) {
  if (control < 0) {
    control = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(port);
    int one = 1;
    if (control < 0 || connect(control, (struct sockaddr *)&a, sizeof a)) { perror("fakeredis connect"); exit(3); }
    setsockopt(control, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    ask({"HARNESS"});
  }
  std::string m = "*" + std::to_string(args.size()) + "\r\n";
  for (auto &x : args) m += bulk(&x);
  say(control, m);
  std::string r;
  char b[65536];
  auto whole = [&] {
    size_t e = r.find("\r\n");
    if (e == std::string::npos) return false;
    return r[0] != '$' || r[1] == '-' || r.size() >= e + 4 + strtoul(r.c_str() + 1, NULL, 10);
  };
  while (!whole()) { ssize_t n = recv(control, b, sizeof b, 0); if (n <= 0) { fprintf(stderr, "the stand-in for Redis is gone\n"); exit(3); } r.append(b, n); }
  return r;
}
void flush() { ask({"FLUSHALL"}); }
}
