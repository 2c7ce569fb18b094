#include "ws.hpp"
#include <poll.h>
namespace ws {
long sleeps = 0;
static std::string sha1(const std::string &in) {
  uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  std::string m = in;
  uint64_t bits = (uint64_t)in.size() * 8;
  m += (char)0x80;
  while (m.size() % 64 != 56) m += (char)0;
  for (int i = 7; i >= 0; i--) m += (char)(bits >> (8 * i));
  auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[80];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t)(uint8_t)m[o + 4 * i] << 24 | (uint32_t)(uint8_t)m[o + 4 * i + 1] << 16 | (uint32_t)(uint8_t)m[o + 4 * i + 2] << 8 | (uint8_t)m[o + 4 * i + 3];
    for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
    for (int i = 0; i < 80; i++) {
      uint32_t f, k;
      if (i < 20) f = (b & c) | (~b & d), k = 0x5A827999;
      else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1;
      else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC;
      else f = b ^ c ^ d, k = 0xCA62C1D6;
      uint32_t t = rol(a, 5) + f + e + k + w[i];
      e = d; d = c; c = rol(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
  }
  std::string r;
  for (int i = 0; i < 5; i++) for (int j = 3; j >= 0; j--) r += (char)(h[i] >> (8 * j));
  return r;
}
std::string accept_key(const std::string &key) {
  static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string d = sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"), r;
  for (size_t i = 0; i < d.size(); i += 3) {
    uint32_t v = 0;
    int n = 0;
    for (int j = 0; j < 3; j++) { v <<= 8; if (i + j < d.size()) { v |= (uint8_t)d[i + j]; n++; } }
    for (int j = 0; j < 4; j++) r += j <= n ? A[(v >> (18 - 6 * j)) & 63] : '=';
  }
  return r;
}
std::string encode(const Frame &f, const unsigned char mask[4]) {
  std::string r;
  size_t n = f.payload.size();
  int form = f.lenform;
  if (form < 1 && n > 125) form = 1;
  if (form < 2 && n > 65535) form = 2;
  r += (char)((f.fin ? 0x80 : 0) | f.op);
  char m = f.masked ? 0x80 : 0;
  if (form == 0) r += (char)(m | n);
  if (form == 1) { r += (char)(m | 126); r += (char)(n >> 8); r += (char)n; }
  if (form == 2) { r += (char)(m | 127); for (int i = 7; i >= 0; i--) r += (char)((uint64_t)n >> (8 * i)); }
  if (f.masked) r.append((const char *)mask, 4);
  for (size_t i = 0; i < n; i++) r += (char)(f.payload[i] ^ (f.masked ? mask[i % 4] : 0));
  return r;
}
std::vector<Frame> decode(const std::string &s, std::string &error, bool truncated_ok) {
  std::vector<Frame> r;
  size_t p = 0;
  while (p < s.size()) {
    size_t at = p;
    auto bad = [&](const char *w) { error = fmt("byte %zu: %s (%s)", at, w, esc(s.substr(at, 40)).c_str()); return r; };
    if (s.size() - p < 2) { if (truncated_ok) return r; return bad("truncated header"); }
    Frame f;
    unsigned char a = s[p], b = s[p + 1];
    p += 2;
    f.fin = a & 0x80;
    if (a & 0x70) return bad("reserved bits set");
    f.op = a & 15;
    f.masked = b & 0x80;
    if (f.masked) return bad("server frame is masked");
    uint64_t n = b & 127;
    if (n >= 126) {
      int k = n == 126 ? 2 : 8;
      if (s.size() - p < (size_t)k) { if (truncated_ok) return r; return bad("truncated header"); }
      n = 0;
      for (int i = 0; i < k; i++) n = n << 8 | (uint8_t)s[p + i];
      p += k;
      if (k == 2 && n < 126) return bad("length not in its shortest form");
      if (k == 8 && n < 65536) return bad("length not in its shortest form");
      if (n >> 63) return bad("length too big");
      f.lenform = k == 2 ? 1 : 2;
    }
    if (s.size() - p < n) { if (truncated_ok) { f.payload = s.substr(p); f.fin = false; return r; } return bad("truncated payload"); }
    f.payload = s.substr(p, n);
    p += n;
    r.push_back(f);
  }
  return r;
}
std::string show(const Frame &f) { return fmt("[op=%d%s len=%zu %s]", f.op, f.fin ? "" : " cont", f.payload.size(), esc(f.payload, 24).c_str()); }
std::string handshake_request(Gen &g, const std::string &key, const std::string &extra) {
  static const char *UP[] = {"websocket", "WebSocket", "WEBSOCKET"};
  std::string r = "GET /ws HTTP/1.1\r\nHost: h\r\n";
  std::vector<std::string> h = {fmt("Upgrade: %s\r\n", g.pick(UP)), "Connection: Upgrade\r\n", (g.coin() ? "Sec-WebSocket-Key: " : "Sec-Websocket-Key: ") + key + "\r\n", "Sec-WebSocket-Version: 13\r\n"};
  if (!extra.empty()) h.push_back(extra);
  while (!h.empty()) { size_t i = g.below(h.size()); r += h[i]; h.erase(h.begin() + i); }
  return r + "\r\n";
}
std::string check_handshake(const std::string &out, const std::string &key, size_t &consumed, oh::Reply &rep) {
  size_t e = out.find("\r\n\r\n");
  consumed = 0;
  if (e == std::string::npos) return "no complete handshake reply: " + esc(out);
  rep = oh::read_reply(out.substr(0, e + 4), true, true);
  if (!rep.error.empty()) return "handshake reply: " + rep.error;
  consumed = e + 4;
  if (rep.code != 101) return fmt("handshake answered with %d", rep.code);
  auto up = rep.get("Upgrade"), co = rep.get("Connection"), ac = rep.get("Sec-WebSocket-Accept");
  if (!up || !oh::ieq(*up, "websocket")) return "handshake reply has no Upgrade: websocket";
  if (!co || !oh::ieq(*co, "upgrade")) return "handshake reply has no Connection: Upgrade";
  if (!ac || rep.count("Sec-WebSocket-Accept") != 1) return "handshake reply has no single accept key";
  if (*ac != accept_key(key)) return "accept key " + esc(*ac) + " for key " + esc(key) + ", expected " + accept_key(key);
  return "";
}
}
extern "C" {
int __real_poll(struct pollfd *, nfds_t, int);
static bool is_null_dev(int fd) { struct stat a; return fstat(fd, &a) == 0 && S_ISCHR(a.st_mode); }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
  if (n == 1 && t == -1 && is_null_dev(p->fd)) { p->revents = p->events; return 1; }   // the in-memory connection always has something to say
  return __real_poll(p, n, t);
}
unsigned __wrap_sleep(unsigned n) { ws::sleeps++; return 0; }
}
