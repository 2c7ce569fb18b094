// C17: WebSocket data from the application is sent as exact, valid frames.
#include "ws.hpp"
#include <stdarg.h>
using namespace hm;
pbt::Config pbt::config;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is an open websocket and a program of 1 to 14 operations (write of text or any bytes up to 200 kB around every header size boundary, formatted prints with strings, numbers, paddings and embedded widths around the internal buffer size, direct vprintf calls, opcode changes, a final close with a status, and closes and writes after it), over a transport that takes everything, takes generated parts, or fails at a generated byte; non-trivial when some payload needs an extended length, the transport took a part, or two frames were sent";
  config.leak_check = true;
}
static int vp(onion_websocket *w, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = onion_websocket_vprintf(w, f, ap);
  va_end(ap);
  return r;
}
void pbt::property(Gen &g, Ctx &c) {
  std::vector<ws::Frame> expect;
  std::string err;
  int opcode = 1;
  int n = 1 + (int)g.below(14);
  int fault = (int)g.weighted({4, 4, 1});
  std::vector<size_t> parts;
  size_t fail_at = 0;
  if (fault == 1) { size_t k = 1 + g.below(4); for (size_t i = 0; i < k; i++) parts.push_back(1 + g.len(5000, {1, 2, 1024, 1500})); }
  if (fault == 2) fail_at = g.len(70000, {1, 2, 4, 10, 128, 1024});
  int fail_ret = g.coin() ? -1 : 0;
  bool made = false;
  size_t body0 = 0, pi = 0, taken = 0;
  bool failed = false, broken = false;
  std::string key = "dGhlIHNhbXBsZSBub25jZQ==";
  Server s;
  Client cl(s);
  cl.r->connection.fd = open("/dev/null", O_RDWR);
  long partial = 0;
  std::string program;
  s.handler = [&](onion_request *r, onion_response *res) -> int {
    onion_websocket *w = onion_websocket_new(r, res);
    if (!w) return OCS_INTERNAL_ERROR;
    made = true;
    body0 = cl.c.out.size();
    cl.c.on_write = [&](const char *d, size_t k) -> ssize_t {
      if (fault == 1) { size_t m = parts[pi++ % parts.size()]; if (m < k) { k = m; partial++; } }
      if (fault == 2) { if (taken >= fail_at) { failed = true; return fail_ret; } if (taken + k > fail_at) k = fail_at - taken; }
      cl.c.out.append(d, k);
      taken += k;
      return k;
    };
    for (int i = 0; i < n && err.empty(); i++) {
      ws::Frame f;
      int ret = 0;
      switch (g.weighted({6, 4, 2, 3})) {
      case 0: {
        size_t L = g.len(200000, {0, 1, 124, 125, 126, 127, 128, 255, 256, 1023, 1024, 1025, 2048, 32767, 32768, 65534, 65535, 65536, 65537, 131072});
        if (g.coin()) L = g.len(300, {125, 126, 127});
        f.payload = g.coin() ? g.from("ab<\xc3\xa9", L) : g.raw(L);
        std::unique_ptr<char[]> ex(new char[L ? L : 1]);       // exactly sized, so that reading past it shows
        memcpy(ex.get(), f.payload.data(), L);
        c.d("write(%zu) ", L);
        ret = onion_websocket_write(w, ex.get(), L);
        break;
      }
      case 1: {
        int kind = (int)g.below(4);
        size_t L = g.len(4000, {0, 125, 126, 510, 511, 512, 513, 1023, 1024});
        std::string a = g.from("xyz %s\"", L);
        int num = (int)g.range(-100000, 100000);
        if (kind == 0) f.payload = a, ret = onion_websocket_printf(w, "%s", a.c_str());
        if (kind == 1) f.payload = fmt("%d", num) + ":" + a + "!", ret = onion_websocket_printf(w, "%d:%s!", num, a.c_str());
        if (kind == 2) { int wd = (int)g.len(2000, {510, 511, 512, 513}); f.payload = a.size() < (size_t)wd ? std::string(wd - a.size(), ' ') + a : a; ret = onion_websocket_printf(w, "%*s", wd, a.c_str()); }
        if (kind == 3) f.payload = a + std::string("\0|", 2) + fmt("%05u", (unsigned)(num < 0 ? -num : num)), ret = onion_websocket_printf(w, "%s%c|%05u", a.c_str(), 0, (unsigned)(num < 0 ? -num : num));
        c.d("printf%d(%zu) ", kind, f.payload.size());
        break;
      }
      case 2: {
        size_t L = g.len(3000, {510, 511, 512, 513});
        std::string a = g.from("vw%d", L), b = g.from("pq", g.below(30));
        f.payload = a + "-" + b;
        ret = vp(w, "%s-%s", a.c_str(), b.c_str());
        c.d("vprintf(%zu) ", f.payload.size());
        break;
      }
      default: {
        static const int O[] = {1, 2, 9, 10, 1, 0};
        opcode = g.pick(O);
        onion_websocket_set_opcode(w, (onion_websocket_opcode)opcode);
        c.d("opcode(%d) ", opcode);
        if (onion_websocket_get_opcode(w) != opcode) err = "get_opcode is not what set_opcode set";
        continue;
      }
      }
      f.op = opcode;
      expect.push_back(f);
      if (failed) { broken = true; if (ret == (int)f.payload.size() && f.payload.size()) err = fmt("write %d reports %d accepted bytes although the transport failed", i, ret); break; }
      if (ret != (int)f.payload.size()) err = fmt("operation %d returned %d for %zu bytes", i, ret, f.payload.size());
    }
    if (!broken && g.coin()) {
      static const int S[] = {1000, 1001, 1011, 1024, 3072, 3328, 4000, 4096};
      int st = g.pick(S);
      char b[3] = {(char)(st >> 8), (char)st, 0};
      onion_websocket_close(w, b);
      ws::Frame f;
      f.op = 8;
      f.payload.assign(b, 2);
      expect.push_back(f);
      if (failed) broken = true;
      c.d("close(%d) ", st);
      if (!broken) for (int k = (int)g.below(3); k > 0; k--) {      // too late
        if (g.coin()) { c.d("close-again "); onion_websocket_close(w, "\x03\xe8"); }
        else if (onion_websocket_write(w, "late", 4) > 0) { c.d("late-write "); err = "a write after the close is accepted"; }
      }
    }
    return OCS_CLOSE_CONNECTION;
  };
  c.d("transport %s: ", fault == 0 ? "whole" : fault == 1 ? "parts" : fmt("fails at %zu", fail_at).c_str());
  std::string req = "GET / HTTP/1.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + key + "\r\nSec-WebSocket-Version: 13\r\n\r\n";
  cl.deliver(req.data(), req.size());
  cl.close();
  if (!err.empty()) c.fail("%s", err.c_str());
  if (!made) c.fail("no websocket");
  size_t hs;
  oh::Reply rep;
  std::string e = ws::check_handshake(cl.c.out, key, hs, rep);
  if (!e.empty()) c.fail("%s", e.c_str());
  if (hs != body0) c.fail("handshake reply not sent before the first frame");
  std::string sent = cl.c.out.substr(hs), all;
  if (broken) {                                    // what got through is the beginning of the right bytes
    unsigned char m[4] = {0, 0, 0, 0};
    for (auto &f : expect) all += ws::encode(f, m);
    if (sent != all.substr(0, sent.size())) c.fail("the bytes sent before the transport failed are not the beginning of the frames");
    c.label("failing transport");
    c.nontrivial = true;
    return;
  }
  std::string derr;
  std::vector<ws::Frame> got = ws::decode(sent, derr);
  if (!derr.empty()) c.fail("%s", derr.c_str());
  for (size_t i = 0; i < got.size() || i < expect.size(); i++) {
    if (i >= got.size()) c.fail("frame %zu was not sent: %s", i, ws::show(expect[i]).c_str());
    if (i >= expect.size()) c.fail("extra frame %s", ws::show(got[i]).c_str());
    if (!got[i].fin || got[i].op != expect[i].op) c.fail("frame %zu is %s, meant %s", i, ws::show(got[i]).c_str(), ws::show(expect[i]).c_str());
    if (got[i].payload != expect[i].payload) {
      size_t k = 0;
      while (k < got[i].payload.size() && k < expect[i].payload.size() && got[i].payload[k] == expect[i].payload[k]) k++;
      c.fail("frame %zu carries %zu bytes instead of %zu, wrong from byte %zu: %s", i, got[i].payload.size(), expect[i].payload.size(), k, esc(got[i].payload.substr(k, 30)).c_str());
    }
    if (got[i].lenform) { c.nontrivial = true; c.label(got[i].lenform == 1 ? "16 bit length" : "64 bit length"); }
  }
  if (partial) c.label("partial writes");
  if (partial || got.size() > 1) c.nontrivial = true;
}
