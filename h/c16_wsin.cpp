// C16: WebSocket data from a client reaches the application intact.
#include "ws.hpp"
using namespace hm;
pbt::Config pbt::config;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is an opening handshake and a stream of 0 to 14 frames (text, binary and continuation data with any mask, length form and payload size; pings and pongs between them, also inside messages; ending in a close frame, a cut anywhere or a plain end) delivered in generated pieces to an application reading by callbacks or blocking, with generated read sizes, that sometimes echoes; non-trivial when data was read in more than one read or a control frame was handled";
  config.leak_check = true;
}
struct Read { size_t ask; };
static std::vector<ws::Frame> stream;            // what the client sends
static std::vector<size_t> sizes;                // read sizes, used in turn
static size_t at_size;
static std::string got;                          // what the application read
static std::vector<std::pair<size_t, int>> ops;  // after reading up to .first, the opcode was .second
static std::vector<ws::Frame> echoed;
static std::string wrong;
static int ends, calls, reads, echo_every, change_every, blocking;
static bool ended_by_app, closing, shortread;   // shortread: the last read came back short, which tells the application too
static void *ud;
static long free_ud;
static std::vector<std::pair<size_t, size_t>> frag;   // data fragments: [begin,end) in the data
static int op_at(size_t endpos) {                 // opcode of the data frame holding the byte before endpos
  size_t i = 0;
  for (auto &f : stream) if (f.op <= 2) { size_t b = frag[i].first, e = frag[i].second; i++; if (endpos > b && endpos <= e) return f.op; }
  return -1;
}
static size_t left_at(size_t pos) { for (auto &x : frag) if (pos >= x.first && pos < x.second) return x.second - pos; return 0; }
// One application read; false: the stream ended.
static bool do_read(onion_websocket *w, size_t ask) {
  std::unique_ptr<char[]> b(new char[ask ? ask : 1]);
  int r = onion_websocket_read(w, b.get(), ask);
  reads++;
  if (ask == 0) { if (r > 0) wrong = fmt("a read of no bytes returned %d", r); if (r < 0) closing = true; return r == 0; }
  if (r > (long)ask) { wrong = "read returned more than asked for"; return false; }
  if (r <= 0) { closing = true; return false; }
  got.append(b.get(), r);
  if (r < (long)ask) shortread = true; else shortread = false;
  if ((size_t)r == ask) {                         // a full read ends inside the fragment whose opcode is shown
    int o = onion_websocket_get_opcode(w), e = op_at(got.size());
    if (e >= 0 && o != e && wrong.empty()) wrong = fmt("after byte %zu the opcode is %d, the fragment has %d", got.size(), o, e);
  }
  if (echo_every && reads % echo_every == 0 && ((size_t)r == ask || onion_websocket_get_opcode(w) < 8)) {   // a stream cut inside a control frame leaves its opcode
    ws::Frame f;
    f.op = onion_websocket_get_opcode(w);
    f.payload.assign(b.get(), r);
    int k = onion_websocket_write(w, b.get(), r);
    if (k < 0 && r < (long)ask) return true;      // the client closed in the middle of this read
    if (k != r && wrong.empty()) wrong = fmt("echo of %d bytes returned %d", r, k);
    echoed.push_back(f);
  }
  return true;
}
static onion_connection_status cb2(void *p, onion_websocket *w, ssize_t n);
static onion_connection_status cb(void *p, onion_websocket *w, ssize_t n) {
  calls++;
  if (calls > 200000) { wrong = "the callback is called without end"; onion_websocket_set_callback(w, NULL); return OCS_CLOSE_CONNECTION; }
  if (p != ud && wrong.empty()) wrong = "callback got other user data";
  if (n < 0) { ends++; return OCS_CLOSE_CONNECTION; }
  size_t l = left_at(got.size());
  if (n == 0 && l && wrong.empty()) {
    bool empty = false;                           // an empty fragment before this byte
    for (auto &x : frag) if (x.first == x.second && x.first <= got.size()) empty = true;
    if (!empty) wrong = "callback told of no data where there is some";
  }
  if (n > 0 && (size_t)n != l && wrong.empty()) wrong = fmt("callback told %zd bytes are ready, %zu are left in the fragment", n, l);
  if (change_every && calls % change_every == 0) onion_websocket_set_callback(w, calls % (2 * change_every) ? cb : cb2);
  if (n == 0) return OCS_NEED_MORE_DATA;
  size_t ask = sizes[at_size++ % sizes.size()];
  if (ended_by_app && got.size() > 50) { onion_websocket_set_callback(w, NULL); return OCS_CLOSE_CONNECTION; }
  if (!do_read(w, ask)) return OCS_NEED_MORE_DATA;
  return OCS_NEED_MORE_DATA;
}
static onion_connection_status cb2(void *p, onion_websocket *w, ssize_t n) { return cb(p, w, n); }
static std::string payload(Gen &g, size_t n) {
  if (g.coin()) return g.from("abc {}\"", n);
  return g.raw(n);
}
void pbt::property(Gen &g, Ctx &c) {
  stream.clear(); sizes.clear(); got.clear(); ops.clear(); echoed.clear(); wrong.clear(); frag.clear();
  at_size = 0; ends = calls = reads = 0; ended_by_app = closing = shortread = false; free_ud = 0;
  blocking = g.chance(1, 4);
  echo_every = g.chance(1, 3) ? 1 + (int)g.below(3) : 0;
  change_every = g.chance(1, 4) ? 1 + (int)g.below(3) : 0;
  static const size_t B[] = {1, 2, 7, 64, 125, 126, 127, 128, 500, 4096, 70000};
  size_t ns = 1 + g.below(4);
  for (size_t i = 0; i < ns; i++) sizes.push_back(g.chance(1, 20) ? 0 : g.coin() ? g.pick(B) : 1 + g.below(300));
  bool any = false;
  for (size_t s : sizes) any |= s > 0;
  if (!any) sizes.push_back(5);
  // ---- handshake, good or bad
  std::string key = g.chance(1, 4) ? g.from("ABCxyz019+/=", 1 + g.len(60)) : std::string("dGhlIHNhbXBsZSBub25jZQ==");
  if (g.coin()) key = g.from("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 22) + "==";
  int bad = g.chance(1, 12) ? 1 + (int)g.below(4) : 0;
  std::string proto = g.chance(1, 5) ? (g.coin() ? "chat" : "chat, superchat") : "";
  std::string req = ws::handshake_request(g, key, proto.empty() ? "" : "Sec-WebSocket-Protocol: " + proto + "\r\n");
  auto drop = [&](const char *h) { size_t p = oh::lower(req).find(h), e = req.find("\r\n", p); req.erase(p, e + 2 - p); };
  if (bad == 1) drop("upgrade: w");
  if (bad == 2) drop("sec-websocket-key");
  if (bad == 3) drop("sec-websocket-version");
  if (bad == 4) { static const char *V[] = {"8", "0", "14", "x"}; size_t p = oh::lower(req).find("sec-websocket-version: ") + 23; req.replace(p, 2, g.pick(V)); }
  // ---- frames
  int n = (int)g.below(15);
  bool inmsg = false;
  int pings = 0, controls = 0;
  std::string data, bytes;
  std::vector<std::string> ping_payloads;
  size_t total = 0;
  struct Mark { size_t end; bool data; std::string ping; size_t dend; };
  std::vector<Mark> marks;
  auto push = [&](ws::Frame &f) {
    unsigned char m[4];
    std::string mr = g.raw(4);
    memcpy(m, mr.data(), 4);
    f.masked = !g.chance(1, 8);
    f.lenform = f.op < 8 && g.chance(1, 8) ? 1 + (int)g.below(2) : 0;
    bytes += ws::encode(f, m);
    if (f.op <= 2) { frag.push_back({data.size(), data.size() + f.payload.size()}); data += f.payload; }
    stream.push_back(f);
    c.d("%s%s", ws::show(f).c_str(), f.masked ? "m" : "");
    marks.push_back({bytes.size(), f.op <= 2, f.op == 9 ? f.payload : "", data.size()});
  };
  for (int i = 0; i < n; i++) {
    ws::Frame f;
    int k = (int)g.weighted({8, 2, 1});
    if (k == 0) {
      f.op = inmsg ? 0 : 1 + (int)g.below(2);
      f.fin = !g.chance(1, 3);
      inmsg = !f.fin;
      size_t L = g.len(total > 200000 ? 200 : 3000, {125, 126, 127, 128, 255, 256, 511, 512});
      static const size_t BIG[] = {32767, 32768, 33023, 40000, 49152, 65280, 65535, 65536, 65537, 65792, 98304, 131072};
      if (total < 200000 && g.chance(1, 6)) L = g.coin() ? g.pick(BIG) : g.below(140000);
      f.payload = payload(g, L);
      total += L;
    } else {
      f.op = k == 1 ? 9 : 10;
      f.payload = payload(g, g.len(125, {0, 124, 125}));
      if (k == 1) pings++, ping_payloads.push_back(f.payload);
      controls++;
    }
    push(f);
  }
  if (total > 20000) sizes.push_back(g.coin() ? 4096 : 1000 + g.below(70000));
  int end = (int)g.weighted({4, 2, 2});             // close frame, end of stream, cut
  std::string status;
  bool has_close = end == 0;
  if (end == 0) {
    ws::Frame f;
    f.op = 8;
    if (!g.chance(1, 3)) { static const int S[] = {1000, 1001, 1002, 1024, 3000, 3072, 4096, 4999}; int s = g.pick(S); status = std::string() + (char)(s >> 8) + (char)s; f.payload = status + (g.coin() ? "bye" : ""); }
    push(f);
    controls++;
  }
  size_t cut = bytes.size();
  if (end == 2 && bytes.size()) { cut = g.below(bytes.size()); bytes.resize(cut); c.d(" cut at %zu", cut); }
  ended_by_app = g.chance(1, 12) && !blocking;
  // ---- run
  Server s;
  std::string new_wrong;
  bool made = false;
  int marker = 7;
  ud = &marker;
  s.handler = [&](onion_request *r, onion_response *res) -> int {
    onion_websocket *w = onion_websocket_new(r, res);
    if (!w) { onion_response_write0(res, "plain"); return OCS_PROCESSED; }
    made = true;
    if (onion_websocket_new(r, res) != w) wrong = "a second onion_websocket_new gives another websocket";
    onion_websocket_set_userdata(w, ud, [](void *p) { free_ud++; });
    if (blocking) {
      for (size_t i = 0; i < 300000; i++) { size_t a = sizes[at_size++ % sizes.size()]; if (!do_read(w, a)) break; }
      return OCS_CLOSE_CONNECTION;
    }
    onion_websocket_set_callback(w, cb);
    return OCS_WEBSOCKET;
  };
  Client cl(s);
  cl.r->connection.fd = open("/dev/null", O_RDWR);
  size_t at = 0;
  std::vector<size_t> cuts = bytes.size() > 20000 ? std::vector<size_t>() : gen_cuts(g, bytes.size(), frag.empty() ? 0 : 0);
  size_t ci = 0;
  auto feed = cl.c.on_read;
  bool up = false;
  cl.c.on_read = [&](char *d, size_t k) -> ssize_t {
    if (!made && !up) { if (!cl.pending.empty()) return feed(d, k); up = true; }
    while (ci < cuts.size() && cuts[ci] <= at) ci++;
    size_t lim = (ci < cuts.size() ? cuts[ci] : bytes.size()) - at;
    k = std::min(k, lim);
    memcpy(d, bytes.data() + at, k);
    at += k;
    return k;
  };
  c.d(" %s sizes", blocking ? "blocking" : "callbacks");
  for (size_t x : sizes) c.d(" %zu", x);
  c.d(" echo=%d change=%d bad=%d %s key=%s", echo_every, change_every, bad, cuts_str(cuts).c_str(), key.c_str());
  cl.deliver(req.data(), req.size());
  std::string out = cl.c.out;
  bool still_open = cl.open;
  cl.close();
  std::string out2 = cl.c.out;
  if (!wrong.empty()) c.fail("%s", wrong.c_str());
  if (ws::sleeps) c.fail("the library slept waiting for data that poll reports");
  if (bad) {
    c.label("refused handshake");
    c.nontrivial = true;
    if (made) c.fail("a websocket was made for a request that is no valid handshake (%d)", bad);
    oh::Reply rep = oh::read_reply(out, false, true);
    if (!rep.error.empty() || rep.code != 200 || rep.body != "plain") c.fail("refused handshake disturbed the reply: %s", esc(out).c_str());
    return;
  }
  if (!made) c.fail("no websocket for a valid handshake");
  if (still_open) c.fail("the connection stays open after the websocket ended");
  size_t hs;
  oh::Reply rep;
  std::string e = ws::check_handshake(out2, key, hs, rep);
  if (!e.empty()) c.fail("%s", e.c_str());
  auto pr = rep.get("Sec-WebSocket-Protocol");
  if (!proto.empty() && (!pr || *pr != "chat")) c.fail("subprotocols '%s' offered, '%s' answered", proto.c_str(), pr ? pr->c_str() : "none");
  if (proto.empty() && pr) c.fail("a subprotocol is named that was not offered");
  if (free_ud != 1) c.fail("user data released %ld times", free_ud);
  // ---- data
  bool to_end = !ended_by_app || got.size() <= 50;
  if (ended_by_app && !closing && ends == 0) to_end = false;
  std::string expect = data;
  size_t whole = data.size();
  if (end == 2) {                                  // bytes of data that arrived before the cut
    whole = 0;
    size_t prev = 0, dprev = 0;
    for (size_t i = 0; i < marks.size(); i++) {
      if (marks[i].data) {
        size_t plen = marks[i].dend - dprev;
        if (cut >= marks[i].end) whole = marks[i].dend;
        else if (cut > marks[i].end - plen) { whole = marks[i].dend - (marks[i].end - cut); break; }
        else break;
      } else if (cut < marks[i].end) break;
      dprev = marks[i].dend;
    }
  }
  if (data.compare(0, got.size(), got) != 0 || got.size() > whole) {
    size_t i = 0;
    while (i < got.size() && i < data.size() && got[i] == data[i]) i++;
    c.fail("the application read %zu bytes, wrong from byte %zu: %s instead of %s", got.size(), i, esc(got.substr(i, 40)).c_str(), esc(data.substr(i, 40)).c_str());
  }
  if (to_end && got.size() != whole) c.fail("the application read only %zu of %zu bytes", got.size(), whole);
  // ---- frames sent
  std::string derr;
  std::vector<ws::Frame> sent = ws::decode(out2.substr(hs), derr);
  if (!derr.empty()) c.fail("sent frames: %s", derr.c_str());
  std::vector<ws::Frame> app;
  std::vector<std::string> pongs;
  std::vector<std::string> closes;
  for (auto &f : sent) {
    if (!f.fin) c.fail("unfinished frame sent");
    if (!closes.empty()) c.fail("a frame is sent after the close frame");
    if (f.op == 10) pongs.push_back(f.payload);
    else if (f.op == 8) closes.push_back(f.payload);
    else app.push_back(f);
  }
  size_t expp = 0;
  for (auto &m : marks) if (m.end <= cut) { size_t i = &m - &marks[0]; if (stream[i].op == 9) expp++; }
  if (pongs.size() > expp || (to_end && pongs.size() != expp)) c.fail("%zu pongs for %zu pings", pongs.size(), expp);
  for (size_t i = 0; i < pongs.size(); i++) if (pongs[i] != ping_payloads[i]) c.fail("pong %zu carries %s, the ping had %s", i, esc(pongs[i]).c_str(), esc(ping_payloads[i]).c_str());
  if (app.size() != echoed.size()) c.fail("%zu frames sent for %zu writes", app.size(), echoed.size());
  for (size_t i = 0; i < app.size(); i++) if (app[i].payload != echoed[i].payload || app[i].op != echoed[i].op) c.fail("write %zu sent as %s, meant %s", i, ws::show(app[i]).c_str(), ws::show(echoed[i]).c_str());
  if (to_end && has_close && (closes.size() != 1 || closes[0] != status)) c.fail("close frame with status '%s' answered with %zu close frames%s", esc(status).c_str(), closes.size(), closes.size() ? esc(closes[0]).c_str() : "");
  if (!has_close && closes.size()) c.fail("close frame sent without need");
  if (!blocking && !closing && !shortread && to_end && ends != 1) c.fail("the callback was told of the end %d times", ends);
  if (ends > 1) c.fail("the callback was told of the end %d times", ends);
  if (reads > 1 || controls) c.nontrivial = true;
  c.label(blocking ? "blocking" : "callbacks");
  if (controls) c.label("control frames");
  if (end == 2) c.label("cut stream");
  if (total > 65535) c.label("64 bit lengths");
}
