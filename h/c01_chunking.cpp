// C01: what the server makes of a request stream does not depend on how the
// bytes are cut into reads.
#include "http.hpp"
using namespace hm;
pbt::Config pbt::config;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is one request byte stream (well formed, or with 1-4 byte edits) and 2-4 partitions of it; non-trivial when the stream reached a handler or was refused after at least its request line, and at least two partitions differ";
}
struct Out { std::string end; Snap s; std::string reply; };
static Out run(const std::string &b, const std::vector<size_t> &cuts) {
  Server sv;
  Out o;
  size_t limit_post = 1 << 16, limit_file = 1 << 16;
  onion_set_max_post_size(sv.o, limit_post);
  onion_set_max_file_size(sv.o, limit_file);
  onion_listen_point *lp = sv.lp;
  oh::Conn conn;
  onion_request *r = oh::mem_request(lp, &conn);
  size_t p = 0;
  int st = OCS_NEED_MORE_DATA;
  std::vector<size_t> ends = cuts;
  ends.push_back(b.size());
  for (size_t e : ends) {
    // an exact copy, so that reading past the piece is caught
    char *piece = (char *)malloc(e - p);
    memcpy(piece, b.data() + p, e - p);
    st = onion_request_write(r, piece, e - p);
    free(piece);
    p = e;
    if (st != OCS_NEED_MORE_DATA) break;
  }
  if (st == OCS_REQUEST_READY) {
    int ps = onion_request_process(r);
    o.end = fmt("ready, then %d", ps);
    o.reply = no_date(conn.out);
  } else o.end = st == OCS_NEED_MORE_DATA ? "waiting for more" : st < 0 ? "closed" : fmt("status %d", st);
  if (!sv.snaps.empty()) o.s = sv.snaps.back();
  onion_request_free(r);
  return o;
}
// The same stream through the server's own reading of a connection.
static void wire(const std::string &b, const std::vector<size_t> &cuts, bool sock, const Out &ref, Ctx &c) {
  Server sv;
  onion_set_max_post_size(sv.o, 1 << 16);
  onion_set_max_file_size(sv.o, 1 << 16);
  Client cl(sv, sock);
  std::vector<size_t> ends = cuts;
  ends.push_back(b.size());
  size_t p = 0;
  for (size_t e : ends) {
    if (!sv.snaps.empty() || !cl.c.out.empty() || !cl.open) break;      // what follows the request is not of interest here
    if (e > p) cl.deliver(b.data() + p, e - p);
    p = e;
  }
  if (ref.end == "waiting for more") {
    if (!cl.open) c.fail("in one piece: waiting for more; over a connection: closed");
  } else if (ref.end == "closed" || ref.end[ref.end.size() - 2] == '-') {
    if (cl.open) c.fail("in one piece: %s; over a connection: left open", ref.end.c_str());
  }
  std::string d = diff(ref.s, sv.snaps.empty() ? Snap() : sv.snaps[0]);
  if (!d.empty()) c.fail("the handler sees something else when the stream is read from a connection: %s", d.c_str());
  if (no_date(cl.c.out).compare(0, ref.reply.size(), ref.reply)) c.fail("reply differs over a connection: %s / %s", esc(ref.reply).c_str(), esc(cl.c.out).c_str());
}
void pbt::property(Gen &g, Ctx &c) {
  GenOpts go;
  go.max_body = g.chance(1, 5) ? 6000 : 300;
  Model m = gen_request(g, go);
  std::string b = m.bytes;
  bool mutated = g.chance(1, 3);
  if (mutated) {
    size_t k = 1 + g.below(4);
    for (size_t i = 0; i < k && !b.empty(); i++) {
      size_t p = g.chance(1, 3) ? g.below(b.size()) : g.below(std::min(b.size(), m.head_size + 100));
      static const std::string frag[] = {"\n", "\r\n", "\r", " ", ":", std::string(1, '\0'), "\t", "--", "\n \n", "\r\n \r\n", "=", "\"", ";", "Content-Length: 5\r\n", "%", "%4", "&"};
      switch (g.below(4)) {
      case 0: b[p] = (char)g.below(256); break;
      case 1: b.erase(p, 1 + g.len(20)); break;
      case 2: b.insert(p, g.pick(frag)); break;
      case 3: b.insert(p, std::string(g.len(5000, {4095, 4096}), g.pick({'a', ' ', '\n', '0'}))); break;
      }
    }
    c.label("mutated");
  }
  if (b.empty()) return;
  c.d("%s", esc(b, 3000).c_str());
  Out ref = run(b, {});
  if (ref.end.compare(0, 5, "ready") == 0) c.label("handled");
  else c.label(ref.end);
  int n = 1 + g.below(3);
  for (int i = 0; i < n; i++) {
    std::vector<size_t> cuts = gen_cuts(g, b.size(), m.head_size);
    c.d(" | %s", cuts_str(cuts).c_str());
    if (!cuts.empty() && (ref.s.seen || ref.end == "closed" || b.find('\n') != std::string::npos)) c.nontrivial = true;
    Out o = run(b, cuts);
    if (o.end != ref.end) c.fail("in one piece: %s; cut: %s", ref.end.c_str(), o.end.c_str());
    std::string d = diff(ref.s, o.s);
    if (!d.empty()) c.fail("the handler sees something else when the stream is cut: %s", d.c_str());
    if (o.reply != ref.reply) c.fail("reply differs: %s / %s", esc(ref.reply).c_str(), esc(o.reply).c_str());
  }
  if (g.coin()) {
    bool sock = g.coin();
    std::vector<size_t> cuts;
    if (g.coin()) cuts = gen_cuts(g, b.size(), m.head_size);
    c.d(" | connection%s %s", sock ? " (socket)" : "", cuts_str(cuts).c_str());
    c.label(sock ? "socket" : "connection");
    wire(b, cuts, sock, ref, c);
  }
}
