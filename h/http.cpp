#include "http.hpp"
#include <sys/ioctl.h>
using namespace oh;
namespace hm {
static const char TOK[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
static const char HEX[] = "0123456789abcdef", HEXU[] = "0123456789ABCDEF";
std::string pct(Gen &g, const std::string &s, bool path, bool value) {
  std::string r;
  bool upper = g.coin();
  for (unsigned char c : s) {
    bool unres = isalnum(c) || strchr("-_.~", c) || (path && c == '/');
    if (!path && c == ' ' && g.coin()) { r += '+'; continue; }
    if (!unres && strchr("!$'()*,:@", c) && g.coin()) unres = true;
    if (!unres && !path && strchr(value ? ";/?=" : ";/?", c) && g.coin()) unres = true;
    if (unres && !(g.chance(1, 20) && c != '/')) r += (char)c;
    else { const char *h = upper ? HEXU : HEX; r += '%'; r += h[c >> 4]; r += h[c & 15]; }
  }
  return r;
}
static std::string text(Gen &g, size_t n) {          // non NUL bytes, mostly printable
  std::string r;
  int k = g.below(4);
  for (size_t i = 0; i < n; i++) {
    if (k == 0) r += (char)g.range(1, 255);
    else if (k == 1) r += (char)g.range(32, 126);
    else r += TOK[g.below(sizeof TOK - 1)];
  }
  return r;
}
static std::string form(Gen &g, const Pairs &p) {
  std::string r;
  for (auto &kv : p) {
    if (!r.empty()) r += '&';
    r += pct(g, kv.first, false);
    if (!kv.second.empty() || g.coin()) r += "=" + pct(g, kv.second, false, true);
  }
  return r;
}
static Pairs pairs(Gen &g, size_t maxn, size_t maxlen) {
  Pairs p;
  size_t n = g.len(maxn);
  for (size_t i = 0; i < n; i++) {
    std::string k = i && g.chance(1, 6) ? p[g.below(i)].first : text(g, 1 + g.len(12));
    p.push_back({k, text(g, g.len(maxlen))});
  }
  return p;
}
static std::string icase(Gen &g, std::string s) {
  int k = g.below(4);
  for (auto &c : s) { if (k == 1) c = tolower(c); else if (k == 2) c = toupper(c); else if (k == 3 && isalpha(c) && g.coin()) c ^= 32; }
  return s;
}
// content that brushes against the boundary without containing it
static std::string near_boundary(Gen &g, const std::string &b, size_t n, bool nul) {
  std::string r, full = "\r\n--" + b;
  while (r.size() < n) {
    switch (g.weighted({4, 3, 2, 2, 1, 1})) {
    case 0: { size_t k = 1 + g.len(40); for (size_t i = 0; i < k; i++) r += TOK[g.below(sizeof TOK - 1)]; break; }
    case 1: r += full.substr(0, 1 + g.below(full.size() - 1)); break;
    case 2: r += full.substr(1, g.below(full.size() - 1)); break;
    case 3: r += g.pick(std::vector<std::string>{"\r\n", "\n", "\r", "\r\r\n", "\n\n", "--", "\r\n-", "\r\n--", "-"}); break;
    case 4: r += (char)(nul ? g.below(256) : 1 + g.below(255)); break;
    case 5: r += g.raw(1 + g.len(1200, {1023, 1024, 1025, 1499, 1500})); break;
    }
  }
  r.resize(n);
  if (!nul) for (auto &c : r) if (!c) c = 'n';
  // the terminator must not appear, nor the text start like one
  for (size_t p; (p = ("\n" + r + "\n").find("\n--" + b)) != std::string::npos;) r[p + 1 < r.size() ? p + 1 : p] = '#';
  // nor may the text's tail plus the real terminator make an earlier one
  return r;
}
static std::string fold(Gen &g, const std::string &v, std::string &meant, const char *nl) {
  // optionally split the value on a blank over several lines
  meant = v;
  size_t p = v.find(' ');
  if (p == std::string::npos || p == 0 || p + 1 >= v.size() || v[p + 1] == ' ' || v[p + 1] == '\t' || v[p - 1] == ' ' || v[p - 1] == '\t' || !g.chance(1, 3)) return v;
  std::string lead = g.pick(std::vector<std::string>{" ", "\t", "   ", " \t "});
  return v.substr(0, p) + nl + lead + v.substr(p + 1);
}
Model gen_request(Gen &g, const GenOpts &o) {
  Model m;
  static const std::vector<std::string> all = {"GET", "POST", "HEAD", "OPTIONS", "PROPFIND", "PUT", "DELETE", "MOVE", "MKCOL", "PROPPATCH", "PATCH"};
  static const std::vector<std::string> common = {"GET", "GET", "POST", "POST", "POST", "PUT", "HEAD"};
  const auto &ms = o.methods.empty() ? (g.chance(1, 4) ? all : common) : o.methods;
  m.method = g.pick(ms);
  const char *nl = o.fancy && g.chance(1, 8) ? "\n" : "\r\n";
  // path
  size_t segs = g.len(5);
  m.path = "/";
  for (size_t i = 0; i < segs; i++) {
    std::string s = text(g, g.len(o.max_body > 3000 && g.chance(1, 30) ? 900 : 12));
    m.path += s;
    if (i + 1 < segs || g.coin()) m.path += "/";
  }
  if (g.chance(2, 3)) m.query = pairs(g, 6, g.chance(1, 20) ? 600 : 12);
  m.minor = g.chance(1, 6) ? 0 : 1;
  std::string url = pct(g, m.path, true);
  if (!m.query.empty()) url += "?" + form(g, m.query);
  if (url.size() > 3900) { m.path = "/long"; m.query.clear(); url = "/long"; }
  std::string head = m.method + " " + url + " HTTP/1." + char('0' + m.minor) + nl;
  // body
  std::string ctype;
  if (o.allow_body) {
    if (m.method == "POST") m.kind = (BodyKind)g.pick(std::vector<int>{URLENC, MULTIPART, MULTIPART, MULTIPART, RAW});
    else if (m.method == "PUT") m.kind = PUTFILE;
    else if (g.chance(1, 3) && m.method != "GET" && m.method != "HEAD") m.kind = RAW;
  }
  std::string body;
  switch (m.kind) {
  case URLENC:
    m.form = pairs(g, 8, g.chance(1, 6) ? 1600 : 20);
    body = form(g, m.form);
    while (body.size() > o.max_body && !m.form.empty()) { m.form.pop_back(); body = form(g, m.form); }
    ctype = "application/x-www-form-urlencoded";
    break;
  case MULTIPART: {
    m.boundary = g.from(g.coin() ? "-abc" : TOK, 1 + g.len(50));
    size_t n = 1 + g.len(5);
    body = "--" + m.boundary;
    for (size_t i = 0; i < n; i++) {
      Part p;
      p.file = g.chance(2, 5);
      p.name = g.from("abcdefghij KLM0123456789[]_-.%&=<>'\x7f\xc3\xa9", 1 + g.len(20));
      while (!p.name.empty() && (p.name[0] == ' ')) p.name[0] = 'x';
      p.value = near_boundary(g, m.boundary, g.len(o.max_body / n, {1023, 1024, 1025, 1500}), p.file);
      if (nl[0] == '\n' && !p.value.empty() && p.value.back() == '\r') p.value.back() = ' ';   // would be read as a CRLF
      body += nl;
      bool ct_first = o.fancy && g.coin();
      std::string ct = std::string(icase(g, "Content-Type: ")) + g.pick(std::vector<std::string>{"text/plain", "application/octet-stream", "image/png; name=x"}) + nl;
      std::string cd = icase(g, "Content-Disposition") + ": form-data; name=\"" + p.name + "\"";
      if (p.file) {
        p.filename = g.from("abcdefghij KLM0123456789_-.()\xc3\xa9", g.len(30));
        cd += "; filename=\"" + p.filename + "\"";
      }
      cd += nl;
      bool has_ct = p.file || g.chance(1, 4);
      if (has_ct && ct_first) body += ct;
      body += cd;
      if (has_ct && !ct_first) body += ct;
      body += nl;
      body += p.value + nl + "--" + m.boundary;
      m.parts.push_back(p);
    }
    body += std::string("--") + nl;
    ctype = "multipart/form-data; boundary=" + m.boundary;
    break;
  }
  case RAW:
    m.body = g.raw(g.len(o.max_body, {1, 1023, 1024, 1499, 1500, 1501}));
    if (m.method == "POST") ctype = g.pick(std::vector<std::string>{"application/json", "text/plain", "application/octet-stream", ""});
    else ctype = g.coin() ? "text/xml" : "";
    body = m.body;
    break;
  case PUTFILE:
    m.body = g.raw(g.len(o.max_body, {1, 1023, 1024, 1499, 1500, 1501}));
    body = m.body;
    break;
  case NOBODY: break;
  }
  // headers
  Pairs hs;
  hs.push_back({"Host", "example.org"});
  int conn = o.connection >= 0 ? o.connection : (int)g.below(3);
  if (conn == 1) hs.push_back({"Connection", g.coin() ? "keep-alive" : "Keep-Alive"});
  if (conn == 2) hs.push_back({"Connection", g.coin() ? "close" : "Close"});
  if (!ctype.empty()) hs.push_back({"Content-Type", ctype});
  if (m.kind != NOBODY) hs.push_back({"Content-Length", fmt("%zu", body.size())});
  if (g.chance(1, 4)) {
    static const std::string OCT = std::string(TOK) + "!#$%&'()*+-./:<=>?@[]^_`{|}~";
    std::string v;
    size_t n = 1 + g.len(5);
    for (size_t i = 0; i < n; i++) {
      std::string k = i && g.chance(1, 6) ? m.cookies[g.below(i)].first : g.from((std::string(TOK) + "!#$%&'*+.^`|~").c_str(), 1 + g.len(12));
      m.cookies.push_back({k, g.from(OCT.c_str(), g.len(g.chance(1, 10) ? 300 : 20))});
      v += (i ? g.chance(1, 8) ? ";" + std::string(g.below(4), ' ') : "; " : "") + k + "=" + m.cookies[i].second;
    }
    hs.push_back({"Cookie", v});
  }
  size_t extra = g.len(6);
  for (size_t i = 0; i < extra; i++) {
    std::string n = "X-" + g.from(TOK, 1 + g.len(15));
    if (i && g.chance(1, 8)) n = "X-Dup";
    std::string v;
    size_t l = g.chance(1, 12) ? g.len(3500) : g.len(30);
    int kind = g.below(3);
    for (size_t k = 0; k < l; k++) v += (char)(kind == 0 ? g.range(33, 126) : kind == 1 ? g.pick({'a', 'b', ' ', ':', ';', ',', '=', '"', '\t', '\x80', '\xff'}) : TOK[g.below(sizeof TOK - 1)]);
    while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v[0] = 'v';
    while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.back() = 'v';
    hs.push_back({n, v});
  }
  for (size_t i = hs.size(); i > 1; i--) std::swap(hs[i - 1], hs[g.below(i)]);
  for (auto &h : hs) {
    std::string meant;
    bool std_header = h.first[0] != 'X';
    std::string v = o.fancy && !std_header ? fold(g, h.second, meant, nl) : h.second;
    head += (o.fancy ? icase(g, h.first) : h.first) + ":" + (o.fancy ? g.pick(std::vector<std::string>{" ", "", "  ", "\t"}) : " ") + v + nl;
    m.headers.push_back({h.first, h.second});
  }
  head += nl;
  m.head_size = head.size();
  m.bytes = head + body;
  return m;
}
static void addpair(void *p, const char *k, const char *v, int flags) {
  ((Pairs *)p)->push_back({k ? k : "<null>", (flags & OD_DICT) ? "<dict>" : v ? v : "<null>"});
}
static Pairs dict_pairs(const onion_dict *d, bool low = false) {
  Pairs p;
  if (d) onion_dict_preorder(d, (void *)addpair, &p);
  if (low) for (auto &x : p) x.first = lower(x.first);
  std::sort(p.begin(), p.end());
  return p;
}
Snap snapshot(onion_request *r) {
  Snap s;
  s.seen = true;
  s.method = str(onion_request_get_method_name(r));
  s.fullpath = str(onion_request_get_fullpath(r));
  s.path = str(onion_request_get_path(r));
  s.http11 = onion_request_get_flags(r) & OR_HTTP11;
  s.headers = dict_pairs(onion_request_get_header_dict(r), true);
  s.query = dict_pairs(onion_request_get_query_dict(r));
  s.post = dict_pairs(onion_request_get_post_dict(r));
  s.cookies = dict_pairs(onion_request_get_cookies_dict(r));
  s.has_post = onion_request_get_post_dict(r) != NULL;
  s.has_files = onion_request_get_file_dict(r) != NULL;
  for (auto &f : dict_pairs(onion_request_get_file_dict(r))) {
    bool ok;
    std::string d = read_file(f.second, &ok);
    s.files.push_back({f.first, ok ? d : "<no file>"});
    s.temp_names.push_back(f.second);
  }
  std::sort(s.files.begin(), s.files.end());
  const onion_block *b = onion_request_get_data(r);
  if (b && (onion_request_get_flags(r) & OR_METHODS) != OR_PUT) {
    s.has_data = true;
    s.data.assign(onion_block_data(b), onion_block_size(b));
  }
  return s;
}
static std::string show(const Pairs &p) {
  std::string r = "{";
  for (auto &x : p) r += "\"" + esc(x.first, 80) + "\"=\"" + esc(x.second, 120) + "\"" + fmt("(%zu) ", x.second.size());
  return r + "}";
}
std::string Snap::str() const {
  if (!seen) return "<not handled>";
  return fmt("%s %s path=%s %s headers=%s query=%s cookies=%s post%s=%s files%s=%s data=%s", method.c_str(), esc(fullpath).c_str(), esc(path).c_str(), http11 ? "1.1" : "1.0",
             show(headers).c_str(), show(query).c_str(), show(cookies).c_str(), has_post ? "" : "(none)", show(post).c_str(), has_files ? "" : "(none)", show(files).c_str(), has_data ? (esc(data) + fmt("(%zu)", data.size())).c_str() : "none");
}
static std::string cmp(const char *what, const Pairs &a, const Pairs &b) {
  if (a == b) return "";
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  std::string x = i < a.size() ? show({a[i]}) : "nothing", y = i < b.size() ? show({b[i]}) : "nothing";
  return std::string(what) + ": expected " + x + " got " + y;
}
std::string diff(const Snap &a, const Snap &b) {
  if (a.seen != b.seen) return a.seen ? "the request is not handled" : "the request is handled";
  if (!a.seen) return "";
  if (a.method != b.method) return "method " + a.method + " vs " + b.method;
  if (a.fullpath != b.fullpath) return "path " + esc(a.fullpath) + " vs " + esc(b.fullpath);
  if (a.path != b.path) return "relative path " + esc(a.path) + " vs " + esc(b.path);
  if (a.http11 != b.http11) return "http version";
  std::string r;
  if ((r = cmp("headers", a.headers, b.headers)) != "") return r;
  if ((r = cmp("query", a.query, b.query)) != "") return r;
  if ((r = cmp("post", a.post, b.post)) != "") return r;
  if ((r = cmp("files", a.files, b.files)) != "") return r;
  if ((r = cmp("cookies", a.cookies, b.cookies)) != "") return r;
  if (a.has_post != b.has_post) return "presence of form data";
  if (a.has_files != b.has_files) return "presence of files";
  if (a.has_data != b.has_data) return "request data presence";
  if (a.data != b.data) return "request data " + esc(a.data, 80) + fmt("(%zu)", a.data.size()) + " vs " + esc(b.data, 80) + fmt("(%zu)", b.data.size());
  return "";
}
std::string check_against(const Model &m, const Snap &s) {
  Snap e;
  e.seen = true;
  e.method = m.method;
  e.fullpath = m.path;
  e.path = m.path.substr(1);
  e.http11 = m.minor == 1;
  for (auto &h : m.headers) e.headers.push_back({lower(h.first), h.second});
  e.query = m.query;
  if (m.kind == URLENC) e.post = m.form;
  for (auto &p : m.parts) {
    e.post.push_back({p.name, p.file ? p.filename : p.value});
    if (p.file) e.files.push_back({p.name, p.value});
  }
  if (m.kind == PUTFILE) e.files.push_back({"filename", m.body});
  if (m.kind == RAW && !m.body.empty()) { e.has_data = true; e.data = m.body; }
  e.cookies = m.cookies;
  e.has_post = s.has_post;
  e.has_files = s.has_files;
  for (Pairs *p : {&e.headers, &e.query, &e.post, &e.files, &e.cookies}) std::sort(p->begin(), p->end());
  return diff(e, s);
}
static int hcb(void *p, onion_request *r, onion_response *res) {
  Server *s = (Server *)p;
  if (s->handler) return s->handler(r, res);
  s->snaps.push_back(snapshot(r));
  onion_response_write0(res, "ok");
  return OCS_PROCESSED;
}
Server::Server(int flags, bool install) {
  o = onion_new(flags | O_ONE_LOOP | O_NO_SIGPIPE);
  lp = mem_listen_point();
  onion_add_listen_point(o, NULL, NULL, lp);
  if (install) onion_set_root_handler(o, onion_handler_new((onion_handler_handler)hcb, this, NULL));
}
Server::Server(onion *existing) : o(existing), owned(false) {
  lp = mem_listen_point();
  onion_add_listen_point(o, NULL, NULL, lp);
}
Server::~Server() { if (owned) onion_free(o); }
Client::Client(Server &sv, bool socket) : s(sv) {
  if (socket) c.use_socket();
  r = mem_request(s.lp, &c);
  c.on_read = [this](char *d, size_t n) -> ssize_t {
    size_t k = std::min(n, pending.size());
    memcpy(d, pending.data(), k);
    pending.erase(0, k);
    return k;
  };
}
Client::~Client() { close(); }
void Client::close() {
  if (r) onion_request_free(r);
  r = nullptr;
  open = false;
}
bool Client::deliver(const char *d, size_t n) {
  if (!open) return false;
  if (c.peer >= 0) {
    while (n && open) {
      ssize_t k = ::write(c.peer, d, std::min(n, (size_t)60000));
      if (k <= 0) { perror("socket pair"); exit(3); }
      d += k;
      n -= k;
      int left = 0;
      while (open && !ioctl(c.fd, FIONREAD, &left) && left > 0) {
        status = s.lp->read_ready(r);
        if (status < 0) { close(); return false; }
      }
    }
    return open;
  }
  pending.append(d, n);
  while (!pending.empty() && open) {
    status = s.lp->read_ready(r);
    if (status < 0) { close(); return false; }
  }
  return open;
}
bool Client::deliver(const std::string &d, const std::vector<size_t> &cuts) {
  size_t b = 0;
  for (size_t e : cuts) { if (e > b) { if (!deliver(d.data() + b, e - b)) return false; b = e; } }
  return b < d.size() ? deliver(d.data() + b, d.size() - b) : open;
}
std::vector<size_t> gen_cuts(Gen &g, size_t n, size_t interesting) {
  std::vector<size_t> r;
  if (n < 2) return r;
  switch (g.weighted({1, 2, 4, 2, 2})) {
  case 0: break;                                                           // one piece
  case 1: for (size_t i = 1; i < n; i++) r.push_back(i); break;            // byte by byte
  case 2: { size_t k = 1 + g.below(6); for (size_t i = 0; i < k; i++) r.push_back(1 + g.below(n - 1)); break; }
  case 3: { size_t k = 1 + g.below(40); for (size_t i = k; i < n; i += k) r.push_back(i); break; }   // fixed size
  case 4: { size_t base = interesting && interesting < n ? interesting : g.below(n); for (int i = 0; i < 4; i++) { long x = (long)base + (long)g.below(9) - 4; if (x > 0 && x < (long)n) r.push_back(x); } break; }
  }
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
std::string cuts_str(const std::vector<size_t> &c) {
  if (c.size() > 12) return fmt("%zu pieces", c.size() + 1);
  std::string r = "cuts";
  for (size_t x : c) r += fmt(" %zu", x);
  return r;
}
std::string no_date(std::string r) {
  size_t p = r.find("\r\nDate: ");
  if (p != std::string::npos) { size_t e = r.find("\r\n", p + 2); if (e != std::string::npos) r.erase(p, e - p); }
  return r;
}
}
