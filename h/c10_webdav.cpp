// C10: WebDAV acts only inside its share and does what each verb says.
#include "http.hpp"
#include <errno.h>
#include <limits.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
extern "C" {
#include <onion/handlers/webdav.h>
}
using namespace hm;
pbt::Config pbt::config;
static std::string base, share, shadow, outside;
static bool exdev, fail_write;
static size_t short_write;
static std::string real_of(const std::string &p) { char b[PATH_MAX]; return realpath(p.c_str(), b) ? b : ""; }
static bool within(const std::string &root, const std::string &p) { return p == root || p.compare(0, root.size() + 1, root + "/") == 0; }
extern "C" int __real_rename(const char *, const char *);
extern "C" int __wrap_rename(const char *a, const char *b) {
  if (exdev) {                                   // as if both were on different file systems
    struct stat x, y;
    bool same = lstat(a, &x) == 0 && lstat(b, &y) == 0 && x.st_dev == y.st_dev && x.st_ino == y.st_ino;
    if (!same && access(a, F_OK) == 0) { errno = EXDEV; return -1; }
  }
  return __real_rename(a, b);
}
extern "C" ssize_t __real_write(int, const void *, size_t);
extern "C" ssize_t __wrap_write(int fd, const void *d, size_t n) {
  if (fail_write || short_write) {
    char l[64], p[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, p, sizeof p - 1);
    if (k > 0) { p[k] = 0; if (within(share, p)) { if (fail_write) { errno = ENOSPC; return -1; } n = std::min(n, short_write); } }
  }
  return __real_write(fd, d, n);
}
void pbt::harness_init() {
  oh::quiet_log();
  pbt::drop_privileges();
  base = pbt::scratch() + "/w";
  share = base + "/share";
  shadow = base + "/shadow";
  outside = base + "/outside";
  xmlInitParser();
  config.rule = "a case is a share with generated files, directories and links (some leading out or nowhere) and a history of 4 to 16 WebDAV requests (GET, HEAD, PUT, DELETE, MKCOL, MOVE, PROPFIND, PROPPATCH, OPTIONS) with generated paths, destinations and depths, optionally with the upload area on another file system or a full disk; non-trivial when at least three requests changed the share or one was refused for leading outside";
  config.leak_check = true;
}
// ---- trees -------------------------------------------------------------------
static void dump(const std::string &root, const std::string &rel, std::map<std::string, std::string> &m) {
  for (auto &n : oh::list_dir(root + rel)) {
    std::string r = rel + "/" + n, p = root + r;
    struct stat st;
    if (lstat(p.c_str(), &st)) continue;
    if (S_ISLNK(st.st_mode)) { char b[PATH_MAX]; ssize_t k = readlink(p.c_str(), b, sizeof b - 1); m[r] = "link " + std::string(b, k > 0 ? k : 0); }
    else if (S_ISDIR(st.st_mode)) { m[r] = "dir"; dump(root, r, m); }
    else m[r] = fmt("file %03o ", st.st_mode & 0777) + oh::read_file(p);
  }
}
static std::string tree_diff(const std::map<std::string, std::string> &want, const std::map<std::string, std::string> &got) {
  for (auto &x : want) { auto it = got.find(x.first); if (it == got.end()) return x.first + " is missing"; if (it->second != x.second) return x.first + " is \"" + esc(it->second, 60) + "\" instead of \"" + esc(x.second, 60) + "\""; }
  for (auto &x : got) if (!want.count(x.first)) return x.first + " appeared (" + esc(x.second, 60) + ")";
  return "";
}
static const char *NAMES[] = {"a", "b", "c", "d", "e.txt", "x y", "<&>", "\xc3\xb1", "deny", "q'\"", "%20"};
static std::string gen_path(Gen &g, const std::vector<std::string> &existing) {
  std::string r;
  if (!existing.empty() && g.chance(1, 2)) {
    r = existing[g.below(existing.size())].substr(1);
    if (g.chance(1, 3)) r += std::string("/") + g.pick(NAMES);
  } else {
    int n = 1 + (int)g.below(3);
    for (int i = 0; i < n; i++) { if (i) r += "/"; r += g.chance(1, 8) ? std::string(g.pick({"out", "outf", "dang", "dangout", "inl", "..", "."})) : std::string(g.pick(NAMES)); }
  }
  if (g.chance(1, 10)) { size_t p = g.below(r.size() + 1); r.insert(p, g.pick({"/", "./", "../", "/../", "/..", "//", "///"})); }
  if (g.chance(1, 30)) r += "/";
  if (g.chance(1, 30)) r = "../" + std::string(g.pick({"outside/f", "share2/f", "shadow/a", "share/a", "outside/new"}));
  return r;
}
static std::string url(Gen &g, const std::string &p) {
  std::string r;
  for (unsigned char ch : p) { if (!(isalnum(ch) || strchr("/.-_~", ch)) || (!r.empty() && g.chance(1, 20))) r += fmt("%%%02X", ch); else r += ch; }
  return r;
}
static bool has_dd(const std::string &p) {
  std::string s = "/" + p + "/";
  return s.find("/../") != std::string::npos;
}
static std::string norm(const std::string &p) {                // collapse // and /./ and trailing /
  std::string r, seg;
  for (size_t i = 0; i <= p.size(); i++) {
    if (i == p.size() || p[i] == '/') { if (!seg.empty() && seg != ".") r += "/" + seg; seg.clear(); }
    else seg += p[i];
  }
  return r;
}
// where acting on path would really act: inside the share?
static bool allowed(const std::string &path, bool &sure) {
  std::string f = shadow + "/" + path;
  sure = true;
  std::string r = real_of(f);
  struct stat st;
  if (r.empty()) {
    std::string g = f;
    while (!g.empty() && g.back() == '/') g.pop_back();
    if (lstat(g.c_str(), &st) == 0) return false;              // dangling link, or something/ that is no directory
    size_t k = g.rfind('/');
    r = real_of(g.substr(0, k));
    if (r.empty()) return false;                               // no parent
  }
  return within(shadow, r);
}
static bool link_to(const std::string &path) { struct stat st; std::string f = shadow + "/" + path; while (!f.empty() && f.back() == '/') f.pop_back(); return lstat(f.c_str(), &st) == 0 && S_ISLNK(st.st_mode); }
static int deny_cb(const char *root, const char *file, onion_request *req) {
  if (strstr(file, "deny")) return 1;
  return onion_webdav_default_check_permissions(root, file, req);
}
struct Props { bool coll = false; std::string len = "-"; std::multimap<std::string, std::string> have; std::multiset<std::string> lack; };
static void props_of(const char *xml, size_t n, std::map<std::string, Props> &out, std::string &err, int &dup, bool doubled) {
  xmlDocPtr d = xmlReadMemory(xml, n, "r.xml", NULL, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
  if (!d) { err = "not well formed XML"; return; }
  xmlNode *root = xmlDocGetRootElement(d);
  if (!root || strcmp((char *)root->name, "multistatus") || !root->ns || strcmp((char *)root->ns->href, "DAV:")) err = "not a DAV multistatus";
  else for (xmlNode *r = root->children; r; r = r->next) {
    if (strcmp((char *)r->name, "response")) continue;
    std::string href;
    Props P;
    for (xmlNode *x = r->children; x; x = x->next) {
      if (!strcmp((char *)x->name, "href")) { xmlChar *t = xmlNodeGetContent(x); href = (char *)t; xmlFree(t); }
      if (strcmp((char *)x->name, "propstat")) continue;
      bool ok = false;
      for (xmlNode *s = x->children; s; s = s->next) if (!strcmp((char *)s->name, "status")) { xmlChar *t = xmlNodeGetContent(s); ok = strstr((char *)t, " 200 "); xmlFree(t); }
      for (xmlNode *s = x->children; s; s = s->next) if (!strcmp((char *)s->name, "prop"))
        for (xmlNode *p = s->children; p; p = p->next) {
          if (p->type != XML_ELEMENT_NODE) continue;
          std::string pn = (char *)p->name;
          if (!p->ns || strcmp((char *)p->ns->href, pn == "executable" ? "http://apache.org/dav/props/" : "DAV:")) err = "property " + pn + " in a wrong namespace";
          if (!ok) { P.lack.insert(pn); continue; }
          xmlChar *t = xmlNodeGetContent(p);
          P.have.insert({pn, (char *)t});
          if (pn == "getcontentlength") P.len = (char *)t;
          xmlFree(t);
          if (pn == "resourcetype") for (xmlNode *q = p->children; q; q = q->next) if (!strcmp((char *)q->name, "collection")) P.coll = true;
        }
    }
    if (!doubled && href.find("//") != std::string::npos) err = "reference " + href;
    for (unsigned char ch : href) if (!(isalnum(ch) || strchr("-._~/%!$&'()*+,;=:@", ch))) err = "the reference " + href + " is no URL";
    { std::string t; for (size_t i = 0; i < href.size(); i++) if (href[i] == '%') { if (i + 2 >= href.size() || !isxdigit(href[i + 1]) || !isxdigit(href[i + 2])) { err = "the reference " + href + " is no URL"; break; } t += (char)strtol(href.substr(i + 1, 2).c_str(), NULL, 16); i += 2; } else t += href[i]; href = t; }
    std::string k = norm(href);
    if (out.count(k)) dup++;
    out[k] = P;
  }
  xmlFreeDoc(d);
}
static const char *KNOWN[] = {"resourcetype", "getcontentlength", "getlastmodified", "creationdate", "getetag", "getcontenttype", "displayname", "executable"};
// properties of files larger than 32 bits can count
static void big(Gen &g, Ctx &c) {
  oh::rm_rf(base);
  mkdir(base.c_str(), 0755);
  mkdir(share.c_str(), 0755);
  oh::write_file(share + "/f", "x");
  off_t n = (off_t)(1 + g.below(6)) * 1073741824ll + (off_t)g.below(3) - 1;
  c.d("PROPFIND and HEAD of a file of %lld bytes", (long long)n);
  c.label("large file");
  c.nontrivial = true;
  if (truncate((share + "/f").c_str(), n)) return;
  Server sv(0, false);
  onion_set_root_handler(sv.o, onion_handler_webdav(share.c_str(), NULL));
  for (auto *req : {"PROPFIND /f HTTP/1.1\r\nDepth: 0\r\n\r\n", "PROPFIND / HTTP/1.1\r\nDepth: 1\r\n\r\n", "HEAD /f HTTP/1.1\r\n\r\n"}) {
    Client cl(sv);
    cl.deliver(std::string(req), {});
    oh::Reply r = oh::read_reply(cl.c.out, *req == 'H', true);
    std::string err, len;
    int dup = 0;
    std::map<std::string, Props> m;
    if (*req == 'P') { props_of(r.body.data(), r.body.size(), m, err, dup, false); len = m["/f"].len; }
    else len = r.get("Content-Length") ? *r.get("Content-Length") : "missing";
    if (len != fmt("%lld", (long long)n)) c.fail("%.9s: the length of a file of %lld bytes is %s", req, (long long)n, len.c_str());
  }
  oh::rm_rf(base);
}
void pbt::property(Gen &g, Ctx &c) {
  if (g.chance(1, 40)) { big(g, c); return; }
  exdev = fail_write = false;
  short_write = 0;
  oh::rm_rf(base);
  mkdir(base.c_str(), 0755);
  for (auto &d : {share, shadow, outside, base + "/share2"}) mkdir(d.c_str(), 0755);
  oh::write_file(outside + "/f", "canary");
  oh::write_file(base + "/share2/f", "canary 2");
  mkdir((outside + "/dir").c_str(), 0755);
  // initial contents, the same in the share and its shadow
  int n0 = (int)g.below(6);
  for (int i = 0; i < n0; i++) {
    std::string p = std::string("/") + g.pick(NAMES);
    int k = (int)g.below(3);
    std::string data = g.raw(g.below(40));
    for (auto &r : {share, shadow}) {
      struct stat st;
      if (lstat((r + p).c_str(), &st) == 0) continue;
      if (k == 0) { mkdir((r + p).c_str(), 0755); oh::write_file(r + p + "/b", data); } else oh::write_file(r + p, data);
    }
    if (g.coin()) {                        // any date
      time_t t = (time_t)g.pick({0LL, 1LL, 951782400LL, 951868799LL, 1735689599LL, 2147483647LL, 2147483648LL, 4102444800LL}) + (time_t)g.below(100000);
      struct timespec ts[2] = {{t, 0}, {t, 0}};
      utimensat(AT_FDCWD, (share + p).c_str(), ts, 0);
    }
    if (g.chance(1, 4)) for (auto &r : {share, shadow}) if (k) chmod((r + p).c_str(), 0755);
  }
  auto lnk = [&](const char *to, const char *nm) { for (auto &r : {share, shadow}) symlink(to, (r + "/" + nm).c_str()); };
  if (g.chance(1, 2)) { lnk(outside.c_str(), "out"); lnk((outside + "/f").c_str(), "outf"); }
  if (g.chance(1, 3)) { lnk("nowhere", "dang"); lnk((outside + "/made").c_str(), "dangout"); }
  if (g.chance(1, 3)) lnk("d", "inl");
  std::string prefix = g.pick({"/", "/", "/dav/", "/dav/", "/dav", "/d/av/"});
  bool deny = g.chance(1, 3);
  Server sv(0, false);
  std::string given = share + (g.chance(1, 5) ? "/" : "");
  onion_handler *h = onion_handler_webdav(given.c_str(), deny ? deny_cb : NULL);
  if (prefix == "/") onion_set_root_handler(sv.o, h);
  else onion_url_add_handler(onion_root_url(sv.o), ("^" + prefix.substr(1)).c_str(), h);
  bool open_ended = prefix == "/dav";             // its paths begin with /
  if (open_ended) prefix = "/dav/";
  std::map<std::string, std::string> out0, want, got, out1;
  dump(outside, "", out0);
  auto all_outside = [&](std::map<std::string, std::string> &m) { m.clear(); dump(outside, "", m); m["2"] = oh::read_file(base + "/share2/f"); m["n"] = fmt("%zu %zu", oh::list_dir(base).size(), oh::list_dir(base + "/share2").size()); };
  all_outside(out0);
  std::set<std::string> asked;
  int n = 4 + (int)g.below(13), changed = 0;
  for (int i = 0; i < n; i++) {
    want.clear();
    dump(shadow, "", want);
    std::vector<std::string> existing;
    for (auto &x : want) existing.push_back(x.first);
    std::string path = gen_path(g, existing), dest, req, body;
    enum { GET, HEAD, PUT, DELETE, MKCOL, MOVE, PROPFIND, PROPPATCH, OPTIONS, POST } v = (decltype(v))g.weighted({3, 1, 5, 3, 4, 4, 3, 1, 1, 1});
    static const char *V[] = {"GET", "HEAD", "PUT", "DELETE", "MKCOL", "MOVE", "PROPFIND", "PROPPATCH", "OPTIONS", "POST"};
    if (g.chance(1, 30) && (v == GET || v == PROPFIND || v == MKCOL || v == PUT)) path = "";
    // removing or moving the share itself is not part of this property
    if ((v == DELETE || v == MOVE) && (real_of(shadow + "/" + path) == shadow || norm(path).empty())) continue;
    if (v == PROPPATCH) { struct stat st; if (stat((shadow + "/" + path).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) continue; }
    exdev = g.chance(1, 4);
    bool fw = exdev && (v == PUT || v == MOVE) && g.chance(1, 4);
    std::string extra;
    int depth = -1;
    bool on = false, dest_ok = true;
    switch (v) {
    case PUT: body = g.raw(g.len(6000, {1500, 4096})); break;
    case MOVE:
      dest = gen_path(g, existing);
      switch (g.weighted({12, 1, 1, 1, open_ended ? 0u : 1u})) {
      case 0: extra = "Destination: http://example.org" + url(g, prefix + dest) + "\r\n"; break;
      case 1: extra = "Destination: http://example.org/elsewhere/" + url(g, dest) + "\r\n"; dest_ok = prefix == "/"; if (dest_ok) dest = "elsewhere/" + dest; break;
      case 2: dest_ok = false; break;
      case 4: {                                                     // beside the share, in a path that begins like its own
        std::string p = prefix.substr(0, prefix.size() - 1);
        extra = "Destination: http://example.org" + p + g.pick({"2", "x/", ".", "%20", "-"}) + url(g, dest) + "\r\n";
        dest_ok = prefix == "/";
        if (dest_ok) { extra = "Destination: http://example.org/z" + url(g, dest) + "\r\n"; dest = "z" + dest; }
        break;
      }
      case 3: extra = std::string("Destination: ") + g.pick({"http:", "x", "http://host", "", "//"}) + "\r\n"; dest_ok = false; break;
      }
      break;
    case PROPFIND:
      depth = (int)g.below(2);
      extra = fmt("Depth: %d\r\n", depth);
      asked.clear();
      switch (g.below(4)) {
      case 0: for (auto *k : KNOWN) asked.insert(k); break;             // no body: everything
      case 1: body = "<?xml version=\"1.0\"?>\n<D:propfind xmlns:D=\"DAV:\"><D:allprop/></D:propfind>"; for (auto *k : KNOWN) asked.insert(k); break;
      default: {
        std::string p = g.pick({"D:", "", "x:"}), sp = g.pick({"", " ", "\n  "});
        body = "<?xml version=\"1.0\" encoding=\"utf-8\"?>" + sp + "<" + p + "propfind xmlns" + (p.empty() ? "" : ":" + p.substr(0, 1)) + "=\"DAV:\">" + sp + "<" + p + "prop>";
        int k = 1 + (int)g.below(5);
        for (int q = 0; q < k; q++) {
          if (g.chance(1, 6)) { body += sp + "<" + p + g.pick({"quota", "lockdiscovery", "executables", "getetag2", "supportedlock"}) + "/>"; continue; }
          std::string nm = g.pick(KNOWN);
          asked.insert(nm);
          bool ap = nm == "executable";
          body += sp + (ap ? "<ap:executable xmlns:ap=\"http://apache.org/dav/props/\"/>" : "<" + p + nm + (g.coin() ? "/>" : "></" + p + nm + ">"));
        }
        body += sp + "</" + p + "prop>" + sp + "</" + p + "propfind>";
        c.label("chosen properties");
      }
      }
      break;
    case PROPPATCH:
      on = g.coin();
      body = fmt("<?xml version=\"1.0\"?><D:propertyupdate xmlns:D=\"DAV:\"><D:set><D:prop><a:executable xmlns:a=\"http://apache.org/dav/props/\">%s</a:executable></D:prop></D:set></D:propertyupdate>", on ? "T" : "F");
      break;
    default: break;
    }
    req = std::string(V[v]) + " " + url(g, prefix + path) + " HTTP/1.1\r\n" + extra;
    if (!body.empty() || v == PUT) req += fmt("Content-Length: %zu\r\n", body.size());
    if (v == PROPFIND || v == PROPPATCH) req += "Content-Type: text/xml\r\n";
    if (v == POST) req += "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: 0\r\n";
    req += "\r\n" + body;
    c.d("%s %s%s%s%s%s ", V[v], esc(path).c_str(), v == MOVE ? (" to " + (dest_ok ? esc(dest) : "nowhere: " + esc(extra))).c_str() : "", exdev ? " (other fs)" : "", fw ? " (full)" : "", v == PUT ? fmt(" %zu", body.size()).c_str() : "");
    fail_write = fw;
    short_write = exdev && g.coin() ? g.pick({1, 7, 1000, 1499, 4095}) : 0;
    Client cl(sv);
    cl.deliver(req, {});
    fail_write = false;
    short_write = 0;
    cl.close();
    oh::Reply r = oh::read_reply(cl.c.out, v == HEAD, true);
    if (!r.ok || !r.complete) c.fail("%s %s: broken reply: %s \"%s\"", V[v], esc(path).c_str(), r.error.c_str(), esc(cl.c.out).c_str());
    bool ok = r.code / 100 == 2;
    // nothing outside, ever
    all_outside(out1);
    std::string df = tree_diff(out0, out1);
    if (!df.empty()) c.fail("%s %s acted outside of the share: %s", V[v], esc(path).c_str(), df.c_str());
    if (r.body.find("canary") != std::string::npos) c.fail("%s %s reads outside of the share", V[v], esc(path).c_str());
    bool sure, may = allowed(path, sure), dd = has_dd(path) || (v == MOVE && dest_ok && has_dd(dest));
    bool refused = deny && (path.find("deny") != std::string::npos || (v == MOVE && dest_ok && dest.find("deny") != std::string::npos));
    if (v == MOVE && may && dest_ok) may = allowed(dest, sure);
    if (refused) may = false;
    std::string sp = shadow + "/" + path;
    struct stat st;
    bool exists = stat(sp.c_str(), &st) == 0;
    bool want_ok = false, judged = true;
    if (!may || (v == MOVE && !dest_ok)) {
      if (ok && (v != OPTIONS || refused)) c.fail("%s %s%s: %d, it had to be refused", V[v], esc(path).c_str(), v == MOVE ? (" to " + esc(dest)).c_str() : "", r.code);
      if (!refused && exists && !within(shadow, real_of(sp))) { c.nontrivial = true; c.label("leads outside"); }
      c.label("refused");
    } else if (dd && !ok) {
      c.label("dot-dot refused");
    } else {
      switch (v) {
      case GET: case HEAD: {
        bool rd;
        std::string data = oh::read_file(sp, &rd);
        want_ok = exists && S_ISREG(st.st_mode);
        if (want_ok && (r.code != 200 || (v == GET && r.body != data))) c.fail("%s %s: %d \"%s\" instead of \"%s\"", V[v], esc(path).c_str(), r.code, esc(r.body, 60).c_str(), esc(data, 60).c_str());
        if (!want_ok && r.code != 404) c.fail("%s %s: %d, there is no such file", V[v], esc(path).c_str(), r.code);
        break;
      }
      case PUT: {
        std::string t = base + "/.tmp";
        oh::write_file(t, body);
        bool into_link = link_to(path);
        if (into_link) { judged = false; unlink(t.c_str()); break; }
        if (fw && !body.empty()) { unlink(t.c_str()); if (exists) { judged = false; break; } }      // an error while copying over an existing file loses it
        else if (__real_rename(t.c_str(), sp.c_str()) == 0) want_ok = true;
        else unlink(t.c_str());
        break;
      }
      case DELETE: want_ok = remove(sp.c_str()) == 0; break;
      case MKCOL: want_ok = mkdir(sp.c_str(), 0777) == 0; break;
      case MOVE: {
        std::string dp = shadow + "/" + dest;
        struct stat ds;
        bool dex = lstat(dp.c_str(), &ds) == 0;
        if (link_to(path) || link_to(dest)) { judged = false; break; }
        if (exdev && exists && !(dex && ds.st_ino == st.st_ino)) {
          if (!S_ISREG(st.st_mode)) break;                        // only files can be copied
          if (fw && st.st_size) { if (dex) judged = false; break; }
        }
        want_ok = __real_rename(sp.c_str(), dp.c_str()) == 0;
        break;
      }
      case PROPFIND: {
        if (!exists) { if (ok) c.fail("PROPFIND %s: %d, there is no such resource", esc(path).c_str(), r.code); break; }
        want_ok = true;
        if (r.code != 207) c.fail("PROPFIND %s: %d", esc(path).c_str(), r.code);
        std::map<std::string, Props> m;
        std::string err;
        int dup = 0;
        props_of(r.body.data(), r.body.size(), m, err, dup, path.find_first_not_of('/') != std::string::npos && path.find("//", path.find_first_not_of('/')) != std::string::npos);
        if (!err.empty()) c.fail("PROPFIND %s: %s: %s", esc(path).c_str(), err.c_str(), esc(r.body).c_str());
        if (dup) c.fail("PROPFIND %s: a resource is listed twice", esc(path).c_str());
        std::string self = norm(prefix + path);
        auto chk = [&](const std::string &href, const std::string &file) {
          struct stat s;
          if (stat(file.c_str(), &s)) return;
          auto it = m.find(href);
          if (it == m.end()) c.fail("PROPFIND %s depth %d: %s is missing", esc(path).c_str(), depth, esc(href).c_str());
          bool dir = S_ISDIR(s.st_mode);
          struct stat rs;                        // the share itself: its dates are not those of the shadow
          if (stat((share + file.substr(shadow.size())).c_str(), &rs)) return;
          auto when = [&](const char *f) { char b[64]; struct tm tm; gmtime_r(&rs.st_mtime, &tm); strftime(b, sizeof b, f, &tm); return std::string(b); };
          for (auto *k : KNOWN) {
            size_t nh = it->second.have.count(k), nl = it->second.lack.count(k);
            if (!asked.count(k)) { if (nh + nl) c.fail("PROPFIND %s: %s of %s was not asked for", esc(path).c_str(), k, esc(href).c_str()); continue; }
            std::string v = nh ? it->second.have.find(k)->second : "", w, n = k;
            bool may_lack = n == "displayname" || n == "getcontenttype" || (dir && (n == "getcontentlength" || n == "executable"));
            if (nh > 1 || nl > 1 || (nh && nl)) c.fail("PROPFIND %s: %s of %s is given more than once", esc(path).c_str(), k, esc(href).c_str());
            if (!nh) { if (!may_lack) c.fail("PROPFIND %s: %s of %s is not given", esc(path).c_str(), k, esc(href).c_str()); continue; }
            if (n == "resourcetype") { if (it->second.coll != dir) c.fail("PROPFIND %s: %s listed as the wrong kind", esc(path).c_str(), esc(href).c_str()); continue; }
            if (n == "getcontentlength") w = fmt("%ld", (long)s.st_size);
            else if (n == "getlastmodified") w = when("%a, %d %b %Y %H:%M:%S GMT");
            else if (n == "creationdate") w = when("%Y-%m-%dT%H:%M:%SZ");
            else if (n == "executable") w = s.st_mode & 0111 ? "true" : "false";
            else if (n == "getcontenttype" && dir) w = "httpd/unix-directory";
            else if (n == "getetag" && !dir) {
              Client c2(sv);
              c2.deliver("HEAD " + url(g, href) + " HTTP/1.1\r\n\r\n", {});
              oh::Reply hr = oh::read_reply(c2.c.out, true, true);
              if (!hr.ok || !hr.get("Etag")) continue;
              auto bare = [](std::string e) { if (e.size() > 1 && e[0] == '"') e = e.substr(1, e.size() - 2); return e; };
              w = bare(*hr.get("Etag"));
              v = bare(v);
            } else continue;
            if (v != w) c.fail("PROPFIND %s: %s of %s is \"%s\", should be \"%s\"", esc(path).c_str(), k, esc(href).c_str(), esc(v).c_str(), esc(w).c_str());
          }
          m.erase(it);
        };
        chk(self, sp);
        if (depth == 1 && S_ISDIR(st.st_mode))
          for (auto &nm : oh::list_dir(sp)) {
            if (nm[0] == '.') continue;
            if (link_to(path + "/" + nm) && !within(shadow, real_of(sp + "/" + nm))) { m.erase(self + "/" + nm); continue; }
            chk(self + "/" + nm, sp + "/" + nm);
          }
        if (!m.empty()) c.fail("PROPFIND %s depth %d also lists %s", esc(path).c_str(), depth, esc(m.begin()->first).c_str());
        break;
      }
      case PROPPATCH:
        want_ok = exists;
        if (exists) chmod(sp.c_str(), on ? (st.st_mode | 0111) : (st.st_mode & ~0111));
        break;
      case OPTIONS: want_ok = true; break;
      case POST: judged = true; want_ok = false; break;
      }
      if (!judged) { c.label("not judged"); return; }              // the shadow can not follow; end of the history
      if (want_ok != ok) c.fail("%s %s%s: %d, expected %s", V[v], esc(path).c_str(), v == MOVE ? (" to " + esc(dest)).c_str() : "", r.code, want_ok ? "success" : "a failure");
      c.label(std::string(V[v]) + (ok ? " ok" : " failed"));
      if (ok && (v == PUT || v == DELETE || v == MKCOL || v == MOVE || v == PROPPATCH)) changed++;
    }
    if (ok && (v == PUT || (v == MOVE && exdev))) {                 // an upload has permissions of its own, a copy may keep those of what it overwrites
      std::string rel = v == PUT ? path : dest;
      if (stat((share + "/" + rel).c_str(), &st) == 0 && S_ISREG(st.st_mode)) chmod((shadow + "/" + rel).c_str(), st.st_mode & 0777);
    }
    want.clear();
    got.clear();
    dump(shadow, "", want);
    dump(share, "", got);
    df = tree_diff(want, got);
    if (!df.empty()) c.fail("after %s %s%s%s (%d): %s", V[v], esc(path).c_str(), v == MOVE ? (" to " + esc(dest)).c_str() : "", exdev ? " from another file system" : "", r.code, df.c_str());
  }
  if (changed >= 3) c.nontrivial = true;
}
