// C08: a directory export never reveals anything outside the exported directory.
#include "http.hpp"
#include <limits.h>
extern "C" {
#include <onion/handlers/exportlocal.h>
}
using namespace hm;
pbt::Config pbt::config;
static std::string base;
void pbt::harness_init() {
  oh::quiet_log();
  pbt::drop_privileges();
  base = pbt::scratch() + "/w";
  config.rule = "a case is a generated directory tree (files, hidden files, links inside, links leading out, dangling links, unreadable files, sibling directories sharing the name as prefix, names with markup and line breaks) exported by one handler, with 6 to 14 request paths made of its entries, dot-dot segments, doubled and encoded separators; non-trivial when a path resolved to something existing outside the export, or a listing with at least two entries was read";
  config.leak_check = true;
}
static const char *NAMES[] = {"a", "b", "a.txt", "dir", "d2", "root", "rootx", "secret", "..a", "...", ".hid", "<zq>", "a'b", "q\"z", "a&b", "b\\c", "n\nl", "<script>zq", "x y", "%41", "\xc3\xa9", "a;b", "-", "~", "\\'zq", "&lt;"};
struct T {
  std::string root, mark;
  int secrets = 0, count = 0;
  std::vector<std::string> dirs, all;        // every directory (inside and outside), every entry
};
static void fill(Gen &g, T &t, const std::string &dir, int depth, bool inside) {
  t.dirs.push_back(dir);
  int n = (int)g.below(6);
  for (int i = 0; i < n; i++) {
    std::string p = dir + "/" + (g.chance(1, 40) ? std::string(1 + g.below(250), 'L') : std::string(g.pick(NAMES)));
    struct stat st;
    if (lstat(p.c_str(), &st) == 0) continue;
    t.count++;
    t.all.push_back(p);
    switch (g.weighted({5, depth > 0 ? 3u : 0u, 3, 1, 1, 1})) {
    case 0: oh::write_file(p, (inside ? "inside " : "SECRET ") + fmt("%d ", t.count) + g.raw(g.below(30))); break;
    case 1: mkdir(p.c_str(), 0755); fill(g, t, p, depth - 1, inside); break;
    case 2: {                                // link to something that exists by now
      std::string to = t.all[g.below(t.all.size())];
      if (g.chance(1, 4)) to = t.dirs[g.below(t.dirs.size())];
      if (g.chance(1, 8)) to = base;
      if (g.coin()) {                        // relative
        std::string d = dir, rel;
        while (to.compare(0, d.size() + 1, d + "/") != 0 && d.size() > base.size()) { rel += "../"; d = d.substr(0, d.rfind('/')); }
        if (to.compare(0, d.size() + 1, d + "/") == 0) to = rel + to.substr(d.size() + 1); else if (to == d) to = rel.empty() ? "." : rel;
      }
      symlink(to.c_str(), p.c_str());
      break;
    }
    case 3: symlink("nowhere/at/all", p.c_str()); break;
    case 4: oh::write_file(p, "SECRET unreadable"); chmod(p.c_str(), 0); break;
    case 5: if (g.coin()) mkfifo(p.c_str(), 0600); else { mkdir(p.c_str(), 0755); t.dirs.push_back(p); } break;
    }
  }
}
static std::string enc(Gen &g, const std::string &p) {
  std::string r;
  for (unsigned char ch : p) {
    bool safe = isalnum(ch) || strchr("/.-_~'();", ch);
    if (!safe || g.chance(1, 12)) r += fmt(g.coin() ? "%%%02x" : "%%%02X", ch); else r += ch;
  }
  return r;
}
static std::string gen_path(Gen &g, const T &t) {
  std::string r;
  switch (g.weighted({4, 3, 3, 1, 1})) {
  case 0: {                                  // an entry, as seen from the root, even if it is outside
    std::string to = t.all.empty() ? t.root : t.all[g.below(t.all.size())];
    if (to.compare(0, t.root.size() + 1, t.root + "/") == 0) r = to.substr(t.root.size() + 1);
    else r = "../" + to.substr(base.size() + 1 > to.size() ? base.size() : base.size() + 1);
    break;
  }
  case 1: {                                  // a chain of names
    int n = 1 + (int)g.below(4);
    for (int i = 0; i < n; i++) { if (i) r += "/"; r += g.chance(1, 4) ? ".." : g.chance(1, 6) ? "." : std::string(g.pick(NAMES)); }
    break;
  }
  case 2: {                                  // a directory, then up, then somewhere
    std::string d = t.dirs[g.below(t.dirs.size())];
    r = d.compare(0, t.root.size() + 1, t.root + "/") == 0 ? d.substr(t.root.size() + 1) : std::string();
    int up = (int)g.below(4);
    for (int i = 0; i < up; i++) r += "/..";
    std::string to = t.all.empty() ? "a" : t.all[g.below(t.all.size())];
    size_t k = to.size();
    int parts = 1 + (int)g.below(3);
    for (int i = 0; i < parts; i++) { size_t q = to.rfind('/', k - 1); if (q == std::string::npos || q < base.size()) break; k = q; }
    r += to.substr(k);
    break;
  }
  case 3: r = ""; break;
  case 4: { std::string up; int n = (int)g.below(12); for (int i = 0; i < n; i++) up += "../"; std::string to = t.all.empty() ? base : t.all[g.below(t.all.size())]; r = up + to.substr(1); break; }
  }
  if (g.chance(1, 6)) { size_t p = g.below(r.size() + 1); r.insert(p, g.pick({"/", "./", "../", "//"})); }
  if (g.chance(1, 8)) r += "/";
  if (g.chance(1, 20)) r = t.root.substr(t.root.rfind('/') + 1) + "/" + r;
  return r;
}
static std::string unhtml(const std::string &s, bool &ok) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '<' || s[i] == '>' || s[i] == '"') ok = false;
    if (s[i] != '&') { r += s[i]; continue; }
    static const std::pair<const char *, char> E[] = {{"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&quot;", '"'}, {"&#39;", '\''}, {"&apos;", '\''}, {"&#039;", '\''}, {"&#x27;", '\''}, {"&#34;", '"'}};
    bool f = false;
    for (auto &e : E) if (s.compare(i, strlen(e.first), e.first) == 0) { r += e.second; i += strlen(e.first) - 1; f = true; break; }
    if (!f) ok = false;
  }
  return r;
}
struct Entry { std::string name, kind; long size; };
static bool parse_listing(const std::string &body, std::vector<Entry> &out, std::string &err) {
  size_t p = body.find("files=[\n");
  if (p == std::string::npos) { err = "no list of files"; return false; }
  p += 8;
  size_t sc = body.rfind("<script", p), se = body.find("</script", p);
  if (sc == std::string::npos || se == std::string::npos) { err = "list outside the script"; return false; }
  auto ws = [&] { while (p < body.size() && strchr(" \t\n", body[p])) p++; };
  auto lit = [&](char c) { ws(); if (p < body.size() && body[p] == c) { p++; return true; } return false; };
  auto str = [&](std::string &s) {
    ws();
    if (p >= body.size() || (body[p] != '\'' && body[p] != '"')) return false;
    char q = body[p++];
    for (; p < body.size() && body[p] != q; p++) {
      if (body[p] == '\n' || body[p] == '\r') return false;
      if (body[p] != '\\') { s += body[p]; continue; }
      p++;
      switch (body[p]) {
      case 'n': s += '\n'; break;
      case 't': s += '\t'; break;
      case 'r': s += '\r'; break;
      case 'b': s += '\b'; break;
      case 'f': s += '\f'; break;
      case 'u': { s += (char)strtol(body.substr(p + 1, 4).c_str(), nullptr, 16); p += 4; break; }
      case 'x': { s += (char)strtol(body.substr(p + 1, 2).c_str(), nullptr, 16); p += 2; break; }
      default: s += body[p];
      }
    }
    if (p >= body.size()) return false;
    p++;
    return true;
  };
  for (;;) {
    if (!lit('[')) { err = "not an entry at \"" + esc(body.substr(p, 60)) + "\""; return false; }
    if (lit(']')) break;
    Entry e;
    std::string owner, name, num;
    if (!str(name) || !lit(',')) { err = "bad entry name at \"" + esc(body.substr(p, 60)) + "\""; return false; }
    ws();
    while (p < body.size() && (isdigit((unsigned char)body[p]) || body[p] == '-')) num += body[p++];
    if (num.empty() || !lit(',') || !str(owner) || !lit(',') || !str(e.kind) || !lit(']') || !lit(',')) { err = "bad entry for " + esc(name); return false; }
    bool ok = true;
    e.name = unhtml(name, ok);
    if (!ok) { err = "name not escaped for HTML: " + esc(name); return false; }
    e.size = atol(num.c_str());
    out.push_back(e);
  }
  if (!lit(']')) { err = "list not closed"; return false; }
  ws();
  if (body.compare(p, 9, "</script>")) { err = "script not closed after the list"; return false; }
  return true;
}
static bool within(const std::string &root, const std::string &p) { return p == root || p.compare(0, root.size() + 1, root + "/") == 0; }
// Renderers of an application: what they were told goes into the page.
static std::vector<std::string> told;
static void own_header(onion_response *res, const char *dir) { told.push_back(std::string("H") + dir); onion_response_printf(res, "<!--own header %zu-->", told.size()); }
static void own_footer(onion_response *res, const char *dir) { told.push_back(std::string("F") + dir); onion_response_printf(res, "<!--own footer %zu-->", told.size()); }
void pbt::property(Gen &g, Ctx &c) {
  oh::rm_rf(base);
  mkdir(base.c_str(), 0755);
  T t;
  t.root = base + "/root";
  // neighbours first, so that links inside can lead to them
  const char *sib[] = {"rootx", "root2", "roo", "root.d", "other"};
  for (const char *s : sib) if (g.chance(1, 2)) { std::string p = base + "/" + s; mkdir(p.c_str(), 0755); t.all.push_back(p); fill(g, t, p, 1, false); }
  oh::write_file(base + "/rootfile", "SECRET rootfile");
  oh::write_file(base + "/secret", "SECRET secret");
  t.all.push_back(base + "/rootfile");
  t.all.push_back(base + "/secret");
  mkdir(t.root.c_str(), 0755);
  fill(g, t, t.root, 3, true);
  std::string exp = t.root;
  bool file = false, slash = false;
  switch (g.weighted({12, 2, 2, 2, 2, 1})) {
  case 5: slash = true; exp = "/"; break;             // everything; only asked for what this case made
  case 1: exp += "/"; break;
  case 2: symlink("root", (base + "/link").c_str()); exp = base + "/link"; break;
  case 3: exp = base + "/rootfile/../root/."; if (g.coin()) exp = base + "/./root"; else exp = t.root; break;
  case 4: file = true; oh::write_file(t.root + "/single", "inside single"); exp = t.root + "/single"; break;
  default: break;
  }
  Server sv(0, false);
  onion_handler *h = onion_handler_export_local_new(exp.c_str());
  if (!h) c.fail("cannot export %s", exp.c_str());
  for (const char *none : {"/nothing here", "/root/single/below"})
    if (g.chance(1, 6)) { onion_handler *x = onion_handler_export_local_new((base + none).c_str()); if (x) { onion_handler_free(x); c.fail("a directory that does not exist can be exported"); } }
  int hd = (int)g.below(3), ft = (int)g.below(3);      // default, own, none
  if (hd) onion_handler_export_local_set_header(h, hd == 1 ? own_header : NULL);
  if (ft) onion_handler_export_local_set_footer(h, ft == 1 ? own_footer : NULL);
  onion_set_root_handler(sv.o, h);
  c.d("tree of %d entries%s ", t.count, file ? " (one file exported)" : "");
  int n = 6 + (int)g.below(9);
  for (int i = 0; i < n; i++) {
    std::string path = gen_path(g, t);
    std::string e = enc(g, path);
    if (e.size() > 900) { path = ""; e = ""; }
    if (slash) {
      std::string f = t.root + "/" + path;
      char real[PATH_MAX];
      if (f.find('\0') != std::string::npos || !realpath(f.c_str(), real) || !within(base, real)) continue;
      path = (t.root + "/" + path).substr(1);
      e = t.root.substr(1) + "/" + e;
      c.label("everything exported");
    }
    told.clear();
    bool head = g.chance(1, 8);
    Client cl(sv);
    cl.deliver((head ? "HEAD /" : "GET /") + e + " HTTP/1.1\r\n\r\n", {});
    std::string shown = path;
    for (size_t p = 0; (p = shown.find(base, p)) != std::string::npos;) shown.replace(p, base.size(), "BASE");
    c.d("/%s ", esc(shown).c_str());
    oh::Reply r = oh::read_reply(cl.c.out, head, true);
    if (!r.ok || !r.complete) c.fail("/%s: broken reply %s", esc(shown).c_str(), r.error.c_str());
    if (!slash && r.body.find("SECRET") != std::string::npos) c.fail("/%s reveals a file that is not in the exported directory: %s", esc(shown).c_str(), esc(r.body).c_str());
    // what it should be
    std::string full = file ? t.root + "/single" : slash ? "/" + path : t.root + "/" + path;
    struct stat st;
    char real[PATH_MAX];
    bool exists = full.find('\0') == std::string::npos && stat(full.c_str(), &st) == 0 && realpath(full.c_str(), real);
    if (exists && !slash && !within(t.root, real)) { c.nontrivial = true; c.label("leads outside"); exists = false; }
    if (!exists) {
      if (r.code != 404) c.fail("/%s should not be found: %d %s", esc(shown).c_str(), r.code, esc(r.body).c_str());
      c.label("not found");
      continue;
    }
    if (S_ISREG(st.st_mode)) {
      bool ok;
      std::string want = oh::read_file(real, &ok);
      if (!ok) { if (r.code != 404) c.fail("/%s can not be read: %d", esc(shown).c_str(), r.code); continue; }
      if (r.code != 200) c.fail("/%s is in the exported directory and is not served: %d", esc(shown).c_str(), r.code);
      if (!head && r.body != want) c.fail("/%s: served \"%s\" instead of \"%s\"", esc(shown).c_str(), esc(r.body).c_str(), esc(want).c_str());
      c.label("file");
    } else if (S_ISDIR(st.st_mode)) {
      if (r.code != 200) c.fail("/%s is a directory of the export and is not listed: %d", esc(shown).c_str(), r.code);
      c.label("directory");
      if (head) continue;
      size_t calls = 0;
      for (int k = 0; k < 2; k++) {                    // the page has the application's header and footer, each once and in its place
        const char *nm = k ? "footer" : "header";
        bool own = (k ? ft : hd) == 1;
        size_t at = r.body.find(std::string("<!--own ") + nm), mid = r.body.find("<table id=");
        if (own != (at != std::string::npos)) c.fail("/%s: the %s of the application is %s the listing", esc(shown).c_str(), nm, own ? "not in" : "in");
        if (!own) continue;
        if (mid == std::string::npos || (at < mid) != (k == 0)) c.fail("/%s: the %s of the application is at the wrong place", esc(shown).c_str(), nm);
        if (told.size() <= calls || told[calls] != (k ? "F" : "H") + path) c.fail("/%s: the %s was asked for directory \"%s\"", esc(shown).c_str(), nm, told.size() <= calls ? "" : esc(told[calls]).c_str() + 1);
        calls++;
      }
      if (told.size() != calls) c.fail("/%s: header and footer were asked for %zu times", esc(shown).c_str(), told.size());
      if (r.body.find("<zq") != std::string::npos) c.fail("/%s: a name in the listing became markup: %s", esc(shown).c_str(), esc(r.body.substr(r.body.find("<zq") > 80 ? r.body.find("<zq") - 80 : 0, 160)).c_str());
      std::vector<Entry> got;
      std::string err;
      if (!parse_listing(r.body, got, err)) c.fail("/%s: listing: %s", esc(shown).c_str(), err.c_str());
      std::map<std::string, Entry> m;
      for (auto &x : got) { if (m.count(x.name)) c.fail("/%s: %s is listed twice", esc(shown).c_str(), esc(x.name).c_str()); m[x.name] = x; }
      size_t want = 0;
      for (auto &nm : oh::list_dir(real)) {
        if (nm[0] == '.') continue;
        want++;
        std::string ep = std::string(real) + "/" + nm;
        struct stat es;
        char er[PATH_MAX];
        bool alive = stat(ep.c_str(), &es) == 0;
        bool in = alive && realpath(ep.c_str(), er) && (slash || within(t.root, er));
        bool dir = alive && S_ISDIR(es.st_mode);
        auto it = m.find(nm);
        auto id = m.find(nm + "/");
        if (it == m.end() && id == m.end()) c.fail("/%s: %s is missing in the listing", esc(shown).c_str(), esc(nm).c_str());
        if (!alive && it == m.end()) c.fail("/%s: dangling link %s is listed as a directory", esc(shown).c_str(), esc(nm).c_str());
        if (in) {
          if ((dir ? id : it) == m.end()) c.fail("/%s: %s listed as the wrong kind", esc(shown).c_str(), esc(nm).c_str());
          const Entry &x = dir ? id->second : it->second;
          if (x.size != es.st_size || x.kind != (dir ? "dir" : "file")) c.fail("/%s: %s listed as %s of %ld bytes", esc(shown).c_str(), esc(nm).c_str(), x.kind.c_str(), x.size);
        }
      }
      if (got.size() != want) c.fail("/%s: %zu entries listed, there are %zu", esc(shown).c_str(), got.size(), want);
      if (want >= 2) { c.nontrivial = true; c.label("listing of several"); }
    } else {
      if (r.code != 404) c.fail("/%s is not a file nor directory: %d", esc(shown).c_str(), r.code);
    }
  }
}
