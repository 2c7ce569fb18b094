// C21: a packed asset serves exactly the bytes of the packed file.
#include "http.hpp"
#include "gencode.hpp"
#include <dlfcn.h>
using namespace hm;
extern "C" {
#include <onion/handlers/opack.h>
int opack_main(int, char **);
}
pbt::Config pbt::config;
static std::string table_path;
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *p, const char *m) { return __real_fopen(!strcmp(p, "/etc/mime.types") ? table_path.c_str() : p, m); }
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is one to three generated directory trees and files (empty, tiny, around the tool's block sizes; names with quotes, backslashes, blanks, line breaks, percent signs, names that only differ in punctuation, long names, links, ignored names) packed by the real tool in one or two runs, sometimes repeated, compiled with gcc and loaded; every packed path, ignored names, near misses and directories are requested; non-trivial when at least three files were served";
  config.wall_limit_s = 60;
  config.cpu_limit_s = 30;
  config.flaky_retries = 1;
}
struct File { std::string path, data, type; };      // path under the root
static const char *NAMES[] = {"a.txt", "a_txt", "a-txt", "b.html", "style.css", "x", "x_length", "x.length", "img.png", "app.js", "q\"uote.js", "back\\slash.txt", "sp ace.html", "p%d%s%n.txt", "new\nline.css", "tab\t.txt", "\xc3\xa9.png", "\xff\xfe", "plus+.txt", "q?x#y.txt", "&amp;.html", "%41.txt", ".hidden", "backup~", "~", "a~b.txt", "~x.css", "a txt", "a+txt", "a,txt", "what??-.txt", "012.png", "a.b.c.css", "no_ext", "$x", "x;y.js", "*", "/*", "LONG"};
static std::string type_of(const std::string &n) {
  size_t d = n.rfind('.');
  std::string e = d == std::string::npos ? n : n.substr(d + 1);
  if (e == "html") return "text/html";
  if (e == "css") return "text/css";
  if (e == "png") return "image/png";
  if (e == "js") return "application/javascript";
  return "text/plain";
}
static bool ignored(const std::string &n) { return n[0] == '.' || n.back() == '~'; }
static std::string content(Gen &g) {
  size_t n;
  switch (g.weighted({4, 4, 2})) {
  case 0: n = g.below(8); break;                    // sizes that look like a status
  case 1: n = g.len(100, {15, 16, 17, 31, 32}); break;
  default: n = g.len(9000, {4094, 4095, 4096, 8190, 8192});
  }
  return g.coin() ? g.raw(n) : g.from("\"\\0a\n", n);
}
static void gen_tree(Gen &g, const std::string &dir, const std::string &rel, int depth, std::vector<File> &files, std::vector<std::string> &dirs, std::vector<std::string> &hidden) {
  int n = (int)g.below(depth ? 5 : 7);
  std::set<std::string> used;
  if (g.chance(1, 5)) for (const char *k : {"k.txt", "k-txt", "k+txt", "k,txt", "k txt", "k_txt"}) if (g.chance(2, 3)) {      // all alike as identifiers
    oh::write_file(dir + "/" + k, k);
    files.push_back({rel + k, k, type_of(k)});
  }
  for (int i = 0; i < n; i++) {
    std::string name = g.pick(NAMES);
    if (name == "/*") name = "*_";
    if (name == "LONG") name = g.coin() ? std::string(120, 'l') + ".txt" : std::string(200, 'm');
    if (!used.insert(name).second) continue;
    std::string p = dir + "/" + name;
    int kind = (int)g.weighted({8, depth < 3 ? 3u : 0u, 1, 1});
    if (kind == 2 || kind == 3) {                   // links
      std::string t = pbt::scratch() + (kind == 2 ? "/linked.txt" : "/linkeddir");
      if (symlink(t.c_str(), p.c_str()) != 0) continue;
      if (ignored(name)) { hidden.push_back(rel + name); continue; }
      if (kind == 2) files.push_back({rel + name, "linked content", type_of(name)});
      else { files.push_back({rel + name + "/inner.css", "inner content", "text/css"}); dirs.push_back(rel + name); }
    } else if (kind == 1) {
      if (mkdir(p.c_str(), 0755) != 0) continue;
      if (ignored(name)) { oh::write_file(p + "/f.txt", "ignored"); hidden.push_back(rel + name + "/f.txt"); continue; }
      dirs.push_back(rel + name);
      gen_tree(g, p, rel + name + "/", depth + 1, files, dirs, hidden);
    } else {
      std::string d = content(g);
      oh::write_file(p, d);
      if (ignored(name)) hidden.push_back(rel + name);
      else files.push_back({rel + name, d, type_of(name)});
    }
  }
}
static std::string enc(const std::string &s) { std::string r; for (unsigned char ch : s) r += isalnum(ch) || ch == '/' || ch == '.' || ch == '_' ? std::string(1, ch) : fmt("%%%02X", ch); return r; }
static std::string fallback_says;
static int fallback(void *, onion_request *r, onion_response *res) { onion_response_write0(res, ("fallback " + oh::str(onion_request_get_path(r))).c_str()); return OCS_PROCESSED; }
static std::string rendered;
static void render(onion_response *res) { onion_response_write(res, rendered.data(), rendered.size()); }
static oh::Reply ask(Server &s, Ctx &c, const std::string &path, bool head, bool *alive) {
  Client cl(s);
  std::string req = (head ? "HEAD " : "GET ") + enc(path) + " HTTP/1.1\r\nHost: h\r\n\r\n";
  cl.deliver(req.data(), req.size());
  oh::Reply r = oh::read_reply(cl.c.out, head, !cl.open);
  if (!r.error.empty() || !r.complete || r.consumed != cl.c.out.size()) c.fail("%s: reply is not well formed: %s in %s", esc(path).c_str(), r.error.c_str(), esc(cl.c.out, 200).c_str());
  *alive = cl.open;
  return r;
}
static void served(Server &s, Ctx &c, const std::string &path, const File &f, bool head) {
  bool alive;
  oh::Reply r = ask(s, c, path, head, &alive);
  if (r.code != 200) c.fail("%s: status %d, body %s", esc(path).c_str(), r.code, esc(r.body, 80).c_str());
  if (!head && r.body != f.data) { size_t i = 0; while (i < r.body.size() && i < f.data.size() && r.body[i] == f.data[i]) i++; c.fail("%s: %zu bytes served, %zu packed, differ from byte %zu", esc(path).c_str(), r.body.size(), f.data.size(), i); }
  const std::string *l = r.get("Content-Length"), *t = r.get("Content-Type");
  if (l && *l != std::to_string(f.data.size())) c.fail("%s: length %s for %zu bytes", esc(path).c_str(), l->c_str(), f.data.size());
  if (!l) c.fail("%s: no length", esc(path).c_str());
  if (!t || *t != f.type) c.fail("%s: type %s, not %s", esc(path).c_str(), t ? t->c_str() : "none", f.type.c_str());
  if (!alive) c.fail("%s: the connection was closed", esc(path).c_str());
}
static void not_served(Server &s, Ctx &c, const std::string &prefix, const std::string &rest) {
  bool alive;
  oh::Reply r = ask(s, c, prefix + rest, false, &alive);
  if (r.code != 200 || r.body != "fallback " + rest) c.fail("%s: answered with %d %s", esc(prefix + rest).c_str(), r.code, esc(r.body, 80).c_str());
}
static void renderer_case(Gen &g, Ctx &c) {
  rendered = content(g);
  static const char *PS[] = {"", "x", "a/b", "file.txt", "file.txt/"};
  std::string p = g.pick(PS), q = g.pick(PS);
  bool known = g.coin(), head = g.chance(1, 4);
  c.d("renderer at %s asked for %s, %zu bytes%s%s", p.c_str(), q.c_str(), rendered.size(), known ? " known" : "", head ? " HEAD" : "");
  Server s(0, false);
  onion_handler *h = onion_handler_opack(p.c_str(), (onion_opack_renderer)render, known ? rendered.size() : 0);
  onion_handler_add(h, onion_handler_new((onion_handler_handler)fallback, NULL, NULL));
  onion_url_add_handler(onion_root_url(s.o), "^r/", h);
  bool alive;
  oh::Reply r = ask(s, c, "/r/" + q, head, &alive);
  std::string want = p == q ? rendered : "fallback " + q;
  if (r.code != 200 || (!head && r.body != want)) c.fail("renderer at %s asked for %s: %d %s", p.c_str(), q.c_str(), r.code, esc(r.body, 80).c_str());
  c.label("renderer");
}
static void remove_all(const std::string &p) { oh::rm_rf(p); }
void pbt::property(Gen &g, Ctx &c) {
  std::string base = pbt::scratch();
  table_path = base + "/types";
  static bool first = true;
  if (first) {
    first = false;
    oh::write_file(table_path, "text/html html htm\ntext/css css\nimage/png png\napplication/javascript js\n");
    oh::write_file(base + "/linked.txt", "linked content");
    mkdir((base + "/linkeddir").c_str(), 0755);
    oh::write_file(base + "/linkeddir/inner.css", "inner content");
  }
  if (g.chance(1, 3)) { renderer_case(g, c); return; }
  std::string work = base + "/w";
  remove_all(work);
  mkdir(work.c_str(), 0755);
  struct Root { std::string name; bool dir; std::vector<File> files; std::vector<std::string> dirs, hidden; int run; };
  std::vector<Root> roots;
  int nroots = 1 + (int)g.below(3), runs = 1 + (int)g.chance(1, 3);
  static const char *RN[] = {"static", "other-dir", "x.d"};
  static const char *FN[] = {"one.txt", "two.html", "3.bin"};
  size_t total = 0;
  bool many = g.chance(1, 8);
  for (int i = 0; i < nroots; i++) {
    Root r;
    r.dir = g.chance(2, 3);
    r.name = r.dir ? RN[i] : FN[i];
    r.run = (int)g.below(runs);
    std::string p = work + "/" + r.name;
    if (r.dir) {
      mkdir(p.c_str(), 0755);
      gen_tree(g, p, "", 0, r.files, r.dirs, r.hidden);
      if (many) for (int k = 0; k < 40; k++) { std::string n = fmt("gen%d%s.txt", k, std::string(g.below(60), 'g').c_str()); oh::write_file(p + "/" + n, n); r.files.push_back({n, n, "text/plain"}); }
    } else {
      std::string d = content(g);
      oh::write_file(p, d);
      r.files.push_back({"", d, type_of(r.name)});
    }
    total += r.files.size();
    roots.push_back(r);
  }
  for (auto &r : roots) { c.d("%s run %d:", r.name.c_str(), r.run); for (auto &f : r.files) c.d(" %s(%zu)", esc(f.path, 30).c_str(), f.data.size()); c.d("; "); }
  std::string assets = work + "/assets.h", so = work + "/p.so", out, e;
  std::vector<std::string> srcs;
  bool rel = g.coin(), slash = g.chance(1, 4), ofirst = g.coin();
  int again = g.coin() ? 1 : 0;                     // as builds do
  for (int pass = 0; pass <= again; pass++) for (int run = 0; run < runs; run++) {
    std::vector<std::string> a = {"opack"}, opt = {"-o", fmt("%s/out%d.c", work.c_str(), run), "-a", assets};
    if (ofirst) a.insert(a.end(), opt.begin(), opt.end());
    bool any = false;
    for (auto &r : roots) if (r.run == run) { any = true; a.push_back((rel ? "" : work + "/") + r.name + (slash && r.dir ? "/" : "")); }
    if (!any) continue;
    if (!ofirst) a.insert(a.end(), opt.begin(), opt.end());
    if (!pass) srcs.push_back(fmt("%s/out%d.c", work.c_str(), run));
    std::string all;
    for (auto &x : a) all += " " + x;
    int rc = gc::child([&]() -> int {
      if (rel) if (chdir(work.c_str())) return 99;
      std::vector<char *> v;
      for (auto &x : a) v.push_back(strdup(x.c_str()));
      v.push_back(NULL);
      return opack_main((int)a.size(), v.data());
    }, &out);
    if (rc != 0) c.fail("%s ended with %d: %s", esc(all, 300).c_str(), rc, esc(out.size() > 1500 ? out.substr(out.size() - 1500) : out, 1500).c_str());
  }
  e = gc::compile(srcs, so, {"-include", assets});
  if (!e.empty()) c.fail("the generated source does not compile: %s", esc(e, 600).c_str());
  void *dl = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!dl) c.fail("the generated code does not load: %s", dlerror());
  struct Close { void *d; ~Close() { dlclose(d); } } closer{dl};
  std::string header = oh::read_file(assets);
  Server s(0, false);
  for (auto &r : roots) {
    std::string fn = "opack_" + r.name;
    for (auto &ch : fn) if (!isalnum((unsigned char)ch)) ch = '_';
    void *f = dlsym(dl, fn.c_str());
    if (!f) c.fail("%s has no handler %s", r.name.c_str(), fn.c_str());
    if (header.find(" " + fn + "(") == std::string::npos) c.fail("the assets header does not declare %s", fn.c_str());
    size_t decl = 0;
    for (size_t p = 0; (p = header.find(" " + fn + "(", p)) != std::string::npos; p++) decl++;
    if (decl != 1) c.fail("the assets header declares %s %zu times", fn.c_str(), decl);
    onion_handler *h = onion_handler_new((onion_handler_handler)f, NULL, NULL);
    onion_handler_add(h, onion_handler_new((onion_handler_handler)fallback, NULL, NULL));
    onion_url_add_handler(onion_root_url(s.o), r.dir ? ("^" + r.name + "/").c_str() : r.name.c_str(), h);
    if (!r.dir) {
      unsigned *l = (unsigned *)dlsym(dl, (fn + "_length").c_str());
      if (!l || *l != r.files[0].data.size()) c.fail("%s_length is %d", fn.c_str(), l ? (int)*l : -1);
    }
  }
  for (auto &r : roots) {
    std::string pre = "/" + r.name + (r.dir ? "/" : "");
    for (auto &f : r.files) served(s, c, pre + f.path, f, g.chance(1, 6));
    if (!r.dir) continue;
    std::set<std::string> have;
    for (auto &f : r.files) have.insert(f.path);
    auto no = [&](const std::string &p) { if (!have.count(p)) not_served(s, c, pre, p); };
    for (auto &h : r.hidden) no(h);
    for (auto &d : r.dirs) { no(d); no(d + "/"); no(d + "/nothing here"); no(d + "/../" + d); }
    no("");
    no("nothing");
    for (auto &f : r.files) if (g.chance(1, 3)) {
      std::string p = f.path;
      switch (g.below(5)) { case 0: p += "/"; break; case 1: p += "x"; break; case 2: p.pop_back(); break; case 3: p = "./" + p; break; default: for (auto &ch : p) if (ispunct((unsigned char)ch) && ch != '/') ch = '_'; }
      no(p);
    }
  }
  c.nontrivial = total >= 3;
  c.label("packed");
  if (runs > 1 && srcs.size() > 1) c.label("two runs");
}
