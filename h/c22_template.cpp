// C22: a compiled template renders exactly what its source and context denote.
#include "http.hpp"
#include "gencode.hpp"
#include <dlfcn.h>
#include <memory>
using namespace hm;
extern "C" int otemplate_main(int, char **);
pbt::Config pbt::config;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is one to five generated templates (text with quotes, line breaks, zero bytes and long lines, comments, variables, conditions, loops, includes, inheritance with nested blocks, translations) compiled by the real tool and gcc, loaded, and rendered several times with generated contexts, or one template with one generated mistake the tool must report; non-trivial when the templates hold at least four tags besides text and something was rendered, or a mistake was reported";
  config.wall_limit_s = 60;
  config.cpu_limit_s = 30;
  config.flaky_retries = 1;
  config.leak_check = true;
}
// ---------------------------------------------------------------- contexts
struct Val { bool dict = false; std::string s; std::map<std::string, Val> d; };
typedef std::map<std::string, Val> Dict;
static const char *NAMES[] = {"a", "b", "list", "sub", "i", "0", "x-y", "\xc3\xa9", "if", "title", "A", "1"};
static std::string gen_value(Gen &g) {
  static const char *VS[] = {"false", "", "1", "true", "a", "b", "<b>\"&'</b>", "10", "9", "a b", "\xc3\xa9\xff", "%s%d", "{{a}}", "False"};
  switch (g.weighted({5, 2, 1})) {
  case 0: return g.pick(VS);
  case 1: return g.from("ab<>&\"'/\\%{}1 ", g.below(12));
  default: return g.from("ab<&", g.len(3000, {1499, 1500, 1501}));
  }
}
static Dict gen_dict(Gen &g, int depth) {
  Dict d;
  int n = (int)g.below(depth ? 5 : 8);
  for (int i = 0; i < n; i++) {
    Val v;
    v.dict = depth < 3 && g.chance(2, 5);
    std::string k = g.pick(NAMES);
    if (v.dict) v.d = gen_dict(g, depth + 1);
    else v.s = gen_value(g);
    d[k] = v;
  }
  return d;
}
static onion_dict *to_onion(const Dict &d) {
  onion_dict *r = onion_dict_new();
  for (auto &kv : d)
    if (kv.second.dict) onion_dict_add(r, kv.first.c_str(), to_onion(kv.second.d), OD_DUP_KEY | OD_DICT | OD_FREE_VALUE);
    else onion_dict_add(r, kv.first.c_str(), kv.second.s.c_str(), OD_DUP_ALL);
  return r;
}
static std::string show(const Dict &d) {
  std::string r = "{";
  for (auto &kv : d) r += esc(kv.first, 20) + ":" + (kv.second.dict ? show(kv.second.d) : "'" + esc(kv.second.s, 20) + "'") + " ";
  return r + "}";
}
static const Val *lookup(const Dict &d, const std::vector<std::string> &path) {
  const Dict *at = &d;
  for (size_t i = 0; i < path.size(); i++) {
    auto it = at->find(path[i]);
    if (it == at->end()) return nullptr;
    if (i + 1 == path.size()) return &it->second;
    if (!it->second.dict) return nullptr;
    at = &it->second.d;
  }
  return nullptr;
}
// ---------------------------------------------------------------- templates
enum Kind { TEXT, COMMENT, VAR, IF, FOR, INCLUDE, BLOCK, TRANS };
struct Operand { bool literal = false; std::string s; std::vector<std::string> path; };
struct Node {
  Kind kind;
  std::string s, op;                    // text, comment, block name, loop variable, translation; operator
  Operand a, b;
  bool has_else = false;
  int other = -1;                       // include
  std::vector<Node> body, els;
};
struct Template {
  std::string file, name, fn;           // path relative to the work directory, base name, function
  int family = 0, extends = -1;
  bool load = false;
  std::vector<Node> lead, nodes;        // lead: before the extends tag
};
struct Set { std::vector<Template> t; int tags = 0; };
static std::string fn_of(const std::string &base) {
  std::string r = base;
  for (auto &ch : r) if (!isalnum((unsigned char)ch) && ch != '_') ch = '_';
  if (isdigit((unsigned char)r[0])) r = "_" + r;
  return r;
}
static std::string gen_text(Gen &g) {
  switch (g.weighted({6, 4, 3, 1, 1})) {
  case 0: return g.from("abc <>\n", 1 + g.below(12));
  case 1: return g.from("a\"\\\n\t\r%{}#?/*'0123\xc3\xff", 1 + g.below(16));
  case 2: { static const char *P[] = {"%s%n", "\\n", "\"", "?""?/", "*/ // /*", "<p class=\"x\">", "{ a: {b: 1} }", "}}", "%}", "#}", "\\", "{x}", "\\x41\\101", "\n\n\n", "#line 7\n"}; return g.pick(P); }
  case 3: return g.from("ab\"\\ %", g.len(9000, {1000, 2040, 4080, 4090, 4096}));
  default: { std::string s = g.from(std::string("a\0" "0\n7", 5), 1 + g.below(10)); return s; }
  }
}
static std::vector<std::string> gen_path(Gen &g) {
  std::vector<std::string> p;
  size_t n = 1 + g.weighted({6, 3, 1});
  for (size_t i = 0; i < n; i++) p.push_back(g.pick(NAMES));
  return p;
}
static std::string gen_literal(Gen &g) {
  static const char *L[] = {"false", "a", "", "100%", "% off", "%%", "a b", "<b>", "back\\slash", "10", "9", "b", "}", "{", "%s", "\xc3\xa9", "tab\there", "a.b", "# x"};
  return g.pick(L);
}
static Operand gen_operand(Gen &g) {
  Operand o;
  o.literal = g.chance(1, 3);
  if (o.literal) o.s = gen_literal(g);
  else o.path = gen_path(g);
  return o;
}
struct Gctx { Set *set; int me; std::set<std::string> *blocks; bool trans; };
static std::vector<Node> gen_nodes(Gen &g, const Gctx &x, int depth, int max) {
  std::vector<Node> r;
  int n = (int)g.below(max + 1);
  std::vector<int> inc;
  for (size_t j = 0; j < x.set->t.size(); j++) if (x.set->t[j].family > x.set->t[x.me].family) inc.push_back((int)j);
  for (int i = 0; i < n; i++) {
    Node nd;
    nd.kind = (Kind)g.weighted({8, 2, 6, depth < 3 ? 4u : 0u, depth < 3 ? 4u : 0u, inc.empty() ? 0u : 2u, depth < 3 ? 3u : 0u, x.trans ? 2u : 0u});
    if (nd.kind != TEXT) x.set->tags++;
    switch (nd.kind) {
    case TEXT: nd.s = gen_text(g); break;
    case COMMENT: { nd.s = g.from("ab#{}% \"'\\", g.below(10)); for (size_t p; (p = nd.s.find("#}")) != std::string::npos;) nd.s[p + 1] = 'x'; break; }
    case VAR: nd.a.path = gen_path(g); break;
    case IF: {
      nd.a = gen_operand(g);
      if (g.coin()) { static const char *OPS[] = {"==", "!=", "<", "<=", ">", ">="}; nd.op = g.pick(OPS); nd.b = g.chance(1, 4) ? nd.a : gen_operand(g); }
      nd.has_else = g.coin();
      nd.body = gen_nodes(g, x, depth + 1, 3);
      if (nd.has_else) nd.els = gen_nodes(g, x, depth + 1, 3);
      break;
    }
    case FOR: nd.s = g.pick(NAMES); nd.a.path = gen_path(g); nd.body = gen_nodes(g, x, depth + 1, 3); break;
    case INCLUDE: nd.other = inc[g.below((uint32_t)inc.size())]; break;
    case BLOCK: {
      static const char *B[] = {"title", "body", "a", "b", "body_in", "x-y", "1st"};
      nd.s = fmt("f%d%s", x.set->t[x.me].family, g.pick(B));
      if (!x.blocks->insert(fn_of(nd.s)).second) { nd.kind = TEXT; nd.s = "-"; break; }
      nd.body = gen_nodes(g, x, depth + 1, 3);
      break;
    }
    case TRANS: do nd.s = gen_literal(g); while (nd.s.empty()); break;
    }
    r.push_back(nd);
  }
  return r;
}
static std::string blank(Gen &g, bool must = false) { static const char *B[] = {" ", "", "  ", "\t", " \t"}; std::string s = g.pick(B); return s.empty() && must ? " " : s; }
static std::string join(const std::vector<std::string> &p) { std::string r; for (auto &x : p) r += (r.empty() ? "" : ".") + x; return r; }
static std::string operand(const Operand &o) { return o.literal ? "\"" + o.s + "\"" : join(o.path); }
static std::string tag(Gen &g, const std::vector<std::string> &w) {
  std::string r = "{%" + blank(g);
  for (size_t i = 0; i < w.size(); i++) r += (i ? blank(g, true) : "") + w[i];
  return r + blank(g) + "%}";
}
// appends, keeping text from running into an opening mark by accident
static void put(std::string &out, const std::string &s) {
  if (!out.empty() && out.back() == '{' && !s.empty() && (s[0] == '{' || s[0] == '%' || s[0] == '#')) out += '-';
  out += s;
}
static std::string clean(std::string s) {         // text without opening marks
  for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == '{' && (s[i + 1] == '{' || s[i + 1] == '%' || s[i + 1] == '#')) s[i] = '(';
  return s;
}
// The text of a template is the concatenation of its pieces; the two-character marks a
// piece boundary could form are taken out here, in the tree, so that the model and the
// source agree.
static std::string ref(Gen &g, const Template &o) { std::string n = g.coin() ? o.name : o.file; return n.find('"') == std::string::npos ? "\"" + n + "\"" : n; }
static void write_nodes(Gen &g, const Set &set, std::vector<Node> &ns, std::string &out) {
  for (auto &n : ns) {
    switch (n.kind) {
    case TEXT:
      n.s = clean(n.s);
      if (!out.empty() && out.back() == '{' && !n.s.empty() && (n.s[0] == '{' || n.s[0] == '%' || n.s[0] == '#')) n.s[0] = '-';
      out += n.s;
      continue;
    default:;
    }
    switch (n.kind) {
    case COMMENT: out += "{#" + n.s + "#}"; break;
    case VAR: out += "{{" + blank(g) + join(n.a.path) + blank(g) + "}}"; break;
    case IF: {
      std::vector<std::string> w = {"if", operand(n.a)};
      if (!n.op.empty()) { w.push_back(n.op); w.push_back(operand(n.b)); }
      out += tag(g, w);
      write_nodes(g, set, n.body, out);
      if (n.has_else) { out += tag(g, {"else"}); write_nodes(g, set, n.els, out); }
      out += tag(g, {"endif"});
      break;
    }
    case FOR: out += tag(g, {"for", n.s, "in", join(n.a.path)}); write_nodes(g, set, n.body, out); out += tag(g, {"endfor"}); break;
    case INCLUDE: { const Template &o = set.t[n.other]; out += tag(g, {"include", ref(g, o)}); break; }
    case BLOCK: out += tag(g, {"block", n.s}); write_nodes(g, set, n.body, out); out += tag(g, {"endblock"}); break;
    case TRANS: out += tag(g, {"trans", "\"" + n.s + "\""}); break;
    default:;
    }
  }
}
// every text that stands right before a mark must not end in '{'
static void fix_ends(std::vector<Node> &ns, bool last_level) {
  for (size_t i = 0; i < ns.size(); i++) {
    Node &n = ns[i];
    fix_ends(n.body, false);
    fix_ends(n.els, false);
    bool last = last_level && i + 1 == ns.size();
    if (n.kind == TEXT && !n.s.empty() && n.s.back() == '{' && !last) n.s.back() = '(';
  }
}
static std::string source(Gen &g, Set &set, Template &t) {
  fix_ends(t.lead, false);
  fix_ends(t.nodes, true);
  std::string out;
  if (t.load) out += tag(g, {"load", "i18n"});
  write_nodes(g, set, t.lead, out);
  if (t.extends >= 0) { const Template &o = set.t[t.extends]; out += tag(g, {"extends", ref(g, o)}); }
  write_nodes(g, set, t.nodes, out);
  return out;
}
// ---------------------------------------------------------------- the reference evaluator
typedef std::map<std::string, const Node *> Blocks;
static std::string html(const std::string &s) {
  std::string r;
  for (char ch : s) switch (ch) { case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '&': r += "&amp;"; break; case '"': r += "&quot;"; break; case '\'': r += "&#39;"; break; default: r += ch; }
  return r;
}
static void collect(const std::vector<Node> &ns, Blocks &b) { for (auto &n : ns) { if (n.kind == BLOCK) b.insert({n.s, &n}); collect(n.body, b); collect(n.els, b); } }
struct Eval {
  const Set &set;
  size_t budget = 400000;
  bool over = false;
  std::string out;
  void render(int i, const Dict &ctx, Blocks env) {
    const Template &t = set.t[i];
    collect(t.lead, env);
    collect(t.nodes, env);
    nodes(t.lead, ctx, env);
    if (t.extends >= 0) render(t.extends, ctx, env);
    else nodes(t.nodes, ctx, env);
  }
  void nodes(const std::vector<Node> &ns, const Dict &ctx, const Blocks &env) {
    for (auto &n : ns) {
      if (over || out.size() > budget) { over = true; return; }
      switch (n.kind) {
      case TEXT: case TRANS: out += n.s; break;
      case COMMENT: break;
      case VAR: { const Val *v = lookup(ctx, n.a.path); if (v && !v->dict) out += html(v->s); break; }
      case IF: nodes(truth(n, ctx) ? n.body : n.els, ctx, env); break;
      case FOR: {
        const Val *v = lookup(ctx, n.a.path);
        if (!v || !v->dict) break;
        for (auto &kv : v->d) { Dict c = ctx; c[n.s] = kv.second; nodes(n.body, c, env); }
        break;
      }
      case INCLUDE: render(n.other, ctx, env); break;
      case BLOCK: { auto it = env.find(n.s); nodes(it->second->body, ctx, env); break; }
      }
    }
  }
  bool truth(const Node &n, const Dict &ctx) {
    auto get = [&](const Operand &o, bool *have, bool *dict) -> std::string {
      *dict = false;
      if (o.literal) { *have = true; return o.s; }
      const Val *v = lookup(ctx, o.path);
      *have = v && !v->dict;
      *dict = v && v->dict;
      return *have ? v->s : "";
    };
    bool ha, hb, da, db;
    std::string a = get(n.a, &ha, &da);
    if (n.op.empty()) {
      if (da) { const Val *v = lookup(ctx, n.a.path); return !v->d.empty(); }
      return ha && !a.empty() && a != "false";
    }
    std::string b = get(n.b, &hb, &db);
    if (!ha || !hb) {                   // something missing: only equal to something missing
      bool same = ha == hb;
      return n.op == "==" || n.op == "<=" || n.op == ">=" ? same : n.op == "!=" ? !same : false;
    }
    int c = strcmp(a.c_str(), b.c_str());
    return n.op == "==" ? c == 0 : n.op == "!=" ? c != 0 : n.op == "<" ? c < 0 : n.op == "<=" ? c <= 0 : n.op == ">" ? c > 0 : c >= 0;
  }
};
// ---------------------------------------------------------------- running the tool
static int tool(const std::vector<std::string> &a, const std::string &cwd, const std::string &in, std::string *out) {
  return gc::child([&]() -> int {
    if (chdir(cwd.c_str())) return 99;
    if (!in.empty()) { int fd = open(in.c_str(), O_RDONLY); if (fd < 0) return 99; dup2(fd, 0); }
    std::vector<char *> v;
    for (auto &x : a) v.push_back(strdup(x.c_str()));
    v.push_back(NULL);
    return otemplate_main((int)a.size(), v.data());
  }, out);
}
static const std::string &plugin_dir() {
  static std::string dir;
  if (dir.empty()) {
    dir = pbt::scratch() + "/plugins";
    mkdir(dir.c_str(), 0755);
    std::string e = gc::compile({REPO_DIR "/tools/otemplate/templatetags/i18n.c"}, dir + "/libi18n.so");
    if (!e.empty()) { fprintf(stderr, "the i18n plugin does not compile: %s\n", e.c_str()); abort(); }
  }
  return dir;
}
static void mkdirs(const std::string &p) { for (size_t i = 1; (i = p.find('/', i)) != std::string::npos; i++) mkdir(p.substr(0, i).c_str(), 0755); }
static Set gen_set(Gen &g, int max) {
  Set s;
  int n = 1 + (int)g.below(max);
  static const char *N[] = {"page%d.html", "my-page%d.html", "%dd.html", "sp ace%d.html", "p%%s%d.txt", "plus+%d.x", "UP%d", "dot.dot%d.html", "eacute\xc3\xa9%d.html", "q\"t%d.html", "back\\s%d.html"};
  static const char *D[] = {"", "", "parts/", "long/", "t.d/"};
  s.t.resize(n);
  int fam = 0;
  for (int i = 0; i < n; i++) {
    Template &t = s.t[i];
    const char *f = g.pick(N);
    t.name = fmt(f, i);
    if (g.chance(1, 16)) t.name = std::string(150, 'n') + t.name;
    std::string d = g.pick(D);
    if (d == "long/") d = std::string(140, 'd') + "/" + std::string(140, 'e') + "/";
    t.file = d + t.name;
    t.fn = fn_of(t.name);
    if (i) fam += (int)g.coin();
    t.family = fam;
  }
  for (int i = 0; i < n; i++) {
    Template &t = s.t[i];
    std::vector<int> par;
    for (int j = i + 1; j < n; j++) if (s.t[j].family == t.family) par.push_back(j);
    if (!par.empty() && g.chance(3, 4)) { t.extends = par[g.below((uint32_t)par.size())]; s.tags++; }
    t.load = g.chance(1, 4);
    std::set<std::string> blocks;
    Gctx x{&s, i, &blocks, t.load};
    if (t.extends >= 0 && g.chance(1, 4)) { Node nd; nd.kind = TEXT; nd.s = gen_text(g); t.lead.push_back(nd); }
    t.nodes = gen_nodes(g, x, 0, 8);
  }
  return s;
}
static std::string option_n(Gen &g) { return g.coin() ? "-n" : ""; }
// ---------------------------------------------------------------- a template with one mistake
static void malformed(Gen &g, Ctx &c, const std::string &work) {
  Set s = gen_set(g, 1);
  Template &t = s.t[0];
  struct M { const char *what, *text; int where; };         // where: 0 anywhere on top level, 1 at the end
  static const M MS[] = {
    {"unknown tag", "{% nothing x %}", 0}, {"empty tag", "{% %}", 0}, {"empty tag", "{%%}", 0},
    {"stray endif", "{% endif %}", 0}, {"stray endfor", "{% endfor %}", 0}, {"stray endblock", "{% endblock %}", 0}, {"stray else", "{% else %}", 0},
    {"unclosed if", "{% if a %}", 0}, {"unclosed for", "{% for i in a %}", 0}, {"unclosed block", "{% block zz %}", 0}, {"unclosed else", "{% if a %}x{% else %}", 0},
    {"if closed by endfor", "{% if a %}x{% endfor %}", 0}, {"for closed by endif", "{% for i in a %}x{% endif %}", 0}, {"block closed by endif", "{% block zz %}x{% endif %}", 0}, {"for closed by endblock", "{% for i in a %}x{% endblock %}", 0}, {"if closed by endblock", "{% if a %}x{% endblock %}", 0}, {"block closed by endfor", "{% block zz %}x{% endfor %}", 0},
    {"crossed tags", "{% if a %}{% for i in a %}x{% endif %}{% endfor %}", 0}, {"else in a for", "{% for i in a %}x{% else %}y{% endfor %}", 0}, {"else in a block", "{% if a %}{% block zz %}x{% else %}y{% endblock %}{% endif %}", 0}, {"two elses", "{% if a %}x{% else %}y{% else %}z{% endif %}", 0},
    {"if of nothing", "{% if %}x{% endif %}", 0}, {"if of two", "{% if a b %}x{% endif %}", 0}, {"if of four", "{% if a == b c %}x{% endif %}", 0}, {"unknown operator", "{% if a = b %}x{% endif %}", 0}, {"unknown operator", "{% if a in b %}x{% endif %}", 0}, {"unknown operator", "{% if a <> \"b\" %}x{% endif %}", 0},
    {"for of nothing", "{% for %}x{% endfor %}", 0}, {"for of one", "{% for i %}x{% endfor %}", 0}, {"for without a list", "{% for i in %}x{% endfor %}", 0}, {"for without in", "{% for i of a %}x{% endfor %}", 0}, {"for without in", "{% for i a b %}x{% endfor %}", 0},
    {"include of nothing", "{% include %}", 0}, {"extends of nothing", "{% extends %}", 0}, {"block without name", "{% block %}x{% endblock %}", 0},
    {"block twice", "{% block zz %}x{% endblock %}{% block zz %}y{% endblock %}", 0},
    {"unfinished string", "{% if a == \"x %}y{% endif %}", 0}, {"unfinished string", "{% include \"x.html %}", 0},
    {"missing plugin", "{% load doesnotexist %}", 0}, {"trans of nothing", "{% load i18n %}{% trans %}", 0},
    {"empty variable", "{{ }}", 0}, {"empty variable", "{{}}", 0},
    {"unfinished variable", "{{ a", 1}, {"unfinished variable", "{{ a }", 1}, {"unfinished variable", "{{", 1}, {"unfinished tag", "{% if a", 1}, {"unfinished tag", "{% endif %", 1}, {"unfinished tag", "{%", 1}, {"unfinished comment", "{# a", 1}, {"unfinished comment", "{# a #", 1}, {"unfinished comment", "{#", 1}};
  int special = (int)g.weighted({30, 1, 1});
  std::string text, what;
  if (special == 0) {
    const M &m = g.pick(MS);
    what = m.what;
    size_t at = m.where ? t.nodes.size() : g.below((uint32_t)t.nodes.size() + 1);
    Node mark;
    mark.kind = COMMENT;
    mark.s = "HERE";
    t.nodes.insert(t.nodes.begin() + (long)at, mark);
    text = source(g, s, t);
    size_t p = text.find("{#HERE#}");
    text = m.where ? text.substr(0, p) + m.text : text.substr(0, p) + m.text + text.substr(p + 8);
  } else {
    what = special == 1 ? "missing input" : "output that cannot be written";
    text = source(g, s, t);
  }
  c.d("%s in %s: %s", what.c_str(), esc(t.file, 40).c_str(), esc(text, 300).c_str());
  mkdirs(work + "/" + t.file);
  if (special != 1) oh::write_file(work + "/" + t.file, text);
  std::string outfile = work + (special == 2 ? "/none/out.c" : "/out.c"), out;
  std::vector<std::string> a = {"otemplate", t.file, outfile, "-a", "assets.h", "-t", plugin_dir()};
  std::string o = option_n(g);
  if (!o.empty()) a.push_back(o);
  int rc = tool(a, work, "", &out);
  if (rc == 0) c.fail("%s was not reported", what.c_str());
  if (rc < 0 || rc > 127 || out.find("AddressSanitizer") != std::string::npos || out.find("runtime error") != std::string::npos) c.fail("%s: the tool crashed (%d): %s", what.c_str(), rc, esc(out, 1500).c_str());
  if ((access((outfile).c_str(), F_OK) == 0)) c.fail("%s: the output was written", what.c_str());
  c.nontrivial = true;
  c.label("mistake: " + what);
}
// ---------------------------------------------------------------- good templates
typedef void (*plain_fn)(onion_dict *, onion_response *);
typedef int (*template_fn)(onion_dict *, onion_request *, onion_response *);
typedef onion_handler *(*handler_fn)(onion_dict *);
static oh::Reply ask(Server &s, Ctx &c, const std::string &path, const std::string &hdr) {
  Client cl(s);
  std::string req = "GET " + path + " HTTP/1.1\r\nHost: h\r\n" + hdr + "\r\n";
  cl.deliver(req.data(), req.size());
  oh::Reply r = oh::read_reply(cl.c.out, false, !cl.open);
  if (!r.error.empty() || !r.complete) c.fail("the reply is not well formed: %s in %s", r.error.c_str(), esc(cl.c.out, 200).c_str());
  if (r.code != 200) c.fail("status %d: %s", r.code, esc(r.body, 200).c_str());
  return r;
}
static void compare(Ctx &c, const char *how, const Template &t, const std::string &got, const std::string &want) {
  if (got == want) return;
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  size_t from = i > 40 ? i - 40 : 0;
  c.fail("%s rendered %s: %zu bytes, should be %zu, differ at %zu: got %s, should be %s", esc(t.name, 40).c_str(), how, got.size(), want.size(), i, esc(got.substr(from, 120), 200).c_str(), esc(want.substr(from, 120), 200).c_str());
}
void pbt::property(Gen &g, Ctx &c) {
  std::string work = pbt::scratch() + "/w";
  oh::rm_rf(work);
  mkdir(work.c_str(), 0755);
  if (g.chance(1, 3)) { malformed(g, c, work); return; }
  Set s = gen_set(g, 5);
  std::vector<std::string> srcs;
  std::string out;
  bool from_stdin = g.chance(1, 12);
  for (size_t i = 0; i < s.t.size(); i++) {
    Template &t = s.t[i];
    std::string text = source(g, s, t);
    c.d("%s(%d): %s\n", esc(t.file, 30).c_str(), t.extends, esc(text, 400).c_str());
    mkdirs(work + "/" + t.file);
    oh::write_file(work + "/" + t.file, text);
    std::string of = fmt("out%zu.c", i);
    srcs.push_back(work + "/" + of);
    bool in = i == 0 && from_stdin;
    if (in) t.fn = fn_of("-");
    std::vector<std::string> a = {"otemplate"}, opt = {"-a", "assets.h", "-t", plugin_dir()};
    if (g.coin()) opt.push_back("-n");
    if (g.coin()) a.insert(a.end(), opt.begin(), opt.end()), opt.clear();
    a.push_back(in ? "-" : g.coin() ? t.file : work + "/" + t.file);
    a.push_back(of);
    a.insert(a.end(), opt.begin(), opt.end());
    int rc = tool(a, work, in ? work + "/" + t.file : "", &out);
    if (rc != 0) c.fail("%s was not compiled (%d): %s", esc(t.file, 40).c_str(), rc, esc(out.size() > 1500 ? out.substr(out.size() - 1500) : out, 1500).c_str());
    if (!(access((work + "/" + of).c_str(), F_OK) == 0)) c.fail("%s: no output", esc(t.file, 40).c_str());
  }
  std::string so = work + "/t.so";
  std::string e = gc::compile(srcs, so, {"-include", work + "/assets.h"});
  if (!e.empty()) c.fail("the generated source does not compile: %s", esc(e, 800).c_str());
  std::shared_ptr<void> dl(dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL), [](void *p) { if (p) dlclose(p); });
  if (!dl) c.fail("the generated code does not load: %s", dlerror());
  std::string header = oh::read_file(work + "/assets.h");
  auto sym = [&](const std::string &n) { void *p = dlsym(dl.get(), n.c_str()); if (!p) c.fail("there is no function %s", n.c_str()); return p; };
  for (auto &t : s.t) if (header.find(" " + t.fn + "(") == std::string::npos) c.fail("the assets header does not declare %s", t.fn.c_str());
  size_t rendered = 0, biggest = 0;
  int nctx = 1 + (int)g.below(4);
  for (int k = 0; k < nctx; k++) {
    Dict d = gen_dict(g, 0);
    bool null = g.chance(1, 8);
    if (null) d.clear();
    c.d("context %s\n", null ? "none" : show(d).c_str());
    std::shared_ptr<onion_dict> od(null ? nullptr : to_onion(d), [](onion_dict *x) { if (x) onion_dict_free(x); });
    int rounds = 1 + (int)g.below(5);
    for (int r = 0; r < rounds; r++) {
      const Template &t = s.t[g.below((uint32_t)s.t.size())];
      int ti = (int)(&t - &s.t[0]);
      int mode = (int)g.weighted({4, 2, 2});
      Dict dd = d;
      std::string hdr;
      if (mode == 1) {
        static const char *H[] = {"", "es", "en-US,en;q=0.5", "fr;q=1", "de,en"};
        std::string l = g.pick(H);
        if (!l.empty()) hdr = "Accept-Language: " + l + "\r\n";
        if (!null) { Val v; v.s = l.empty() ? "C" : l.substr(0, 2); dd["LANG"] = v; }
      }
      Eval ev{s};
      ev.render(ti, dd, {});
      if (ev.over) { c.label("too big"); continue; }
      Server srv(0, mode != 2);
      if (mode == 2) {
        onion_url_add_handler(onion_root_url(srv.o), "t", ((handler_fn)sym(t.fn + "_handler"))(null ? NULL : to_onion(d)));
        int times = 1 + (int)g.below(3);
        for (int q = 0; q < times; q++) compare(c, q ? "by its handler again" : "by its handler", t, ask(srv, c, "/t", hdr).body, ev.out);
      } else {
        srv.handler = [&](onion_request *req, onion_response *res) -> int {
          if (mode == 0) { ((plain_fn)sym(t.fn))(od.get(), res); return OCS_PROCESSED; }
          return ((template_fn)sym(t.fn + "_template"))(null ? NULL : to_onion(d), req, res);
        };
        compare(c, mode == 1 ? "by its template function" : "into a response", t, ask(srv, c, "/t", hdr).body, ev.out);
      }
      rendered++;
      biggest = std::max(biggest, ev.out.size());
    }
  }
  c.nontrivial = s.tags >= 4 && rendered && biggest;
  c.label(s.t.size() > 1 ? "several templates" : "one template");
  for (auto &t : s.t) if (t.extends >= 0) { c.label("inheritance"); break; }
}
