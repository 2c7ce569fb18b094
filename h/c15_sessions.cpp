// C15: each session is private to its client and persists until removed, in every store.
#include "http.hpp"
#include <netinet/in.h>
#include <sqlite3.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
extern "C" {
#include <onion/sessions_sqlite3.h>
#include <onion/sessions_redis.h>
}
#include "fakeredis.hpp"
using namespace hm;
pbt::Config pbt::config;
static std::string db;
static int rport;
enum { MEMORY, SQLITE, REDIS };
static int store_kind;
void pbt::harness_init() {
  oh::quiet_log();
  pbt::drop_privileges();
  db = pbt::scratch() + "/s.sqlite";
  rport = fakeredis::start();
  config.rule = "a case is a history of 4 to 25 requests by up to four clients (each presenting its own, no, another's, a stale, a forged or a damaged session cookie, alone or among others) whose handlers read, set, remove and end sessions, on the in-memory store, on SQLite or on (a stand-in for) Redis, with reopening, a second server on the same store, lost connections and refusals; non-trivial when some client read back values stored by an earlier request";
  config.leak_check = true;
}
struct Op { int k; std::string key, val; };        // 0 set, 1 remove, 2 end, 3 nested set
typedef std::map<std::string, std::string> D;
static std::vector<Op> ops;
static bool use_session, late, locks;            // locks: the handler takes the dictionary's lock around each use, as several threads would need
static size_t late_from;                            // operations from this one on happen after the reply was sent
static D seen;
static bool failed_get;
static void add1(void *p, const char *k, const void *v, int fl) { if (fl & OD_DICT) (*(D *)p)[k] = "<dict " + oh::str(onion_dict_get((onion_dict *)v, "x")) + ">"; else (*(D *)p)[k] = (const char *)v; }
static int handler(void *, onion_request *r, onion_response *res) {
  seen.clear();
  failed_get = false;
  if (use_session) {
    onion_dict *d = onion_request_get_session_dict(r);
    if (!d) { failed_get = true; return OCS_INTERNAL_ERROR; }
    if (locks) onion_dict_lock_read(d);
    onion_dict_preorder(d, (void *)add1, &seen);
    if (locks) onion_dict_unlock(d);
    for (auto &x : seen) if (x.second[0] != '<' && oh::str(onion_request_get_session(r, x.first.c_str())) != x.second) failed_get = true;
  }
  size_t no = 0;
  for (auto &o : ops) {
    if (late && no++ == late_from) {
      onion_response_set_length(res, 2);
      onion_response_write0(res, "ok");
      onion_response_flush(res);
    }
    if (o.k == 2) { onion_request_session_free(r); continue; }
    onion_dict *d = onion_request_get_session_dict(r);
    if (locks) onion_dict_lock_write(d);
    if (o.k == 0) onion_dict_add(d, o.key.c_str(), o.val.c_str(), OD_DUP_ALL | OD_REPLACE);
    if (o.k == 1) onion_dict_remove(d, o.key.c_str());
    if (o.k == 3) { onion_dict *n = onion_dict_new(); onion_dict_add(n, "x", o.val.c_str(), OD_DUP_ALL); onion_dict_add(d, o.key.c_str(), n, OD_DUP_KEY | OD_DICT | OD_FREE_VALUE | OD_REPLACE); }
    if (locks) onion_dict_unlock(d);
  }
  if (!late) onion_response_write0(res, "ok");
  return OCS_PROCESSED;
}
static std::string show(const D &d) { std::string r = "{"; for (auto &x : d) r += esc(x.first, 20) + "=" + esc(x.second, 30) + " "; return r + "}"; }
// What the store has under an id, for somebody else who looks.
static std::string peek(const std::string &id) {
  std::string r = "<none>";
  if (store_kind == REDIS) {
    r = fakeredis::ask({"HGET", "SESSIONS", id});
    if (r == "$-1\r\n") r = "<none>";
    return r;
  }
  sqlite3 *h;
  sqlite3_stmt *s;
  if (sqlite3_open(db.c_str(), &h)) { sqlite3_close(h); return r; }
  sqlite3_busy_timeout(h, 2000);
  if (sqlite3_prepare_v2(h, "SELECT data FROM sessions WHERE id=?", -1, &s, NULL) == SQLITE_OK) {
    sqlite3_bind_text(s, 1, id.c_str(), -1, SQLITE_STATIC);
    if (sqlite3_step(s) == SQLITE_ROW) r = std::string((const char *)sqlite3_column_blob(s, 0) ? (const char *)sqlite3_column_blob(s, 0) : "", sqlite3_column_bytes(s, 0));
    sqlite3_finalize(s);
  }
  sqlite3_close(h);
  return r;
}
// Damages what is stored under an id, as somebody else with the file could.
static bool damage(Gen &g, const std::string &id) {
  static const char *BAD[] = {"", "{", "{\"a\":\"", "{\"a\":\"b\"", "[1]", "12", "nonsense", "{\"a\"}", "{\"a\":}", "\"a\"", "{\"a\":\"\\", "{\"a\":{\"b\":\"c\"}"};
  if (store_kind == REDIS) {
    if (fakeredis::ask({"HEXISTS", "SESSIONS", id}) != ":1\r\n") return false;
    size_t k = g.below(13);
    return fakeredis::ask({"HSET", "SESSIONS", id, k == 12 ? std::string("\0\xff{}", 4) : BAD[k]}) == ":0\r\n";
  }
  sqlite3 *h;
  sqlite3_stmt *s;
  if (sqlite3_open(db.c_str(), &h)) { sqlite3_close(h); return false; }
  sqlite3_busy_timeout(h, 2000);
  bool ok = sqlite3_prepare_v2(h, "UPDATE sessions SET data=? WHERE id=?", -1, &s, NULL) == SQLITE_OK;
  if (ok) {
    size_t k = g.below(14);
    if (k == 12) sqlite3_bind_null(s, 1);
    else if (k == 13) sqlite3_bind_blob(s, 1, "\0\xff{}", 4, SQLITE_STATIC);
    else sqlite3_bind_text(s, 1, BAD[k], -1, SQLITE_STATIC);
    sqlite3_bind_text(s, 2, id.c_str(), -1, SQLITE_STATIC);
    ok = sqlite3_step(s) == SQLITE_DONE && sqlite3_changes(h) == 1;
    sqlite3_finalize(s);
  }
  sqlite3_close(h);
  return ok;
}
// Files that can not be a store are refused.
static void no_store(Gen &g, Ctx &c) {
  if (store_kind == REDIS) {
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    struct sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t l = sizeof a;
    if (bind(fd, (struct sockaddr *)&a, sizeof a) || getsockname(fd, (struct sockaddr *)&a, &l)) exit(3);
    onion_sessions *s = onion_sessions_redis_new("127.0.0.1", ntohs(a.sin_port));
    close(fd);
    if (s) { s->free(s); c.fail("a port where nobody listens is taken as session store"); }
    c.label("no store");
    return;
  }
  std::string f = pbt::scratch() + "/notdb";
  switch (g.below(3)) {
  case 0: f = pbt::scratch(); break;
  case 1: f = pbt::scratch() + "/none/s.sqlite"; break;
  default: oh::write_file(f, g.coin() ? std::string("SQLite format 3") + std::string(g.below(5000), 'x') : g.raw(1 + g.below(5000)));
  }
  onion_sessions *s = onion_sessions_sqlite3_new(f.c_str());
  if (s) { s->free(s); c.fail("a file that is no database is taken as session store"); }
  c.label("no store");
}
struct Srv {
  std::unique_ptr<Server> s;
  Srv(int kind) {
    s.reset(new Server(0, false));
    onion_set_root_handler(s->o, onion_handler_new((onion_handler_handler)handler, NULL, NULL));
    if (kind != MEMORY) {
      onion_sessions *b = kind == REDIS ? onion_sessions_redis_new("127.0.0.1", rport) : onion_sessions_sqlite3_new(db.c_str());
      if (!b) { fprintf(stderr, "cannot open the store\n"); exit(3); }
      onion_set_session_backend(s->o, b);
    }
  }
};
void pbt::property(Gen &g, Ctx &c) {
  store_kind = g.chance(1, 3) ? SQLITE : g.chance(1, 3) ? REDIS : MEMORY;
  bool sql = store_kind != MEMORY;
  locks = g.coin();
  if (sql && g.chance(1, 10)) no_store(g, c);
  for (const char *x : {"", "-journal", "-wal", "-shm"}) unlink((db + x).c_str());
  if (store_kind == REDIS) fakeredis::flush();
  c.d("%s: ", store_kind == REDIS ? "redis" : sql ? "sqlite" : "memory");
  std::vector<std::unique_ptr<Srv>> servers;
  servers.emplace_back(new Srv(store_kind));
  if (sql && g.chance(1, 3)) servers.emplace_back(new Srv(store_kind));
  std::map<std::string, D> store;                   // what must be there
  std::set<std::string> issued, stale;
  int nc = 1 + (int)g.below(4);
  std::vector<std::string> jar(nc);                 // session id each client holds
  std::vector<std::unique_ptr<Client>> conn(nc);
  std::vector<int> conn_srv(nc, 0);
  int n = 4 + (int)g.below(22), readback = 0;
  static const char *KEYS[] = {"a", "b", "user", "", "k\"\\", "\xc3\xa9"};
  for (int i = 0; i < n; i++) {
    if (sql && g.chance(1, 10)) {                   // the server is restarted
      for (auto &x : conn) x.reset();
      servers.clear();
      servers.emplace_back(new Srv(store_kind));
      if (g.chance(1, 3)) servers.emplace_back(new Srv(store_kind));
      c.d("restart ");
    }
    if (store_kind == REDIS && g.chance(1, 10)) { fakeredis::ask({"DROP"}); c.d("drop "); c.label("connections dropped"); }
    if (sql && !store.empty() && g.chance(1, 12)) {
      auto it = store.begin();
      std::advance(it, g.below(store.size()));
      if (damage(g, it->first)) { c.d("damage "); c.label("damaged"); stale.insert(it->first); store.erase(it); }
    }
    int cl = (int)g.below(nc), sv = (int)g.below(servers.size());
    std::string cookie, pick = jar[cl];
    int how = (int)g.weighted({10, 1, 1, 2, 1, 1});
    bool keep = how != 0;                           // whether the client ignores what it is given
    switch (how) {
    case 0: break;
    case 1: pick = ""; break;
    case 2: pick = jar[g.below(nc)]; break;
    case 3: if (!stale.empty()) { auto it = stale.begin(); std::advance(it, g.below(stale.size())); pick = *it; } break;
    case 4: pick = g.pick({"0", "abcdefghijklmnopqrstuvwxyzABCDEF", "' OR '1'='1", "%", "*", "../x", "a b"}); break;
    case 5: if (!pick.empty()) switch (g.below(7)) { case 4: pick += "="; pick += g.coin() ? "" : "x"; break; case 5: pick = "x" + pick; break; case 6: for (auto &ch : pick) ch = toupper(ch); break; case 0: pick.pop_back(); break; case 1: pick += "x"; break; case 2: pick = oh::lower(pick); break; case 3: pick[g.below(pick.size())] ^= 1; break; } break;
    }
    std::string eff = store.count(pick) ? pick : "";
    if (!pick.empty() || how == 4) {
      cookie = "sessionid=" + pick;
      switch (g.below(7)) {
      case 0: cookie = "a=1; " + cookie; break;
      case 1: cookie += "; b=2"; break;
      case 2: cookie = "xsessionid=" + (jar[g.below(nc)].empty() ? "z" : jar[g.below(nc)]) + "; " + cookie; break;
      case 3: cookie = "sessionid=forged; " + cookie; break;
      case 4: cookie = "sessionid; " + cookie; break;
      default: break;
      }
    } else if (g.chance(1, 6)) cookie = "xsessionid=" + (jar[cl].empty() ? std::string("q") : jar[cl]);
    use_session = g.chance(4, 5);
    ops.clear();
    int no = (int)g.below(4);
    std::string od;
    for (int k = 0; k < no; k++) {
      Op o{(int)g.weighted({6, 2, 1, 1}), g.pick(KEYS), ""};
      if (o.k == 0 || o.k == 3) { o.val = g.raw(g.chance(1, 8) ? g.len(20000, {1024, 4096, 8192, 16384}) : g.len(60, {20})); for (auto &ch : o.val) if (!ch) ch = 'z'; if (o.val[0] == '<') o.val[0] = '>'; if (g.coin()) o.val = fmt("v%d", i); }
      ops.push_back(o);
      od += o.k == 2 ? "end " : fmt("%s %s ", o.k == 0 ? "set" : o.k == 1 ? "del" : "nest", esc(o.key).c_str());
    }
    c.d("[client %d%s %s%s] ", cl, servers.size() > 1 ? fmt(" at %d", sv).c_str() : "", how == 0 ? "" : fmt("(%d) ", how).c_str(), od.c_str());
    // model
    D want = eff.empty() ? D() : store[eff];
    bool fresh = eff.empty();                       // a session made in this request
    std::string cur = eff;
    bool has = use_session;                         // whether there is a session in use
    D now = want;
    bool ended = false;
    late = false;
    size_t idx = 0;
    for (auto &o : ops) {
      // the session goes on changing after the reply; it is already announced
      if (!late && has && !now.empty() && g.chance(1, 4)) {
        bool ok = true;
        for (size_t k = idx; k < ops.size(); k++) if (ops[k].k == 2) ok = false;
        if (ok) { late = true; late_from = idx; c.d("late:%zu ", idx); }
      }
      idx++;
      if (o.k == 2) {
        if (!has && !ended && !eff.empty()) { has = true; }
        if (has && !fresh) { store.erase(eff); stale.insert(eff); }
        has = false; ended = true; fresh = true; now.clear();
        continue;
      }
      if (!has) { has = true; }
      if (o.k == 0) now[o.key] = o.val;
      if (o.k == 1) now.erase(o.key);
      if (o.k == 3) now[o.key] = "<dict " + o.val + ">";
    }
    // the request
    if (!conn[cl] || !conn[cl]->open || conn_srv[cl] != sv || g.chance(1, 4)) { conn[cl].reset(new Client(*servers[sv]->s)); conn_srv[cl] = sv; }
    size_t before = conn[cl]->c.out.size();
    std::string at_end, at_end_id;                  // what was stored when the client had the whole reply
    bool watch = sql && !late && g.coin();
    if (watch) {
      auto *x = &conn[cl]->c;
      conn[cl]->c.on_write = [&, x](const char *d, size_t k) -> ssize_t {
        x->out.append(d, k);
        oh::Reply w = oh::read_reply(x->out.substr(before), false, false);
        if (w.ok && w.complete && at_end_id.empty()) {
          const std::string *sc = w.get("Set-Cookie");
          at_end_id = !eff.empty() ? eff : sc && sc->compare(0, 10, "sessionid=") == 0 ? sc->substr(10, sc->find(';') - 10) : "-";
          at_end = peek(at_end_id);
        }
        return k;
      };
    }
    conn[cl]->deliver("GET /x HTTP/1.1\r\n" + (cookie.empty() ? "" : "Cookie: " + cookie + "\r\n") + "\r\n", {});
    oh::Reply r = oh::read_reply(conn[cl]->c.out.substr(before), false, !conn[cl]->open);
    if (!r.ok || r.code != 200) c.fail("request %d: broken reply (%d) %s", i, r.code, r.error.c_str());
    conn[cl]->c.on_write = nullptr;
    if (watch && !at_end_id.empty()) {
      std::string after = peek(at_end_id);
      if (after != at_end) c.fail("request %d: the client has the whole reply and the store has %s under its session, which becomes %s later", i, esc(at_end, 80).c_str(), esc(after, 80).c_str());
      c.label("stored before the end of the reply");
    }
    if (failed_get) c.fail("request %d: session values disagree", i);
    if (use_session && seen != want) c.fail("request %d: the session of client %d (cookie %s) holds %s instead of %s", i, cl, esc(cookie).c_str(), show(seen).c_str(), show(want).c_str());
    if (use_session && !want.empty()) readback++;
    std::string given;
    int nset = 0;
    for (auto &h : r.headers)
      if (oh::ieq(h.name, "Set-Cookie")) {
        if (h.value.compare(0, 10, "sessionid=")) c.fail("request %d: unexpected cookie %s", i, h.value.c_str());
        given = h.value.substr(10, h.value.find(';') == std::string::npos ? std::string::npos : h.value.find(';') - 10);
        nset++;
      }
    if (nset > 1) c.fail("request %d: %d session cookies", i, nset);
    if (!has) {
      if (nset) c.fail("request %d: session cookie %s sent without a session", i, given.c_str());
      if (ended && how == 0) { jar[cl] = jar[cl]; }
      continue;
    }
    if (now.empty()) {                              // nothing to remember
      if (!fresh) { store.erase(eff); stale.insert(eff); }
      if (nset && fresh && !late) c.fail("request %d: session cookie sent for an empty session", i);
      if (nset && fresh) issued.insert(given);
      continue;
    }
    if (fresh) {
      if (!nset) c.fail("request %d: a new session was stored and no cookie sent", i);
      if (given.size() < 16) c.fail("request %d: session id %s is too short", i, given.c_str());
      if (issued.count(given)) c.fail("request %d: session id %s was given before", i, given.c_str());
      if (given == pick) c.fail("request %d: the client chose its session id %s", i, given.c_str());
      issued.insert(given);
      store[given] = now;
      if (!keep || g.coin()) jar[cl] = given;
    } else {
      if (nset && given != eff) c.fail("request %d: session %s was renamed to %s", i, eff.c_str(), given.c_str());
      store[eff] = now;
    }
  }
  if (store_kind == REDIS && g.chance(1, 3)) {      // the store refuses: what becomes of the session is open, but there is a reply
    for (int i = 0, k = 1 + (int)g.below(3); i < k; i++) {
      int cl = (int)g.below(nc), sv = (int)g.below(servers.size());
      fakeredis::ask({"FAIL", fmt("%d", 1 + (int)g.below(5))});
      if (g.coin()) fakeredis::ask({"DROP"});
      use_session = true;
      late = false;
      ops = {{(int)g.below(3), "a", "b"}};
      Client x(*servers[sv]->s);
      x.deliver("GET /x HTTP/1.1\r\n" + (jar[cl].empty() ? "" : "Cookie: sessionid=" + jar[cl] + "\r\n") + "\r\n", {});
      oh::Reply r = oh::read_reply(x.c.out, false, !x.open);
      if (!r.ok || !r.complete) c.fail("no whole reply when the store refuses: %s", r.error.c_str());
      c.label("store refuses");
    }
  }
  conn.clear();
  if (readback) c.nontrivial = true;
  c.label(store_kind == REDIS ? "redis" : sql ? "sqlite" : "memory");
  c.label(readback ? "read back" : "no read back");
}
