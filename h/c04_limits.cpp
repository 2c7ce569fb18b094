// C04: post and file size limits hold, and uploads leave nothing behind.
#include "http.hpp"
#include "tmpwatch.hpp"
#include <errno.h>
using namespace hm;
pbt::Config pbt::config;
static long disk_room = -1;      // bytes temporary files may still take, -1 no limit
static int disk_mode = 0;        // 0 fail, 1 short then fail
static bool is_temp(int fd) {
  char l[64], p[512];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, p, sizeof p - 1);
  if (n <= 0) return false;
  p[n] = 0;
  for (auto &t : tmpwatch::names) if (t == p) return true;
  return false;
}
extern "C" ssize_t __real_write(int fd, const void *b, size_t n);
extern "C" ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (disk_room >= 0 && n > 0 && is_temp(fd)) {
    if ((long)n > disk_room) {
      size_t k = disk_mode ? disk_room : 0;
      disk_room = 0;
      if (k) return __real_write(fd, b, k);
      errno = ENOSPC;
      return -1;
    }
    disk_room -= n;
  }
  return __real_write(fd, b, n);
}
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is a pair of limits, one request with a urlencoded, multipart, raw or PUT body sized around them, an arrival pattern, possibly a truncation, a full disk or a failing temporary file, and what the handler does with the files; non-trivial when the body is within 8 bytes of a limit, files were created, or a fault or truncation happened";
  config.leak_check = true;
}
static size_t around(Gen &g, size_t lim) {
  if (g.chance(1, 4)) return g.len(2 * lim + 10);
  long d = (long)g.below(9) - 4;
  return (long)lim + d < 0 ? 0 : lim + d;
}
void pbt::property(Gen &g, Ctx &c) {
  tmpwatch::names.clear();
  tmpwatch::calls = 0;
  tmpwatch::fail_at = -1;
  disk_room = -1;
  const std::vector<size_t> lims = {0, 1, 2, 10, 100, 1000, 1023, 1024, 1025, 1499, 1500, 1501, 2000, 5000};
  size_t maxpost = g.pick(lims), maxfile = g.pick(lims);
  if (g.chance(1, 4)) maxpost = g.below(3000);
  if (g.chance(1, 4)) maxfile = g.below(3000);
  int kind = (int)g.weighted({2, 5, 2, 3});            // urlenc, multipart, raw, put
  bool dflt = g.chance(1, 500);                        // the limits a server starts with
  if (dflt) { maxpost = 1024 * 1024; maxfile = 1024 * 1024 * 1024; kind = 0; c.label("default limits"); }
  std::string method = kind == 3 ? "PUT" : "POST", body, ctype;
  bool must_refuse = false, must_accept = false;
  std::string want_raw, fkey;
  std::string fval;
  struct F { std::string name, filename, value; bool file; };
  std::vector<F> parts;
  if (kind == 0) {
    size_t n = around(g, maxpost);
    if (n < 2) n = 2;
    fkey = "k";
    fval = std::string(n - 2, g.pick({'a', 'z', '1'}));
    body = "k=" + fval;
    ctype = "application/x-www-form-urlencoded";
    (body.size() > maxpost ? must_refuse : must_accept) = true;
  } else if (kind == 1) {
    std::string bd = g.from("-ab", 1 + g.len(30));
    int nf = 1 + (int)g.below(4);
    size_t file_total = 0, post_content = 0, post_need = 0;
    size_t want_file = around(g, maxfile), want_post = around(g, maxpost);
    for (int i = 0; i < nf; i++) {
      F f;
      f.file = g.chance(3, 5);
      f.name = fmt("n%d", i);
      if (f.file) {
        f.filename = g.from("abc.", g.len(8));
        size_t n = i + 1 == nf ? (want_file > file_total ? want_file - file_total : 0) : g.below((uint32_t)want_file + 1) / 2;
        if (n > 12000) n = 12000;
        for (size_t k = 0; k < n; k++) f.value += "\r\n-ab"[(k * 7 + i + k / 5) % 5];
        if (g.coin()) f.value = std::string(n, 'x');
        file_total += n;
        post_content += f.name.size() + f.filename.size();
        post_need += f.name.size() + 3 + f.filename.size() + 3;
      } else {
        size_t left = want_post > post_need ? want_post - post_need : 0;
        size_t n = i + 1 == nf ? (left > f.name.size() + 4 ? left - f.name.size() - 4 : 0) : g.below((uint32_t)want_post + 1) / 3;
        if (n > 12000) n = 12000;
        f.value = std::string(n, 'v');
        post_content += f.name.size() + n;
        post_need += f.name.size() + 3 + n + 1;
      }
      parts.push_back(f);
    }
    // no accidental boundary
    for (auto &f : parts) for (size_t p; (p = ("\n" + f.value + "\n").find("\n--" + bd)) != std::string::npos;) f.value[p + 1 < f.value.size() ? p + 1 : p] = '#';
    body = "--" + bd;
    for (auto &f : parts) body += "\r\nContent-Disposition: form-data; name=\"" + f.name + "\"" + (f.file ? "; filename=\"" + f.filename + "\"" : "") + "\r\n\r\n" + f.value + "\r\n--" + bd;
    body += "--\r\n";
    ctype = "multipart/form-data; boundary=" + bd;
    must_refuse = file_total > maxfile || post_content > maxpost;
    must_accept = file_total <= maxfile && post_need <= maxpost;
    c.label(must_refuse ? "multipart over" : must_accept ? "multipart within" : "multipart in between");
    if (labs((long)file_total - (long)maxfile) <= 8 || labs((long)post_content - (long)maxpost) <= 8) c.nontrivial = true;
  } else if (kind == 2) {
    want_raw = g.raw(around(g, maxpost));
    body = want_raw;
    ctype = "application/json";
    (body.size() > maxpost ? must_refuse : must_accept) = true;
  } else {
    want_raw = g.raw(around(g, maxfile));
    body = want_raw;
    (body.size() > maxfile ? must_refuse : must_accept) = true;
  }
  if (kind != 1 && labs((long)body.size() - (long)(kind == 3 ? maxfile : maxpost)) <= 8) c.nontrivial = true;
  std::string head = method + " /up HTTP/1.1\r\nHost: x\r\n" + (ctype.empty() ? "" : "Content-Type: " + ctype + "\r\n") + fmt("Content-Length: %zu\r\n\r\n", body.size());
  std::string stream = head + body;
  bool truncated = g.chance(1, 5);
  if (truncated) { stream.resize(g.below((uint32_t)stream.size())); if (kind == 1 && stream.size() + 2 >= head.size() + body.size()) truncated = false; }
  bool faulty = false;
  if (g.chance(1, 6)) { disk_room = g.below(3000); disk_mode = g.coin(); faulty = true; c.label("disk full"); }
  else if (g.chance(1, 10)) { tmpwatch::fail_at = g.below(3); faulty = true; c.label("mkstemp fails"); }
  std::vector<size_t> cuts = gen_cuts(g, stream.size(), head.size());
  int act = g.below(6);                 // 0-2 nothing, 3 move a file away, 4 delete it, 5 return an error
  c.d("post<=%zu file<=%zu kind=%d body=%zu of %zu fault(disk %ld, mkstemp %d) act=%d %s %s", maxpost, maxfile, kind, stream.size(), head.size() + body.size(), disk_room, tmpwatch::fail_at, act, cuts_str(cuts).c_str(), esc(stream, 400).c_str());
  if (truncated || faulty) c.nontrivial = true;
  static const char *kinds[] = {"urlencoded", "multipart", "raw", "put"};
  c.label(kinds[kind]);
  int fds = pbt::open_fds();
  int calls = 0;
  std::string bad, moved, moved_content;
  std::string away = pbt::scratch() + "/away";
  {
    Server sv;
    if (!dflt) {
      onion_set_max_post_size(sv.o, maxpost);
      onion_set_max_file_size(sv.o, maxfile);
    }
    sv.handler = [&](onion_request *r, onion_response *res) -> int {
      calls++;
      Pairs want_files;
      auto file_is = [&](const char *key, const std::string &want) {
        const char *p = onion_request_get_file(r, key);
        if (!p) { if (bad.empty()) bad = fmt("file %s is missing", key); return; }
        bool ok;
        std::string got = oh::read_file(p, &ok);
        if (!ok) { if (bad.empty()) bad = fmt("temporary file of %s can not be read", key); return; }
        if (got != want && bad.empty()) bad = fmt("temporary file of %s holds %zu bytes instead of %zu (or others)", key, got.size(), want.size());
        struct stat st;
        if (!stat(p, &st) && (st.st_mode & 077) && bad.empty()) bad = "temporary file is readable by others";
        if (act == 3 && moved.empty() && !rename(p, away.c_str())) { moved = away; moved_content = want; }
        if (act == 4) unlink(p);
      };
      if (kind == 0) { if (oh::str(onion_request_get_post(r, "k")) != fval) bad = "form field is not complete"; }
      if (kind == 1) for (auto &f : parts) {
        if (f.file) { file_is(f.name.c_str(), f.value); if (oh::str(onion_request_get_post(r, f.name.c_str())) != f.filename && bad.empty()) bad = "file name lost"; }
        else if (oh::str(onion_request_get_post(r, f.name.c_str())) != f.value && bad.empty()) bad = "form field is not complete";
      }
      if (kind == 2) { const onion_block *b = onion_request_get_data(r); if (body.size() && (!b || std::string(onion_block_data((onion_block *)b), onion_block_size((onion_block *)b)) != want_raw)) bad = "raw body is not complete"; }
      if (kind == 3) file_is("filename", want_raw);
      if (act == 5) return OCS_INTERNAL_ERROR;
      onion_response_write0(res, "ok");
      return OCS_PROCESSED;
    };
    Client cl(sv);
    size_t b = 0;
    cuts.push_back(stream.size());
    for (size_t e : cuts) {
      if (calls) break;
      if (e > b && !cl.deliver(stream.data() + b, e - b)) break;
      b = e;
    }
    if (!tmpwatch::names.empty()) { c.nontrivial = true; c.label("temporary files made"); }
    if (calls > 1) c.fail("handler called %d times", calls);
    if (calls && !bad.empty()) c.fail("%s", bad.c_str());
    if (calls && must_refuse) c.fail("a request over the limits reached the handler");
    if (calls && truncated) c.fail("a truncated request reached the handler");
    if (!calls && must_accept && !truncated && !faulty) c.fail("a request within the limits was refused or never completed");
    if (!calls && !truncated && cl.open && must_refuse) c.fail("a request over the limits is neither refused nor served");
    if (!calls && !cl.c.out.empty()) { oh::Reply r = oh::read_reply(cl.c.out, false, true); if (r.ok && r.code < 400) c.fail("refused with status %d", r.code); }
    if (calls && cl.open) {               // request over: the files go even though the connection stays
      std::string l = tmpwatch::left();
      if (!l.empty()) c.fail("temporary file kept after the request was answered");
    }
  }
  std::string l = tmpwatch::left();
  if (!l.empty()) c.fail("temporary file left behind");
  if (!moved.empty()) {
    std::string got = oh::read_file(moved);
    unlink(moved.c_str());
    if (got != moved_content) c.fail("the file the handler moved away was touched");
  }
  int f2 = pbt::open_fds();
  if (f2 != fds) c.fail("%d descriptor(s) left open", f2 - fds);
}
