// C13: codecs against independent decoders/encoders, with exact-size heap buffers under ASan.
#include "onionh.hpp"
#include <gcrypt.h>
using namespace pbt;
Config pbt::config = {
  .rule = "a case picks one codec and one generated input (any bytes/lengths, length-boundary biased; valid encodings, "
          "mutated encodings, arbitrary text); non-trivial: the input is at least 2 bytes long, or contains a reserved/high/escape byte",
  .leak_check = true,
};
void pbt::harness_init() { oh::quiet_log(); }
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string b64(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = (unsigned char)s[i] << 16 | (i + 1 < s.size() ? (unsigned char)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (unsigned char)s[i + 2] : 0);
    r += B64[v >> 18]; r += B64[(v >> 12) & 63];
    r += i + 1 < s.size() ? B64[(v >> 6) & 63] : '=';
    r += i + 2 < s.size() ? B64[v & 63] : '=';
  }
  return r;
}
static std::string nows(const std::string &s) { std::string r; for (char c : s) if (c != '\n' && c != '\r' && c != ' ') r += c; return r; }
// strict reading of a base64 text without whitespace: 1 valid, 0 invalid, -1 valid but not canonical
static int b64valid(const std::string &s, std::string &out) {
  out.clear();
  if (s.size() % 4) return 0;
  size_t pad = 0;
  while (pad < 3 && pad < s.size() && s[s.size() - 1 - pad] == '=') pad++;
  if (pad > 2) return 0;
  bool canon = true;
  for (size_t i = 0; i < s.size(); i += 4) {
    unsigned v = 0; int n = 0;
    for (int k = 0; k < 4; k++) {
      const char *p = s[i + k] ? strchr(B64, s[i + k]) : nullptr;
      if (!p) { if (s[i + k] == '=' && i + k >= s.size() - pad) { v <<= 6; continue; } return 0; }
      v = v << 6 | (unsigned)(p - B64); n++;
    }
    if (n == 4) { out += (char)(v >> 16); out += (char)(v >> 8); out += (char)v; }
    else if (n == 3) { out += (char)(v >> 16); out += (char)(v >> 8); if (v & 255) canon = false; }
    else if (n == 2) { out += (char)(v >> 16); if (v & 0xffff) canon = false; }
  }
  return canon ? 1 : -1;
}
static char *dupx(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; return p; }
static std::string nonul(std::string s) { for (auto &c : s) if (!c) c = 1; return s; }
static bool ishex(char c) { return isxdigit((unsigned char)c); }
static std::string urldec(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%' && i + 2 < s.size() + 0 && ishex(s[i + 1]) && ishex(s[i + 2])) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else if (s[i] == '+') r += ' ';
    else r += s[i];
  }
  return r;
}
static std::string htmldec(const std::string &s, bool &ok) {
  std::string r;
  ok = true;
  for (size_t i = 0; i < s.size(); i++) {
    if (strchr("<>\"'", s[i])) { ok = false; return r; }
    if (s[i] == '&') {
      static const std::pair<const char *, char> T[] = {{"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&quot;", '"'}, {"&#39;", '\''}, {"&#x27;", '\''}, {"&#34;", '"'}, {"&apos;", '\''}};
      bool f = false;
      for (auto &t : T) if (s.compare(i, strlen(t.first), t.first) == 0) { r += t.second; i += strlen(t.first) - 1; f = true; break; }
      if (!f) { ok = false; return r; }
    } else r += s[i];
  }
  return r;
}
// reads concatenated C string literals; returns false if not well formed
static bool cdec(const std::string &s, std::string &out) {
  out.clear();
  size_t i = 0;
  bool any = false;
  while (i < s.size()) {
    if (s[i] == '\n' || s[i] == ' ') { i++; continue; }
    if (s[i] != '"') return false;
    i++; any = true;
    for (;;) {
      if (i >= s.size()) return false;
      char c = s[i];
      if (c == '\n') return false;
      if (c == '"') { i++; break; }
      if (c == '\\') {
        i++;
        if (i >= s.size()) return false;
        c = s[i];
        if (c >= '0' && c <= '7') { int v = 0, n = 0; while (n < 3 && i < s.size() && s[i] >= '0' && s[i] <= '7') { v = v * 8 + s[i] - '0'; i++; n++; } if (v > 255) return false; out += (char)v; continue; }
        if (c == 'x') { int v = 0; i++; if (i >= s.size() || !ishex(s[i])) return false; while (i < s.size() && ishex(s[i])) { v = v * 16 + (int)strtol(std::string(1, s[i]).c_str(), nullptr, 16); i++; } if (v > 255) return false; out += (char)v; continue; }
        const char *a = "abfnrtv\\\"'?", *b = "\a\b\f\n\r\t\v\\\"'?";
        const char *p = strchr(a, c);
        if (!p || !c) return false;
        out += b[p - a];
        i++;
        continue;
      }
      out += c;
      i++;
    }
  }
  return any;
}
static void u8(std::string &o, unsigned u) {
  if (u < 0x80) o += (char)u;
  else if (u < 0x800) { o += (char)(0xc0 | u >> 6); o += (char)(0x80 | (u & 63)); }
  else if (u < 0x10000) { o += (char)(0xe0 | u >> 12); o += (char)(0x80 | ((u >> 6) & 63)); o += (char)(0x80 | (u & 63)); }
  else { o += (char)(0xf0 | u >> 18); o += (char)(0x80 | ((u >> 12) & 63)); o += (char)(0x80 | ((u >> 6) & 63)); o += (char)(0x80 | (u & 63)); }
}
static bool jdec(const std::string &s, std::string &out) {   // body of a JSON string, strict
  out.clear();
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    if (c == '"' || c < 32) return false;
    if (c != '\\') { out += c; continue; }
    if (++i >= s.size()) return false;
    const char *a = "bfnrt\"\\/", *b = "\b\f\n\r\t\"\\/";
    if (s[i] == 'u') {
      auto h4 = [&](size_t p, unsigned &v) { if (p + 4 > s.size()) return false; v = 0; for (size_t k = p; k < p + 4; k++) { if (!ishex(s[k])) return false; v = v * 16 + (unsigned)strtol(std::string(1, s[k]).c_str(), nullptr, 16); } return true; };
      unsigned u, w;
      if (!h4(i + 1, u)) return false;
      i += 4;
      if (u >= 0xdc00 && u < 0xe000) return false;
      if (u >= 0xd800 && u < 0xdc00) { if (s.compare(i + 1, 2, "\\u") || !h4(i + 3, w) || w < 0xdc00 || w > 0xdfff) return false; u = 0x10000 + ((u - 0xd800) << 10) + (w - 0xdc00); i += 6; }
      u8(out, u);
      continue;
    }
    const char *p = strchr(a, s[i]);
    if (!p || !s[i]) return false;
    out += b[p - a];
  }
  return true;
}
static std::string text(Gen &g, size_t max) {
  switch (g.below(4)) {
  case 0: return nonul(g.raw(g.len(max, {3, 57, 58, 76, 114})));
  case 1: return g.from("abc<>&\"'\\\n\r\t/%+= \x01\x7f\xc3\xa9", g.len(max));
  case 2: return g.from("%+=&0123456789abcdefABCDEFgG-", g.len(max));
  default: return g.from("abcXYZ019 ", g.len(max));
  }
}
void pbt::property(Gen &g, Ctx &c) {
  switch (g.below(9)) {
  case 0: {  // base64 encode and back
    std::string s = g.raw(g.len(4000, {1, 2, 3, 57, 58, 59, 114, 171, 228, 1024}));
    c.d("b64enc %s", esc(s).c_str());
    char *in = (char *)malloc(s.size() ? s.size() : 1);
    memcpy(in, s.data(), s.size());
    char *e = onion_base64_encode(in, (int)s.size());
    free(in);
    if (!e) c.fail("base64 encoding of %zu bytes gives nothing", s.size());
    std::string es = e;
    free(e);
    if (nows(es) != b64(s)) c.fail("base64 of %s is \"%s\", expected \"%s\"", esc(s).c_str(), esc(es).c_str(), esc(b64(s)).c_str());
    size_t line = 0;
    for (char ch : es) { if (ch == '\n') line = 0; else if (++line > 76) c.fail("base64 output line longer than 76 characters"); }
    int l = -1;
    char *ed = dupx(es);
    char *d = onion_base64_decode(ed, &l);
    free(ed);
    if (s.empty()) { if (d && l != 0) c.fail("decoding the empty text gives %d bytes", l); free(d); break; }
    if (!d) c.fail("base64 encoded text is refused by the decoder (%zu bytes)", s.size());
    std::string ds(d, l < 0 ? 0 : l);
    bool term = d[l < 0 ? 0 : l] == 0;
    free(d);
    if (ds != s) c.fail("base64 round trip gives %s (%d) for %s (%zu)", esc(ds).c_str(), l, esc(s).c_str(), s.size());
    if (!term) c.fail("decoded text is not terminated");
    c.nontrivial = s.size() >= 2;
    break;
  }
  case 1: {  // base64 decode of arbitrary/mutated text with whitespace anywhere
    std::string s = g.raw(g.len(300)), t = b64(s), w;
    int kind = g.below(4);
    for (char ch : t) { while (g.chance(1, 12)) w += g.pick({'\n', '\r', ' '}); w += ch; }
    while (g.chance(1, 4)) w += g.pick({'\n', '\r', ' '});
    if (kind == 1 && !w.empty()) { size_t p = g.below(w.size()); w[p] = (char)(1 + g.below(255)); }
    else if (kind == 2 && !w.empty()) w.erase(g.below(w.size()), 1 + g.below(3));
    else if (kind == 3) w = text(g, 40);
    c.d("b64dec %s", esc(w).c_str());
    char *in = dupx(w);
    int l = -1;
    char *d = onion_base64_decode(in, &l);
    free(in);
    std::string n = nows(w), ref;
    int v = b64valid(n, ref);
    std::string got = d ? std::string(d, l) : "";
    bool null = !d;
    free(d);
    if (n.empty()) break;   // empty: nothing or zero bytes, both fine
    if (v == 1 && (null || got != ref)) c.fail("valid base64 \"%s\" decodes to %s", esc(w).c_str(), null ? "nothing" : esc(got).c_str());
    if (v == 0 && !null) c.fail("invalid base64 \"%s\" is accepted as \"%s\"", esc(w).c_str(), esc(got).c_str());
    if (v == -1 && !null && got != ref) c.fail("base64 \"%s\" decodes to %s", esc(w).c_str(), esc(got).c_str());
    c.label(v == 0 ? "b64-invalid" : "b64-valid");
    c.nontrivial = w.size() >= 2;
    break;
  }
  case 2: {  // url quote + unquote
    std::string s = text(g, 300);
    c.d("url %s", esc(s).c_str());
    char *in = dupx(s), *q = onion_quote_new(in);
    free(in);
    std::string qs = q;
    for (unsigned char ch : qs) if (!(isalnum(ch) || strchr("-._~%", ch))) { free(q); c.fail("URL quoting leaves '%s' in \"%s\"", esc(std::string(1, ch)).c_str(), esc(qs).c_str()); }
    if (urldec(qs) != s) { free(q); c.fail("URL quoting of \"%s\" gives \"%s\"", esc(s).c_str(), esc(qs).c_str()); }
    char *q2 = dupx(qs);
    free(q);
    onion_unquote_inplace(q2);
    std::string back = q2;
    free(q2);
    if (back != s) c.fail("URL round trip gives \"%s\" for \"%s\"", esc(back).c_str(), esc(s).c_str());
    c.nontrivial = s.size() >= 2;
    break;
  }
  case 3: {  // url quote in a bounded buffer
    std::string s = text(g, 60);
    int max = 1 + g.below(200);
    c.d("quote max=%d %s", max, esc(s).c_str());
    char *in = dupx(s), *buf = (char *)malloc(max);
    memset(buf, 'Z', max);
    int n = onion_quote(in, buf, max);
    free(in);
    std::string r(buf, strnlen(buf, max));
    free(buf);
    if ((int)r.size() >= max) c.fail("quoting into %d bytes does not terminate the text", max);
    if (n != (int)r.size()) c.fail("quoting reports %d, wrote %zu", n, r.size());
    std::string d = urldec(r);
    if (s.compare(0, d.size(), d)) c.fail("cut quoting of \"%s\" is \"%s\", no prefix", esc(s).c_str(), esc(r).c_str());
    if (max > 3 * (int)s.size() && d != s) c.fail("quoting cut although %d bytes are enough for \"%s\"", max, esc(s).c_str());
    c.nontrivial = s.size() >= 2;
    break;
  }
  case 4: {  // unquote of arbitrary text
    std::string s = g.coin() ? g.from("%%%+0123456789abcdefABCDEFgz", g.len(40)) : text(g, 100);
    c.d("unquote %s", esc(s).c_str());
    char *in = dupx(s);
    onion_unquote_inplace(in);
    std::string r = in;
    free(in);
    // where every escape is complete the result is determined
    bool good = true;
    for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && !(i + 2 < s.size() && ishex(s[i + 1]) && ishex(s[i + 2]))) good = false;
    std::string ref = urldec(s);
    ref = ref.c_str();
    if (good && r != ref) c.fail("unquoting \"%s\" gives \"%s\", expected \"%s\"", esc(s).c_str(), esc(r).c_str(), esc(ref).c_str());
    if (r.size() > s.size()) c.fail("unquoting grew the text");
    c.label(good ? "unquote-ok" : "unquote-malformed");
    c.nontrivial = s.find('%') != std::string::npos;
    break;
  }
  case 5: {  // html
    std::string s = text(g, 200);
    c.d("html %s", esc(s).c_str());
    char *in = dupx(s), *q = onion_html_quote(in);
    const char *q2 = onion_html_quote_dup(in);
    free(in);
    bool need = s.find_first_of("<>\"&'") != std::string::npos;
    std::string qs = q ? q : "", q2s = q2 ? q2 : "";
    bool n1 = !q, n2 = !q2;
    free(q); free((void *)q2);
    if (need == n1) c.fail("html quote of \"%s\" %s", esc(s).c_str(), n1 ? "gives nothing" : "quotes although nothing needs it");
    if (n2) c.fail("html_quote_dup of \"%s\" gives nothing", esc(s).c_str());
    bool ok;
    if (need && (htmldec(qs, ok) != s || !ok)) c.fail("html quote of \"%s\" is \"%s\"", esc(s).c_str(), esc(qs).c_str());
    if (htmldec(q2s, ok) != s || !ok) c.fail("html_quote_dup of \"%s\" is \"%s\"", esc(s).c_str(), esc(q2s).c_str());
    c.nontrivial = need;
    break;
  }
  case 6: {  // C strings
    std::string s = text(g, 200);
    c.d("cquote %s", esc(s).c_str());
    char *in = dupx(s), *q = onion_c_quote_new(in);
    std::string qs = q, d;
    free(q);
    int max = 3 + g.below(600);
    char *buf = (char *)malloc(max);
    memset(buf, 'Z', max);
    onion_c_quote(in, buf, max);
    free(in);
    std::string r(buf, strnlen(buf, max));
    free(buf);
    if (!cdec(qs, d)) c.fail("C quoting of \"%s\" is not a C literal: %s", esc(s).c_str(), esc(qs).c_str());
    if (d != s) c.fail("C quoting of \"%s\" denotes \"%s\"", esc(s).c_str(), esc(d).c_str());
    if ((int)r.size() >= max) c.fail("C quoting into %d bytes is not terminated", max);
    if (max > (int)qs.size() && r != qs) c.fail("C quoting into a big enough buffer differs");
    c.nontrivial = s.find_first_of("\"\\\n\r\t") != std::string::npos;
    break;
  }
  case 7: {  // JSON strings
    std::string s = text(g, 200);
    if (g.coin()) { s.clear(); int n = g.below(20); for (int i = 0; i < n; i++) u8(s, g.pick({1u, 0x1fu, 0x22u, 0x5cu, 0x2fu, 0x7fu, 0x80u, 0x7ffu, 0x800u, 0xd7ffu, 0xe000u, 0xffffu, 0x10000u, 0x10ffffu, 0x41u})); }
    c.d("json %s", esc(s).c_str());
    onion_block *b = onion_block_new(), *u = onion_block_new();
    char *in = dupx(s);
    onion_json_quote_add(b, in);
    free(in);
    std::string q(onion_block_data(b), onion_block_size(b)), d;
    std::string lit = "\"" + q + "\"";
    std::string tail = g.pick({std::string(""), std::string("}"), std::string(" : \"x\"")});
    char *lp = dupx(lit + tail);
    ssize_t n = onion_json_unquote_add(u, lp);
    free(lp);
    std::string back(onion_block_data(u), onion_block_size(u));
    onion_block_free(b); onion_block_free(u);
    if (!jdec(q, d) || d != s) c.fail("JSON quoting of \"%s\" is \"%s\"", esc(s).c_str(), esc(q).c_str());
    if (n != (ssize_t)lit.size() || back != s) c.fail("JSON unquoting reads %zd of %zu, gives \"%s\" for \"%s\"", n, lit.size(), esc(back).c_str(), esc(s).c_str());
    // arbitrary text: no overrun, and a strict literal decodes to its meaning
    std::string t = "\"" + g.from("ab\\\"u0dDcC89nrtbf/", g.len(30)) + (g.coin() ? "\"" : "");
    if (g.chance(1, 6)) t = t.substr(1);
    u = onion_block_new();
    lp = dupx(t);
    n = onion_json_unquote_add(u, lp);
    free(lp);
    std::string r2(onion_block_data(u), onion_block_size(u));
    onion_block_free(u);
    c.d(" / %s", esc(t).c_str());
    if (n > (ssize_t)t.size() + (t[0] == '"' ? 0 : 1)) c.fail("JSON unquoting claims to have read %zd of %zu bytes", n, t.size());
    if (!t.empty() && t[0] == '"') {
      size_t e = 1;
      while (e < t.size() && t[e] != '"') e += t[e] == '\\' ? 2 : 1;
      if (e >= t.size()) { if (n >= 0) c.fail("unterminated JSON string %s accepted", esc(t).c_str()); }
      else if (jdec(t.substr(1, e - 1), d) && d.find('\0') == std::string::npos && (n != (ssize_t)e + 1 || r2 != d)) c.fail("JSON string %s unquotes to \"%s\" (%zd)", esc(t).c_str(), esc(r2).c_str(), n);
    }
    c.nontrivial = s.size() >= 2;
    break;
  }
  case 8: {
    std::string s = g.raw(g.len(300, {55, 56, 63, 64, 65, 119, 120, 128}));
    c.d("sha1 %s", esc(s).c_str());
    char *out = (char *)malloc(20);
    char *in = dupx(s);
    onion_sha1(in, (int)s.size(), out);
    free(in);
    unsigned char ref[20];
    gcry_md_hash_buffer(GCRY_MD_SHA1, ref, s.data(), s.size());
    bool eq = memcmp(ref, out, 20) == 0;
    free(out);
    if (!eq) c.fail("sha1 of %zu bytes differs", s.size());
    c.nontrivial = s.size() >= 2;
    break;
  }
  }
}
