// C27: media types follow the table, and images decode to their pixels.
#include "http.hpp"
#include <stdarg.h>
#include <png.h>
#include <setjmp.h>
extern "C" {
#include <jpeglib.h>
#include <onion/extras/png.h>
int onion_jpeg_response(unsigned char *image, int channels, J_COLOR_SPACE space, int w, int h, int quality, onion_response *res);
}
using namespace hm;
pbt::Config pbt::config;
static std::string table_path;                 // stand-in for /etc/mime.types ("" : it is missing)
static bool redirect;
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" FILE *__wrap_fopen(const char *p, const char *m) {
  if (redirect && !strcmp(p, "/etc/mime.types")) return __real_fopen(table_path.empty() ? "/nonexistent/mime.types" : table_path.c_str(), m);
  return __real_fopen(p, m);
}
extern "C" int __real_open(const char *, int, ...);
extern "C" int __wrap_open(const char *p, int f, ...) {
  va_list ap;
  va_start(ap, f);
  int mode = (f & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (redirect && !strcmp(p, "/etc/mime.types")) p = table_path.empty() ? "/nonexistent/mime.types" : table_path.c_str();
  return __real_open(p, f, mode);
}
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is either a generated media type table (comments, blank and odd lines, repeated and overlong entries, missing last line break, no file at all) with a history of lookups, updates, removals and replaced tables, or an image (any channel layout and order, sizes from one pixel to very wide or tall, flat, smooth or random pixels, impossible parameters) sent as PNG or JPEG to GET or HEAD requests over whole, short or failing transports; non-trivial when a table has at least four lookups or an image was decoded";
  config.leak_check = true;
}

// ---- media types
static void mime_case(Gen &g, Ctx &c) {
  typedef std::map<std::string, std::set<std::string>> Table;
  static const char *EXTS[] = {"html", "htm", "txt", "png", "jpg", "js", "css", "a", "b", "c++", "tar.gz", "gz", "HTML", "x-y", "7z"};
  static const char *TYPES[] = {"text/html", "text/plain", "image/png", "application/x-a", "application/vnd.b+xml", "video/c", "text/css"};
  static const char *DIRS[] = {"", "/srv/", "dir.html/", "a/b.c/", "../", "./", ".", "..", "x.html.", " "};
  Table t;
  bool missing = g.chance(1, 8);
  std::string text;
  if (!missing) {
    int n = (int)g.below(12);
    for (int i = 0; i < n; i++) {
      switch (g.weighted({2, 2, 12, 1, 1})) {
      case 0: text += "# comment " + std::string(g.pick(TYPES)) + " " + g.pick(EXTS); break;
      case 1: text += std::string(g.below(3), g.coin() ? ' ' : '\t'); break;
      case 3: {                                       // a type that is too long
        text += "application/" + std::string(g.len(400, {115, 116, 117, 128, 256}) + 116, 'l') + " toolong";
        break;
      }
      case 4: {                                       // an extension that is too long
        text += std::string(g.pick(TYPES)) + " " + std::string(128 + g.len(300, {1, 128}), 'e');
        break;
      }
      default: {
        std::string ty = g.pick(TYPES);
        if (g.chance(1, 8)) text += g.coin() ? "  " : "\t";
        text += ty;
        int k = (int)g.below(4);
        for (int j = 0; j < k; j++) {
          static const char *SEP[] = {" ", "\t", "\t\t\t", "  ", " \t "};
          std::string e = g.pick(EXTS);
          if (g.chance(1, 10)) e = std::string(g.len(127, {127, 126, 64}) + 1, 'k').substr(0, 127);
          text += g.pick(SEP) + e;
          t[e].insert(ty);
        }
        if (g.chance(1, 6)) text += g.coin() ? " " : "\t# " + std::string(g.pick(EXTS));
      }
      }
      bool last = i == n - 1;
      if (!(last && g.chance(1, 3))) text += "\n";
    }
    table_path = pbt::scratch() + "/mime.types";
    oh::write_file(table_path, text);
  } else {
    table_path = "";
    t = {{"html", {"text/html"}}, {"htm", {"text/html"}}, {"js", {"application/javascript"}}, {"mjs", {"application/javascript"}}, {"css", {"text/css"}}, {"png", {"image/png"}}, {"jpg", {"image/jpeg"}}};
  }
  c.d("table %s; ", missing ? "missing" : esc(text, 300).c_str());
  redirect = true;
  onion_mime_set(NULL);
  struct Reset { ~Reset() { onion_mime_set(NULL); redirect = false; } } reset;
  Table sys = t;
  std::map<std::string, std::string> upd;             // what the application said
  int n = 1 + (int)g.below(20), looks = 0;
  for (int i = 0; i < n; i++) {
    switch (g.weighted({10, 3, 2, 1, 1})) {
    case 1: {
      std::string e = g.pick(EXTS), ty = g.pick(TYPES);
      if (g.coin()) ty += "-new";
      c.d("update %s=%s; ", e.c_str(), ty.c_str());
      std::string e2 = e, ty2 = ty;                   // the caller's memory does not last
      onion_mime_update(e2.c_str(), ty2.c_str());
      std::fill(e2.begin(), e2.end(), '#');
      std::fill(ty2.begin(), ty2.end(), '#');
      t[e] = {ty};
      break;
    }
    case 2: {
      std::string e = g.pick(EXTS);
      c.d("remove %s; ", e.c_str());
      onion_mime_update(e.c_str(), NULL);
      t.erase(e);
      break;
    }
    case 3: {
      c.d("reset; ");
      onion_mime_set(NULL);
      t = sys;
      break;
    }
    case 4: {
      c.d("own table; ");
      onion_dict *d = onion_dict_new();
      t.clear();
      for (int k = (int)g.below(4); k > 0; k--) { std::string e = g.pick(EXTS), ty = g.pick(TYPES); onion_dict_add(d, e.c_str(), ty.c_str(), OD_DUP_ALL | OD_REPLACE); t[e] = {ty}; }
      onion_mime_set(d);
      break;
    }
    default: {
      std::string e = g.pick(EXTS);
      if (g.chance(1, 8)) e = g.from("abhtml.", g.below(6));
      if (g.chance(1, 10)) e = std::string(g.len(127, {127, 126, 64}) + 1, 'k').substr(0, 127);
      if (g.chance(1, 12)) e = g.coin() ? "toolong" : std::string(128 + g.below(3), 'e');
      std::string f = std::string(g.pick(DIRS)) + (g.chance(1, 5) ? "" : "name.") + e;
      size_t dot = f.rfind('.');
      std::string want = dot == std::string::npos ? f : f.substr(dot + 1);
      const char *got = onion_mime_get(f.c_str());
      looks++;
      if (!got) c.fail("no media type for %s", esc(f).c_str());
      auto it = t.find(want);
      if (it == t.end() ? strcmp(got, "text/plain") != 0 : !it->second.count(got)) {
        c.fail("media type of %s is %s, not %s", esc(f).c_str(), esc(got).c_str(), it == t.end() ? "text/plain (unknown extension)" : it->second.begin()->c_str());
      }
      if (it != t.end()) c.label("known extension");
    }
    }
  }
  c.nontrivial = looks >= 4;
  c.label("table");
}

// ---- images
struct Mem { const std::string *s; size_t pos; std::string err; };
static void rd(png_structp p, png_bytep d, size_t n) {
  Mem *m = (Mem *)png_get_io_ptr(p);
  if (m->s->size() - m->pos < n) png_error(p, "short file");
  memcpy(d, m->s->data() + m->pos, n);
  m->pos += n;
}
static void pngerr(png_structp p, const char *msg) { ((Mem *)png_get_error_ptr(p))->err = msg; png_longjmp(p, 1); }
static void pngwarn(png_structp, const char *) {}
static std::string decode_png(const std::string &s, int &w, int &h, int &ch, std::string &px) {
  Mem m{&s, 0, ""};
  png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, &m, pngerr, pngwarn);
  png_infop inf = png_create_info_struct(p);
  std::vector<png_bytep> rows;
  if (setjmp(png_jmpbuf(p))) { png_destroy_read_struct(&p, &inf, NULL); return m.err.empty() ? "error" : m.err; }
  png_set_read_fn(p, &m, rd);
  png_set_user_limits(p, 0x7fffffff, 0x7fffffff);
  png_read_info(p, inf);
  w = (int)png_get_image_width(p, inf);
  h = (int)png_get_image_height(p, inf);
  ch = png_get_channels(p, inf);
  if (png_get_bit_depth(p, inf) != 8) m.err = "not 8 bits per channel";
  if (m.err.empty()) {
    px.resize((size_t)w * h * ch);
    for (int i = 0; i < h; i++) rows.push_back((png_bytep)&px[(size_t)i * w * ch]);
    png_read_image(p, rows.data());
    png_read_end(p, NULL);
    if (m.pos != s.size()) m.err = "bytes after the image";
  }
  png_destroy_read_struct(&p, &inf, NULL);
  return m.err;
}
struct JErr { jpeg_error_mgr pub; jmp_buf jb; char msg[JMSG_LENGTH_MAX]; };
static void jexit(j_common_ptr c) { JErr *e = (JErr *)c->err; c->err->format_message(c, e->msg); longjmp(e->jb, 1); }
static void jmsg(j_common_ptr) {}
static std::string decode_jpeg(const std::string &s, int &w, int &h, int ch, J_COLOR_SPACE space, std::string &px) {
  static jpeg_decompress_struct d;
  static JErr e;
  d.err = jpeg_std_error(&e.pub);
  e.pub.error_exit = jexit;
  e.pub.output_message = jmsg;
  if (setjmp(e.jb)) { jpeg_destroy_decompress(&d); return e.msg; }
  jpeg_create_decompress(&d);
  jpeg_mem_src(&d, (unsigned char *)s.data(), s.size());
  jpeg_read_header(&d, TRUE);
  d.out_color_space = space;
  jpeg_start_decompress(&d);
  w = (int)d.output_width;
  h = (int)d.output_height;
  if (d.output_components != ch) { int oc = d.output_components; jpeg_destroy_decompress(&d); return fmt("%d channels", oc); }
  px.resize((size_t)w * h * ch);
  while (d.output_scanline < d.output_height) { JSAMPROW r = (JSAMPROW)&px[(size_t)d.output_scanline * w * ch]; jpeg_read_scanlines(&d, &r, 1); }
  jpeg_finish_decompress(&d);
  bool warn = e.pub.num_warnings > 0, rest = d.src->bytes_in_buffer > 0;
  jpeg_destroy_decompress(&d);
  return warn ? "damaged data" : rest ? "bytes after the image" : "";
}
static std::string ref_jpeg(const std::string &px, int w, int h, int ch, J_COLOR_SPACE space, int q) {
  jpeg_compress_struct k;
  jpeg_error_mgr e;
  k.err = jpeg_std_error(&e);
  jpeg_create_compress(&k);
  unsigned char *o = NULL;
  unsigned long n = 0;
  jpeg_mem_dest(&k, &o, &n);
  k.image_width = w;
  k.image_height = h;
  k.input_components = ch;
  k.in_color_space = space;
  jpeg_set_defaults(&k);
  jpeg_set_quality(&k, q, TRUE);
  jpeg_start_compress(&k, TRUE);
  while (k.next_scanline < k.image_height) { JSAMPROW r = (JSAMPROW)&px[(size_t)k.next_scanline * w * ch]; jpeg_write_scanlines(&k, &r, 1); }
  jpeg_finish_compress(&k);
  jpeg_destroy_compress(&k);
  std::string s((char *)o, n);
  free(o);
  return s;
}
static double dist(const std::string &a, const std::string &b) {
  if (a.size() != b.size() || a.empty()) return 1e9;
  double s = 0;
  for (size_t i = 0; i < a.size(); i++) s += abs((int)(unsigned char)a[i] - (int)(unsigned char)b[i]);
  return s / a.size();
}
static void image_case(Gen &g, Ctx &c) {
  bool jpeg = g.coin(), head = g.chance(1, 8);
  static const J_COLOR_SPACE SP[] = {JCS_RGB, JCS_GRAYSCALE, JCS_CMYK, JCS_YCbCr};
  J_COLOR_SPACE space = g.pick(SP);
  int ch = jpeg ? (space == JCS_GRAYSCALE ? 1 : space == JCS_CMYK ? 4 : 3) : 1 + (int)g.below(4);
  bool bgr = !jpeg && g.coin();
  int q = g.coin() ? 90 : (int)g.range(1, 100);
  int w, h;
  switch (g.weighted({8, 4, 1, 1})) {
  case 0: w = 1 + (int)g.below(24); h = 1 + (int)g.below(24); break;
  case 1: w = 1 + (int)g.len(400, {8, 16, 256, 375, 500}); h = 1 + (int)g.len(120, {8, 16, 64}); break;
  case 2: w = 1 + (int)g.below(3); h = 1 + (int)g.len(60000, {1000, 8192, 60000}); break;   // JPEG allows at most 65500
  default: w = 1 + (int)g.len(60000, {1500, 8192, 60000}); h = 1 + (int)g.below(3);
  }
  if (!jpeg && g.chance(1, 40)) { w = 1; h = g.coin() ? 300000 : 1000000; }              // taller than a stack of row pointers
  bool bad = g.chance(1, 10);
  int aw = w, ah = h, ach = ch;
  J_COLOR_SPACE asp = space;
  if (bad) {
    static const int BADS[] = {0, -1, -5};
    switch (g.below(jpeg ? 5 : 4)) {
    case 0: aw = g.pick(BADS); break;
    case 1: ah = g.pick(BADS); break;
    case 2: if (jpeg) ach = ch == 1 ? 3 : ch - 1; else { static const int B[] = {0, 5, 8, 100, 6}; ach = g.pick(B); } break;
    case 3: if (jpeg) aw = 65501 + (int)g.below(1000); else aw = 1000001 + (int)g.below(5); break;
    default: asp = (J_COLOR_SPACE)(g.coin() ? 30 : 25);
    }
  }
  std::string px;
  size_t n = (size_t)w * h * ch;
  switch (g.below(3)) {
  case 0: px.assign(n, (char)g.below(256)); break;
  case 1: px.resize(n); for (size_t i = 0; i < n; i++) px[i] = (char)(((i / ch) % w) * 3 + ((i / ch) / w) * 2 + (i % ch) * 40); break;
  default: px = g.raw(n);
  }
  // the library gets a buffer of exactly the image's size
  std::unique_ptr<unsigned char[]> buf(new unsigned char[n]);
  memcpy(buf.get(), px.data(), n);
  size_t pad = g.coin() ? 0 : g.len(1500, {1200, 1300, 1340, 1360, 1380, 1400});
  std::string before;
  int fault = g.weighted({6, 2, 2});        // 0 none 1 short writes 2 the connection breaks
  size_t brk = fault == 2 ? g.len(n + 600, {0, 100, 1500, 3000}) : 0, piece = fault == 1 ? 1 + g.below(700) : 0;
  bool minor = g.chance(3, 4), close_ = g.coin();
  c.d("%s %dx%d %d channels%s space %d q %d%s pad %zu fault %d/%zu/%zu 1.%d%s", jpeg ? "JPEG" : "PNG", aw, ah, ach, bgr ? " BGR" : "", (int)asp, q, head ? " HEAD" : "", pad, fault, brk, piece, minor, close_ ? " close" : "");
  int ret = 1234;
  Server s;
  s.handler = [&](onion_request *, onion_response *res) -> int {
    if (pad) onion_response_set_header(res, "X-Pad", std::string(pad, 'p').c_str());
    if (jpeg) ret = onion_jpeg_response(buf.get(), ach, asp, aw, ah, q, res);
    else ret = onion_png_response(buf.get(), bgr ? -ach : ach, aw, ah, res);
    return ret;
  };
  {
    Client cl(s);
    size_t sent = 0;
    if (fault == 1) cl.c.on_write = [&](const char *d, size_t k) -> ssize_t { k = std::min(k, piece); cl.c.out.append(d, k); return (ssize_t)k; };
    if (fault == 2) cl.c.on_write = [&](const char *d, size_t k) -> ssize_t { if (sent >= brk) { errno = EPIPE; return -1; } k = std::min(k, brk - sent); cl.c.out.append(d, k); sent += k; return (ssize_t)k; };
    std::string req = std::string(head ? "HEAD" : "GET") + " /i HTTP/1." + (minor ? "1" : "0") + "\r\nHost: h\r\n" + (close_ ? "Connection: close\r\n" : "") + "\r\n";
    cl.deliver(req.data(), req.size());
    if (ret == 1234) c.fail("the handler did not run");
    if (memcmp(buf.get(), px.data(), n)) c.fail("the caller's image was changed");
    if (fault != 2) {
      oh::Reply r = oh::read_reply(cl.c.out, head, !cl.open, !minor);
      if (!r.error.empty() || !r.complete || r.consumed != cl.c.out.size()) c.fail("reply is not well formed: %s in %s", r.error.c_str(), esc(cl.c.out, 300).c_str());
      if (bad) {
        if (r.code != 500) c.fail("an impossible image was answered with %d", r.code);
        c.label("impossible image refused");
      } else {
        if (r.code != 200) c.fail("status %d", r.code);
        if (!r.get("Content-Type") || *r.get("Content-Type") != (jpeg ? "image/jpeg" : "image/png")) c.fail("content type is %s", r.get("Content-Type") ? r.get("Content-Type")->c_str() : "missing");
        if (pad && (!r.get("X-Pad") || r.get("X-Pad")->size() != pad)) c.fail("the application's header is damaged");
        if (!head) {
          int dw = 0, dh = 0, dch = 0;
          std::string got;
          if (jpeg) {
            std::string e = decode_jpeg(r.body, dw, dh, ch, space, got);
            if (!e.empty()) c.fail("JPEG does not decode: %s", e.c_str());
            if (dw != w || dh != h) c.fail("JPEG is %dx%d", dw, dh);
            std::string ref = ref_jpeg(px, w, h, ch, space, q), rp;
            int rw, rh;
            e = decode_jpeg(ref, rw, rh, ch, space, rp);
            if (!e.empty()) c.fail("reference JPEG: %s", e.c_str());
            double dr = dist(rp, px), dg = dist(got, px);
            if (dg > dr * 1.3 + 2) c.fail("JPEG pixels are %.2f away from the image, a direct encoding %.2f", dg, dr);
          } else {
            std::string e = decode_png(r.body, dw, dh, dch, got);
            if (!e.empty()) c.fail("PNG does not decode: %s", e.c_str());
            if (dw != w || dh != h || dch != ch) c.fail("PNG is %dx%d with %d channels", dw, dh, dch);
            std::string want = px;
            if (bgr && ch >= 3) for (size_t i = 0; i < n; i += ch) std::swap(want[i], want[i + 2]);
            if (got != want) { size_t i = 0; while (got[i] == want[i]) i++; c.fail("PNG pixel %zu,%zu channel %zu is %d, not %d", i / ch % w, i / ch / w, i % ch, (unsigned char)got[i], (unsigned char)want[i]); }
          }
          c.nontrivial = true;
          c.label(jpeg ? "JPEG decoded" : "PNG decoded");
        } else if (!r.body.empty()) c.fail("HEAD got a body");
        else c.label("HEAD");
      }
    } else c.label("connection broke");
  }
  // the server still serves
  s.handler = [&](onion_request *, onion_response *res) -> int { onion_response_write0(res, "alive"); return OCS_PROCESSED; };
  Client c2(s);
  std::string req = "GET / HTTP/1.1\r\nHost: h\r\n\r\n";
  c2.deliver(req.data(), req.size());
  oh::Reply r = oh::read_reply(c2.c.out, false, !c2.open);
  if (r.body != "alive") c.fail("the next request got %s", esc(c2.c.out).c_str());
}
void pbt::property(Gen &g, Ctx &c) {
  if (g.coin()) mime_case(g, c);
  else image_case(g, c);
}
