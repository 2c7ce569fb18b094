// In-memory connection to an onion server, for small demonstrations.
#define _GNU_SOURCE
#include <onion/onion.h>
#include <onion/handler.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/url.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/codecs.h>
#include <onion/http.h>
#include <onion/log.h>
#include <onion/shortcuts.h>
#include <onion/sessions.h>
#include <onion/websocket.h>
#include <onion/listen_point.h>
#include <onion/types_internal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <unistd.h>
#include <stdarg.h>
typedef struct { const char *in; size_t nin; char *out; size_t nout; } mini;
static void mini_log(onion_log_level l, const char *f, int n, const char *fmt, ...) {}
static ssize_t mini_write(onion_request *r, const char *d, size_t n) {
  mini *m = (mini *)r->connection.user_data;
  m->out = (char *)realloc(m->out, m->nout + n + 1);
  memcpy(m->out + m->nout, d, n);
  m->nout += n;
  m->out[m->nout] = 0;
  return n;
}
static ssize_t mini_read(onion_request *r, char *d, size_t n) {
  mini *m = (mini *)r->connection.user_data;
  if (n > m->nin) n = m->nin;
  memcpy(d, m->in, n);
  m->in += n;
  m->nin -= n;
  return n;
}
static void mini_close(onion_request *r) {}
static int mini_init(onion_request *r) { return 0; }
static void mini_listen(onion_listen_point *l) {}
static onion_listen_point *mini_lp;
static onion *mini_onion(void) {
  onion_log = mini_log;
  onion *o = onion_new(O_ONE_LOOP | O_NO_SIGPIPE);
  mini_lp = onion_http_new();
  mini_lp->request_init = mini_init;
  mini_lp->write = mini_write;
  mini_lp->read = mini_read;
  mini_lp->close = mini_close;
  mini_lp->listen = mini_listen;
  onion_add_listen_point(o, NULL, NULL, mini_lp);
  return o;
}
static onion_request *mini_connect(mini *m) {
  memset(m, 0, sizeof *m);
  onion_request *r = onion_request_new(mini_lp);
  r->connection.user_data = m;
  r->connection.fd = -1;
  return r;
}
// delivers n bytes as one read; 0 while the connection stays open
static int mini_send(onion_request *r, const char *d, size_t n) {
  mini *m = (mini *)r->connection.user_data;
  m->in = d;
  m->nin = n;
  while (m->nin)
    if (mini_lp->read_ready(r) < 0) return 1;
  return 0;
}
static int mini_send0(onion_request *r, const char *d) { return mini_send(r, d, strlen(d)); }
