// C18: the event poller fires every ready event and deadline, once, and nothing removed.
// The poller runs on the real epoll, with a virtual clock: epoll_wait, when nothing is
// ready, hands control to the script, which acts, or lets time pass up to the next
// deadline the poller asked its timer for.
#include "onionh.hpp"
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <thread>
#include <time.h>
pbt::Config pbt::config;
void pbt::harness_init() {
  oh::quiet_log();
  config.rule = "a case is a script of 5 to 50 steps (add descriptors for reading, writing or both, with no, an endless or a finite timeout; data, end of data and hang-ups from the other side; removals; changes of timeout; time passing from milliseconds to days; a second poller coming and going) with generated callbacks (consume all, some, nothing; end by return value; remove themselves or others; add descriptors; take time; detach their shutdown; change their timeout; stop the poller, which is polled again; leave another thread polling meanwhile), under a virtual clock; non-trivial when a timeout fired or a callback removed or added a descriptor";
  config.leak_check = true;
}
struct Slot { int id, fd, peer; bool active = false, ended = false, detached = false, timed = false, hup = false, eof = false; long ms = -2; double last = 0; int calls = 0, shut = 0, idle = 0, type = 1; bool timed_out = false, removing = false, running = false; };
static bool on;
static int64_t vnow;                                // ns
static int64_t timer_at;                            // -1: disarmed
static int timer_fd;
static onion_poller *P, *P2;
static std::vector<std::unique_ptr<Slot>> slots;
static Gen *G;
static Ctx *C;
static std::string bad;
static int steps, fired, nested;
static bool stopped, inner, again;
static double now() { return vnow / 1e9; }
static void fail(const std::string &s) { if (bad.empty()) bad = s; }
static void trace(const char *f, ...) __attribute__((format(printf, 1, 2)));
static void trace(const char *f, ...) { char b[200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); C->d("%s ", b); }
static bool ready(int fd, short ev) { struct pollfd p = {fd, ev, 0}; return poll(&p, 1, 0) > 0 && (p.revents & (ev | POLLHUP | POLLERR)); }
static void drive();
extern "C" {
int __real_epoll_wait(int, struct epoll_event *, int, int);
int __wrap_epoll_wait(int fd, struct epoll_event *e, int n, int t) {
  if (!on) return __real_epoll_wait(fd, e, n, t);
  for (;;) {
    if (timer_at >= 0 && timer_at <= vnow) { timer_at = -1; uint64_t x = 1; if (write(timer_fd, &x, 8) < 0) {} }   // passed during a callback
    int r = __real_epoll_wait(fd, e, n, 0);
    if (r != 0) return r;
    drive();
  }
}
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  if (!on) return __real_clock_gettime(c, t);
  t->tv_sec = vnow / 1000000000;
  t->tv_nsec = vnow % 1000000000;
  return 0;
}
int __real_timerfd_create(int, int);
int __wrap_timerfd_create(int c, int f) {
  if (!on) return __real_timerfd_create(c, f);
  int fd = eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
  if (!P) timer_fd = fd;
  return fd;
}
int __real_timerfd_settime(int, int, const struct itimerspec *, struct itimerspec *);
int __wrap_timerfd_settime(int fd, int fl, const struct itimerspec *v, struct itimerspec *o) {
  if (!on) return __real_timerfd_settime(fd, fl, v, o);
  if (fd != timer_fd) return 0;
  uint64_t x;
  while (read(fd, &x, 8) > 0) ;
  int64_t d = (int64_t)v->it_value.tv_sec * 1000000000 + v->it_value.tv_nsec;
  timer_at = d ? (fl & TFD_TIMER_ABSTIME ? d : vnow + d) : -1;
  return 0;
}
int __real_shutdown(int, int);
int __wrap_shutdown(int fd, int how) {
  if (on) {
    for (auto &s : slots) if (s->active && s->fd == fd) {
      double T = s->ms / 1000.0;
      if (s->running) fail(fmt("descriptor %d times out while its callback runs", s->id));
      else if (s->ms < 0) fail(fmt("descriptor %d without a timeout is shut down by one", s->id));
      else if (now() < s->last + T - 0.0011) fail(fmt("descriptor %d shut down %.3f s after its last activity, its timeout is %ld ms", s->id, now() - s->last, s->ms));
      s->timed_out = true;
      fired++;
      trace("[timeout %d at %.3f]", s->id, now());
    }
  }
  return __real_shutdown(fd, how);
}
}
static void on_shutdown(void *p) {
  Slot *s = (Slot *)p;
  s->shut++;
  if (s->shut > 1) fail(fmt("shutdown of descriptor %d called %d times", s->id, s->shut));
  if (s->detached) fail(fmt("shutdown of descriptor %d called after it was cleared", s->id));
  s->active = false;
  s->ended = true;
  close(s->fd);
}
static int on_event(void *p);
static long some_ms() {
  static const long T[] = {1, 300, 999, 1000, 1001, 2000, 3000, 5000, 1500, 10000, 60000, 100000, 86400000, 172800000, 2147483647};
  return G->coin() ? G->pick(T) : 1 + (long)G->below(20000);
}
static void add_slot() {
  if (slots.size() > 40) return;
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv)) return;
  std::unique_ptr<Slot> s(new Slot);
  s->id = (int)slots.size();
  s->fd = sv[0];
  s->peer = sv[1];
  onion_poller_slot *el = onion_poller_slot_new(s->fd, on_event, s.get());
  if (!el) { fail("no slot for a descriptor"); return; }
  onion_poller_slot_set_shutdown(el, on_shutdown, s.get());
  s->type = (int)G->weighted({5, 1, 1}) + 1;
  if (s->type != 1 || G->chance(1, 4)) onion_poller_slot_set_type(el, (onion_poller_slot_type_e)s->type);
  switch (G->weighted({2, 6, 1})) {
  case 0: break;
  case 1: if (G->chance(1, 4)) onion_poller_slot_set_timeout(el, (int)some_ms()); s->ms = some_ms(); onion_poller_slot_set_timeout(el, (int)s->ms); break;
  case 2: if (G->coin()) onion_poller_slot_set_timeout(el, (int)some_ms()); s->ms = -1; onion_poller_slot_set_timeout(el, -1); break;
  }
  s->active = true;
  s->last = now();
  trace("add%d(type %d, %ld ms)", s->id, s->type, s->ms);
  slots.push_back(std::move(s));
  onion_poller_add(P, el);
}
static Slot *pick_active() {
  std::vector<Slot *> v;
  for (auto &s : slots) if (s->active && !s->running) v.push_back(s.get());
  return v.empty() ? nullptr : v[G->below(v.size())];
}
static void remove_slot(Slot *s) {
  trace("remove%d", s->id);
  s->removing = true;
  onion_poller_remove(P, s->fd);
  if (!s->ended && !s->detached) fail(fmt("descriptor %d removed without calling its shutdown", s->id));
  s->active = false;
  s->ended = true;
}
static int on_event(void *p) {
  Slot *s = (Slot *)p;
  s->calls++;
  if (!s->active) { fail(fmt("callback of descriptor %d called after it ended", s->id)); return -1; }
  bool rd = ready(s->fd, POLLIN), wr = ready(s->fd, POLLOUT);
  if (!((s->type & 1) && rd) && !((s->type & 2) && wr)) fail(fmt("callback of descriptor %d called while not ready", s->id));
  s->running = true;
  int ret = 1;
  char b[512];
  int k = (int)G->weighted({8, 3, 2, 2, 2, 2, 2, 1, 2, 0, 0, 2, 2, 1, 1});
  if (s->type & 2) {                                // writable descriptors stay ready: end or change them
    s->idle++;
    if (s->idle > 3) { k = G->coin() ? 3 : 9; }
    else if (!rd) k = G->chance(1, 3) ? 5 : 10;
  }
  trace("(cb%d:%d)", s->id, k);
  auto eat = [&](size_t lim) { size_t t = 0; while (t < lim) { ssize_t r = read(s->fd, b, std::min(sizeof b, lim - t)); if (r == 0) { ret = -1; break; } if (r < 0) break; t += r; } };
  switch (k) {
  case 0: eat(1 << 30); break;
  case 1: eat(1 + G->below(20)); break;
  case 2: if (++s->idle > 4) eat(1 << 30); break;   // not consumed: called again
  case 3: ret = -1; break;
  case 4: { nested++; Slot *o = pick_active(); eat(1 << 30); if (o && o != s) remove_slot(o); break; }
  case 5: nested++; eat(1 << 30); add_slot(); break;
  case 6: eat(1 << 30); vnow += (int64_t)G->below(3000000) * 1000; break;      // takes time
  case 7: { onion_poller_slot *el = onion_poller_get(P, s->fd); if (!el) { fail(fmt("descriptor %d is not found in the poller", s->id)); ret = -1; break; } onion_poller_slot_set_shutdown(el, NULL, NULL); s->detached = true; ret = -3; break; }
  case 8: nested++; remove_slot(s); ret = -1; break;
  case 9: { onion_poller_slot *el = onion_poller_get(P, s->fd); if (el) onion_poller_slot_set_type(el, O_POLL_READ); s->type = 1; break; }
  case 11: nested++; eat(1 << 30); vnow += (int64_t)G->below(20000) * 1000000; add_slot(); break;      // takes longer than its timeout, and the timers are seen to
  case 12: {                                        // changes its timeout
    eat(1 << 30);
    onion_poller_slot *el = onion_poller_get(P, s->fd);
    if (!el) { fail(fmt("descriptor %d is not found in the poller", s->id)); ret = -1; break; }
    s->ms = G->chance(1, 5) ? -1 : some_ms();
    trace("timeout%d=%ld", s->id, s->ms);
    onion_poller_slot_set_timeout(el, (int)s->ms);
    break;
  }
  case 13: eat(1 << 30); stopped = true; trace("stop"); onion_poller_stop(P); break;
  case 14: {                                        // meanwhile another thread polls, and stops it all
    eat(1 << 30);
    if (inner) break;
    inner = true;
    int save = steps;
    steps = 1 + (int)G->below(6);
    trace("{other thread:");
    std::thread t([] { onion_poller_poll(P); });
    t.join();
    trace("}");
    if (!stopped) fail("polling returned without being stopped");
    steps = save;
    inner = false;
    again = true;
    break;
  }
  default: break;
  }
  if (k == 7 && ret == -3) { s->active = false; s->ended = true; trace("detached"); }
  else if (ret < 0) trace("end%d", s->id);
  s->last = now();
  s->running = false;
  return ret;
}
// Nothing is ready: judge, then do the next step.
static void check_quiet() {
  for (auto &s : slots) {
    if (!s->active || s->running) continue;
    bool rd = (s->type & 1) && ready(s->fd, POLLIN), wr = (s->type & 2) && ready(s->fd, POLLOUT);
    if (rd || wr) fail(fmt("descriptor %d is ready and its callback is not called", s->id));
    if (s->ms >= 0 && !s->timed_out) {
      double T = s->ms / 1000.0;
      if (now() > s->last + T + 1.001) fail(fmt("descriptor %d idle for %.3f s is not shut down, its timeout is %ld ms", s->id, now() - s->last, s->ms));
    }
    if (s->timed_out) fail(fmt("descriptor %d timed out and was not ended", s->id));
    if (s->hup) fail(fmt("descriptor %d was hung up and was not ended", s->id));
  }
}
static void pass(int64_t d) {
  int64_t until = vnow + d;
  if (timer_at >= 0 && timer_at <= until) {
    if (timer_at > vnow) vnow = timer_at;
    timer_at = -1;
    uint64_t x = 1;
    if (write(timer_fd, &x, 8) < 0) {}
    return;                                         // the poller handles it, the rest of the time passes in later steps
  }
  vnow = until;
}
static void drive() {
  check_quiet();
  if (!bad.empty() || steps <= 0) { stopped = true; onion_poller_stop(P); return; }
  steps--;
  Slot *s;
  switch (G->weighted({4, 5, 5, 1, 1, 1, 1, 1})) {
  case 0: add_slot(); break;
  case 1: {                                         // data
    if (!(s = pick_active())) { add_slot(); break; }
    std::string d(1 + G->below(600), 'x');
    if (!s->eof && write(s->peer, d.data(), d.size()) > 0) trace("data%d", s->id);
    break;
  }
  case 2: {                                         // time
    static const int64_t D[] = {1000000, 500000000, 999000000, 1000000000, 1001000000, 2000000000, 5000000000, 61000000000, 90000000000000};
    int64_t d = G->coin() ? D[G->weighted({2, 3, 3, 3, 3, 3, 3, 1, 1})] : (int64_t)G->below(6000000) * 1000;
    trace("wait(%.3f)", d / 1e9);
    int64_t until = vnow + d;
    pass(d);
    if (vnow < until && G->chance(3, 4)) steps++;   // most of the time the rest passes too
    break;
  }
  case 3: if ((s = pick_active())) remove_slot(s); break;
  case 4: if ((s = pick_active()) && !s->eof) { s->eof = true; __real_shutdown(s->peer, SHUT_WR); trace("eof%d", s->id); } break;
  case 5: if ((s = pick_active()) && !s->hup) { s->hup = true; s->eof = true; close(s->peer); s->peer = -1; trace("hup%d", s->id); } break;
  case 6: onion_poller_remove(P, 900 + (int)G->below(100)); trace("remove-unknown"); break;
  case 7: if (P2) { onion_poller_free(P2); P2 = nullptr; trace("other poller gone"); } else { P2 = onion_poller_new(4); trace("other poller"); } break;
  }
}
void pbt::property(Gen &g, Ctx &c) {
  G = &g;
  C = &c;
  bad.clear();
  slots.clear();
  P = P2 = nullptr;
  fired = nested = 0;
  inner = again = false;
  vnow = (int64_t)(1000 + g.below(1000)) * 1000000000 + (int64_t)g.below(1000) * 1000000;
  timer_at = -1;
  steps = 5 + (int)g.below(46);
  on = true;
  P = onion_poller_new(8);
  int n0 = (int)g.below(4);
  for (int i = 0; i < n0; i++) add_slot();
  for (int round = 0;; round++) {
    stopped = false;
    onion_poller_poll(P);
    if (!stopped) fail("polling returned without being stopped");
    if (!bad.empty() || (!again && (round >= 3 || !g.chance(1, 3)))) break;
    again = false;
    trace("again:");
    steps = std::max(steps, 0) + 1 + (int)g.below(10);
  }
  std::vector<bool> was;
  for (auto &s : slots) was.push_back(s->active);
  onion_poller_free(P);
  if (P2) onion_poller_free(P2);
  on = false;
  for (auto &s : slots) {
    if (s->detached ? s->shut != 0 : s->shut != 1) fail(fmt("shutdown of descriptor %d called %d times in all", s->id, s->shut));
    if (s->detached) close(s->fd);
    if (s->peer >= 0) close(s->peer);
  }
  std::string b = bad;
  slots.clear();
  if (!b.empty()) c.fail("%s", b.c_str());
  if (fired) c.label("timeouts");
  if (nested) c.label("changes from callbacks");
  c.nontrivial = fired || nested;
}
