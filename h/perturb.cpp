// Schedules: random pauses before and after the calls by which threads meet, and the
// order that epoll gives (a slot armed in one thread and reported to another).
#include "perturb.hpp"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
extern "C" void __tsan_acquire(void *);
extern "C" void __tsan_release(void *);
#endif
#endif
namespace perturb {
std::atomic<int> level{0};
std::atomic<unsigned> seed{1};
static thread_local unsigned st;
void point() {
  int l = level.load(std::memory_order_relaxed);
  if (!l) return;
  int e = errno;
  if (!st) st = seed.fetch_add(0x9e3779b9, std::memory_order_relaxed) | 1;
  st ^= st << 13; st ^= st >> 17; st ^= st << 5;
  unsigned r = st % 1000;
  if (l == 1) { if (r < 60) sched_yield(); else if (r < 64) usleep(st % 200); }
  else { if (r < 200) sched_yield(); else if (r < 230) usleep(st % 400); }
  errno = e;
}
#ifdef TSAN
static char sync_at[1 << 14];
static void *at(uint64_t v) { return &sync_at[(v * 0x9e3779b97f4a7c15ull) >> 50]; }
void opened(int fd) { if (fd >= 0) __tsan_acquire(at(0xfd000000u + (unsigned)fd)); }
#else
void opened(int) {}
#endif
}
using perturb::point;
extern "C" {
#ifdef TSAN
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
  point();
  if (ev) __tsan_release(perturb::at(ev->data.u64));
  int r = (int)syscall(SYS_epoll_ctl, ep, op, fd, ev);
  int e = errno;
  point();
  errno = e;
  return r;
}
int __real_epoll_wait(int ep, struct epoll_event *ev, int n, int t);
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int n, int t) {
  int r = __real_epoll_wait(ep, ev, n, t);
  for (int i = 0; i < r; i++) __tsan_acquire(perturb::at(ev[i].data.u64));
  point();
  return r;
}
// a descriptor number is given out again only after its close
int __real_close(int fd);
int __wrap_close(int fd) { point(); __tsan_release(perturb::at(0xfd000000u + (unsigned)fd)); return __real_close(fd); }
int __real_accept4(int fd, struct sockaddr *a, socklen_t *l, int f);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { int r = __real_accept4(fd, a, l, f); if (r >= 0) __tsan_acquire(perturb::at(0xfd000000u + (unsigned)r)); point(); return r; }
int __real_accept(int fd, struct sockaddr *a, socklen_t *l);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { int r = __real_accept(fd, a, l); if (r >= 0) __tsan_acquire(perturb::at(0xfd000000u + (unsigned)r)); point(); return r; }
#else
int __real_close(int fd);
int __wrap_close(int fd) { point(); return __real_close(fd); }
int __real_accept4(int fd, struct sockaddr *a, socklen_t *l, int f);
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { int r = __real_accept4(fd, a, l, f); point(); return r; }
int __real_accept(int fd, struct sockaddr *a, socklen_t *l);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { int r = __real_accept(fd, a, l); point(); return r; }
int __real_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev);
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) { point(); int r = __real_epoll_ctl(ep, op, fd, ev); point(); return r; }
int __real_epoll_wait(int ep, struct epoll_event *ev, int n, int t);
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int n, int t) { int r = __real_epoll_wait(ep, ev, n, t); point(); return r; }
#endif
int __real_eventfd(unsigned v, int f);
int __wrap_eventfd(unsigned v, int f) { int r = __real_eventfd(v, f); perturb::opened(r); point(); return r; }
int __real_timerfd_create(int c, int f);
int __wrap_timerfd_create(int c, int f) { int r = __real_timerfd_create(c, f); perturb::opened(r); point(); return r; }
// the statements of the SQLite store are shared too, and the library is not instrumented
int __real_sqlite3_step(void *s);
int __wrap_sqlite3_step(void *s) { point(); int r = __real_sqlite3_step(s); point(); return r; }
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { point(); return __real_pthread_mutex_lock(m); }
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); point(); return r; }
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *m);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { point(); return __real_pthread_rwlock_wrlock(m); }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *m);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { point(); return __real_pthread_rwlock_rdlock(m); }
int __real_pthread_rwlock_unlock(pthread_rwlock_t *m);
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { int r = __real_pthread_rwlock_unlock(m); point(); return r; }
}
