// pthread, clock and sleep interposition.  Synchronisation state lives inside
// the pthread objects themselves, so static initialisers work unchanged.
#include "rt.h"
#include <errno.h>
#include <string.h>
#include <time.h>
#include <sched.h>
#include <unistd.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <stdlib.h>
#include <limits.h>
#include <semaphore.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <linux/futex.h>

namespace rt { long raw_syscall(long, long, long, long, long, long, long); [[noreturn]] void thread_exit_now(void *); }
using namespace rt;
using sim::chance; using sim::choose;

template <class F> static F real(const char *n, const char *ver = NULL) { RtScope rs; return (F)(ver ? dlvsym(RTLD_NEXT, n, ver) : dlsym(RTLD_NEXT, n)); }
#define REAL(name) ({ static decltype(&name) f = real<decltype(&name)>(#name); f; })
#define REALV(name, v) ({ static decltype(&name) f = real<decltype(&name)>(#name, v); f; })

// ---- in-object state -------------------------------------------------------
struct MutexS { int lock; unsigned count; int owner; unsigned nusers; int kind; };   // same layout as __pthread_mutex_s head
static MutexS *ms(pthread_mutex_t *m) { return (MutexS *)m; }
static int mkind(pthread_mutex_t *m) { return ms(m)->kind & 3; }

static void mutex_acquire(pthread_mutex_t *m, int64_t dl, int *res) {
  // caller did its scheduling point
  MutexS *s = ms(m);
  while (s->lock) {
    block(m, W_MUTEX, dl);
    if (cur->timed_out && s->lock) { *res = ETIMEDOUT; return; }
  }
  s->lock = 1; s->owner = cur->id + 1; s->count = 1; *res = 0;
}
static void mutex_release(pthread_mutex_t *m) { MutexS *s = ms(m); s->lock = 0; s->owner = 0; s->count = 0; wake_all(m, W_MUTEX); }

static int64_t abs_to_v(clockid_t c, const struct timespec *ts) {
  __int128 t = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
  if (c != CLOCK_MONOTONIC) t -= realtime_ns() - vnow(); else t -= 1000000000;
  if (t < 0) t = 0;
  if (t > (__int128)4e18) t = (__int128)4e18;
  return (int64_t)t;
}
static int lock_impl(pthread_mutex_t *m, int64_t dl, const char *op) {
  RtScope rs;
  spoint(op);
  MutexS *s = ms(m);
  if (s->lock && s->owner == cur->id + 1) {
    if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  int r; mutex_acquire(m, dl, &r);
  return r;
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!active()) return cur ? 0 : REAL(pthread_mutex_lock)(m);
  return lock_impl(m, -1, "lock");
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!active()) return cur ? 0 : REAL(pthread_mutex_trylock)(m);
  RtScope rs; spoint("trylock");
  MutexS *s = ms(m);
  if (s->lock) {
    if (s->owner == cur->id + 1 && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { s->count++; return 0; }
    return EBUSY;
  }
  int r; mutex_acquire(m, -1, &r); return r;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
  if (!active()) return cur ? 0 : REAL(pthread_mutex_timedlock)(m, ts);
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) { if (!ms(m)->lock) return lock_impl(m, -1, "timedlock"); return EINVAL; }
  return lock_impl(m, abs_to_v(CLOCK_REALTIME, ts), "timedlock");
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) {
  if (!active()) return cur ? 0 : REAL(pthread_mutex_clocklock)(m, c, ts);
  return lock_impl(m, abs_to_v(c, ts), "clocklock");
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!active()) return cur ? 0 : REAL(pthread_mutex_unlock)(m);
  RtScope rs; spoint("unlock");
  MutexS *s = ms(m);
  int k = mkind(m);
  if (k == PTHREAD_MUTEX_RECURSIVE || k == PTHREAD_MUTEX_ERRORCHECK) {
    if (!s->lock || s->owner != cur->id + 1) return EPERM;
    if (--s->count > 0) return 0;
  }
  mutex_release(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  if (!active()) return cur ? 0 : REAL(pthread_mutex_destroy)(m);
  RtScope rs; spoint("mutex-destroy");
  if (ms(m)->lock) return EBUSY;
  return 0;
}

// ---- condition variables ---------------------------------------------------
static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl, const char *op) {
  RtScope rs;
  spoint(op);
  MutexS *s = ms(m);
  if ((mkind(m) == PTHREAD_MUTEX_ERRORCHECK || mkind(m) == PTHREAD_MUTEX_RECURSIVE) && (!s->lock || s->owner != cur->id + 1)) return EPERM;
  unsigned cnt = s->count;
  // release and wait atomically
  cur->woken = false;
  mutex_release(m);
  int res = 0;
  if (dl >= 0 && dl <= vnow()) { res = ETIMEDOUT; }
  else if (chance(sim::K_SPURIOUS, 0.15)) { trace("spurious wakeup"); }
  else {
    block(c, W_COND, dl);
    if (!cur->woken && cur->timed_out) res = ETIMEDOUT;
  }
  int r; 
  if (s->lock) trace("%s: woken, waits for the mutex", op);
  mutex_acquire(m, -1, &r);
  s->count = cnt;
  trace("%s -> %s", op, res ? "timeout" : "woken");
  mix(res);
  return res;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!active()) return cur ? 0 : REALV(pthread_cond_wait, "GLIBC_2.3.2")(c, m);
  return cond_wait_impl(c, m, -1, "cond-wait");
}
static clockid_t cond_clock(pthread_cond_t *c) { return (((const unsigned *)c)[11] & 1) ? CLOCK_REALTIME : CLOCK_REALTIME; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!active()) return cur ? 0 : REALV(pthread_cond_timedwait, "GLIBC_2.3.2")(c, m, ts);
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
  // the clock attribute is kept in the low bits of the object by pthread_cond_init below
  return cond_wait_impl(c, m, abs_to_v(((const char *)c)[47] == 1 ? CLOCK_MONOTONIC : cond_clock(c), ts), "cond-timedwait");
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  if (!active()) return cur ? 0 : REAL(pthread_cond_clockwait)(c, m, k, ts);
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
  return cond_wait_impl(c, m, abs_to_v(k, ts), "cond-clockwait");
}
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
  memset(c, 0, sizeof *c);
  if (a) { clockid_t k = CLOCK_REALTIME; pthread_condattr_getclock(a, &k); if (k == CLOCK_MONOTONIC) ((char *)c)[47] = 1; }
  return 0;
}
static void waiters(const void *obj, int kind, std::vector<Thread *> &v) { for (auto t : threads()) if (t->st == BLOCKED && t->wobj == obj && t->wkind == kind) v.push_back(t); }
int pthread_cond_signal(pthread_cond_t *c) {
  if (!active()) return 0;
  RtScope rs; spoint("cond-signal");
  std::vector<Thread *> v; waiters(c, W_COND, v);
  if (v.empty()) return 0;
  uint32_t i = v.size() > 1 ? choose(sim::K_WAKE, v.size()) : 0;
  v[i]->woken = true; wake(v[i]); trace("signal wakes T%d", v[i]->id);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!active()) return 0;
  RtScope rs; spoint("cond-broadcast");
  std::vector<Thread *> v; waiters(c, W_COND, v);
  for (auto t : v) { t->woken = true; wake(t); trace("broadcast wakes T%d", t->id); }
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
  if (!active()) return 0;
  RtScope rs; spoint("cond-destroy");
  for (;;) { std::vector<Thread *> v; waiters(c, W_COND, v); if (v.empty()) break; block(c, W_EVENT, vnow() + 3600000000000LL); sim::fail("cond-destroyed-with-waiters", "a condition variable is destroyed while a thread waits on it"); }
  return 0;
}

// ---- rwlocks ----------------------------------------------------------------
struct RwS { int readers; int writer; int kind; };
static RwS *rws(pthread_rwlock_t *l) { return (RwS *)l; }
static bool writer_waiting(pthread_rwlock_t *l) { for (auto t : threads()) if (t->wr_wait == l) return true; return false; }
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) {
  memset(l, 0, sizeof *l);
  int k = 0; if (a) pthread_rwlockattr_getkind_np(a, &k);
  rws(l)->kind = k;
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l) { if (!active()) return 0; RtScope rs; spoint("rw-destroy"); return (rws(l)->readers || rws(l)->writer) ? EBUSY : 0; }
static int rd_impl(pthread_rwlock_t *l, int64_t dl, bool try_, const char *op) {
  RtScope rs; spoint(op);
  RwS *s = rws(l);
  if (s->writer == cur->id + 1) { if (try_) return EBUSY; return EDEADLK; }
  for (;;) {
    if (!s->writer && !(s->kind == PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP && writer_waiting(l))) break;
    if (try_) return EBUSY;
    if (dl >= 0 && dl <= vnow()) return ETIMEDOUT;
    block(l, W_RW, dl);
  }
  s->readers++; trace("%s: shared lock, %d readers", op, s->readers);
  return 0;
}
static int wr_impl(pthread_rwlock_t *l, int64_t dl, bool try_, const char *op) {
  RtScope rs; spoint(op);
  RwS *s = rws(l);
  if (s->writer == cur->id + 1) { if (try_) return EBUSY; return EDEADLK; }
  while (s->writer || s->readers) {
    if (try_) return EBUSY;
    if (dl >= 0 && dl <= vnow()) return ETIMEDOUT;
    cur->wr_wait = l;
    block(l, W_RW, dl);
    cur->wr_wait = NULL;
    if (dl >= 0 && dl <= vnow() && (s->writer || s->readers)) { wake_all(l, W_RW); mix(1); return ETIMEDOUT; }
  }
  s->writer = cur->id + 1; trace("%s: exclusive lock", op);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!active()) return 0; return rd_impl(l, -1, false, "rdlock"); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!active()) return 0; return rd_impl(l, -1, true, "tryrdlock"); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *ts) { if (!active()) return 0; if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL; return rd_impl(l, abs_to_v(CLOCK_REALTIME, ts), false, "timedrdlock"); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t c, const struct timespec *ts) { if (!active()) return 0; return rd_impl(l, abs_to_v(c, ts), false, "timedrdlock"); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!active()) return 0; return wr_impl(l, -1, false, "wrlock"); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!active()) return 0; return wr_impl(l, -1, true, "trywrlock"); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *ts) { if (!active()) return 0; if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL; return wr_impl(l, abs_to_v(CLOCK_REALTIME, ts), false, "timedwrlock"); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t c, const struct timespec *ts) { if (!active()) return 0; return wr_impl(l, abs_to_v(c, ts), false, "timedwrlock"); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!active()) return 0;
  RtScope rs; spoint("rw-unlock");
  RwS *s = rws(l);
  if (s->writer) s->writer = 0; else if (s->readers > 0) s->readers--; else { trace("unlock of an rwlock nobody holds"); sim::note(0xBADBAD); sim::fail("rwlock-unlock-unheld", "a read-write lock is released although nobody holds it"); }
  wake_all(l, W_RW);
  return 0;
}

// ---- threads ------------------------------------------------------------------
int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!active()) return REAL(pthread_create)(out, a, fn, arg);
  RtScope rs; spoint("thread-create");
  if (chance(sim::K_THREADFAIL, 0.2)) { trace("pthread_create fails"); return EAGAIN; }
  int ds = PTHREAD_CREATE_JOINABLE; if (a) pthread_attr_getdetachstate(a, &ds);
  int n = threads().size();
  int r = create_thread(out, ds == PTHREAD_CREATE_DETACHED, fn, arg, false);
  trace("creates T%d", n);
  spoint("thread-created");
  return r;
}
static Thread *by_handle(pthread_t p) { for (auto t : threads()) if (t->real == p) return t; return NULL; }
static int join_impl(pthread_t p, void **ret, int64_t dl, bool try_) {
  RtScope rs; spoint("thread-join");
  Thread *t = by_handle(p);
  if (!t) sim::fail("bad-thread-handle", "join of a thread handle that does not exist");
  if (t->joined || t->detached) sim::fail("thread-handle-reused", "join of a thread that was already joined or detached");
  if (t == cur) return EDEADLK;
  if (try_ && t->st != FINISHED) return EBUSY;
  while (t->st != FINISHED) { block(t, W_JOIN, dl); if (cur->timed_out && t->st != FINISHED) return ETIMEDOUT; }
  t->joined = true; if (ret) *ret = t->ret;
  trace("joined T%d", t->id);
  return 0;
}
int pthread_join(pthread_t p, void **ret) { if (!active()) return REAL(pthread_join)(p, ret); return join_impl(p, ret, -1, false); }
int pthread_tryjoin_np(pthread_t p, void **ret) { if (!active()) return REAL(pthread_tryjoin_np)(p, ret); return join_impl(p, ret, -1, true); }
int pthread_timedjoin_np(pthread_t p, void **ret, const struct timespec *ts) { if (!active()) return REAL(pthread_timedjoin_np)(p, ret, ts); return join_impl(p, ret, abs_to_v(CLOCK_REALTIME, ts), false); }
int pthread_detach(pthread_t p) {
  if (!active()) return REAL(pthread_detach)(p);
  RtScope rs; spoint("thread-detach");
  Thread *t = by_handle(p);
  if (!t) sim::fail("bad-thread-handle", "detach of a thread handle that does not exist");
  if (t->joined || t->detached) sim::fail("thread-handle-reused", "detach of a thread that was already joined or detached");
  t->detached = true; return 0;
}
void pthread_exit(void *r) { if (!active()) { REAL(pthread_exit)(r); __builtin_unreachable(); } thread_exit_now(r); }
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!active()) { if (*o == 2) return 0; f(); *o = 2; return 0; }
  { RtScope rs; spoint("once"); while (*o == 1) block(o, W_ONCE, -1); if (*o == 2) return 0; *o = 1; }
  cur->once++; try { f(); } catch (...) { cur->once--; RtScope rs; *o = 0; wake_all(o, W_ONCE); throw; }
  cur->once--; RtScope rs; *o = 2; wake_all(o, W_ONCE); return 0;
}
int __cxa_guard_acquire(long long *g) {
  unsigned char *b = (unsigned char *)g;
  if (b[0]) return 0;
  if (!active()) { b[1] = 1; return 1; }
  RtScope rs; spoint("static-guard");
  while (b[1]) { block(g, W_ONCE, -1); }
  if (b[0]) return 0;
  b[1] = 1; cur->once++; return 1;
}
void __cxa_guard_release(long long *g) { unsigned char *b = (unsigned char *)g; b[0] = 1; b[1] = 0; if (active()) { if (cur->once > 0) cur->once--; RtScope rs; wake_all(g, W_ONCE); } }
void __cxa_guard_abort(long long *g) { unsigned char *b = (unsigned char *)g; b[1] = 0; if (active()) { if (cur->once > 0) cur->once--; RtScope rs; wake_all(g, W_ONCE); } }
int sched_yield(void) {
  if (!active()) return 0;
  RtScope rs; spoint("yield");
  // give way: the deterministic default is to let the next runnable thread in
  block(NULL, W_SLEEP, vnow() + 1000);
  return 0;
}

// ---- semaphores and barriers (not used by the library today; here so that a
// ---- rewrite that uses them stays simulated)
struct SemS { int v; };
int sem_init(sem_t *s, int, unsigned v) { ((SemS *)s)->v = v; return 0; }
int sem_destroy(sem_t *) { return 0; }
int sem_post(sem_t *s) { if (!active()) { ((SemS *)s)->v++; return 0; } RtScope rs; spoint("sem-post"); ((SemS *)s)->v++; wake_all(s, W_EVENT); return 0; }
int sem_wait(sem_t *s) { if (!active()) { ((SemS *)s)->v--; return 0; } RtScope rs; spoint("sem-wait"); while (((SemS *)s)->v <= 0) block(s, W_EVENT, -1); ((SemS *)s)->v--; return 0; }
int sem_trywait(sem_t *s) { if (active()) { RtScope rs; spoint("sem-trywait"); } if (((SemS *)s)->v <= 0) { errno = EAGAIN; return -1; } ((SemS *)s)->v--; return 0; }
int sem_timedwait(sem_t *s, const struct timespec *ts) {
  RtScope rs; spoint("sem-timedwait"); int64_t dl = abs_to_v(CLOCK_REALTIME, ts);
  while (((SemS *)s)->v <= 0) { if (dl <= vnow()) { errno = ETIMEDOUT; return -1; } block(s, W_EVENT, dl); }
  ((SemS *)s)->v--; return 0;
}
int sem_getvalue(sem_t *s, int *v) { *v = ((SemS *)s)->v; return 0; }
int pthread_spin_init(pthread_spinlock_t *l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) { if (!active()) { *l = 1; return 0; } RtScope rs; spoint("spin-lock"); while (*l) block((const void *)l, W_MUTEX, -1); *l = 1; return 0; }
int pthread_spin_trylock(pthread_spinlock_t *l) { if (active()) { RtScope rs; spoint("spin-try"); } if (*l) return EBUSY; *l = 1; return 0; }
int pthread_spin_unlock(pthread_spinlock_t *l) { if (!active()) { *l = 0; return 0; } RtScope rs; spoint("spin-unlock"); *l = 0; wake_all((const void *)l, W_MUTEX); return 0; }

// ---- time ----------------------------------------------------------------------
static void tick() { RtScope rs; spoint("clock"); }
int gettimeofday(struct timeval *tv, void *) {
  if (!active()) { if (cur) { int64_t r = realtime_ns(); tv->tv_sec = r / 1000000000; tv->tv_usec = r % 1000000000 / 1000; return 0; } return raw_syscall(SYS_gettimeofday, (long)tv, 0, 0, 0, 0, 0); }
  tick(); int64_t r = realtime_ns(); tv->tv_sec = r / 1000000000; tv->tv_usec = r % 1000000000 / 1000; return 0;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!active()) return raw_syscall(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
  tick(); int64_t r = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? realtime_ns() : vnow() + 1000000000;
  ts->tv_sec = r / 1000000000; ts->tv_nsec = r % 1000000000; return 0;
}
time_t time(time_t *t) {
  if (!active()) { struct timeval tv; raw_syscall(SYS_gettimeofday, (long)&tv, 0, 0, 0, 0, 0); if (t) *t = tv.tv_sec; return tv.tv_sec; }
  tick(); time_t r = realtime_ns() / 1000000000; if (t) *t = r; return r;
}
static int sleep_impl(int64_t ns, struct timespec *rem, const char *op) {
  RtScope rs; spoint(op);
  int64_t dl = vnow() + ns;
  if (ns > 0 && chance(sim::K_EINTR, 0.2)) {
    int64_t part = ns / 2; block(NULL, W_SLEEP, vnow() + part);
    int64_t l = dl - vnow(); if (l < 0) l = 0;
    if (rem) { rem->tv_sec = l / 1000000000; rem->tv_nsec = l % 1000000000; }
    trace("%s interrupted", op); errno = EINTR; return -1;
  }
  if (ns > 0) block(NULL, W_SLEEP, dl);
  return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rem) {
  if (!active()) return raw_syscall(SYS_nanosleep, (long)rq, (long)rem, 0, 0, 0, 0);
  if (rq->tv_sec < 0 || rq->tv_nsec < 0 || rq->tv_nsec >= 1000000000) { errno = EINVAL; return -1; }
  __int128 ns = (__int128)rq->tv_sec * 1000000000 + rq->tv_nsec; if (ns > (__int128)4e18) ns = (__int128)4e18;
  return sleep_impl((int64_t)ns, rem, "nanosleep");
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rem) {
  if (!active()) return -raw_syscall(SYS_clock_nanosleep, c, flags, (long)rq, (long)rem, 0, 0);
  if (rq->tv_sec < 0 || rq->tv_nsec < 0 || rq->tv_nsec >= 1000000000) return EINVAL;
  int64_t ns = (flags & TIMER_ABSTIME) ? abs_to_v(c, rq) - vnow() : rq->tv_sec * 1000000000LL + rq->tv_nsec;
  return sleep_impl(ns, rem, "clock_nanosleep") ? EINTR : 0;
}
int usleep(useconds_t us) { struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, NULL); }
unsigned sleep(unsigned s) { struct timespec t = {(time_t)s, 0}, r = {0, 0}; if (nanosleep(&t, &r) == 0) return 0; return r.tv_sec + (r.tv_nsec ? 1 : 0); }

// the kernel's thread ids are arbitrary distinct numbers: consecutive in one run, far apart (equal in their low bits) in another
static long sim_tid() {
  static int stride = 0; static const int t[] = {1, 1, 3, 256, 4096, 65536};
  if (!stride) { RtScope rs; stride = t[choose(sim::K_WORK, 6)]; }
  return 70000 + (long)(cur->id % 60) * stride + cur->id / 60 * 7;
}
pid_t gettid(void) { if (cur) return sim_tid(); return raw_syscall(SYS_gettid, 0, 0, 0, 0, 0, 0); }
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (n == SYS_gettid && cur) return sim_tid();
  if (n == SYS_clock_gettime && active()) return clock_gettime(a, (struct timespec *)b);
  if (n == SYS_futex && active()) {           // std::future, atomic waits
    RtScope rs; int op = b & 127; 
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { spoint("futex-wake"); wake_all((void *)a, W_EVENT); return 1; }
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      const struct timespec *ts = (const struct timespec *)d; spoint("futex-wait"); if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
      int64_t dl = !ts ? -1 : op == FUTEX_WAIT ? vnow() + ts->tv_sec * 1000000000LL + ts->tv_nsec : abs_to_v((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
      block((void *)a, W_EVENT, dl); if (cur->timed_out) { errno = ETIMEDOUT; return -1; } return 0;
    }
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
}
