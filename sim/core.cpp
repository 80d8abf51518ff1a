#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <dlfcn.h>
#include <limits.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <unordered_map>
#include <cxxabi.h>

namespace sim {
const char *kind_name[K_MAX] = {
  "workload", "preempt", "next_thread", "wake_order", "spurious_wakeup", "thread_stall", "stall_length",
  "thread_create_fails", "eintr", "short_io", "net_delay", "connect_fails", "connection_reset",
  "socket_setup_fails", "accept_fails", "link_stall", "socket_buffer", "resolver_fails", "open_fails",
  "fstat_fails", "mmap_fails", "file_io_error", "disk_full", "tempfile_fails", "alloc_fails", "close_fails",
  "stream_cut", "corruption", "db_call_fails", "crash", "clock_jump", "misc" };
}

namespace rt {
Thread *cur = NULL;
thread_local volatile int in_rt = 0;
Result *g_res = NULL;
int64_t g_wall_shift = 0;

// ---------------------------------------------------------------- raw syscalls
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
long raw_syscall(long n, long a, long b, long c, long d, long e, long f) { return raw6(n, a, b, c, d, e, f); }
static void fwait(std::atomic<int> *w) { while (w->load(std::memory_order_acquire) == 0) raw6(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); w->store(0, std::memory_order_relaxed); }
static void fwake(std::atomic<int> *w) { w->store(1, std::memory_order_release); raw6(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
[[noreturn]] static void die(int code) { raw6(SYS_exit_group, code, 0, 0, 0, 0, 0); __builtin_unreachable(); }

// ---------------------------------------------------------------- rng
struct Rng { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); } uint32_t n(uint32_t k) { return k ? next() % k : 0; } };
static Rng r_work, r_sched, r_fault;

// ---------------------------------------------------------------- run state
static RunSpec spec;
static std::vector<Thread *> *thr;
std::vector<Thread *> &threads() { return *thr; }
static int64_t vt;
struct Timer { int64_t at; uint64_t seq; Thread *t; std::function<void()> fn; };
struct TimerCmp { bool operator()(const Timer &a, const Timer &b) const { return a.at != b.at ? a.at > b.at : a.seq > b.seq; } };
static std::vector<Timer> *timers;
static uint64_t timer_seq;
static double scale[sim::K_MAX];
static bool faults_enabled = true;
static int64_t stall_sum = 0;
static std::unordered_map<uint64_t, uint32_t> *rdec;           // replay decisions
static std::vector<std::vector<std::pair<uint64_t, uint32_t> > > *rpre;  // per thread preemption list
static char hang_id[96] = "hang", hang_detail[256] = "";
static bool mem_preempt = true;
// strategy
static int strat; static double p_sync; static double mem_mean; static std::vector<uint64_t> *pct_points;
static const uint64_t SLICE = 60000, STEP_CAP = 60000000, CALL_CAP = 1000000;

std::vector<sim::Scenario> &scenarios() { static std::vector<sim::Scenario> *v = new std::vector<sim::Scenario>(); return *v; }

void mix(uint64_t v) { uint64_t h = g_res->hash; h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); g_res->hash = h * 0x100000001B3ULL; }
static void imix(uint64_t v) { uint64_t h = g_res->ihash; h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); g_res->ihash = h * 0x100000001B3ULL; }
bool tracing() { return spec.log; }
static void vtrace(const char *pfx, const char *fmt, va_list ap) {
  if (!spec.log || g_res->log_len + 600 > LOG_SZ) return;
  char *p = g_res->log + g_res->log_len;
  int n = snprintf(p, 100, "%12.6fms T%d %s", vt / 1e6, cur ? cur->id : -1, pfx);
  n += vsnprintf(p + n, 480, fmt, ap);
  if (n > 590) n = 590;
  p[n++] = '\n'; p[n] = 0;
  g_res->log_len += n;
}
void trace(const char *fmt, ...) { if (!spec.log) return; RtScope s; va_list ap; va_start(ap, fmt); vtrace("", fmt, ap); va_end(ap); }

void finish(int status, const char *id, const char *msg) {
  in_rt++;
  if (!g_res->finished) {
    g_res->finished = true;
    g_res->status = status;
    snprintf(g_res->id, sizeof g_res->id, "%s", id);
    snprintf(g_res->msg, sizeof g_res->msg, "%s", msg);
    g_res->vtime = vt;
    if (thr) { uint64_t s = 0; for (size_t i = 0; i < thr->size(); i++) s += (*thr)[i]->steps; g_res->steps = s; g_res->nthreads = thr->size(); }
    if (status != ST_OK) { trace("*** %s: %s", id, msg); mix(0xBAD); for (const char *p = id; *p; p++) mix((unsigned char)*p); }
  }
  die(status);
}

int64_t vnow() { return vt; }
int64_t realtime_ns() { return 1700000000LL * 1000000000LL + vt + g_wall_shift; }

// ---------------------------------------------------------------- decisions
static inline uint64_t dkey(int tid, int kind, uint32_t ctr) { return ((uint64_t)tid << 48) | ((uint64_t)kind << 40) | ctr; }
static void record(int tid, int kind, uint32_t ctr, uint32_t val) {
  if (g_res->ndec >= MAX_DEC) { g_res->dec_overflow = true; return; }
  Decision &d = g_res->dec[g_res->ndec++]; d.tid = tid; d.kind = kind; d.ctr = ctr; d.val = val;
}
static bool is_fault(int k) { return k != sim::K_WORK && k != sim::K_PRE && k != sim::K_NEXT && k != sim::K_WAKE && k != sim::K_STALLT && k != sim::K_BUFSZ && k != sim::K_DELAY; }
static uint32_t decide(int k, uint32_t n, uint32_t gen) {   // gen: value in generation mode
  Thread *t = cur; int tid = t ? t->id : 0; uint32_t c = t ? t->ctr[k]++ : 0;
  uint32_t v = gen;
  if (spec.replay) { auto it = rdec->find(dkey(tid, k, c)); v = it == rdec->end() ? 0 : it->second; if (v >= n) v = n ? n - 1 : 0; }
  else if (v) record(tid, k, c, v);
  mix(((uint64_t)k << 32) | v);
  if (v && (is_fault(k) || k == sim::K_DELAY)) g_res->faults[k]++;
  return v;
}

// ---------------------------------------------------------------- scheduling
static void set_next_pre(Thread *t) {
  uint64_t np = t->slice_end;
  if (spec.replay) {
    if ((size_t)t->id < rpre->size()) {
      auto &v = (*rpre)[t->id];
      while (t->pre_pos < v.size() && v[t->pre_pos].first < t->steps + 1) t->pre_pos++;
      if (t->pre_pos < v.size()) np = std::min(np, v[t->pre_pos].first);
    }
  } else if (strat == 0 && mem_preempt && mem_mean > 0) {
    double x = r_sched.u(); uint64_t d = 1 + (uint64_t)(-mem_mean * __builtin_log(1 - x));
    np = std::min(np, t->steps + d);
  } else if (strat == 1) {
    // PCT: change points are in units of the global step count
    uint64_t tot = 0; for (size_t i = 0; i < thr->size(); i++) tot += (*thr)[i]->steps;
    while (!pct_points->empty() && pct_points->front() <= tot) pct_points->erase(pct_points->begin());
    if (mem_preempt && !pct_points->empty()) np = std::min(np, t->steps + (pct_points->front() - tot));
  }
  if (np <= t->steps) np = t->steps + 1;
  t->next_pre = np;
}

static void fire_timers() {
  while (!timers->empty() && timers->front().at <= vt) {
    std::pop_heap(timers->begin(), timers->end(), TimerCmp());
    Timer t = std::move(timers->back()); timers->pop_back();
    if (t.t) {
      if (t.t->timer_seq == t.seq) { t.t->timer_seq = 0; if (t.t->st == BLOCKED) { t.t->timed_out = true; t.t->st = RUNNABLE; } }
    } else t.fn();
  }
}
static bool advance_time() {
  while (!timers->empty()) {
    Timer &f = timers->front();
    if (f.t && f.t->timer_seq != f.seq) { std::pop_heap(timers->begin(), timers->end(), TimerCmp()); timers->pop_back(); continue; }
    if (f.at > vt) vt = f.at;
    fire_timers();
    return true;
  }
  return false;
}

static void describe_blocked(char *buf, size_t n) {
  static const char *wn[] = {"?", "mutex", "condition", "join", "rwlock", "sleep", "io", "event", "once", "quiescence"};
  size_t l = 0; buf[0] = 0;
  for (size_t i = 0; i < thr->size() && l + 40 < n; i++) { Thread *t = (*thr)[i]; if (t->st != FINISHED) l += snprintf(buf + l, n - l, " T%d:%s", t->id, t->st == RUNNABLE ? "runnable" : wn[t->wkind]); }
}

static void runnables(std::vector<Thread *> &v) { v.clear(); for (size_t i = 0; i < thr->size(); i++) if ((*thr)[i]->st == RUNNABLE) v.push_back((*thr)[i]); }

static void switch_to(Thread *t) {
  Thread *me = cur;
  if (t == me) { t->slice_end = t->steps + SLICE; set_next_pre(t); return; }
  g_res->switches++;
  mix(0x5157 + t->id); imix(0x5157 + t->id);
  cur = t;
  t->slice_end = t->steps + SLICE;
  set_next_pre(t);
  int e = errno;
  fwake(&t->go);
  fwait(&me->go);
  errno = e;
}

// current thread cannot go on: pick somebody else
static void reschedule() {
  std::vector<Thread *> v;
  for (;;) {
    fire_timers();
    runnables(v);
    if (!v.empty()) break;
    if (advance_time()) continue;
    // nothing will ever move by itself
    Thread *q = NULL;
    for (size_t i = 0; i < thr->size(); i++) if ((*thr)[i]->st == BLOCKED && (*thr)[i]->qwait) q = (*thr)[i];
    if (q) { q->st = RUNNABLE; v.push_back(q); break; }
    char b[700]; describe_blocked(b, sizeof b);
    char m[1200]; snprintf(m, sizeof m, "%s no thread can make progress and no event is pending:%s", hang_detail, b);
    finish(ST_VIOL, hang_id, m);
  }
  Thread *me = cur;
  // default: next in cyclic order
  size_t def = 0; while (def < v.size() && v[def]->id <= me->id) def++; if (def == v.size()) def = 0;
  std::rotate(v.begin(), v.begin() + def, v.end());
  uint32_t idx = 0;
  if (v.size() > 1) {
    uint32_t gen = 0;
    if (!spec.replay) {
      if (strat == 1) { for (size_t i = 1; i < v.size(); i++) if (v[i]->prio > v[gen]->prio) gen = i; }
      else if (strat != 3) gen = r_sched.n(v.size());
    }
    idx = decide(sim::K_NEXT, v.size(), gen);
  }
  switch_to(v[idx]);
}

static void preempt_to(Thread *t, bool rec) {
  if (t == cur || t->st != RUNNABLE) { set_next_pre(cur); return; }
  if (rec) { record(cur->id, sim::K_PRE, (uint32_t)cur->steps, t->id + 1); }
  g_res->preempts++; g_res->faults[sim::K_PRE]++;
  if (spec.log) trace("-- preempted at step %llu, T%d runs", (unsigned long long)cur->steps, t->id);
  switch_to(t);
}

// called when cur->steps reached next_pre
static void maybe_preempt(bool force_random) {
  Thread *t = cur;
  if (t->noyield) { t->next_pre = t->steps + 1000; return; }
  RtScope rs;
  uint64_t tot = 0; for (size_t i = 0; i < thr->size(); i++) tot += (*thr)[i]->steps;
  if (tot > STEP_CAP) { char b[400], m[900]; describe_blocked(b, sizeof b); snprintf(m, sizeof m, "%s the run does not end (step limit reached):%s", hang_detail, b); finish(ST_VIOL, hang_id, m); }
  if (t->steps >= t->slice_end) {        // fairness: forced rotation, part of the deterministic rules
    vt += 20000;
    fire_timers();
    std::vector<Thread *> v; runnables(v);
    if (v.size() > 1) {
      size_t i = 0; while (i < v.size() && v[i]->id <= t->id) i++; if (i == v.size()) i = 0;
      if (strat == 1 && !spec.replay) t->prio -= 100;
      switch_to(v[i]);
    } else { t->slice_end = t->steps + SLICE; set_next_pre(t); }
    return;
  }
  if (spec.replay) {
    if ((size_t)t->id < rpre->size()) {
      auto &v = (*rpre)[t->id];
      if (t->pre_pos < v.size() && v[t->pre_pos].first == t->steps) {
        int target = (int)v[t->pre_pos].second - 1; t->pre_pos++;
        if (target >= 0 && target < (int)thr->size()) { preempt_to((*thr)[target], false); return; }
      }
    }
    set_next_pre(t); return;
  }
  std::vector<Thread *> v; runnables(v);
  if (v.size() < 2) { set_next_pre(t); return; }
  if (strat == 0 || force_random) {
    Thread *o; do o = v[r_sched.n(v.size())]; while (o == t);
    preempt_to(o, true);
  } else if (strat == 1) {
    t->prio = -(int)r_sched.n(1000) - 1000;
    Thread *b = v[0]; for (size_t i = 1; i < v.size(); i++) if (v[i]->prio > b->prio) b = v[i];
    preempt_to(b, true);
  } else set_next_pre(t);
}

void spoint(const char *op, uint64_t aux) {
  Thread *t = cur;
  t->steps++;
  vt += 100;
  g_res->calls++;
  uint64_t h = 1469598103934665603ULL; for (const char *p = op; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ULL;
  mix(h ^ ((uint64_t)t->id << 56) ^ aux); imix(h ^ ((uint64_t)t->id << 56));
  if (g_res->calls > CALL_CAP) { char b[400], m[900]; describe_blocked(b, sizeof b); snprintf(m, sizeof m, "%s the run does not end (call limit reached):%s", hang_detail, b); finish(ST_VIOL, hang_id, m); }
  if (!timers->empty() && timers->front().at <= vt) fire_timers();
  if (t->noyield) return;
  if (t->steps >= t->next_pre) { maybe_preempt(false); }
  else if (!spec.replay) {
    if (strat == 0 || strat == 2) { if (p_sync > 0 && r_sched.u() < p_sync) maybe_preempt(true); }
    else if (strat == 1) {
      std::vector<Thread *> v; runnables(v);
      Thread *b = t; for (size_t i = 0; i < v.size(); i++) if (v[i]->prio > b->prio) b = v[i];
      if (b != t) preempt_to(b, true);
    }
  }
  // slow / descheduled thread
  if (sim::chance(sim::K_STALL, 0.01)) {
    static const int64_t lens[] = {1000000, 3000000, 10000000, 50000000, 100000000, 300000000, 1000000000, 4000000000LL};
    uint32_t i = sim::choose(sim::K_STALLT, 8);
    stall_sum += lens[i];
    trace("stalls for %lld ms", (long long)lens[i] / 1000000);
    block(NULL, W_SLEEP, vt + lens[i]);
  }
}

void block(const void *obj, int kind, int64_t deadline) {
  Thread *t = cur;
  if (t->noyield) { fprintf(stderr, "sim: blocking call inside an atomic section\n"); finish(ST_ERR, "harness", "blocking call inside an atomic section"); }
  t->wobj = obj; t->wkind = kind; t->timed_out = false; t->st = BLOCKED; t->timer_seq = 0;
  if (deadline >= 0) {
    Timer x; x.at = deadline; x.seq = ++timer_seq; x.t = t; t->timer_seq = x.seq;
    timers->push_back(std::move(x)); std::push_heap(timers->begin(), timers->end(), TimerCmp());
  }
  reschedule();
  t->wobj = NULL; t->wkind = W_NONE;
}
void wake(Thread *t) { if (t->st == BLOCKED) { t->st = RUNNABLE; t->timer_seq = 0; } }
void wake_all(const void *obj, int kind) { for (size_t i = 0; i < thr->size(); i++) { Thread *t = (*thr)[i]; if (t->st == BLOCKED && t->wobj == obj && t->wkind == kind) wake(t); } }
void add_event(int64_t at, const std::function<void()> &f) {
  Timer x; x.at = at < vt ? vt : at; x.seq = ++timer_seq; x.t = NULL; x.fn = f;
  timers->push_back(std::move(x)); std::push_heap(timers->begin(), timers->end(), TimerCmp());
}

// ---------------------------------------------------------------- threads
typedef int (*create_fn)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static create_fn real_create;

[[noreturn]] static void thread_end(Thread *t) {
  in_rt++;
  t->noyield = 0;
  spoint("thread-end");
  t->st = FINISHED;
  trace("thread ends");
  for (size_t i = 0; i < thr->size(); i++) { Thread *o = (*thr)[i]; if (o->st == BLOCKED && o->wkind == W_JOIN && o->wobj == t) wake(o); }
  reschedule();
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}
static void *tramp(void *p) {
  Thread *t = (Thread *)p;
  stack_t ss; memset(&ss, 0, sizeof ss); in_rt++; ss.ss_sp = malloc(32768); ss.ss_size = 32768; in_rt--; sigaltstack(&ss, NULL);
  fwait(&t->go);
  t->ret = t->fn(t->arg);
  thread_end(t);
}
void thread_exit_now(void *ret) { cur->ret = ret; thread_end(cur); }

static Thread *new_thread() {
  Thread *t = new Thread(); // value-init
  t->id = thr->size(); t->st = RUNNABLE; t->prio = r_sched.n(1000);
  t->slice_end = SLICE; t->next_pre = 1;
  thr->push_back(t);
  if (thr->size() > 500) finish(ST_VIOL, "runaway-threads", "more than 500 threads created in one run");
  return t;
}

int create_thread(pthread_t *out, bool detached, void *(*fn)(void *), void *arg, bool harness) {
  Thread *t = new_thread();
  t->detached = detached; t->fn = fn; t->arg = arg; t->harness = harness; t->started = true;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 * 1024);
  int r = real_create(&t->real, &a, tramp, t);
  pthread_attr_destroy(&a);
  if (r) finish(ST_ERR, "harness", "real thread creation failed");
  *out = t->real;
  return 0;
}

// ---------------------------------------------------------------- crash capture
static void on_signal(int sig) {
  in_rt++;
  const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT" : "signal";
  char id[40]; snprintf(id, sizeof id, "crash-%s", n);
  if (cur == NULL) { static const char m[] = "sim: crash outside a run\n"; raw6(SYS_write, 2, (long)m, sizeof m - 1, 0, 0, 0); die(3); }
  finish(ST_VIOL, id, "the process crashed");
}
static void on_terminate() {
  in_rt++;
  char m[400] = "std::terminate called";
  std::type_info *ti = abi::__cxa_current_exception_type();
  if (ti) {
    const char *w = "";
    try { throw; } catch (const std::exception &e) { w = e.what(); } catch (...) {}
    snprintf(m, sizeof m, "uncaught exception of type %s: %s", ti->name(), w);
  }
  finish(ST_VIOL, "crash-terminate", m);
}

// ---------------------------------------------------------------- run
static void *main_thread(void *) { spec.sc->fn(); return NULL; }
static void *main_tramp(void *p) {
  Thread *t = (Thread *)p;
  stack_t ss; memset(&ss, 0, sizeof ss); in_rt++; ss.ss_sp = malloc(32768); ss.ss_size = 32768; in_rt--; sigaltstack(&ss, NULL);
  fwait(&t->go);
  main_thread(NULL);
  finish(ST_OK, "ok", "");
}

void child_run(const RunSpec &sp) {
  spec = sp;
  uint64_t sh = 1469598103934665603ULL; for (const char *p = sp.sc->name; *p; p++) sh = (sh ^ (unsigned char)*p) * 1099511628211ULL;
  Rng base; base.s = sp.seed * 0x9E3779B97F4A7C15ULL ^ sh; base.next();
  r_work.s = base.next(); r_sched.s = base.next(); r_fault.s = base.next();
  thr = new std::vector<Thread *>(); thr->reserve(512); timers = new std::vector<Timer>(); pct_points = new std::vector<uint64_t>();
  rdec = new std::unordered_map<uint64_t, uint32_t>(); rpre = new std::vector<std::vector<std::pair<uint64_t, uint32_t> > >();
  if (spec.replay) {
    for (size_t i = 0; i < spec.ndec; i++) {
      const Decision &d = spec.dec[i];
      if (d.kind == sim::K_PRE) { if (rpre->size() <= d.tid) rpre->resize(d.tid + 1); (*rpre)[d.tid].push_back(std::make_pair((uint64_t)d.ctr, d.val)); }
      else (*rdec)[dkey(d.tid, d.kind, d.ctr)] = d.val;
    }
    for (size_t i = 0; i < rpre->size(); i++) std::sort((*rpre)[i].begin(), (*rpre)[i].end());
  }
  for (int k = 0; k < sim::K_MAX; k++) scale[k] = 0;
  // scheduling strategy of this run (swarm)
  switch (base.next() % 10) {
    case 0: case 1: case 2: strat = 0; break;       // random memory-level preemption
    case 3: case 4: case 5: strat = 1; break;       // PCT
    case 6: case 7: case 8: strat = 2; break;       // random at intercepted calls only
    default: strat = 3; break;                      // run to block
  }
  static const double means[] = {2, 5, 12, 30, 80, 200, 500, 1500};
  static const double ps[] = {0, 0.03, 0.1, 0.3, 0.6};
  mem_mean = means[base.next() % 8]; p_sync = ps[base.next() % 5];
  if (strat == 2 && p_sync == 0) p_sync = 0.2;
  if (strat == 1) {
    int d = 1 + base.next() % 5; double top = 4 + (base.next() % 11);   // 2^4..2^14 steps
    for (int i = 0; i < d; i++) pct_points->push_back(1 + (uint64_t)__builtin_exp2(r_sched.u() * top));
    std::sort(pct_points->begin(), pct_points->end());
  }
  scale[sim::K_SPURIOUS] = (base.next() % 3) ? 0 : 1;
  std::set_terminate(on_terminate);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
  for (int i = 0; i < 5; i++) sigaction(sigs[i], &sa, NULL);
  signal(SIGPIPE, SIG_DFL);

  real_create = (create_fn)dlsym(RTLD_NEXT, "pthread_create");
  in_rt++;
  Thread *m = new_thread();
  m->started = true; m->harness = true;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1024 * 1024);
  if (real_create(&m->real, &a, main_tramp, m)) { fprintf(stderr, "sim: cannot create thread\n"); die(3); }
  cur = m;
  heap_begin_run();
  m->slice_end = SLICE; set_next_pre(m);
  in_rt--;
  fwake(&m->go);
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}
} // namespace rt

// ------------------------------------------------------------------ public API
namespace sim {
using namespace rt;
void add_scenario(const Scenario &s) { scenarios().push_back(s); }
uint32_t choose(Kind k, uint32_t n) {
  if (n <= 1) return 0;
  RtScope rs;
  uint32_t gen = 0;
  if (!spec.replay) gen = (k == K_WORK ? r_work.n(n) : r_fault.n(n));
  uint32_t r = decide(k, n, gen);
  if (k != K_WORK && k != K_PRE && k != K_NEXT && r) imix((uint64_t)k << 32 | r);
  return r;
}
bool chance(Kind k, double p) {
  RtScope rs;
  uint32_t gen = 0;
  if (!spec.replay && faults_enabled && scale[k] > 0) gen = r_fault.u() < p * scale[k];
  if (!faults_enabled) return false;
  if (decide(k, 2, gen) == 0) return false;
  imix((uint64_t)k << 32 | 0xF); return true;
}
void enable(Kind k, double s) { scale[k] = s; }
void faults_off() { faults_enabled = false; }
void faults_on() { faults_enabled = true; }
uint64_t fault_count(Kind k) { return g_res->faults[k]; }
int64_t now() { return vt; }
double now_s() { return vt / 1e9; }
void sleep_ns(int64_t ns) { RtScope rs; spoint("h-sleep"); block(NULL, W_SLEEP, vt + ns); }
void clock_jump(int64_t ns) { RtScope rs; g_wall_shift += ns; trace("wall clock jumps by %lld ms", (long long)ns / 1000000); }
bool stalled() { return stall_sum > 0; }
int64_t stall_total() { return stall_sum; }
Tid self() { return cur->id; }

static void *go_tramp(void *p) {
  std::function<void()> *f = (std::function<void()> *)p;
  (*f)();
  // never freed: belongs to the host arena
  return NULL;
}
Tid go(const std::function<void()> &f) {
  std::function<void()> *c = new std::function<void()>(f);
  RtScope rs;
  pthread_t p; Tid id = threads().size();
  create_thread(&p, false, go_tramp, c, true);
  spoint("h-go");
  return id;
}
void join(Tid id) {
  RtScope rs;
  Thread *t = threads()[id];
  while (t->st != FINISHED) block(t, W_JOIN, -1);
}
void join_all() { for (size_t i = 1; i < threads().size(); i++) if (threads()[i]->harness) join(i); }
bool finished(Tid id) { return threads()[id]->st == FINISHED; }
bool blocked(Tid id) { return threads()[id]->st == BLOCKED; }
int live_threads() { int n = 0; for (size_t i = 0; i < threads().size(); i++) if (threads()[i]->st != FINISHED) n++; return n; }
std::string blocked() { RtScope rs; char b[700]; describe_blocked(b, sizeof b); return b; }
int unreaped() { RtScope rs; int n = 0; for (auto t : threads()) n += !t->harness && t->st == FINISHED && !t->joined && !t->detached; return n; }
void wait_quiescent() { RtScope rs; cur->qwait = true; spoint("h-quiesce"); block(NULL, W_Q, -1); cur->qwait = false; }
void yield() { RtScope rs; spoint("h-yield"); }
void Event::set() { RtScope rs; set_ = true; wake_all(this, W_EVENT); spoint("h-ev-set"); }
void Event::wait() { RtScope rs; spoint("h-ev-wait"); while (!set_) block(this, W_EVENT, -1); }
Atomic::Atomic() { if (cur) cur->noyield++; }
Atomic::~Atomic() { if (cur) cur->noyield--; }
void fail(const char *id, const char *f, ...) {
  in_rt++;
  char m[1500]; va_list ap; va_start(ap, f); vsnprintf(m, sizeof m, f, ap); va_end(ap);
  finish(ST_VIOL, id, m);
}
void log(const char *f, ...) { if (!spec.log) return; RtScope rs; va_list ap; va_start(ap, f); vtrace("# ", f, ap); va_end(ap); }
void cover(uint64_t k) {
  Result *r = g_res;
  for (uint32_t i = 0; i < r->ncov; i++) if (r->cov[i] == k) return;
  if (r->ncov < MAX_COV) r->cov[r->ncov++] = k;
}
void note(uint64_t v) { mix(v); imix(v); }
void done() { finish(ST_OK, "ok", ""); }
void set_hang_id(const char *id, const char *d) { snprintf(hang_id, sizeof hang_id, "%s", id); snprintf(hang_detail, sizeof hang_detail, "%s", d); }
uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < s.size(); i++) h = (h ^ (unsigned char)s[i]) * 1099511628211ULL; return h; }
void no_mem_preempt() { mem_preempt = false; set_next_pre(cur); }
std::string fmt(const char *f, ...) { char m[1500]; va_list ap; va_start(ap, f); vsnprintf(m, sizeof m, f, ap); va_end(ap); return m; }
}

// ------------------------------------------------------------------ instrumentation
using namespace rt;
static inline __attribute__((always_inline)) void acc(const void *p, size_t n, bool w) {
  if (!cur || in_rt) return;
  heap_note_access(p, n, w);
  if (++cur->steps >= cur->next_pre) maybe_preempt(false);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *p) { acc(p, n, false); } void __tsan_write##n(void *p) { acc(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, false); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { acc(p, n, false); } void __tsan_volatile_write##n(void *p) { acc(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) { acc(p, 1, false); heap_note_access((char *)p + n - 1, 1, false); } }
void __tsan_write_range(void *p, size_t n) { if (n) { acc(p, 1, true); heap_note_access((char *)p + n - 1, 1, true); } }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true); }
void __tsan_vptr_read(void **p) { acc(p, 8, false); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *a, int) { acc((const void *)a, b / 8, false); return *a; } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int) { acc((const void *)a, b / 8, true); *a = v; } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { acc((const void *)a, b / 8, true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { acc((const void *)a, b / 8, true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { acc((const void *)a, b / 8, true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { acc((const void *)a, b / 8, true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { acc((const void *)a, b / 8, true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { acc((const void *)a, b / 8, true); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { acc((const void *)a, b / 8, true); T o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acc((const void *)a, b / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { acc((const void *)a, b / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acc((const void *)a, b / 8, true); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void __assert_fail(const char *e, const char *f, unsigned l, const char *) {
  if (cur) { in_rt++; char m[500]; const char *b = strrchr(f, '/'); snprintf(m, sizeof m, "assertion failed: %s (%s)", e, b ? b + 1 : f); (void)l; finish(ST_VIOL, "crash-assert", m); }
  fprintf(stderr, "assertion failed %s %s:%u\n", e, f, l); _exit(3);
}
}
