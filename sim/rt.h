// Internal interface between the parts of the runtime.
#ifndef VERIF_RT_H
#define VERIF_RT_H
#include "sim.h"
#include <pthread.h>
#include <atomic>

namespace rt {

enum State { RUNNABLE, BLOCKED, FINISHED };

struct Thread {
  int id;
  pthread_t real;
  std::atomic<int> go;
  State st;
  bool started, detached, joined, harness, qwait;
  // what it waits for
  const void *wobj;      // mutex / cond / rwlock / channel key
  int wkind;             // W_*
  bool woken;            // condition: signalled
  bool timed_out;
  uint64_t timer_seq;    // active timer, 0 if none
  uint64_t steps;        // preemption index
  uint64_t next_pre;     // step at which slow path is entered
  uint64_t slice_end;
  size_t pre_pos;        // replay: position in pre list
  uint32_t ctr[sim::K_MAX];
  int noyield;
  bool alloc_faults;
  int once;              // within one-time initialisation: what it allocates is kept for good and no leak
  int prio;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  void *joiner;
  const void *wr_wait;   // rwlock this thread waits to write-lock
};

enum { W_NONE, W_MUTEX, W_COND, W_JOIN, W_RW, W_SLEEP, W_IO, W_EVENT, W_ONCE, W_Q };

extern Thread *cur;                 // running thread, NULL outside a run
extern thread_local volatile int in_rt;
struct RtScope { RtScope() { in_rt++; } ~RtScope() { in_rt--; } };

void spoint(const char *op, uint64_t aux = 0);   // intercepted-call scheduling point
void block(const void *obj, int kind, int64_t deadline);  // deadline <0: none; sets cur->timed_out
void wake(Thread *t);
void wake_all(const void *obj, int kind);
std::vector<Thread *> &threads();
int64_t vnow();
void add_event(int64_t at, const std::function<void()> &f);
int create_thread(pthread_t *out, bool detached, void *(*fn)(void *), void *arg, bool harness);
void mix(uint64_t v);
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
[[noreturn]] void finish(int status, const char *id, const char *msg);
int64_t realtime_ns();
inline bool active() { return cur != NULL && in_rt == 0; }
void heap_stats(uint64_t *blocks, uint64_t *bytes);
extern int64_t g_wall_shift;

enum { ST_OK = 0, ST_VIOL = 1, ST_ERR = 2 };

void heap_begin_run();
void heap_note_access(const void *p, size_t n, bool w);

// virtual file descriptors are in [VFD_BASE, VFD_END)
enum { VFD_BASE = 200, VFD_END = 1000 };
}
#endif
