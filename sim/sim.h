// Deterministic simulation runtime: interface used by the harnesses.
//
// One simulated run = one forked process in which every thread is a real OS
// thread, but exactly one of them runs at any time; the runtime decides which
// one, when it is preempted (at any instrumented memory access, atomic
// operation or intercepted library call), what time it is, what the network
// and the files do and which faults happen.  Every one of those decisions goes
// through choose()/chance(), so a run is a function of its seed, or of an
// explicit list of decisions (the replay file).
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {

enum Kind {
  K_WORK,        // workload generation (harness)
  K_PRE,         // preemption: thread -> other thread at a step
  K_NEXT,        // which runnable thread runs when one blocks
  K_WAKE,        // which waiter a signal wakes
  K_SPURIOUS,    // spurious condition variable wakeup
  K_STALL,       // thread stalls (slow node / descheduled) for a while
  K_STALLT,      // ... how long
  K_THREADFAIL,  // thread creation fails
  K_EINTR,       // a system call is interrupted by a signal
  K_SEG,         // short read / short write sizes
  K_DELAY,       // network delay
  K_CONNFAIL,    // connect refused / timed out / unreachable
  K_RESET,       // connection reset mid-stream
  K_SOCKFAIL,    // socket()/bind()/listen()/setsockopt() failure
  K_ACCEPTFAIL,  // accept() failure (ECONNABORTED, EMFILE)
  K_DROPLINK,    // silent link stall / partition
  K_BUFSZ,       // socket buffer size
  K_DNSFAIL,     // resolver failure
  K_OPENFAIL,    // file open failure
  K_STATFAIL,    // fstat failure
  K_MMAPFAIL,    // mmap failure
  K_IOFAIL,      // read/write error on a file
  K_NOSPACE,     // disk full
  K_TMPFAIL,     // temp file creation fails
  K_ALLOCFAIL,   // memory allocation fails
  K_CLOSEFAIL,   // close reports an error
  K_CUT,         // harness-level truncation of a stream
  K_CORRUPT,     // harness-level corruption
  K_DBFAIL,      // database client library call fails
  K_CRASH,       // server/db crash
  K_CLOCKJUMP,   // wall clock jumps
  K_CLOSERACE,   // misc.
  K_MAX
};
extern const char *kind_name[K_MAX];

// ---- decisions -----------------------------------------------------------
uint32_t choose(Kind k, uint32_t n);       // uniform in [0,n); default 0
bool chance(Kind k, double p);             // true with probability p; default false
inline uint32_t rnd(uint32_t n) { return choose(K_WORK, n); }
inline bool coin() { return choose(K_WORK, 2) == 1; }

// swarm configuration, drawn per run (generation mode only)
void enable(Kind k, double scale);         // scale for chance(k,..); 0 = off
void faults_off();                         // from now on no fault fires
void faults_on();
uint64_t fault_count(Kind k);              // faults of this kind fired in this run

// ---- time ----------------------------------------------------------------
int64_t now();                             // virtual ns since start of the run
double now_s();
void sleep_ns(int64_t ns);                 // harness sleep (virtual)
void clock_jump(int64_t ns);               // shift the wall clock
bool stalled();                            // did any stall happen so far?
int64_t stall_total();

// ---- threads -------------------------------------------------------------
typedef int Tid;
Tid self();
Tid go(const std::function<void()> &f);    // start a harness thread (never fails)
void join(Tid t);
void join_all();                           // every thread started with go()
bool finished(Tid t);
int unreaped();                            // threads created by the code under test that ended, not joined and not detached
void wait_quiescent();                     // until nothing else can ever move
int live_threads();                        // threads (of any origin) not finished
std::string blocked();                    // what the live threads wait for
bool blocked(Tid t);                       // not runnable
void yield();
// event the harness can block on, outside the code under test
struct Event { bool set_; Event() : set_(false) {} void set(); void wait(); };

struct Atomic { Atomic(); ~Atomic(); };    // no preemption inside

// ---- results -------------------------------------------------------------
[[noreturn]] void fail(const char *id, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(c, id, ...) do { if (!(c)) ::sim::fail(id, __VA_ARGS__); } while (0)
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void cover(uint64_t key);                  // a state / situation reached
uint64_t hash_str(const std::string &s);
void note(uint64_t v);                     // mix into the run's trace hash
[[noreturn]] void done();                  // end the run here, successfully
void set_hang_id(const char *id, const char *detail);  // what a hang means now

// ---- memory --------------------------------------------------------------
uint64_t live_blocks();                    // live heap blocks of the run
uint64_t live_bytes();
uint64_t max_alloc();                      // biggest single request so far
void reset_max_alloc();
void alloc_limit(uint64_t bytes);          // single allocations above fail
void fail_allocs(bool on);                 // let K_ALLOCFAIL fire in this thread
uint64_t heap_peak();                      // total bytes handed out so far

// ---- scenarios -----------------------------------------------------------
struct Scenario { const char *prop; const char *name; void (*fn)(); int weight; };
void add_scenario(const Scenario &s);
struct Reg { Reg(const char *p, const char *n, void (*fn)(), int w) { Scenario s = {p, n, fn, w}; add_scenario(s); } };
#define SCENARIO(prop, name, weight) \
  static void scen_##prop##_##name(); \
  static ::sim::Reg reg_##prop##_##name(#prop, #name, scen_##prop##_##name, weight); \
  static void scen_##prop##_##name()

// ---- scheduling profile ----------------------------------------------------
void no_mem_preempt();                     // only preempt at intercepted calls

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
}
#endif
