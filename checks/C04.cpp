// C04: thread life cycle.
#include "../sim/sim.h"
#include <set>
#include <stdexcept>
#include "concurrent/thread.h"
#include "lang/bind.h"
using pfi::concurrent::thread;
using pfi::lang::function;
namespace {
const int64_t TOL = 5000;
struct Payload {          // state captured by the started function, to see use after destruction
  std::vector<int> v; std::string tag; static int live;
  Payload() : v(4, 42), tag("payload-that-does-not-fit-in-place") { count(1); }
  static void count(int d) { sim::Atomic a; live += d; }
  Payload(const Payload &o) : v(o.v), tag(o.tag) { count(1); }
  ~Payload() { count(-1); v[0] = -1; tag.clear(); }
  bool ok() const { return v.size() == 4 && v[0] == 42 && v[3] == 42 && tag == "payload-that-does-not-fit-in-place"; }
};
int Payload::live = 0;
struct Shared { int runs; int done; long sum; thread::tid_t ids[64]; int nid; int64_t dur; int active; };
struct Body {
  Payload p; Shared *s; int64_t dur;
  void operator()() {
    { sim::Atomic a; s->runs++; s->active++; s->ids[s->nid++ % 64] = thread::id(); }
    SIM_CHECK(p.ok(), "body-state", "the started function sees destroyed state");
    if (dur) sim::sleep_ns(dur); else sim::yield();
    SIM_CHECK(p.ok(), "body-state", "the started function sees state destroyed while it runs");
    s->sum += 5;
    { sim::Atomic a; s->done++; s->active--; }
  }
};
// one owner drives a thread object through a random sequence of operations
void drive(int rounds, bool fail, bool stall) {
  sim::enable(sim::K_THREADFAIL, fail ? 2 : 0); sim::enable(sim::K_STALL, stall ? 1 : 0); sim::enable(sim::K_EINTR, 0);
  static const int64_t durs[] = {0, 1000, 1000000, 20000000};
  for (int r = 0; r < rounds; r++) {
    Shared *sh = new Shared(); Body b; b.s = sh; b.dur = durs[sim::rnd(4)];
    int starts = 0, expect_done = 0; bool running = false; bool detached_any = false;
    {
      thread *t = new thread(b);
      int nops = 1 + sim::rnd(6);
      for (int i = 0; i < nops; i++) {
        switch (sim::rnd(5)) {
          case 0: case 1: {
            uint64_t f0 = sim::fault_count(sim::K_THREADFAIL);
            bool ok = t->start();
            bool failed = sim::fault_count(sim::K_THREADFAIL) > f0;
            if (running) SIM_CHECK(!ok, "double-start", "start() of a thread that is already started returned true");
            else if (failed) SIM_CHECK(!ok, "failed-start", "start() returned true although the system refused to create a thread");
            else SIM_CHECK(ok, "start-refused", "start() returned false although the thread was not running (started %d times before)", starts);
            if (ok) { starts++; running = true; }
            break;
          }
          case 2: {
            int d0 = sh->done;
            bool ok = t->join();
            if (!running) SIM_CHECK(!ok, "join-not-running", "join() returned true without a started thread");
            else { SIM_CHECK(ok, "join-false", "join() of a started thread returned false"); running = false; expect_done++;
              sim::Atomic a; SIM_CHECK(sh->done >= d0 && sh->done >= 1, "join-early", "join() returned before the thread's function returned");
              if (!detached_any) SIM_CHECK(sh->done == starts && sh->sum == 5L * starts, "join-early", "join() returned before the thread's function had finished (%d of %d, sum %ld)", sh->done, starts, sh->sum); }
            break;
          }
          case 3: t->detach(); if (running) { detached_any = true; running = false; SIM_CHECK(!t->join(), "join-detached", "join() after detach() returned true"); } break;
          case 4: sim::sleep_ns(500000); break;
        }
      }
      delete t;           // a started thread must keep running
      sim::yield();
    }
    sim::wait_quiescent();
    SIM_CHECK(sh->runs == starts, "run-count", "the function ran %d times for %d successful start()s", sh->runs, starts);
    SIM_CHECK(sh->done == starts, "run-unfinished", "%d of %d started functions finished", sh->done, starts);
    for (int i = 0; i < starts && i < 64; i++) SIM_CHECK(sh->ids[i] != thread::id(), "same-thread", "the function ran in the caller's thread");
    SIM_CHECK(sim::unreaped() == 0, "thread-leak", "%d threads of a destroyed thread object ended without being joined or detached", sim::unreaped());
    SIM_CHECK(Payload::live == 1, "function-leak", "%d copies of the started function left (1 is the test's own)", Payload::live);
    sim::cover(starts * 100 + fail * 10 + detached_any);
  }
}
SCENARIO(C04, lifecycle, 4) { drive(1 + sim::rnd(3), false, sim::coin()); }
SCENARIO(C04, create_fails, 3) { drive(1 + sim::rnd(3), true, false); }

// many threads at once: ids are unique, joins wait, effects visible
SCENARIO(C04, fleet, 3) {
  int n = 2 + sim::rnd(5); std::vector<thread *> ts; std::vector<long> out(n, 0); std::set<thread::tid_t> ids; std::vector<thread::tid_t> mine(n, 0), again(n, 0);
  int alive = 0; sim::Event all; bool together = sim::coin();
  for (int i = 0; i < n; i++) ts.push_back(new thread([&, i] {
    mine[i] = thread::id(); bool last; { sim::Atomic a; last = ++alive == n; }
    if (together) { if (last) all.set(); all.wait(); }
    long x = 0; for (int k = 0; k < 5; k++) { x += i + k; thread::yield(); }
    again[i] = thread::id();
    out[i] = x;
  }));
  sim::set_hang_id("thread-hang", "started threads do not all run:");
  for (int i = 0; i < n; i++) SIM_CHECK(ts[i]->start(), "start-refused", "start() returned false");
  thread::tid_t self = thread::id();
  std::vector<int> order; for (int i = 0; i < n; i++) order.insert(order.begin() + sim::rnd(i + 1), i);
  for (int k = 0; k < n; k++) {
    int i = order[k];
    SIM_CHECK(ts[i]->join(), "join-false", "join() returned false");
    SIM_CHECK(out[i] == 5L * i + 10, "join-early", "join() returned but the thread's result is not there");
    SIM_CHECK(mine[i] == again[i], "id-changed", "a thread's id changed");
    SIM_CHECK(mine[i] != self && ids.insert(mine[i]).second, "id-shared", "two threads alive at the same time have the same id");
    SIM_CHECK(!ts[i]->join(), "join-twice", "second join() returned true");
    delete ts[i];
  }
}
// thread with no function
SCENARIO(C04, misc, 1) {
  function<void()> none; thread t(none); SIM_CHECK(!t.start(), "empty-start", "start() of a thread without a function returned true"); SIM_CHECK(!t.join(), "join-not-running", "join() returned true");
  t.detach();
  // a thread cannot join itself, and stays joinable by others
  thread *p = NULL; bool self_join = true; int ran = 0; sim::Event set;
  p = new thread([&] { set.wait(); self_join = p->join(); ran++; });
  SIM_CHECK(p->start(), "start-refused", "start false"); set.set();
  sim::wait_quiescent();
  SIM_CHECK(!self_join && ran == 1, "self-join", "a thread joined itself");
  SIM_CHECK(p->join(), "join-false", "join after a failed self-join returned false");
  delete p;
}
SCENARIO(C04, sleep, 2) {
  bool intr = sim::coin(); sim::enable(sim::K_EINTR, intr ? 2 : 0); sim::enable(sim::K_STALL, 0);
  static const double secs[] = {0.0, 0.001, 0.5, 1.0, 2.25, 0.999999999, -1.0, 1e-9, 10.75};
  for (int i = 0; i < 5; i++) {
    double s = secs[sim::rnd(9)]; int64_t want = s > 0 ? (int64_t)(s * 1e9) : 0; uint64_t f0 = sim::fault_count(sim::K_EINTR);
    int64_t t0 = sim::now(); bool r = thread::sleep(s); int64_t el = sim::now() - t0; bool hit = sim::fault_count(sim::K_EINTR) > f0;
    if (r) SIM_CHECK(el >= want - 10, "sleep-short", "sleep(%g) returned true after %.9f s", s, el / 1e9);
    if (!hit) { SIM_CHECK(r, "sleep-false", "sleep(%g) returned false without an interruption", s); SIM_CHECK(el <= want + 1000000, "sleep-long", "sleep(%g) took %.9f s", s, el / 1e9); }
    if (hit && el < want - 10) SIM_CHECK(!r, "sleep-interrupted", "an interrupted sleep(%g) returned true after %.9f s", s, el / 1e9);
  }
}
}
