// C01: mutual exclusion of mutex / r_mutex, recursion, scoped release.
#include "../sim/sim.h"
#include <stdexcept>
#include "concurrent/mutex.h"
#include "concurrent/lock.h"
#include "concurrent/qsem.h"
using namespace pfi::concurrent;
namespace {
struct Section {           // what the lock protects, with plain (racy if unprotected) accesses
  int inside; long a, b; int owner;
  Section() : inside(0), a(0), b(0), owner(-1) {}
  void enter() {
    int in; { sim::Atomic x; in = ++inside; owner = sim::self(); }
    SIM_CHECK(in == 1, "two-inside", "%d threads are inside sections guarded by one mutex", in);
    SIM_CHECK(a == b, "torn", "a section sees a half-done update of an earlier section (%ld,%ld)", a, b);
    a = a + 1;
    if (a % 3 == 0) sim::yield();
    b = b + 1;
  }
  void leave() { sim::Atomic x; SIM_CHECK(inside == 1 && owner == sim::self(), "two-inside", "another thread entered the guarded section"); --inside; }
};
struct Guard { Section &s; Guard(Section &s) : s(s) { s.enter(); } ~Guard() { s.leave(); } };
struct Boom {};

int by_return(mutex_base &m, Section &s, int how) {
  synchronized(m) { Guard g(s); if (how) return 7; }
  return 8;
}

template <class M>
void one_op(M &m, Section &s, int how, int depth, bool rec) {
  switch (how) {
    case 0: SIM_CHECK(m.lock(), "lock-false", "lock() returned false"); { Guard g(s); } SIM_CHECK(m.unlock(), "unlock-false", "unlock() by the holder returned false"); break;
    case 1: { scoped_lock l(m); SIM_CHECK(l.locked() && l, "lock-false", "scoped_lock did not acquire"); Guard g(s); break; }
    case 2: { bool in = false; synchronized(m) { Guard g(s); in = true; } SIM_CHECK(in, "sync-skipped", "synchronized body did not run"); break; }
    case 3: try { scoped_lock l(m); Guard g(s); throw Boom(); } catch (Boom &) {} break;
    case 4: { int r = by_return(m, s, depth); SIM_CHECK(r == (depth ? 7 : 8), "sync-skipped", "synchronized body did not run"); break; }
    case 5: for (int i = 0; i < 2; i++) { synchronized(m) { Guard g(s); if (depth & 1) break; } } break;
    case 6:
      if (!rec) { synchronized(m) { Guard g(s); } break; }
      for (int i = 0; i <= depth; i++) SIM_CHECK(m.lock(), "lock-false", "recursive lock() returned false");
      { s.enter();
        for (int i = 0; i < depth; i++) { SIM_CHECK(m.unlock(), "unlock-false", "inner unlock() returned false"); sim::yield(); if (i & 1) { SIM_CHECK(m.lock(), "lock-false", "recursive re-lock returned false"); SIM_CHECK(m.unlock(), "unlock-false", "unlock() returned false"); } }
        s.leave(); }
      SIM_CHECK(m.unlock(), "unlock-false", "outer unlock() returned false");
      break;
    case 7:
      if (!rec) { scoped_lock l(m); Guard g(s); break; }
      { scoped_lock l1(m); scoped_lock l2(m); Guard g(s); try { scoped_lock l3(m); throw Boom(); } catch (Boom &) {} sim::yield(); }
      break;
  }
}

template <class M>
void contention(bool rec) {
  sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  M m; Section s;
  int nt = 2 + sim::rnd(3), per = 1 + sim::rnd(5);
  struct Op { int how, depth; };
  std::vector<std::vector<Op> > plan(nt);
  long expect = 0;
  for (int t = 0; t < nt; t++) for (int i = 0; i < per; i++) { Op o = {(int)sim::rnd(8), (int)sim::rnd(4)}; plan[t].push_back(o); expect += (o.how == 5 && !(o.depth & 1)) ? 2 : 1; }
  bool foreign = rec && sim::coin();
  sim::set_hang_id("lock-hang", "a free or released mutex is never acquired:");
  for (int t = 0; t < nt; t++) sim::go([&, t] {
    for (size_t i = 0; i < plan[t].size(); i++) {
      one_op(m, s, plan[t][i].how, plan[t][i].depth, rec);
      // a thread that does not hold a recursive mutex cannot release it
      if (foreign) SIM_CHECK(!m.unlock(), "foreign-unlock", "unlock() by a thread that does not hold the recursive mutex returned true");
    }
  });
  sim::join_all();
  SIM_CHECK(s.a == expect && s.b == expect, "lost-update", "%ld and %ld updates counted, %ld made", s.a, s.b, expect);
  // free again
  SIM_CHECK(m.lock() && m.unlock(), "lock-false", "mutex not usable at the end");
  sim::cover(nt * 100 + per * 10 + foreign);
}
SCENARIO(C01, plain, 3) { contention<mutex>(false); }
SCENARIO(C01, recursive, 4) { contention<r_mutex>(true); }

// the holder keeps a recursive mutex until it has unlocked as often as it locked
SCENARIO(C01, depth, 2) {
  r_mutex m; int depth = 1 + sim::rnd(5), others = 1 + sim::rnd(2);
  static const int deep[] = {100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 1025, 33000, 66000};   // beyond any narrow counter
  if (sim::rnd(6) == 0) depth = deep[sim::rnd(sim::rnd(4) ? 11 : 13)];
  bool held = false; sim::Event locked; int got = 0; bool foreign = sim::coin();
  sim::set_hang_id("lock-hang", "a released recursive mutex is never acquired:");
  sim::go([&] {
    for (int i = 0; i < depth; i++) SIM_CHECK(m.lock(), "lock-false", "lock() returned false");
    { sim::Atomic a; held = true; } locked.set();
    for (int i = 0; i < depth; i++) {
      if (depth < 10 || i % (depth / 4) == 0 || i > depth - 3) sim::sleep_ns(1000000);
      if (i == depth - 1) { sim::Atomic a; held = false; }
      SIM_CHECK(m.unlock(), "unlock-false", "unlock %d of %d returned false", i + 1, depth);
    }
    SIM_CHECK(!m.unlock(), "foreign-unlock", "one unlock() more than locks returned true");
  });
  for (int o = 0; o < others; o++) sim::go([&] {
    locked.wait();
    if (foreign) SIM_CHECK(!m.unlock(), "foreign-unlock", "unlock() by a non-holder returned true");
    SIM_CHECK(m.lock(), "lock-false", "lock() returned false");
    { sim::Atomic a; SIM_CHECK(!held, "released-early", "mutex acquired while its holder still has locks to undo (depth %d)", depth); SIM_CHECK(++got >= 1, "x", "x"); }
    SIM_CHECK(m.unlock(), "unlock-false", "unlock() returned false");
  });
  sim::join_all();
  SIM_CHECK(got == others, "lock-hang", "only %d of %d waiters got the mutex", got, others);
}

// scoped locks release exactly what they acquired
struct Fake : lockable {
  int locks, unlocks; bool ok;
  Fake() : locks(0), unlocks(0), ok(true) {}
  bool lock() { locks++; return ok; }
  bool unlock() { unlocks++; return true; }
};
struct Counted : lockable {
  Fake &f; int &dead; Counted(Fake &f, int &d) : f(f), dead(d) {} ~Counted() { dead++; }
  bool lock() { return f.lock(); } bool unlock() { return f.unlock(); }
};
SCENARIO(C01, scoped, 1) {
  for (int round = 0; round < 6; round++) {
    Fake f; f.ok = sim::coin(); int how = sim::rnd(5), body = 0, dead = 0;
    try {
      switch (how) {
        case 0: { scoped_lock l(f); SIM_CHECK(l.locked() == f.ok && (bool)l == f.ok, "scoped-state", "scoped_lock state does not match lock()"); body = f.ok; break; }
        case 1: synchronized(f) { body++; SIM_CHECK(f.unlocks == 0, "early-unlock", "unlocked inside the block"); } break;
        case 2: synchronized(f) { body++; throw Boom(); } break;
        case 3: { scoped_lock l(std::unique_ptr<lockable>(new Counted(f, dead))); SIM_CHECK(l.locked() == f.ok, "scoped-state", "scoped_lock state does not match lock()"); SIM_CHECK(f.unlocks == 0 && dead == 0, "early-unlock", "unlocked inside the scope"); body = f.ok; break; }
        case 4: { scoped_lock l(f); body = f.ok; throw Boom(); }
      }
    } catch (Boom &) {}
    SIM_CHECK(f.locks == 1, "scoped-locks", "%d lock() calls for one scope", f.locks);
    SIM_CHECK(f.unlocks == (f.ok ? 1 : 0), "scoped-unlocks", "%d unlock() calls after a lock() that returned %d (form %d)", f.unlocks, f.ok, how);
    SIM_CHECK((body == 1) == f.ok, "body", "guarded body ran %d times with lock() = %d", body, f.ok);
    if (how == 3) SIM_CHECK(dead == 1, "scoped-owned", "owned lockable destroyed %d times", dead);
  }
}
}
