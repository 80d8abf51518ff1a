// C02: condition variables.
#include "../sim/sim.h"
#include "concurrent/mutex.h"
#include "concurrent/lock.h"
#include "concurrent/condition.h"
using namespace pfi::concurrent;
namespace {
const int64_t TOL = 5000;   // 5 us: microsecond clock plus double rounding

// tokens: every notified waiter eventually gets its token; nobody is forgotten
template <class M>
void tokens(bool rec) {
  bool stall = sim::coin();
  sim::enable(sim::K_STALL, stall ? 1 : 0);
  M m; condition c;
  int nw = 1 + sim::rnd(4), style = sim::rnd(4); bool all = style & 1, inside = style & 2;
  int nn = 1 + sim::rnd(3), timed = sim::rnd(3);
  int tokens = 0, got = 0, in = 0, depthmax = rec ? 3 : 1;
  std::vector<int> depth(nw); for (int i = 0; i < nw; i++) depth[i] = 1 + sim::rnd(depthmax);
  if (rec && sim::rnd(10) == 0) { static const int deep[] = {100, 130, 256, 257, 300, 600}; depth[sim::rnd(nw)] = deep[sim::rnd(6)]; }
  sim::set_hang_id("lost-wakeup", "a waiter is never woken although its condition holds:");
  for (int w = 0; w < nw; w++) sim::go([&, w] {
    for (int i = 0; i < depth[w]; i++) SIM_CHECK(m.lock(), "lock-false", "lock() false");
    { sim::Atomic a; SIM_CHECK(++in == 1, "two-inside", "two threads hold the mutex"); }
    while (tokens == 0) {
      { sim::Atomic a; --in; }
      if (timed == 2 && (w & 1)) c.wait(m, 0.003); else c.wait(m);
      { sim::Atomic a; SIM_CHECK(++in == 1, "two-inside", "a waiter returned from wait() while another thread holds the mutex"); }
    }
    int t = tokens; sim::yield(); tokens = t - 1; got++;
    // still held as deep as before
    for (int i = 0; i < depth[w]; i++) {
      if (i == depth[w] - 1) { sim::Atomic a; --in; }
      else if (i < 4) sim::yield();
      SIM_CHECK(m.unlock(), "depth-lost", "after wait() the mutex is not held as deep as before (unlock %d of %d failed)", i + 1, depth[w]);
    }
    if (rec) SIM_CHECK(!m.unlock(), "depth-grown", "after wait() the mutex is held deeper than before");
  });
  // nw tokens handed out by nn notifiers; each hand-out is notified once
  std::vector<int> share(nn, nw / nn); for (int i = 0; i < nw % nn; i++) share[i]++;
  for (int n = 0; n < nn; n++) sim::go([&, n] {
    for (int i = 0; i < share[n]; i++) {
      SIM_CHECK(m.lock(), "lock-false", "lock() false");
      { sim::Atomic a; SIM_CHECK(++in == 1, "two-inside", "two threads hold the mutex"); }
      int t = tokens; sim::yield(); tokens = t + 1;
      if (inside) { if (all) c.notify_all(); else c.notify(); }
      { sim::Atomic a; --in; }
      SIM_CHECK(m.unlock(), "unlock-false", "unlock() false");
      if (!inside) { if (all) c.notify_all(); else c.notify(); }
    }
  });
  sim::join_all();
  SIM_CHECK(got == nw && tokens == 0, "tokens", "%d of %d waiters served, %d tokens left", got, nw, tokens);
  sim::cover(nw * 1000 + style * 100 + nn * 10 + rec);
}
SCENARIO(C02, tokens_plain, 3) { tokens<mutex>(false); }
SCENARIO(C02, tokens_recursive, 3) { tokens<r_mutex>(true); }

// one notify_all releases everybody that waits
template <class M> void gate() {
  sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  M m; condition c; bool open = false; int nw = 1 + sim::rnd(5), out = 0, waiting = 0;
  sim::set_hang_id("lost-wakeup", "notify_all left a waiter behind:");
  for (int w = 0; w < nw; w++) sim::go([&, w] { scoped_lock l(m); waiting++; while (!open) c.wait(m); out++; });
  sim::go([&] {
    if (sim::coin()) { for (;;) { { scoped_lock l(m); if (waiting == nw) break; } sim::sleep_ns(1000); } }
    { scoped_lock l(m); open = true; }
    c.notify_all();
  });
  sim::join_all();
  SIM_CHECK(out == nw, "gate", "%d of %d", out, nw);
}
SCENARIO(C02, gate_plain, 2) { gate<mutex>(); }
SCENARIO(C02, gate_recursive, 2) { gate<r_mutex>(); }

// waiting on a mutex the caller does not hold has no effect and does not block
template <class M> void unheld(bool rec) {
  M m; condition c; int mode = sim::rnd(3);
  sim::set_hang_id("unheld-wait-blocks", "waiting on a mutex that the caller does not hold must not block:");
  bool inside = false; sim::Event ready, rel, held; int before = sim::rnd(2), deep = rec ? 1 + sim::rnd(3) : 1;
  if (mode > 0) sim::go([&] { if (before == 1) held.wait(); scoped_lock l(m); { sim::Atomic a; inside = true; } ready.set(); if (mode == 2) sim::sleep_ns(2000000); else rel.wait(); { sim::Atomic a; inside = false; } });
  sim::go([&] {
    if (before == 1) { for (int i = 0; i < deep; i++) m.lock(); for (int i = 0; i < deep; i++) m.unlock(); held.set(); }    // held once, not any more
    if (mode > 0) ready.wait();
    if (sim::coin()) c.wait(m); else SIM_CHECK(!c.wait(m, 0.5), "unheld-timed", "timed wait on a mutex that is not held returned true");
    rel.set();
  });
  int extra = 0;
  sim::go([&] { if (mode > 0) ready.wait(); scoped_lock l(m); sim::Atomic a; SIM_CHECK(!inside, "two-inside", "waiting on a mutex that was not held broke its exclusion"); extra++; });
  sim::join_all();
  SIM_CHECK(m.lock(), "lock-false", "mutex unusable"); SIM_CHECK(m.unlock(), "unlock-false", "mutex unusable");
}
SCENARIO(C02, unheld_plain, 1) { unheld<mutex>(false); }
SCENARIO(C02, unheld_recursive, 1) { unheld<r_mutex>(true); }

// timed waits
template <class M> void timed(bool rec) {
  sim::enable(sim::K_SPURIOUS, 0);
  sim::enable(sim::K_STALL, 0);
  static const double secs[] = {0.05, 0.001, 0.0, -1.0, 0.25, 1.5, 0.999999, 2.0, 0.0000005, 3600.5};
  M m; condition c; double sec = secs[sim::rnd(10)];
  int64_t want = sec > 0 ? (int64_t)(sec * 1e9) : 0;
  int mode = sim::rnd(4);      // 0 nobody notifies, 1 notify at some time, 2 notify_all, 3 other threads just take the mutex
  int64_t at = 0; if (mode == 1 || mode == 2) { static const int64_t f[] = {0, 1, 5, 9, 10, 11, 15}; at = want / 10 * f[sim::rnd(7)]; }
  int depth = rec ? 1 + sim::rnd(3) : 1, nw = mode == 2 ? 1 + sim::rnd(3) : 1; bool in = false;
  sim::set_hang_id("timed-wait-hangs", "a timed wait does not return:");
  // touch the clock at a sub-microsecond phase
  sim::sleep_ns(sim::rnd(10) * 137 * 1000 + sim::rnd(1000));
  int64_t start = sim::now(); int64_t notified_at = -1;
  int waiting = 0;
  for (int w = 0; w < nw; w++) sim::go([&] {
    for (int i = 0; i < depth; i++) m.lock();
    { sim::Atomic a; waiting++; in = true; }
    int64_t t0 = sim::now();
    { sim::Atomic a; in = false; }
    bool r = c.wait(m, sec);
    int64_t t1 = sim::now();
    { sim::Atomic a; SIM_CHECK(!in, "two-inside", "timed wait returned without the mutex"); in = true; }
    sim::yield();
    { sim::Atomic a;
      sim::log("wait(%g) -> %d after %lld ns", sec, r, (long long)(t1 - t0));
      if (!r) SIM_CHECK(t1 - t0 >= want - TOL, "early-timeout", "timed wait of %g s gave up after %.9f s", sec, (t1 - t0) / 1e9);
      if (mode == 0 || mode == 3) {
        SIM_CHECK(!r, "timeout-not-reported", "nobody notified, but a timed wait of %g s returned true", sec);
        SIM_CHECK(t1 - t0 <= want + 2000000, "late-timeout", "timed wait of %g s returned after %.9f s", sec, (t1 - t0) / 1e9);
      } else {
        if (r) SIM_CHECK(notified_at >= 0, "wakeup-from-nowhere", "timed wait returned true before any notification");
        else SIM_CHECK(t1 - t0 <= want + 2000000, "late-timeout", "timed wait of %g s returned after %.9f s", sec, (t1 - t0) / 1e9);
        // it was waiting, the notification came clearly before the deadline: it must be reported as such
        if (!r && notified_at >= 0 && nw == waiting) SIM_CHECK(notified_at + 100000 >= t0 + want || notified_at < t0 + 100000, "missed-notify", "notified %.6f s into a wait of %g s, but the wait timed out", (notified_at - t0) / 1e9, sec);
      }
      in = false; }
    for (int i = 0; i < depth; i++) SIM_CHECK(m.unlock(), "depth-lost", "after a timed wait the mutex is not held as before");
    if (rec) SIM_CHECK(!m.unlock(), "depth-grown", "after a timed wait the mutex is held deeper than before");
  });
  if (mode == 1 || mode == 2) sim::go([&] {
    sim::sleep_ns(at + 1);
    scoped_lock l(m);
    { sim::Atomic a; notified_at = sim::now(); }
    if (mode == 1) c.notify(); else c.notify_all();
  });
  if (mode == 3) sim::go([&] { for (int i = 0; i < 4; i++) { scoped_lock l(m); { sim::Atomic a; SIM_CHECK(!in, "two-inside", "two threads hold the mutex"); in = true; } sim::yield(); { sim::Atomic a; in = false; } } });
  sim::join_all();
  (void)start;
  sim::cover(sim::hash_str(sim::fmt("%g %d %d", sec, mode, (int)(at / 1000))));
}
SCENARIO(C02, timed_plain, 2) { timed<mutex>(false); }
SCENARIO(C02, timed_recursive, 2) { timed<r_mutex>(true); }
}
