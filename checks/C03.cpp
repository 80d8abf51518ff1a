// C03: read-write lock.
#include "../sim/sim.h"
#include "concurrent/rwmutex.h"
using namespace pfi::concurrent;
namespace {
const int64_t TOL = 5000;
struct Data {
  int readers, writers; long a, b; uint64_t w_epoch;
  Data() : readers(0), writers(0), a(0), b(0), w_epoch(0) {}
  void r_in() { { sim::Atomic x; readers++; SIM_CHECK(writers == 0, "reader-with-writer", "a reader is inside while a writer is inside"); }
    long p = a, q = b; sim::yield(); SIM_CHECK(p == q && p == a && q == b, "torn-read", "a reader sees the data change or half changed"); }
  void r_out() { sim::Atomic x; SIM_CHECK(writers == 0, "reader-with-writer", "a writer entered while a reader was inside"); readers--; }
  void w_in() { { sim::Atomic x; writers++; SIM_CHECK(writers == 1, "two-writers", "two writers inside"); SIM_CHECK(readers == 0, "reader-with-writer", "a writer entered while %d readers are inside", readers); }
    a = a + 1; sim::yield(); b = b + 1; }
  void w_out() { sim::Atomic x; SIM_CHECK(writers == 1 && readers == 0, "reader-with-writer", "somebody entered while a writer was inside"); writers--; }
};
struct Boom {};
SCENARIO(C03, mixed, 5) {
  sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  rw_mutex m; Data d; int nt = 2 + sim::rnd(4), per = 1 + sim::rnd(5); long writes = 0;
  sim::set_hang_id("rwlock-hang", "a read-write lock that gets released is never acquired:");
  struct Op { int how; double sec; };
  static const double secs[] = {0.0, 0.001, 0.02, -1.0, 1e-10};
  std::vector<std::vector<Op> > plan(nt);
  for (int t = 0; t < nt; t++) for (int i = 0; i < per; i++) { Op o = {(int)sim::rnd(15), secs[sim::rnd(5)]}; plan[t].push_back(o); }
  for (int t = 0; t < nt; t++) sim::go([&, t] {
    for (size_t i = 0; i < plan[t].size(); i++) {
      double sec = plan[t][i].sec; bool got = true, w = false;
      switch (plan[t][i].how) {
        case 0: case 1: SIM_CHECK(m.read_lock(), "lock-false", "read_lock() returned false"); d.r_in(); d.r_out(); SIM_CHECK(m.unlock(), "unlock-false", "unlock of a read lock returned false"); break;
        case 2: case 3: SIM_CHECK(m.write_lock(), "lock-false", "write_lock() returned false"); d.w_in(); w = true; d.w_out(); SIM_CHECK(m.unlock(), "unlock-false", "unlock of a write lock returned false"); break;
        case 4: got = m.read_lock(sec); if (got) { d.r_in(); d.r_out(); SIM_CHECK(m.unlock(), "unlock-false", "unlock returned false"); } break;
        case 5: got = m.write_lock(sec); if (got) { d.w_in(); w = true; d.w_out(); SIM_CHECK(m.unlock(), "unlock-false", "unlock returned false"); } break;
        case 6: { scoped_rlock l(m); SIM_CHECK(l.locked() && l, "lock-false", "scoped_rlock not acquired"); d.r_in(); d.r_out(); break; }
        case 7: { scoped_wlock l(m); SIM_CHECK(l.locked() && l, "lock-false", "scoped_wlock not acquired"); d.w_in(); w = true; d.w_out(); break; }
        case 8: { scoped_rlock l(m, sec < 0 ? 0 : sec); got = l.locked(); if (got) { d.r_in(); d.r_out(); } break; }
        case 9: { scoped_wlock l(m, sec < 0 ? 0 : sec); got = l.locked(); if (got) { d.w_in(); w = true; d.w_out(); } break; }
        case 10: { synchronized(rlock(m)) { d.r_in(); d.r_out(); } break; }
        case 11: { synchronized(wlock(m)) { d.w_in(); w = true; d.w_out(); } break; }
        case 12: { scoped_lock l(rlock(m, sec)); got = l.locked(); if (got) { d.r_in(); d.r_out(); } break; }
        case 14: { scoped_lock l(wlock(m, sec)); got = l.locked(); if (got) { d.w_in(); w = true; d.w_out(); } break; }
        case 13: try { scoped_lock l(wlock(m)); d.w_in(); w = true; d.w_out(); throw Boom(); } catch (Boom &) {} break;
      }
      if (w) { sim::Atomic a; writes++; }
    }
  });
  sim::join_all();
  SIM_CHECK(d.a == writes && d.b == writes, "lost-update", "%ld/%ld of %ld writes visible", d.a, d.b, writes);
  SIM_CHECK(m.write_lock(0.0), "lock-leaked", "after every holder released, a write attempt fails");
  SIM_CHECK(m.unlock(), "unlock-false", "unlock false");
  sim::cover(nt * 100 + per);
}
// readers share
SCENARIO(C03, shared, 2) {
  rw_mutex m; int n = 2 + sim::rnd(3), in = 0; std::vector<int> how(n); for (int i = 0; i < n; i++) how[i] = sim::rnd(4);
  sim::Event all;
  sim::set_hang_id("readers-exclude", "readers exclude each other although nobody writes:");
  for (int i = 0; i < n; i++) sim::go([&, i] {
    bool ok = how[i] == 0 ? m.read_lock() : how[i] == 1 ? m.read_lock(5.0) : how[i] == 2 ? m.read_lock(0.0) : m.read_lock(-2.0);
    SIM_CHECK(ok, "read-refused", "a read attempt (form %d) fails although only readers are there", how[i]);
    bool last; { sim::Atomic a; last = ++in == n; }
    if (last) all.set();
    all.wait();
    SIM_CHECK(m.unlock(), "unlock-false", "unlock false");
  });
  sim::join_all();
}
// timed attempts against a holder
SCENARIO(C03, timed, 4) {
  sim::enable(sim::K_STALL, 0);
  rw_mutex m; bool hold_w = sim::coin(), want_w = hold_w ? sim::coin() : true;
  static const double secs[] = {0.05, 0.0, -1.0, 1e-10, 0.001, 0.25, 1.75, 0.9999999};
  double sec = secs[sim::rnd(8)]; int64_t want = sec > 0 ? (int64_t)(sec * 1e9) : 0;
  static const int64_t pct[] = {0, 20, 90, 110, 300}; int64_t hold = want * pct[sim::rnd(5)] / 100; bool forever = sim::rnd(3) == 0;
  sim::Event held, rel; bool released = false, is_free = false; int64_t rel_at = -1; int via_scoped = sim::rnd(3);
  sim::sleep_ns(sim::rnd(1000000));
  sim::set_hang_id("timed-lock-hangs", "a timed lock attempt does not return:");
  sim::go([&] {
    SIM_CHECK(hold_w ? m.write_lock() : m.read_lock(), "lock-false", "lock false");
    held.set();
    if (forever) rel.wait(); else sim::sleep_ns(hold);
    { sim::Atomic a; released = true; }
    SIM_CHECK(m.unlock(), "unlock-false", "unlock false");
    { sim::Atomic a; is_free = true; rel_at = sim::now(); }
  });
  sim::go([&] {
    held.wait();
    int64_t t0 = sim::now(); bool r, rb;
    { sim::Atomic a; rb = is_free; }
    if (via_scoped == 2) { if (want_w) { scoped_lock l(wlock(m, sec)); r = l; } else { scoped_lock l(rlock(m, sec)); r = l; } }
    else if (via_scoped && sec >= 0) { if (want_w) { scoped_wlock l(m, sec); r = l; } else { scoped_rlock l(m, sec); r = l; } }
    else { r = want_w ? m.write_lock(sec) : m.read_lock(sec); if (r) SIM_CHECK(m.unlock(), "unlock-false", "unlock false"); }
    int64_t t1 = sim::now(); sim::Atomic a;
    if (!r) {
      SIM_CHECK(t1 - t0 >= want - TOL, "early-timeout", "timed attempt of %g s gave up after %.9f s", sec, (t1 - t0) / 1e9);
      SIM_CHECK(t1 - t0 <= want + 1000000, "late-timeout", "timed attempt of %g s returned after %.9f s", sec, (t1 - t0) / 1e9);
      SIM_CHECK(!rb, "refused-free", "the lock was free, but a timed attempt of %g s failed", sec);
      SIM_CHECK(!(rel_at >= 0 && rel_at + 200000 < t0 + want), "missed-release", "the lock was released %.6f s before the attempt's deadline, but the attempt failed", (t0 + want - rel_at) / 1e9);
    } else SIM_CHECK(released, "acquired-held", "a timed attempt (%s) succeeded while a conflicting holder is inside", want_w ? "write" : "read");
    rel.set();
  });
  sim::join_all();
  SIM_CHECK(m.write_lock(0.0) && m.unlock(), "lock-leaked", "lock not free at the end");
  sim::cover(sim::hash_str(sim::fmt("%g %d %d %d %d", sec, hold_w, want_w, forever, (int)(hold / 1000))));
}
// uncontended attempts succeed, whatever the timeout
SCENARIO(C03, free, 1) {
  rw_mutex m; static const double secs[] = {0.0, -1.0, 1e-10, 5e-10, 1e-9, 0.001, 3.5, 100.0};
  for (int i = 0; i < 8; i++) {
    double s = secs[sim::rnd(8)]; int64_t t0 = sim::now();
    SIM_CHECK(m.read_lock(s), "refused-free", "read_lock(%g) fails on a free lock", s);
    SIM_CHECK(!m.write_lock(0.0) || false, "acquired-held", "write_lock succeeds while a read lock is held");
    SIM_CHECK(m.unlock(), "unlock-false", "unlock false");
    SIM_CHECK(m.write_lock(s), "refused-free", "write_lock(%g) fails on a free lock", s);
    SIM_CHECK(m.unlock(), "unlock-false", "unlock false");
    SIM_CHECK(sim::now() - t0 < 1000000, "late", "attempts on a free lock take time");
  }
}
// a waiting writer gets in although readers keep coming
SCENARIO(C03, writer_progress, 1) {
  rw_mutex m; int nr = 2 + sim::rnd(2); bool wrote = false, stop = false; int reads_after = 0; bool waiting = false;
  sim::enable(sim::K_STALL, 0);
  int rounds = 40;
  for (int r = 0; r < nr; r++) sim::go([&, r] {
    sim::sleep_ns(1000000 * r / nr + 1);
    for (int i = 0; i < rounds; i++) {
      SIM_CHECK(m.read_lock(), "lock-false", "lock false");
      { sim::Atomic a; if (waiting && !wrote) reads_after++; }
      sim::sleep_ns(2000000);
      m.unlock();
      sim::sleep_ns(1000);
    }
    sim::Atomic a; stop = true;
  });
  sim::go([&] {
    sim::sleep_ns(5000000 + sim::rnd(5) * 700000);
    { sim::Atomic a; waiting = true; }
    SIM_CHECK(m.write_lock(), "lock-false", "lock false");
    { sim::Atomic a; SIM_CHECK(!stop, "writer-starved", "the writer only got the lock after the readers were done"); wrote = true; }
    m.unlock();
  });
  sim::join_all();
  SIM_CHECK(reads_after <= 3 * nr, "writer-starved", "%d reads were admitted while a writer was waiting", reads_after);
}
}
