// C06: timed operations of the producer/consumer buffer.
#include "../sim/sim.h"
#include "concurrent/pcbuf.h"
using pfi::concurrent::pcbuf;
namespace {
const int64_t TOL = 5000, SLACK = 3000000;
static const double secs[] = {0.05, 0.0, -1.0, 0.001, 0.25, 1.0, 2.75, 0.999999, 60.5};
void common() { sim::enable(sim::K_STALL, 0); sim::set_hang_id("timed-op-hangs", "a timed operation does not return:"); sim::sleep_ns(sim::rnd(2000000)); }

// one timed operation; others only disturb (wake it up without making it possible)
SCENARIO(C06, disturbed, 4) {
  common();
  sim::enable(sim::K_SPURIOUS, sim::coin() ? 3 : 0);
  bool is_pop = sim::coin(); double sec = secs[sim::rnd(9)]; int64_t want = sec > 0 ? (int64_t)(sec * 1e9) : 0;
  size_t cap = is_pop ? 1 + sim::rnd(3) : (sim::rnd(4) ? 1 + sim::rnd(2) : 0);
  pcbuf<int> b(cap); if (!is_pop) for (size_t i = 0; i < cap; i++) b.push(100 + i);
  int kind = sim::rnd(4), waiters = 1 + sim::rnd(2); int doneW = 0;
  for (int w = 0; w < waiters; w++) sim::go([&] {
    int v = -7; int64_t t0 = sim::now(); bool r = is_pop ? b.pop(v, sec) : b.push(55, sec); int64_t el = sim::now() - t0;
    sim::Atomic a; doneW++;
    sim::log("%s(%g) -> %d after %lld", is_pop ? "pop" : "push", sec, r, (long long)el);
    if (r) { SIM_CHECK(false, "impossible-success", "a timed %s succeeded on %s buffer", is_pop ? "pop" : "push", is_pop ? "an empty" : "a full"); }
    SIM_CHECK(v == -7, "failed-op-effect", "a timed-out pop wrote the destination");
    SIM_CHECK(el >= want - TOL, "early-timeout", "timed %s of %g s gave up after %.9f s", is_pop ? "pop" : "push", sec, el / 1e9);
    SIM_CHECK(el <= want + SLACK, "late-timeout", "timed %s of %g s gave up only after %.9f s", is_pop ? "pop" : "push", sec, el / 1e9);
  });
  // disturbance: wakeups that leave an empty buffer empty / a full buffer full
  if (kind && want) sim::go([&] {
    for (int i = 0; i < 14 && doneW < waiters; i++) {
      sim::sleep_ns(want / 5 + 1);
      if (is_pop) b.clear();                       // notifies, buffer stays empty
      else { int v; b.size(); if (kind == 2) { (void)v; b.empty(); } }
    }
  });
  sim::join_all();
  SIM_CHECK(b.size() == (is_pop ? 0 : cap), "failed-op-effect", "a failed timed operation changed the buffer: size %zu", b.size());
  if (!is_pop) for (size_t i = 0; i < cap; i++) { int v = 0; SIM_CHECK(b.pop(v, 0.0) && v == (int)(100 + i), "failed-op-effect", "a failed timed push changed the content"); }
  sim::cover(sim::hash_str(sim::fmt("%d %g %d %zu", is_pop, sec, kind, cap)));
}
// the operation becomes possible at some time and stays so
SCENARIO(C06, becomes_possible, 4) {
  common();
  bool is_pop = sim::coin(); double sec = secs[sim::rnd(9)]; int64_t want = sec > 0 ? (int64_t)(sec * 1e9) : 0;
  static const int64_t pct[] = {0, 10, 50, 98, 102, 150}; int64_t at = (want ? want : 10000000) / 100 * pct[sim::rnd(6)];
  size_t cap = 1 + sim::rnd(2); pcbuf<int> b(cap); if (!is_pop) for (size_t i = 0; i < cap; i++) b.push(100 + i);
  int how = sim::rnd(3), waiters = 1 + (int)sim::rnd(cap == 2 && !is_pop ? 2 : 1); int64_t possible_at = -1; int ok = 0;
  std::vector<int64_t> start; 
  for (int w = 0; w < waiters; w++) sim::go([&] {
    int v = -7; bool before; { sim::Atomic a; before = possible_at >= 0; }
    int64_t t0 = sim::now(); bool r = is_pop ? b.pop(v, sec) : b.push(55, sec); int64_t t1 = sim::now();
    sim::Atomic a;
    sim::log("%s(%g) -> %d after %lld", is_pop ? "pop" : "push", sec, r, (long long)(t1 - t0));
    if (r) { ok++; if (is_pop) SIM_CHECK(v == 9, "wrong-value", "popped %d, pushed 9", v); }
    else {
      SIM_CHECK(!before, "refused-possible", "timed %s(%g) failed although it was possible from the start", is_pop ? "pop" : "push", sec);
      SIM_CHECK(t1 - t0 >= want - TOL, "early-timeout", "timed operation of %g s gave up after %.9f s", sec, (t1 - t0) / 1e9);
      SIM_CHECK(!(possible_at >= 0 && possible_at + 1000000 < t0 + want), "missed", "timed %s of %g s failed although it became possible %.6f s before its deadline", is_pop ? "pop" : "push", sec, (t0 + want - possible_at) / 1e9);
    }
    SIM_CHECK(t1 - t0 <= want + SLACK, "late-timeout", "timed operation of %g s took %.9f s", sec, (t1 - t0) / 1e9);
    if (r && possible_at >= 0) SIM_CHECK(t1 <= std::max(possible_at, t0) + SLACK, "late-success", "the operation was possible %.6f s before it returned", (t1 - possible_at) / 1e9);
  });
  sim::go([&] {
    if (at) sim::sleep_ns(at);
    if (is_pop) { if (how) b.push(9); else SIM_CHECK(b.push(9, 1.0), "refused-possible", "timed push on a buffer with room failed"); sim::Atomic a; possible_at = sim::now(); }
    else {
      if (how == 0) b.clear();
      else for (int i = 0; i < waiters; i++) { int v = 0; if (how == 1) b.pop(v); else SIM_CHECK(b.pop(v, 1.0), "refused-possible", "timed pop on a non-empty buffer failed"); }
      sim::Atomic a; possible_at = sim::now();
    }
  });
  sim::join_all();
  if (is_pop) SIM_CHECK(b.size() == (size_t)(1 - ok), "conservation", "one push, %d pops, size %zu", ok, b.size());
  sim::cover(sim::hash_str(sim::fmt("%d %g %d %d", is_pop, sec, how, (int)(at / 1000000))));
}
// competition: elements are stolen by others, the deadline still holds
SCENARIO(C06, stolen, 3) {
  common();
  double sec = secs[sim::rnd(7)]; int64_t want = sec > 0 ? (int64_t)(sec * 1e9) : 0; if (!want) { sec = 0.02; want = 20000000; }
  pcbuf<int> b(1); bool is_pop = sim::coin(); if (!is_pop) b.push(1);
  int64_t gap = want / (2 + sim::rnd(6)); int rounds = 12; int ok = 0, moved = 0;
  sim::go([&] {
    int v = -7; int64_t t0 = sim::now(); bool r = is_pop ? b.pop(v, sec) : b.push(77, sec); int64_t el = sim::now() - t0; sim::Atomic a; ok = r;
    if (!r) SIM_CHECK(el >= want - TOL, "early-timeout", "timed %s of %g s gave up after %.9f s", is_pop ? "pop" : "push", sec, el / 1e9);
    SIM_CHECK(el <= want + SLACK, "late-timeout", "timed %s of %g s returned after %.9f s", is_pop ? "pop" : "push", sec, el / 1e9);
  });
  sim::go([&] {
    for (int i = 0; i < rounds; i++) {
      sim::sleep_ns(gap);
      int v;
      if (is_pop) { if (b.push(500 + i, 0.0)) moved++; if (b.pop(v, 0.0)) moved--; }
      else { if (b.pop(v, 0.0)) moved--; if (b.push(500 + i, 0.0)) moved++; }
    }
  });
  sim::join_all();
  int exp = is_pop ? moved - ok : 1 + moved + ok;
  SIM_CHECK((int)b.size() == exp, "conservation", "size %zu, expected %d", b.size(), exp);
}
}
