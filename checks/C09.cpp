// C09: quantity semaphore.
#include "../sim/sim.h"
#include "lin.h"
#include "concurrent/qsem.h"
using pfi::concurrent::qsem;
using pfi::concurrent::scoped_lock;
namespace {
enum { WAIT, SIGNAL };
const char *const names[] = {"wait", "signal"};
struct Model {
  int64_t q;
  bool step(const lin::Hist::Op &o) { if (o.code == WAIT) { if (q < o.a) return false; q -= o.a; return true; } q += o.a; return true; }
  bool pend(const lin::Hist::Op &o) { return step(o); }
  std::string key() const { return std::to_string(q); }
};
SCENARIO(C09, ops, 5) {
  sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  int init = sim::rnd(5), nt = 2 + sim::rnd(3), total = 3 + sim::rnd(8); qsem *s = new qsem(init);
  struct Op { int code, q; }; std::vector<std::vector<Op> > plan(nt); lin::Hist h;
  for (int i = 0; i < total; i++) { Op o; o.code = sim::rnd(2); o.q = 1 + sim::rnd(3); plan[sim::rnd(nt)].push_back(o); }
  sim::set_hang_id("qsem-hang", "");
  long granted = 0, given = init;
  for (int t = 0; t < nt; t++) sim::go([&, t] {
    for (size_t i = 0; i < plan[t].size(); i++) {
      Op o = plan[t][i];
      if (o.code == SIGNAL) { sim::Atomic a; given += o.q; }
      int k = h.begin(o.code, o.q);
      bool ok = o.code == WAIT ? (o.q == 1 && (i & 1) ? s->lock() : o.q == 1 ? s->wait() : s->wait(o.q)) : (o.q == 1 && (i & 1) ? s->unlock() : o.q == 1 ? s->signal() : s->signal(o.q));
      SIM_CHECK(ok, "returned-false", "%s(%d) returned false", names[o.code], o.q);
      h.end(k, true);
      if (o.code == WAIT) { sim::Atomic a; granted += o.q; SIM_CHECK(granted <= given, "overgrant", "%ld units granted, only %ld ever available", granted, given); }
    }
  });
  sim::wait_quiescent();
  long q = init; for (size_t i = 0; i < h.ops.size(); i++) if (h.ops[i].res != lin::PENDING) q += h.ops[i].code == SIGNAL ? h.ops[i].a : -h.ops[i].a;
  SIM_CHECK(q >= 0, "overgrant", "more units granted than available (%ld)", q);
  for (size_t i = 0; i < h.ops.size(); i++) if (h.ops[i].res == lin::PENDING) {
    SIM_CHECK(h.ops[i].code == WAIT, "qsem-hang", "signal never returned");
    SIM_CHECK(q < h.ops[i].a, "lost-wakeup", "wait(%lld) is blocked although %ld units are available:%s", (long long)h.ops[i].a, q, lin::show(h, names).c_str());
  }
  // exactly q units are left: take them all, one more must block
  for (int i = 0; i < q; i++) { int k = h.begin(WAIT, 1); SIM_CHECK(s->wait(), "returned-false", "wait false"); h.end(k, true); }
  bool over = false; sim::go([&] { s->wait(1); sim::Atomic a; over = true; });
  sim::wait_quiescent();
  SIM_CHECK(!over, "overgrant", "a unit was granted although all had been taken");
  Model m; m.q = init; SIM_CHECK(lin::linearizable(h, m), "not-linearizable", "no order explains the history:%s", lin::show(h, names).c_str());
  uint64_t cv = init * 10 + nt; { sim::Atomic a; for (size_t i = 0; i < h.ops.size(); i++) cv = cv * 31 + h.ops[i].code * 32 + h.ops[i].a * 8 + h.ops[i].tid; } sim::cover(cv);
  sim::done();
}
// resource pool: never more than the quantity in use; everybody finishes
SCENARIO(C09, pool, 4) {
  sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  int cap = 1 + sim::rnd(4), nt = 2 + sim::rnd(4), per = 1 + sim::rnd(4); qsem s(cap); int used = 0; long rounds = 0;
  sim::set_hang_id("lost-wakeup", "units are returned but a waiter is never served:");
  std::vector<std::vector<int> > want(nt); for (int t = 0; t < nt; t++) for (int i = 0; i < per; i++) want[t].push_back(1 + sim::rnd(cap));
  for (int t = 0; t < nt; t++) sim::go([&, t] { for (int i = 0; i < per; i++) {
    int q = want[t][i];
    if (q == 1 && (i & 1)) { scoped_lock l(s); SIM_CHECK(l, "returned-false", "scoped_lock on a semaphore failed"); { sim::Atomic a; used++; SIM_CHECK(used <= cap, "overgrant", "%d of %d units in use", used, cap); } sim::yield(); sim::Atomic a; used--; }
    else { SIM_CHECK(s.wait(q), "returned-false", "wait false"); { sim::Atomic a; used += q; SIM_CHECK(used <= cap, "overgrant", "%d of %d units in use", used, cap); } sim::yield(); { sim::Atomic a; used -= q; rounds++; } SIM_CHECK(s.signal(q), "returned-false", "signal false"); }
  } });
  sim::join_all();
  SIM_CHECK(s.wait(cap), "returned-false", "wait false");    // all units are back
  bool over = false; sim::go([&] { s.wait(1); sim::Atomic a; over = true; });
  sim::wait_quiescent(); SIM_CHECK(!over, "overgrant", "units appeared from nowhere"); sim::done();
}
}
