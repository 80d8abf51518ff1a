// C08: mvar is a linearizable one-place buffer.
#include "../sim/sim.h"
#include "lin.h"
#include "thrval.h"
#include "concurrent/mvar.h"
using pfi::concurrent::mvar;
namespace {
enum { TAKE, PUT, READ, TRYTAKE, TRYPUT, SWAP, EMPTY, FAILED };
const char *const names[] = {"take", "put", "read", "try_take", "try_put", "swap", "empty", "(failed)"};
struct Model {
  bool full; int64_t v;
  bool step(const lin::Hist::Op &o) {
    switch (o.code) {
      case TAKE: if (!full || v != o.r) return false; full = false; return true;
      case PUT: if (full) return false; full = true; v = o.a; return true;
      case READ: return full && v == o.r;
      case TRYTAKE: if (!o.ok) return !full; if (!full || v != o.r) return false; full = false; return true;
      case TRYPUT: if (!o.ok) return full; if (full) return false; full = true; v = o.a; return true;
      case SWAP: if (!full || v != o.r) return false; v = o.a; return true;
      case EMPTY: return full != (o.r != 0);
      case FAILED: return true;        // ended with an exception: no effect
    }
    return false;
  }
  bool pend(const lin::Hist::Op &o) {
    switch (o.code) { case TAKE: if (!full) return false; full = false; return true; case PUT: if (full) return false; full = true; v = o.a; return true; case READ: return full; case SWAP: if (!full) return false; v = o.a; return true; }
    return true;
  }
  std::string key() const { return full ? std::string("f") + (char)v : std::string("e"); }
};
int64_t val(const Val &v) { SIM_CHECK(v.good(), "torn-value", "a value that was never put"); return v.a; }

void scenario(bool basic, bool throwing = false) {
  sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  int nt = 2 + sim::rnd(3), total = 3 + sim::rnd(9), next = 10;
  bool init = sim::coin(); Model m; m.full = init; m.v = init ? 9 : 0;
  mvar<Val> *mv = init ? new mvar<Val>(Val(9)) : new mvar<Val>();
  throwing_swarm(throwing); lin::Hist h; struct Op { int code, v; }; std::vector<std::vector<Op> > plan(nt);
  for (int i = 0; i < total; i++) { Op o; o.code = basic ? (int)sim::rnd(2) : (int)sim::rnd(7); o.v = next++; plan[sim::rnd(nt)].push_back(o); }
  sim::set_hang_id("mvar-hang", "an operation never returns:");
  for (int t = 0; t < nt; t++) sim::go([&, t] {
    for (size_t i = 0; i < plan[t].size(); i++) {
      Op o = plan[t][i]; int k = h.begin(o.code, o.v);
      bool ok = true; int64_t r = 0; Val arg(o.v);
      bool done = attempt([&] { switch (o.code) {
        case TAKE: { Val v = mv->take(); r = val(v); break; }
        case PUT: mv->put(arg); break;
        case READ: { Val v = mv->read(); r = val(v); break; }
        case TRYTAKE: { Val v(-5); ok = mv->try_take(v); if (!ok) SIM_CHECK(v.a == -5, "failed-op-effect", "failed try_take wrote the destination"); r = val(v); break; }
        case TRYPUT: ok = mv->try_put(arg); break;
        case SWAP: { Val v = mv->swap(arg); r = val(v); break; }
        case EMPTY: r = mv->empty(); break;
      } });
      if (!done) { h.ops[k].code = FAILED; h.end(k, false); } else h.end(k, ok, r);
    }
  });
  sim::wait_quiescent(); throwing_end();
  bool e = mv->empty(); { int k = h.begin(EMPTY); h.end(k, true, e); }
  for (size_t i = 0; i < h.ops.size(); i++) if (h.ops[i].res == lin::PENDING) {
    int c = h.ops[i].code;
    SIM_CHECK(c == TAKE || c == PUT || c == READ || c == SWAP, "mvar-hang", "%s never returned", names[c]);
    if (c == PUT) SIM_CHECK(!e, "lost-wakeup", "put is blocked although the mvar is empty:%s", lin::show(h, names).c_str());
    else SIM_CHECK(e, "lost-wakeup", "%s is blocked although the mvar is full:%s", names[c], lin::show(h, names).c_str());
  }
  if (!e) { int k = h.begin(TRYTAKE); Val v; bool ok = mv->try_take(v); h.end(k, ok, val(v)); sim::wait_quiescent(); }
  SIM_CHECK(lin::linearizable(h, m), "not-linearizable", "no order explains the results (initially %s):%s", init ? "full 9" : "empty", lin::show(h, names).c_str());
  sim::Atomic a; uint64_t cv = nt; for (size_t i = 0; i < h.ops.size(); i++) cv = cv * 31 + h.ops[i].code * 16 + h.ops[i].tid * 2 + (h.ops[i].res == lin::PENDING); sim::cover(cv);
  sim::done();
}
SCENARIO(C08, mixed, 6) { scenario(false); }
SCENARIO(C08, throwing, 3) { scenario(false, true); }
SCENARIO(C08, takeput, 2) { scenario(true); }
// balanced hand-off must finish and conserve
SCENARIO(C08, handoff, 3) {
  sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  mvar<Val> mv; int np = 1 + sim::rnd(3), nc = 1 + sim::rnd(3), per = 1 + sim::rnd(4), total = np * per, ns = sim::rnd(3); long long sum = 0, sin = 0; int cnt = 0;
  sim::set_hang_id("lost-wakeup", "as many takes as puts, but:");
  for (int p = 0; p < np; p++) sim::go([&, p] { for (int i = 0; i < per; i++) { int v = (p + 1) * 100 + i; { sim::Atomic a; sin += v; } mv.put(Val(v)); } });
  for (int c = 0; c < nc; c++) { int n = total / nc + (c < total % nc); sim::go([&, n] { for (int i = 0; i < n; i++) { Val v = mv.take(); sim::Atomic a; sum += val(v); cnt++; } }); }
  for (int s = 0; s < ns; s++) sim::go([&] { mv.empty(); Val v; mv.empty(); (void)v; });
  sim::join_all();
  SIM_CHECK(cnt == total && sum == sin && mv.empty(), "conservation", "%d of %d values, sum %lld of %lld", cnt, total, sum, sin);
}
// concurrent swaps form a permutation: no value lost or doubled
SCENARIO(C08, swaps, 2) {
  mvar<Val> mv(Val(1)); int n = 2 + sim::rnd(4); std::vector<int64_t> got(n); int readers = sim::rnd(3); bool bad = false;
  sim::set_hang_id("mvar-hang", "swap never returns:");
  for (int i = 0; i < n; i++) sim::go([&, i] { Val v = mv.swap(Val(10 + i)); sim::Atomic a; got[i] = val(v); });
  for (int r = 0; r < readers; r++) sim::go([&] { if (mv.empty()) { sim::Atomic a; bad = true; } Val v = mv.read(); (void)val(v); Val u; if (mv.try_put(Val(99))) { sim::Atomic a; bad = true; } });
  sim::join_all();
  SIM_CHECK(!bad, "swap-not-atomic", "a full mvar is seen empty during a swap");
  sim::Atomic a; std::vector<int> c(200, 0); c[mv.take().a]++; for (int i = 0; i < n; i++) c[got[i]]++;
  SIM_CHECK(c[1] == 1, "swap-lost", "initial value seen %d times", c[1]); for (int i = 0; i < n; i++) SIM_CHECK(c[10 + i] == 1, "swap-lost", "value %d seen %d times", 10 + i, c[10 + i]);
}
}
