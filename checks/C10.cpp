// C10: process-wide singletons are created exactly once.
#include "../sim/sim.h"
#include <stdexcept>
#include "lang/singleton.h"
namespace {
int made, failing; bool built;
template <int N> struct Obj {
  std::vector<int> v; long sum; bool ready;
  Obj() : sum(0), ready(false) {
    bool f; { sim::Atomic a; SIM_CHECK(!built, "construct-again", "the object is constructed again after a successful construction"); made++; f = failing > 0; if (f) failing--; }
    sim::yield();
    if (f) { { sim::Atomic a; made--; } throw std::runtime_error("ctor"); }
    for (int i = 0; i < 5; i++) { v.push_back(i); sum += i; }
    sim::yield(); ready = true; { sim::Atomic a; built = true; }
  }
};
template <int N> void run() {
  sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  int nt = 2 + sim::rnd(5); failing = sim::rnd(3); void *first = NULL; int served = 0, thrown = 0; int fail0 = failing;
  sim::set_hang_id("singleton-hang", "instance() never returns:");
  for (int t = 0; t < nt; t++) sim::go([&, t] {
    for (int k = 0; k < 2; k++) {
      try {
        Obj<N> &o = pfi::lang::singleton<Obj<N> >::instance();
        SIM_CHECK(o.ready && o.v.size() == 5 && o.sum == 10, "half-built", "instance() returned an object that is still under construction");
        sim::Atomic a; if (!first) first = &o; SIM_CHECK(first == &o, "two-instances", "instance() returned different objects"); served++;
        SIM_CHECK(made == 1, "two-instances", "%d objects constructed", made);
      } catch (std::runtime_error &) { sim::Atomic a; thrown++; }
    }
  });
  sim::join_all();
  SIM_CHECK(thrown <= fail0 && thrown + served == 2 * nt, "count", "%d served, %d failed constructions reported", served, thrown);
  if (served) SIM_CHECK(made == 1, "two-instances", "%d objects constructed", made);
  Obj<N> *p = NULL; for (int i = 0; i < 4 && !p; i++) try { p = &pfi::lang::singleton<Obj<N> >::instance(); } catch (std::runtime_error &) {}
  SIM_CHECK(p && p->ready && (!first || p == first), "two-instances", "later instance() differs");
  sim::cover(nt * 10 + fail0);
}
SCENARIO(C10, first_use, 1) { run<0>(); }
SCENARIO(C10, two_types, 1) { int *x = new int(0); sim::go([&] { pfi::lang::singleton<std::vector<int> >::instance().push_back(1); }); sim::go([&] { pfi::lang::singleton<std::string>::instance() = "a"; }); sim::join_all(); SIM_CHECK(pfi::lang::singleton<std::vector<int> >::instance().size() == 1 && pfi::lang::singleton<std::string>::instance() == "a", "types-mixed", "singletons of two types interfere"); delete x; run<1>(); }
}
