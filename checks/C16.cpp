// C16: an RPC call returns its own result; it runs exactly once on success and at most once on failure.
#include "rpccommon.h"
using namespace pfi::network::rpc;
namespace {
struct ClientPlan { std::vector<rc::Call> calls; std::vector<bool> ok; int64_t think; };
void run(bool faults) {
  rc::State state; rc::st = &state; rc::swarm(); state.pause = sim::rnd(3) == 0;
  if (faults) { sim::enable(sim::K_RESET, 0.3 + sim::rnd(3)); sim::enable(sim::K_CONNFAIL, sim::coin() ? 1 : 0); sim::enable(sim::K_ACCEPTFAIL, sim::rnd(3) ? 0 : 1.5); }
  bool heavy = nc::volume == 2, huge = heavy && sim::rnd(3) == 0; nc::bigs = huge ? 2 : 0; if (huge) sim::net::buffer_limit(65536);
  int ncl = huge ? 1 : 1 + sim::rnd(heavy ? 2 : 4), nth = 1 + sim::rnd(4), id = 1; std::vector<ClientPlan> p(ncl);
  for (int i = 0; i < ncl; i++) { int n = huge ? 1 : 1 + sim::rnd(heavy ? 2 : 3); p[i].think = sim::rnd(3) ? 0 : 5000000; for (int k = 0; k < n; k++) p[i].calls.push_back(rc::plan(id++)); p[i].ok.assign(n, false); }
  std::unique_ptr<tst_server> srv(new tst_server(sim::rnd(3) ? 0.0 : 30.0)); rc::set_all(*srv);
  SIM_CHECK(srv->start(4100, nth), "start", "server does not start"); SIM_CHECK(srv->is_running() && srv->port() == 4100, "start", "a started server is not running");
  sim::set_hang_id("rpc-hang", "a remote call never returns:");
  for (int i = 0; i < ncl; i++) sim::go([&, i] {
    tst_client c("127.0.0.1", 4100);
    for (size_t k = 0; k < p[i].calls.size(); k++) {
      bool ok = false; std::string why;
      try { rc::invoke(c, p[i].calls[k]); ok = true; } catch (const rpc_error &e) { why = e.what(); }
      SIM_CHECK(ok || faults, "call-failed", "a call over a healthy network failed: %s", why.c_str());
      rc::judge(p[i].calls[k], ok); p[i].ok[k] = ok;
      if (p[i].think) sim::sleep_ns(p[i].think);
    }
    // once the faults are over the same client works again
    if (faults) { { sim::Atomic a; sim::faults_off(); } rc::Call l = p[i].calls[0]; l.id = 1000 + i; try { rc::invoke(c, l); } catch (const rpc_error &e) { sim::fail("no-recovery", "after the faults ended a call still fails: %s", e.what()); } rc::judge(l, true); }
  });
  sim::join_all();
  for (int i = 0; i < ncl; i++) for (size_t k = 0; k < p[i].calls.size(); k++) rc::judge(p[i].calls[k], p[i].ok[k]);
  { sim::Atomic a; std::set<int> r0; int n0 = 0, x0 = 0; for (int i = 0; i < ncl; i++) for (size_t k = 0; k < p[i].calls.size(); k++) if (p[i].calls[k].fn == 0) { x0++; if (p[i].ok[k]) { n0++; r0.insert(p[i].calls[k].r0); } } SIM_CHECK((int)r0.size() == n0, "wrong-result", "two calls without arguments got the same execution's result");
    if (faults) for (int i = 0; i < ncl; i++) x0 += p[i].calls[0].fn == 0;
    SIM_CHECK(state.counter <= x0, "executed-twice", "%d calls without arguments, %d executions", x0, state.counter);
    if (!faults) SIM_CHECK(state.counter == x0, "executed-twice", "%d calls, %d executions", x0, state.counter); }
  sim::faults_off(); srv->stop(); srv->wait_until_stopped(); srv.reset();
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  sim::cover(ncl * 100 + nth * 10 + p[0].calls[0].fn);
}
SCENARIO(C16, healthy, 4) { run(false); }
SCENARIO(C16, broken, 5) { run(true); }
}
