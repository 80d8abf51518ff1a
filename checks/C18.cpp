// C18: RPC server life cycle: start, stop, wait, restart, idle timeout.
#include "rpccommon.h"
#include <errno.h>
using namespace pfi::network::rpc;
namespace {
int in_handler = 0; bool closed_for_business = false;
struct InH { InH() { sim::Atomic a; in_handler++; SIM_CHECK(!closed_for_business, "handler-after-stop", "a function runs although the server was reported stopped"); } ~InH() { sim::Atomic a; in_handler--; } };
S slow(int i) { InH h; rc::enter(1, i, ""); return sim::fmt("<%d>", i); }
// clients, stoppers and waiters at the same time; then a restart
SCENARIO(C18, stop, 7) {
  rc::State state; rc::st = &state; rc::swarm(); nc::volume = 0; state.pause = sim::coin(); in_handler = 0; closed_for_business = false;
  int nth = 1 + sim::rnd(4), ncl = sim::rnd(4), nst = 1 + sim::rnd(2), nw = 1 + sim::rnd(3), rounds = 1 + (sim::rnd(3) == 0); bool serv = sim::rnd(3) == 0; double to = sim::rnd(3) ? 0 : 20; int64_t when = sim::rnd(4) * 20000000LL; bool tell = sim::rnd(4) == 0;
  std::unique_ptr<tst_server> srv(new tst_server(to)); rc::set_all(*srv); srv->set_f1(&slow); SIM_CHECK(srv->is_stopped() && !srv->is_running() && !srv->is_stopping(), "state", "a new server is not stopped"); srv->wait_until_stopped(); srv->stop();
  for (int round = 0; round < rounds; round++) {
    { sim::Atomic a; closed_for_business = false; } int stopped_calls = 0; bool serv_done = false; sim::Event up; uint16_t port = 4100 + (sim::coin() ? round : 0);
    sim::set_hang_id("stop-hang", "the server does not stop:");
    if (serv) { sim::go([&] { bool r = srv->serv(port, nth); SIM_CHECK(r, "serv", "serv() returned false"); SIM_CHECK(srv->is_stopped(), "wait-early", "serv() returned, but the server is not stopped"); sim::Atomic a; serv_done = true; }); while (!srv->is_running()) sim::sleep_ns(1000000); SIM_CHECK(!serv_done, "serv", "serv() returned on a running server"); }
    else { SIM_CHECK(srv->start(port, nth), "start", "start failed in round %d", round); SIM_CHECK(srv->is_running() && !srv->is_stopped(), "state", "a started server is not running"); }
    SIM_CHECK(srv->port() == port, "state", "port() is %u, started on %u", srv->port(), port);
    for (int i = 0; i < ncl; i++) sim::go([&, i] {
      tst_client c("127.0.0.1", port); int n = 1 + sim::rnd(3);
      for (int k = 0; k < n; k++) {
        rc::Call q; q.fn = 1; q.id = 1000 * round + 10 * i + k; bool ok = false, before; { sim::Atomic a; before = stopped_calls > 0; }
        try { rc::invoke(c, q); ok = true; } catch (const rpc_error &) { }
        { sim::Atomic a; SIM_CHECK(ok || before || stopped_calls > 0 || state.throw_mod, "call-failed", "a call failed although nobody stopped the server"); }
        rc::judge(q, ok); if (tell && k == 0) sim::sleep_ns(50000000);
      }
    });
    for (int i = 0; i < nst; i++) sim::go([&, i] {
      if (when) sim::sleep_ns(when + i * 1000000); { sim::Atomic a; stopped_calls++; }
      srv->stop(); SIM_CHECK(!srv->is_running(), "state", "is_running() after stop() returned"); SIM_CHECK(srv->is_stopping() || srv->is_stopped(), "state", "neither stopping nor stopped after stop()");
    });
    for (int i = 0; i < nw; i++) sim::go([&] {
      srv->wait_until_stopped(); SIM_CHECK(srv->is_stopped(), "wait-early", "wait_until_stopped() returned, but is_stopped() is false"); sim::Atomic a;
      SIM_CHECK(in_handler == 0, "wait-early", "wait_until_stopped() returned while a function still runs"); SIM_CHECK(stopped_calls > 0, "wait-early", "wait_until_stopped() returned although nobody stopped the server"); closed_for_business = true;
    });
    sim::join_all(); SIM_CHECK(srv->is_stopped() && !srv->is_running() && !srv->is_stopping(), "state", "a stopped server is not stopped");
    { tst_client late("127.0.0.1", port); rc::Call q; q.fn = 1; q.id = 1000 * round + 999; bool ok = false; try { rc::invoke(late, q); ok = true; } catch (const rpc_error &) { } SIM_CHECK(!ok, "served-after-stop", "a stopped server answers a call"); rc::judge(q, false); }
  }
  srv.reset();
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds()); sim::wait_quiescent(); SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads left:%s", sim::live_threads() - 1, sim::blocked().c_str());
  sim::cover(nth * 1000 + ncl * 100 + nst * 10 + nw);
}
// start fails: port taken, no threads, system calls failing
SCENARIO(C18, start_fails, 4) {
  rc::State state; rc::st = &state; in_handler = 0; closed_for_business = false; sim::net::latency(false);
  int how = sim::rnd(4), nth = how == 3 ? 0 : 1 + sim::rnd(4), busy = -1; bool serv = sim::coin();
  { std::unique_ptr<tst_server> srv(new tst_server()); rc::set_all(*srv);
    if (how == 0) busy = sim::net::raw_listen(4100); else if (how == 1) sim::enable(sim::K_THREADFAIL, 4); else if (how == 2) sim::enable(sim::K_SOCKFAIL, 3);
    sim::set_hang_id("start-fail-hang", "after a start that failed:");
    bool r = false; 
    if (serv && how != 3 && how != 1 && how != 2) r = srv->serv(4100, nth); else r = srv->start(4100, nth);
    bool faulted = sim::fault_count(sim::K_THREADFAIL) || sim::fault_count(sim::K_SOCKFAIL) || how == 0; sim::faults_off();
    if (how == 3) { SIM_CHECK(r, "start", "start with no threads failed"); for (int k = sim::rnd(3); k > 0; k--) sim::go([&] { srv->wait_until_stopped(); SIM_CHECK(srv->is_stopped(), "state", "not stopped"); }); if (sim::coin()) sim::sleep_ns(1000000); srv->stop(); sim::join_all(); srv->wait_until_stopped(); SIM_CHECK(srv->is_stopped(), "state", "not stopped"); }
    else {
      SIM_CHECK(r == !faulted, faulted ? "start-lies" : "start", "start returned %d, %s", r, faulted ? "but a step of it failed" : "but nothing failed");
      if (r) { tst_client c("127.0.0.1", 4100); rc::Call q = rc::plan(1); rc::invoke(c, q); rc::judge(q, true); }
      if (r) srv->stop();
      srv->wait_until_stopped(); SIM_CHECK(srv->is_stopped() && !srv->is_running(), "state", "after a failed start or a stop the server is not stopped");
    }
    sim::net::raw_close(busy);
    if (sim::coin()) { SIM_CHECK(srv->start(4101, 2), "restart", "after a failed start, starting again fails"); { tst_client c("127.0.0.1", 4101); rc::Call q = rc::plan(2); rc::invoke(c, q); rc::judge(q, true); } srv->stop(); srv->wait_until_stopped(); } }
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds()); sim::wait_quiescent(); SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads left:%s", sim::live_threads() - 1, sim::blocked().c_str());
  sim::cover(how * 10 + nth);
}
// silent clients lose their connection after the timeout and free the worker
SCENARIO(C18, timeout, 4) {
  rc::State state; rc::st = &state; sim::enable(sim::K_EINTR, sim::coin() ? 1 : 0); sim::net::latency(false); in_handler = 0; closed_for_business = false;
  static const double ts[] = {0.5, 3, 10}; double to = ts[sim::rnd(3)]; int nth = 1 + sim::rnd(2); static const char *part[] = {"", "\x02", "\x02\0\0\0f", "\x02\0\0\0f2\x07\0\0\0\x05\0\0\0\x50\0\0\0zz"}; int k = sim::rnd(4); std::string sent(part[k], k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 5 : 20);
  std::unique_ptr<tst_server> srv(new tst_server(to)); rc::set_all(*srv); SIM_CHECK(srv->start(4100, nth), "start", "start");
  sim::set_hang_id("timeout-ignored", "a silent client keeps the server busy for ever:"); std::vector<int> fds(nth, -1);
  for (int i = 0; i < nth; i++) { fds[i] = sim::net::raw_connect(4100); sim::net::raw_send(fds[i], sent); }
  sim::sleep_ns(1000000); int64_t t0 = sim::now();
  { tst_client c("127.0.0.1", 4100); rc::Call q = rc::plan(1); try { rc::invoke(c, q); } catch (const rpc_error &e) { sim::fail("call-failed", "a call waiting behind silent clients failed: %s", e.what()); } rc::judge(q, true); }
  int64_t el = sim::now() - t0; SIM_CHECK(el <= (int64_t)(to * 1e9) + 500000000, "timeout-late", "silent clients were dropped only after %.3f s, the timeout is %g s", el / 1e9, to); SIM_CHECK(el >= (int64_t)(to * 1e9) - 100000000, "timeout-early", "silent clients were dropped after %.3f s, the timeout is %g s", el / 1e9, to);
  for (int i = 0; i < nth; i++) sim::net::raw_close(fds[i]);
  { sim::Atomic a; for (size_t i = 0; i < state.log.size(); i++) SIM_CHECK(state.log[i].id == 1 || state.log[i].fn == 0, "executed", "an incomplete request was executed"); }
  srv->stop(); srv->wait_until_stopped(); srv.reset(); SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
}
}
namespace {
// stop and start again at once, then destroy: nothing of an earlier round may touch the server any more
SCENARIO(C18, restart, 3) {
  rc::State state; rc::st = &state; sim::net::latency(false); sim::enable(sim::K_STALL, 1 + sim::rnd(4)); in_handler = 0; closed_for_business = false;
  int rounds = 2 + sim::rnd(3), nth = 1 + sim::rnd(2); sim::set_hang_id("stop-hang", "the server does not stop:");
  { std::unique_ptr<tst_server> srv(new tst_server()); rc::set_all(*srv);
    for (int r = 0; r < rounds; r++) {
      SIM_CHECK(srv->start(0, nth), "restart", "start number %d failed", r + 1); SIM_CHECK(srv->is_running(), "state", "a started server is not running");
      if (sim::coin()) { tst_client c("127.0.0.1", srv->port()); rc::Call q; q.fn = 1; q.id = r + 1; try { rc::invoke(c, q); } catch (const rpc_error &e) { sim::fail("call-failed", "a call in round %d failed: %s", r + 1, e.what()); } rc::judge(q, true); }
      srv->stop(); if (sim::coin()) while (!srv->is_stopped()) sim::sleep_ns(100000); else srv->wait_until_stopped();
      SIM_CHECK(srv->is_stopped(), "state", "not stopped");
    } }
  sim::sleep_ns(60000000000LL); sim::wait_quiescent(); SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads left:%s", sim::live_threads() - 1, sim::blocked().c_str()); SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  sim::cover(rounds * 10 + nth);
}
}
