// C19: whatever bytes an RPC endpoint receives, it neither crashes nor hangs nor executes a call
// that was not received completely, and everybody else keeps being served.
#include "rpccommon.h"
#include <string.h>
using namespace pfi::network::rpc;
namespace {
std::string le(uint32_t n) { return std::string((char *)&n, 4); }
uint32_t some_len() { static const uint32_t t[] = {0xffffffffu, 0x7fffffffu, 0x80000000u, 0x40000000u, 0x00ffffffu, 100000, 1000, 17}; return t[sim::rnd(8)]; }
// bytes a hostile or broken client may send
std::string nasty(const rc::Call &c, int how, bool *may_run) {
  std::string req = rc::request_of(c); *may_run = false;
  switch (how) {
    case 0: return req.substr(0, sim::rnd(req.size()));                                            // cut at any byte
    case 1: { std::string s = nc::bytes(1 + sim::rnd(60), sim::rnd(10000), sim::rnd(3)); *may_run = true; return s; }
    case 2: { size_t i = sim::rnd(req.size()); req[i] ^= 1 << sim::rnd(8); *may_run = true; return req; }   // one bit flipped
    case 3: return le(some_len()) + std::string(sim::rnd(30), 'n');                                // endless name
    case 4: return rc::enc("f2") + le(7) + le(c.id) + le(some_len() | 64) + std::string(sim::rnd(40), 's');    // endless string
    case 5: return rc::enc("f3") + le(7) + le(c.id) + le(some_len() | 64) + rc::enc("a") + rc::enc("");  // endless vector
    case 6: return rc::enc("f3") + le(7) + le(c.id) + le(0) + le(some_len() | 64) + rc::enc("k") + le(3);       // endless map
    case 7: return rc::enc("<<<PING>>>") + req.substr(0, sim::rnd(req.size()));
    default: return req + rc::request_of(c).substr(0, sim::rnd(req.size()));                       // one whole call, then half of one
  }
}
SCENARIO(C19, hostile_clients, 8) {
  rc::State state; rc::st = &state; rc::swarm(); nc::volume = 0; sim::net::buffer_limit(sim::coin() ? 65536 : 3000);
  int nbad = 1 + sim::rnd(4), ngood = 1 + sim::rnd(2), nth = nbad + ngood; bool resets = sim::rnd(3) == 0; sim::enable(sim::K_RESET, resets ? 0.3 : 0);
  struct Bad { int how; rc::Call c; std::string s; bool may; int end; int reqs; }; std::vector<Bad> bad(nbad); std::vector<std::vector<rc::Call> > good(ngood); uint64_t sent = 0;
  for (int i = 0; i < nbad; i++) { Bad &b = bad[i]; b.how = sim::rnd(9); b.c = rc::plan(0xA5A500 + i); if (b.c.fn == 0 && b.how > 2) b.c.fn = 2; b.s = nasty(b.c, b.how, &b.may); b.reqs = b.how == 8; b.end = sim::rnd(3); sent += b.s.size(); }
  for (int i = 0; i < ngood; i++) { int n = 1 + sim::rnd(3); for (int k = 0; k < n; k++) good[i].push_back(rc::plan(100 * i + k + 1)); }
  tst_server *srv = new tst_server(); rc::set_all(*srv); SIM_CHECK(srv->start(4100, nth), "start", "start failed"); sim::reset_max_alloc();
  sim::set_hang_id("hang", "after broken requests the server does not go on:");
  for (int i = 0; i < nbad; i++) sim::go([&, i] {
    sim::net::Outside o; int fd = sim::net::raw_connect(4100); if (fd < 0) return; sim::net::raw_send(fd, bad[i].s);
    if (bad[i].end == 0) sim::net::raw_close(fd); else if (bad[i].end == 1) { sim::net::raw_half_close(fd); sim::net::raw_recv_all(fd); sim::net::raw_close(fd); } else { sim::sleep_ns(300000000); sim::net::raw_reset(fd); }
  });
  for (int i = 0; i < ngood; i++) sim::go([&, i] {
    tst_client c("127.0.0.1", 4100);
    for (size_t k = 0; k < good[i].size(); k++) { bool ok = false; try { rc::invoke(c, good[i][k]); ok = true; } catch (const rpc_error &e) { SIM_CHECK(resets, "call-failed", "while another client sends garbage a call fails: %s", e.what()); } rc::judge(good[i][k], ok); }
  });
  sim::join_all(); sim::faults_off();
  // all workers serve again
  for (int i = 0; i < nth; i++) sim::go([&, i] { tst_client c("127.0.0.1", 4100); rc::Call q = rc::plan(900 + i); try { rc::invoke(c, q); } catch (const rpc_error &e) { sim::fail("no-recovery", "after broken requests a call fails: %s", e.what()); } rc::judge(q, true); });
  sim::join_all(); srv->stop(); srv->wait_until_stopped(); delete srv;
  { sim::Atomic a; int anyflip = 0; for (int i = 0; i < nbad; i++) anyflip += bad[i].may;
    for (int i = 0; i < nbad; i++) { int n = 0; for (size_t k = 0; k < state.log.size(); k++) if (state.log[k].fn && state.log[k].id == bad[i].c.id) { n++; if (!anyflip) SIM_CHECK(state.log[k].args == rc::args_of(bad[i].c), "wrong-arguments", "a call was executed with arguments that were not sent"); }
      SIM_CHECK(n <= bad[i].reqs || anyflip, "executed", "%d complete requests were sent, but the function ran %d times (bytes: %s)", bad[i].reqs, n, nc::show(bad[i].s, 60).c_str());
      if (bad[i].reqs && bad[i].end == 1 && !resets) SIM_CHECK(n == 1 || anyflip, "not-executed", "a complete request was not executed"); }
    if (!anyflip) for (size_t k = 0; k < state.log.size(); k++) { bool known = state.log[k].fn == 0 || state.log[k].id < 1000; for (int i = 0; i < nbad; i++) known |= state.log[k].id == bad[i].c.id; SIM_CHECK(known, "executed", "a function ran with an argument nobody sent"); } }
  SIM_CHECK(sim::max_alloc() < 1000000, "memory", "%llu bytes of requests made the process allocate %llu bytes at once", (unsigned long long)sent, (unsigned long long)sim::max_alloc());
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  for (int i = 0; i < nbad; i++) sim::cover(bad[i].how * 100 + std::min<size_t>(bad[i].s.size(), 99));
}
// a zero-argument function must not run on a request that ends before its version is complete
SCENARIO(C19, cut_nullary, 2) {
  rc::State state; rc::st = &state; rc::swarm(); nc::volume = 0; std::string req = rc::enc("f0") + le(7); size_t cut = sim::rnd(req.size() + 1); int end = sim::rnd(3);
  tst_server *srv = new tst_server(); rc::set_all(*srv); SIM_CHECK(srv->start(4100, 1), "start", "start failed"); sim::set_hang_id("hang", "after a broken request the server does not go on:");
  sim::go([&] { sim::net::Outside o; int fd = sim::net::raw_connect(4100); sim::net::raw_send(fd, req.substr(0, cut)); if (end == 0) sim::net::raw_close(fd); else if (end == 1) { sim::net::raw_half_close(fd); sim::net::raw_recv_all(fd); sim::net::raw_close(fd); } else { sim::sleep_ns(300000000); sim::net::raw_reset(fd); } });
  sim::join_all(); { tst_client c("127.0.0.1", 4100); rc::Call q = rc::plan(900); try { rc::invoke(c, q); } catch (const rpc_error &e) { sim::fail("no-recovery", "after a broken request a call fails: %s", e.what()); } state.counter -= q.fn == 0; }
  SIM_CHECK(state.counter == (cut == req.size()) , "executed", "%zu of %zu bytes of a request were sent, the function ran %d times", cut, req.size(), state.counter);
  srv->stop(); srv->wait_until_stopped(); delete srv; SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  sim::cover(cut * 10 + end);
}
// a server that answers with garbage: the call must end with an exception or (if the garbage is a reply) a value
SCENARIO(C19, hostile_server, 4) {
  rc::State state; rc::st = &state; rc::swarm(); nc::volume = 0; sim::net::buffer_limit(65536); rc::Call c = rc::plan(5); if (c.fn < 2) c.fn = 3; if (c.fn > 4) c.fn = 2; std::string good = rc::enc("OK") + rc::value_of(c), reply; bool valid = false, in_hs = sim::rnd(4) == 0; int how = sim::rnd(5);
  switch (how) {
    case 0: reply = good.substr(0, sim::rnd(good.size())); break;
    case 1: reply = nc::bytes(1 + sim::rnd(60), sim::rnd(10000), sim::rnd(3)); valid = false; break;
    case 2: reply = good; reply[sim::rnd(reply.size())] ^= 1 << sim::rnd(8); valid = true; break;
    case 3: reply = le(some_len() | 64) + std::string(sim::rnd(40), 'O'); break;
    default: reply = rc::enc("OK") + le(some_len() | 64) + rc::enc("a") + rc::enc("bc"); break;
  }
  int l = sim::net::raw_listen(4100); bool stop = false; sim::reset_max_alloc(); sim::set_hang_id("hang", "a call answered with garbage never returns:");
  sim::go([&] { sim::net::Outside o;
    for (;;) {
      int fd = sim::net::raw_accept(l); { sim::Atomic a; if (stop) { sim::net::raw_close(fd); return; } }
      for (;;) { std::string h = sim::net::raw_recv_n(fd, 4); if (h.size() < 4) break; uint32_t n; memcpy(&n, h.data(), 4); std::string name = sim::net::raw_recv_n(fd, n);
        if (name == "<<<PING>>>" && !in_hs) { sim::net::raw_send(fd, rc::enc("<<<PONG>>>")); continue; } sim::net::raw_send(fd, reply); break; }
      sim::net::raw_half_close(fd); sim::net::raw_recv_all(fd); sim::net::raw_close(fd);
    } });
  sim::go([&] {
    { tst_client cl("127.0.0.1", 4100); bool threw = false;
      try { if (c.fn == 3) cl.call_f3(c.id, VS(c.a.begin(), c.a.begin() + 3), c.m); else if (c.fn == 4) cl.call_f4(c.id, c.a[0], c.m, c.d); else cl.call_f2(c.id, c.a[0]); } catch (const rpc_error &) { threw = true; }
      SIM_CHECK(threw || (valid && !in_hs), "value-from-garbage", "a call answered with %s returned a value", nc::show(reply, 60).c_str()); { sim::Atomic a; stop = true; } }
    sim::net::Outside o; int fd = sim::net::raw_connect(4100); sim::net::raw_close(fd); });
  sim::join_all(); sim::net::raw_close(l);
  SIM_CHECK(sim::max_alloc() < 1000000, "memory", "a reply of %zu bytes made the client allocate %llu bytes at once", reply.size(), (unsigned long long)sim::max_alloc());
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  sim::cover(how * 100 + std::min<size_t>(reply.size(), 99));
}
}
