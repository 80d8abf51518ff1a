// C17: a call that cannot succeed ends with the right exception, and the client stays usable.
#include "rpccommon.h"
#include <sstream>
#include <string.h>
#include <errno.h>
using namespace pfi::network::rpc;
using namespace pfi::data::serialization;
namespace {
enum What { OK, NOTFOUND, VERSION, NOCONN, OTHER, NONE };
const char *wn[] = {"success", "method_not_found", "version_mismatch", "cannot_get_connection", "rpc_error", "?"};
struct Got { What w; std::string name, msg; int sv, cv; };
// A server that answers with an error closes the connection; if part of the request is still on
// its way then, the peer sees a reset, and only a general error is guaranteed.
bool torn(const Got &g, uint64_t r0) { return g.w == OTHER && sim::net::resets() > r0; }
template <class F> Got attempt(F f) {
  Got g = {NONE, "", "", 0, 0};
  try { f(); g.w = OK; }
  catch (method_not_found &e) { g.w = NOTFOUND; g.name = e.name(); g.msg = e.what(); }
  catch (version_mismatch &e) { g.w = VERSION; g.sv = e.server_version(); g.cv = e.client_version(); g.msg = e.what(); }
  catch (cannot_get_connection &e) { g.w = NOCONN; g.msg = e.what(); }
  catch (rpc_error &e) { g.w = OTHER; g.msg = e.what(); }
  return g;
}
// a real server; calls that fail for every reason mixed with calls that succeed
SCENARIO(C17, mixed, 5) {
  rc::State state; rc::st = &state; rc::swarm(); state.throw_mod = sim::rnd(3);
  int ncl = 1 + sim::rnd(3), nth = 2 * ncl + sim::rnd(2); std::unique_ptr<tst_server> srv(new tst_server()); rc::set_all(*srv); SIM_CHECK(srv->start(0, nth), "start", "start failed"); uint16_t port = srv->port();
  std::vector<int> forbidden; struct Op { int k; rc::Call c; std::string name; int ver; }; std::vector<std::vector<Op> > plan(ncl); int id = 1;
  for (int i = 0; i < ncl; i++) { int n = 2 + sim::rnd(4); for (int k = 0; k < n; k++) { Op o; o.k = sim::rnd(7); o.c = rc::plan(id++); static const char *nm[] = {"nope", "f10", "F1", "f", "<<<ping>>>", ""}; o.name = nm[sim::rnd(6)]; static const int vv[] = {0, -1, 8, 6, 7 + 256, 7 - 256, 7 + 65536, 7 + (1 << 24), (int)(0x80000007u), 0x7fffffff, (int)0x80000000u, -7}; o.ver = vv[sim::rnd(12)]; if (state.throw_mod == 1 && o.c.id % 4 == 2) o.c.id += 1000; plan[i].push_back(o); } }
  sim::set_hang_id("rpc-hang", "a remote call never returns:");
  for (int i = 0; i < ncl; i++) sim::go([&, i] {
    tst_client c("localhost", port);
    for (size_t k = 0; k < plan[i].size(); k++) {
      Op &o = plan[i][k]; uint64_t r0 = sim::net::resets(); bool small = o.c.a[0].size() + o.c.a[1].size() < 40;
      if (o.k == 0 && !o.name.empty()) { Got g = attempt([&] { c.call<int(int)>(o.name)(3); }); SIM_CHECK((g.w == NOTFOUND && g.name == o.name) || torn(g, r0), "wrong-error", "calling the unknown method '%s' ends with %s '%s'", o.name.c_str(), wn[g.w], g.msg.c_str()); }
      else if (o.k == 1) { Got g = attempt([&] { rpc_client v("localhost", port, o.ver); v.call<S(int)>("f1")(o.c.id); }); SIM_CHECK((g.w == VERSION && g.sv == 7 && g.cv == o.ver) || torn(g, r0), "wrong-error", "a client of version %d calling a server of version 7 ends with %s (%d,%d) '%s'", o.ver, wn[g.w], g.sv, g.cv, g.msg.c_str()); sim::Atomic a; for (size_t j = 0; j < state.log.size(); j++) SIM_CHECK(!(state.log[j].fn == 1 && state.log[j].id == o.c.id), "executed", "a call with the wrong version was executed"); }
      else if (o.k == 2 && small) { Got g = attempt([&] { tst8_client v("localhost", port); rc::invoke(v, o.c); }); SIM_CHECK((g.w == VERSION && g.sv == 7 && g.cv == 8) || torn(g, r0), "wrong-error", "a version 8 client calling a version 7 server ends with %s '%s'", wn[g.w], g.msg.c_str()); if (o.c.fn) { sim::Atomic a; for (size_t j = 0; j < state.log.size(); j++) SIM_CHECK(state.log[j].fn != o.c.fn || state.log[j].id != o.c.id, "executed", "a call with the wrong version was executed"); } }
      // a refused request whose arguments look like a request themselves
      else if (o.k == 5) { int id = 5000 + o.c.id; { sim::Atomic a; forbidden.push_back(id); } int x[3] = {'f' | '1' << 8 | 7 << 16, id << 16, id >> 16}; Got g = attempt([&] { rpc_client v("localhost", port, 2); v.call<int(int, int, int)>("nope")(x[0], x[1], x[2]); }); SIM_CHECK((g.w == NOTFOUND && g.name == "nope") || torn(g, r0), "wrong-error", "calling the unknown method 'nope' ends with %s '%s'", wn[g.w], g.msg.c_str()); }
      else if (o.k == 6) { int id = 5000 + o.c.id; { sim::Atomic a; forbidden.push_back(id); } Got g = attempt([&] { rpc_client v("localhost", port, o.ver); v.call<int(S, int, int)>(sim::coin() ? "f1" : "f3")("f1", 7, id); }); SIM_CHECK((g.w == VERSION && g.sv == 7 && g.cv == o.ver) || torn(g, r0), "wrong-error", "a client of version %d ends with %s '%s'", o.ver, wn[g.w], g.msg.c_str()); }
      else if (o.c.fn) {
        bool throws = state.throw_mod && (o.c.id % 4 == 1 || (state.throw_mod > 1 && o.c.id % 4 == 2)); Got g = attempt([&] { rc::invoke(c, o.c); });
        SIM_CHECK(g.w == (throws ? OTHER : OK), "wrong-error", "a call whose function %s ends with %s '%s'", throws ? "throws" : "returns", wn[g.w], g.msg.c_str());
        rc::judge(o.c, g.w == OK);
      }
    }
  });
  sim::join_all(); srv->stop(); srv->wait_until_stopped(); srv.reset(); for (size_t j = 0; j < state.log.size(); j++) for (size_t q = 0; q < forbidden.size(); q++) SIM_CHECK(state.log[j].id != forbidden[q], "executed", "the arguments of a refused call were executed as a call");
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  sim::cover(ncl * 10 + nth);
}
using namespace rc;
// a peer that misbehaves at any byte of the handshake or of its reply
SCENARIO(C17, bad_peer, 5) {
  rc::State state; rc::st = &state; rc::swarm(); rc::Call c = rc::plan(5); if (c.fn == 0) c.fn = 1;
  const std::string ping = enc("<<<PING>>>"), pong = enc("<<<PONG>>>"), req = request_of(c), good = enc("OK") + value_of(c);
  enum { CUT, WRONG_CODE, NOT_FOUND, VERS, HANDSHAKE, HANDSHAKE_TWICE, GOOD }; int mode = sim::rnd(7); std::string reply = good; What want = OTHER;
  if (mode == CUT) reply = good.substr(0, sim::rnd(good.size()));
  else if (mode == WRONG_CODE) { static const char *bad[] = {"ok", "OK ", "Error something", "", "NotFoundX y"}; reply = enc(bad[sim::rnd(5)]) + value_of(c); }
  else if (mode == NOT_FOUND) { reply = enc("NotFound other"); want = NOTFOUND; } else if (mode == VERS) { reply = enc("VersionMismatch 3 -4"); want = VERSION; }
  else if (mode == HANDSHAKE_TWICE) want = NOCONN; else want = OK;
  int bad_hs = mode == HANDSHAKE ? 1 : mode == HANDSHAKE_TWICE ? 2 : 0, hs_cut = sim::rnd(pong.size()), hs_kind = sim::rnd(3); bool rst = sim::coin();
  int l = sim::net::raw_listen(4100), requests = 0; bool stop = false;
  sim::set_hang_id("rpc-hang", "a call to a misbehaving peer never returns:");
  sim::go([&] {
    for (;;) {
      int fd = sim::net::raw_accept(l); { sim::Atomic a; if (stop) { sim::net::raw_close(fd); return; } }
      for (;;) {
        std::string h = sim::net::raw_recv_n(fd, 4); if (h.size() < 4) break; uint32_t n; memcpy(&n, h.data(), 4); std::string name = sim::net::raw_recv_n(fd, n);
        if (name == "<<<PING>>>") { if (bad_hs > 0) { bad_hs--; sim::net::raw_send(fd, hs_kind == 0 ? enc("<<<PENG>>>") : hs_kind == 1 ? enc("") : pong.substr(0, hs_cut)); break; } sim::net::raw_send(fd, pong); continue; }
        std::string rest = sim::net::raw_recv_n(fd, req.size() - 4 - n); requests++;
        SIM_CHECK(h + name + rest == req, "request", "the request is not the encoding of the call");
        if (requests == 1) { sim::net::raw_send(fd, reply); if (want == OK) continue; if (mode == CUT && rst) { sim::sleep_ns(500000000); sim::net::raw_reset(fd); fd = -1; } break; }
        sim::net::raw_send(fd, good);
      }
      if (fd >= 0) { sim::net::raw_half_close(fd); sim::net::raw_recv_all(fd); sim::net::raw_close(fd); }
    }
  });
  sim::go([&] {
    { tst_client cl("127.0.0.1", 4100);
      Got g = attempt([&] { rc::invoke(cl, c); });
      SIM_CHECK(g.w == want, "wrong-error", "reply of %zu bytes (kind %d): the call ends with %s '%s', expected %s", reply.size(), mode, wn[g.w], g.msg.c_str(), wn[want]);
      if (g.w == NOTFOUND) SIM_CHECK(g.name == "other", "wrong-error", "method_not_found names '%s'", g.name.c_str()); if (g.w == VERSION) SIM_CHECK(g.sv == 3 && g.cv == -4, "wrong-error", "version_mismatch says %d %d", g.sv, g.cv);
      SIM_CHECK(requests == (want == NOCONN ? 0 : 1), "requests", "one call made %d requests", requests); if (want == NOCONN) requests = 1;
      Got k = attempt([&] { rc::invoke(cl, c); }); SIM_CHECK(k.w == OK, "no-recovery", "the next call on the same client ends with %s '%s'", wn[k.w], k.msg.c_str());
      SIM_CHECK(requests == 2, "requests", "two calls made %d requests", requests); { sim::Atomic a; stop = true; } }
    sim::net::Outside o; int fd = sim::net::raw_connect(4100); sim::net::raw_close(fd);
  });
  sim::join_all(); sim::net::raw_close(l);
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  sim::cover(mode * 100 + std::min<size_t>(reply.size(), 90));
}
// nobody there
SCENARIO(C17, nobody, 2) {
  rc::State state; rc::st = &state; int how = sim::rnd(4); rc::swarm(); sim::set_hang_id("rpc-hang", "a call to nobody never returns:");
  if (how == 1) sim::net::host("srv", std::vector<std::string>()); if (how == 2) { sim::net::ip_up("10.0.0.7"); sim::net::host("srv", std::vector<std::string>(1, "10.0.0.7")); sim::net::refuse("10.0.0.7", EHOSTUNREACH); }
  tst_client c(how == 0 ? "127.0.0.1" : "srv", 4100); rc::Call k = rc::plan(3);
  for (int i = 0; i < 3; i++) { Got g = attempt([&] { rc::invoke(c, k); }); SIM_CHECK(g.w == NOCONN, "wrong-error", "a call that reaches nobody ends with %s '%s'", wn[g.w], g.msg.c_str()); }
  if (how == 0) { tst_server srv; rc::set_all(srv); SIM_CHECK(srv.start(4100, 1), "start", "start"); { tst_client &r = c; Got g = attempt([&] { rc::invoke(r, k); }); SIM_CHECK(g.w == OK, "no-recovery", "once the server is up a call ends with %s '%s'", wn[g.w], g.msg.c_str()); }
    sim::done(); }
}
}
