// C30: MessagePack remote calls: own result or matching error, at most one execution, whatever either side sends.
// The msgpack library itself is not installed: stubs/msgpack.hpp stands in for it.
#include "rpccommon.h"
#include <cmath>
#include <errno.h>
#include "network/mprpc.h"
namespace mp {
typedef std::string S; 
MPRPC_PROC(f0, int());
MPRPC_PROC(f1, S(int));
MPRPC_PROC(f2, S(int, S));
MPRPC_PROC(f3, VS(int, VS, MSI));
MPRPC_PROC(f4, MSI(int, S, MSI, double));
MPRPC_PROC(f5, S(int, S, S, S, S));
MPRPC_PROC(f6, S(int, S, S, S, S, S));
MPRPC_PROC(f7, S(int, S, S, S, S, S, S));
MPRPC_PROC(f8, S(int, S, S, S, S, S, S, S));
MPRPC_PROC(f9, S(int, S, S, S, S, S, S, S, S));
MPRPC_GEN(7, tst, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9);
}
using namespace pfi::network::mprpc;
namespace {
bool heavy;      // one call of the run carries much data
void swarm() { rc::swarm(); heavy = nc::volume == 2; if (heavy) nc::volume = 1; }
rc::Call plan_(int id) { rc::Call c = rc::plan(id); if (heavy && sim::rnd(3) == 0) { heavy = false; c.fn = 2 + sim::rnd(3); c.a[0] = nc::bytes(8000 + sim::rnd(12000), id, 0); } return c; }
enum What { OK, NOTFOUND, TYPE, TIMEOUT, OTHER, FOREIGN };
const char *wn[] = {"success", "method_not_found", "rpc_type_error", "rpc_timeout_error", "rpc_error", "an exception that is no rpc_error"};
struct Got { What w; S name, msg; double t; };
template <class F> Got attempt(F f) {
  Got g = {OK, "", "", 0}; double t0 = sim::now_s();
  try { f(); }
  catch (method_not_found &e) { g.w = NOTFOUND; g.name = e.name(); g.msg = e.what(); } catch (rpc_type_error &e) { g.w = TYPE; g.msg = e.what(); } catch (rpc_timeout_error &e) { g.w = TIMEOUT; g.msg = e.what(); } catch (rpc_error &e) { g.w = OTHER; g.msg = e.what(); } catch (std::exception &e) { g.w = FOREIGN; g.msg = e.what(); }
  g.t = sim::now_s() - t0; return g;
}
struct Own : rpc_error { Own() : rpc_error("the handler's own rpc error") { } };
S h2(int i, const S &a) { if (rc::st->throw_mod == 3 && i % 3 == 1) { { sim::Atomic x; rc::Exec e = {2, i, a}; rc::st->log.push_back(e); } throw Own(); } return rc::h2(i, a); }
template <class SV> void set_all(SV &s) { rc::set_all(s); s.set_f2(pfi::lang::function<S(int, S)>(&h2)); }
bool throws(const rc::Call &c) { int m = rc::st->throw_mod; if (m == 3 && c.fn == 2 && c.id % 3 == 1) return true; return m && (c.id % 4 == 1 || (m > 1 && c.id % 4 == 2)); }
const char *says(const rc::Call &c) { return rc::st->throw_mod == 3 && c.fn == 2 && c.id % 3 == 1 ? "the handler's own rpc error" : c.id % 4 == 1 ? "handler refuses" : "handler broke"; }
struct Srv { std::unique_ptr<mp::tst_server> s; int port; Srv(int port, int nth, double to) : s(new mp::tst_server(to)), port(port) { set_all(*s); SIM_CHECK(s->create(port), "start", "create failed"); SIM_CHECK(s->run(nth, false), "start", "run failed"); } ~Srv() { } void end() { sim::set_hang_id("stop-hang", "a stopped server does not end:"); s->stop(); SIM_CHECK(!s->running(), "running", "running() after stop()"); s->join(); s.reset(); } };
// the server's name: plain, or one with several addresses of which only the last works
S host() { if (sim::rnd(3)) return "localhost"; std::vector<S> ips; int n = sim::rnd(3); static const int e[] = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH}; for (int i = 0; i < n; i++) { S ip = sim::fmt("10.0.0.%d", i + 1); sim::net::refuse(ip, e[sim::rnd(3)]); ips.push_back(ip); } ips.push_back("127.0.0.1"); sim::net::host("mp.example", ips); return "mp.example"; }
// calls that succeed or fail for every reason of their own, on sound connections
SCENARIO(C30, calls, 5) {
  rc::State state; rc::st = &state; swarm(); state.throw_mod = sim::rnd(4); state.pause = sim::rnd(4) == 0; int ncl = 1 + sim::rnd(3); double to = sim::coin() ? 0 : 1000; Srv srv(4200, ncl + sim::rnd(2), to); sim::set_hang_id("call-hang", "a remote call never returns:"); int id = 1; uint64_t r0 = sim::net::conns_established(); S at = host();
  struct Op { int k; rc::Call c; S name; }; std::vector<std::vector<Op> > plan(ncl); for (auto &p : plan) { p.resize(1 + sim::rnd(5)); for (auto &o : p) { static const char *nm[] = {"nope", "f10", "F1", "f", "", "f1 f2"}; o.k = sim::rnd(6); o.c = plan_(id++); o.name = sim::rnd(4) ? nm[sim::rnd(6)] : nc::bytes(nc::some_size(), id, 0); } }
  for (int i = 0; i < ncl; i++) sim::go([&, i] {
    mp::tst_client c(at, 4200, to);
    for (auto &o : plan[i]) {
      if (o.k == 0) { Got g = attempt([&] { c.call<int(int)>(o.name)(3); }); SIM_CHECK(g.w == NOTFOUND && g.name == o.name, "wrong-error", "calling the unknown function '%s' ends with %s '%s'", nc::show(o.name).c_str(), wn[g.w], nc::show(g.msg, 60).c_str()); }
      else if (o.k == 1 && sim::coin()) { Got g = attempt([&] { c.call<S(S, S)>("f2")("x", "y"); }); SIM_CHECK(g.w == TYPE, "wrong-error", "a call with an argument of the wrong type ends with %s '%s'", wn[g.w], g.msg.c_str()); }
      else if (o.k == 1) { o.c.fn = 1; o.c.id = 6000 + o.c.id * 12; Got g = attempt([&] { c.call<int(int)>("f1")(o.c.id); }); SIM_CHECK(g.w == TYPE, "wrong-error", "a call that expects another result type ends with %s '%s'", wn[g.w], g.msg.c_str()); rc::judge(o.c, false); }
      else { Got g = attempt([&] { rc::invoke(c, o.c); }); if (o.c.fn == 0) { SIM_CHECK(g.w == OK || state.throw_mod, "wrong-error", "a call ends with %s '%s'", wn[g.w], g.msg.c_str()); if (g.w == OK) rc::judge(o.c, true); continue; } bool th = throws(o.c); SIM_CHECK(g.w == (th ? OTHER : OK), "wrong-error", "a call whose function %s ends with %s '%s'", th ? "throws" : "returns", wn[g.w], nc::show(g.msg, 60).c_str()); if (th) SIM_CHECK(g.msg == says(o.c), "wrong-error", "a function that throws '%s' is reported as '%s'", says(o.c), g.msg.c_str()); rc::judge(o.c, g.w == OK); sim::Atomic a; int n = 0; for (auto &e : state.log) n += e.fn == o.c.fn && e.id == o.c.id; SIM_CHECK(n == 1, "executed", "call %d was executed %d times", o.c.id, n); }
    }
  });
  sim::join_all(); SIM_CHECK(sim::net::conns_established() - r0 <= (uint64_t)ncl, "connections", "%d clients made %d connections although none failed", ncl, (int)(sim::net::conns_established() - r0)); srv.end(); SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds()); sim::cover(ncl * 10 + state.throw_mod);
}
// resets, refused connections and a server that restarts; afterwards everything works again
SCENARIO(C30, faults, 5) {
  rc::State state; rc::st = &state; swarm(); state.throw_mod = sim::rnd(4) ? 0 : sim::rnd(4); int ncl = 1 + sim::rnd(3); double to = sim::rnd(3) ? 2 : 0; int nth = ncl + 1 + sim::rnd(2); std::unique_ptr<Srv> srv(new Srv(4200, nth, to)); sim::set_hang_id("call-hang", "a remote call never returns:");
  sim::enable(sim::K_RESET, sim::rnd(4) ? 1 : 0); sim::enable(sim::K_CONNFAIL, sim::rnd(3) == 0 ? 1 : 0); sim::enable(sim::K_ACCEPTFAIL, sim::rnd(3) == 0 ? 1 : 0); sim::enable(sim::K_DROPLINK, sim::rnd(3) == 0 && to > 0 ? 1 : 0); int id = 1; bool restart = sim::rnd(3) == 0 && to > 0;
  std::vector<std::vector<rc::Call> > plan(ncl), fin(ncl); for (int i = 0; i < ncl; i++) { plan[i].resize(1 + sim::rnd(6)); for (auto &c : plan[i]) { c = plan_(id++); if (!c.fn) c.fn = 1; } for (int k = 0; k < 3; k++) { rc::Call c = plan_(4 * 3 * ++id); c.id = 1200 + 12 * id; if (!c.fn) c.fn = 1; fin[i].push_back(c); } }
  sim::Event go_on; int ready = restart ? -1 : 0; S at = host();
  for (int i = 0; i < ncl; i++) sim::go([&, i] {
    mp::tst_client c(at, 4200, to); bool fresh = true;
    for (auto &k : plan[i]) { double lim = to * 4 + 1; int64_t s0 = sim::stall_total(); Got g = attempt([&] { rc::invoke(c, k); }); SIM_CHECK(g.w == OK || g.w == OTHER || (g.w == TIMEOUT && to > 0), "wrong-error", "a call on failing connections ends with %s '%s'", wn[g.w], nc::show(g.msg, 60).c_str()); (void)lim; (void)s0; rc::judge(k, g.w == OK); (void)fresh; }
    { sim::Atomic a; if (++ready == ncl) go_on.set(); } go_on.wait(); sim::faults_off(); if (to > 0) sim::sleep_ns(900000000000);
    // a connection may have failed without the client having noticed: one call may still fail, and then the next works
    int bad = 0; for (auto &k : fin[i]) { Got g = attempt([&] { rc::invoke(c, k); }); bad += g.w != OK; SIM_CHECK(g.w == OK || bad == 1, "no-recovery", "after the faults, call %d of a client ends with %s '%s'", k.id, wn[g.w], nc::show(g.msg, 60).c_str()); SIM_CHECK(g.w == OK || g.w == OTHER || (g.w == TIMEOUT && to > 0), "wrong-error", "a call ends with %s '%s'", wn[g.w], g.msg.c_str()); rc::judge(k, g.w == OK); }
  });
  if (restart) { sim::sleep_ns(sim::rnd(1000) * 10000); srv->end(); srv.reset(); sim::sleep_ns(sim::rnd(100) * 1000000); { sim::net::Outside o; srv.reset(new Srv(4200, nth, to)); } sim::set_hang_id("call-hang", "a remote call never returns:"); sim::Atomic a; if (++ready == ncl) go_on.set(); }
  sim::join_all(); for (auto &v : plan) for (auto &k : v) rc::judge(k, false); srv->end(); SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds()); sim::cover(100 + ncl * 10 + restart);
}
// time limits; answers that come late belong to nobody
SCENARIO(C30, late, 4) {
  rc::State state; rc::st = &state; swarm(); nc::volume = 0; sim::enable(sim::K_STALL, 0); sim::net::latency(false); static const double tos[] = {0.5, 1, 0.25, 2, 0.1}; double to = tos[sim::rnd(5)]; int ncl = 1 + sim::rnd(2); Srv srv(4200, ncl + 1, 100); sim::set_hang_id("call-hang", "a remote call does not respect its time limit:"); int id = 1;
  std::vector<std::vector<std::pair<rc::Call, int> > > plan(ncl); for (auto &p : plan) { p.resize(2 + sim::rnd(4)); for (auto &o : p) { o.first = plan_(id++); o.first.fn = 1 + sim::rnd(2); static const int d[] = {0, 0, 0, 50, 90, 110, 150, 210, 350}; o.second = d[sim::rnd(9)]; } }
  std::map<int, int64_t> delay; for (auto &p : plan) for (auto &o : p) delay[o.first.id] = (int64_t)(o.second * to * 1e7);
  srv.s->set_f1([&](int i) { { sim::Atomic a; rc::Exec e = {1, i, ""}; rc::st->log.push_back(e); } if (delay[i]) sim::sleep_ns(delay[i]); return sim::fmt("<%d>", i); }); srv.s->set_f2([&](int i, S a) { { sim::Atomic x; rc::Exec e = {2, i, a}; rc::st->log.push_back(e); } if (delay[i]) sim::sleep_ns(delay[i]); return sim::fmt("<%d>", i) + a; });
  for (int i = 0; i < ncl; i++) sim::go([&, i] {
    mp::tst_client c("127.0.0.1", 4200, to); double busy = 0; int owed = 0;      // until when the server works on earlier calls of this client
    for (auto &o : plan[i]) {
      double t0 = sim::now_s(); busy = std::max(busy, t0) + o.second * to / 100; Got g = attempt([&] { rc::invoke(c, o.first); }); double need = busy - t0, sl = sim::stall_total() / 1e9 + 0.5;
      if (need <= 0.001 && g.w == TIMEOUT) SIM_CHECK(g.t > to * 0.99, "early", "a call with a time limit of %.2f s gave up after %.3f s", to, g.t);
      SIM_CHECK(g.w == OK || g.w == TIMEOUT, "wrong-error", "a call ends with %s '%s'", wn[g.w], g.msg.c_str()); if (g.w == TIMEOUT) { SIM_CHECK(g.t > to * 0.99, "early", "a call with a time limit of %.2f s gave up after %.3f s", to, g.t); SIM_CHECK(need > to * 0.5 || sl > 0.5, "lost-answer", "the answer came after %.3f s and the call with a limit of %.2f s ends with a timeout", need, to); }
      SIM_CHECK(g.t <= 2 * to * (1 + owed) + sl, "late", "a call with a time limit of %.2f s ended after %.3f s", to, g.t); owed = g.w == OK ? 0 : owed + 1; rc::judge(o.first, g.w == OK);
    }
  });
  sim::join_all(); srv.end(); for (auto &v : plan) for (auto &k : v) rc::judge(k.first, false); SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
}
// --- messages written and read independently of the code under test
S mnum(uint64_t x) { msgpack::sbuffer b; msgpack::pack(b, x); return S(b.data(), b.size()); }
template <class T> S mp_(const T &t) { msgpack::sbuffer b; msgpack::pack(b, t); return S(b.data(), b.size()); }
S marr(const std::vector<S> &v) { msgpack::sbuffer b; msgpack::packer<msgpack::sbuffer> p(b); p.pack_array(v.size()); S r(b.data(), b.size()); for (auto &s : v) r += s; return r; }
S margs(const rc::Call &c) { std::vector<S> v; if (c.fn) v.push_back(mp_(c.id)); if (c.fn == 2) v.push_back(mp_(c.a[0])); else if (c.fn == 3) { v.push_back(mp_(VS(c.a.begin(), c.a.begin() + 3))); v.push_back(mp_(c.m)); } else if (c.fn == 4) { v.push_back(mp_(c.a[0])); v.push_back(mp_(c.m)); v.push_back(mp_(c.d)); } else if (c.fn >= 5) for (int i = 0; i < c.fn - 1; i++) v.push_back(mp_(c.a[i])); return marr(v); }
S request(const rc::Call &c, uint32_t id) { return marr({mnum(0), mnum(id), mp_(sim::fmt("f%d", c.fn)), margs(c)}); }
S value(const rc::Call &c) { S id = sim::fmt("%d", c.id); if (c.fn == 3) { VS w; for (int i = 2; i >= 0; i--) w.push_back(c.a[i]); w.push_back(id); return mp_(w); } if (c.fn == 4) { MSI r = c.m; r[c.a[0]] = c.id; r["d"] = (int)(c.d * 4); return mp_(r); } return mp_(c.fn == 1 ? "<" + id + ">" : c.fn == 2 ? "<" + id + ">" + c.a[0] : id + " " + rc::args_of(c)); }
S reply(uint64_t id, const S &err, const S &val) { return marr({mnum(1), mnum(id), err, val}); }
S mp_par(const msgpack::object &o) { using namespace msgpack; sbuffer b; packer<sbuffer> p(b); S r; switch (o.type) { case type::NIL: return "\xc0"; case type::BOOLEAN: return mp_(o.via.boolean); case type::POSITIVE_INTEGER: return mp_(o.via.u64); case type::NEGATIVE_INTEGER: return mp_(o.via.i64); case type::DOUBLE: return mp_(o.via.dec); case type::RAW: return mp_(S(o.via.raw.ptr, o.via.raw.size)); case type::ARRAY: p.pack_array(o.via.array.size); r.assign(b.data(), b.size()); for (uint32_t i = 0; i < o.via.array.size; i++) r += mp_par(o.via.array.ptr[i]); return r; default: p.pack_map(o.via.map.size); r.assign(b.data(), b.size()); for (uint32_t i = 0; i < o.via.map.size; i++) r += mp_par(o.via.map.ptr[i].key) + mp_par(o.via.map.ptr[i].val); return r; } }
const S nil = "\xc0";
struct Peer {           // a peer that reads whole messages from a connection
  int fd; msgpack::unpacker u; msgpack::object o; std::unique_ptr<msgpack::zone> z; size_t pending; bool broken; Peer(int fd) : fd(fd), pending(0), broken(false) { }
  bool next() { for (;;) { try { sim::Atomic a; if (u.execute()) { o = u.data(); z.reset(u.release_zone()); u.reset(); return true; } } catch (msgpack::unpack_error &) { broken = true; return false; } S s = sim::net::raw_recv(fd, 700); if (s.empty()) return false; sim::Atomic a; u.reserve_buffer(s.size()); memcpy(u.buffer(), s.data(), s.size()); u.buffer_consumed(s.size()); } }
};
// a client against a peer that misbehaves
SCENARIO(C30, bad_peer, 5) {
  rc::State state; rc::st = &state; swarm(); sim::enable(sim::K_STALL, 0); enum { GOOD, CUT, GARBAGE, FOREIGN_FIRST, ERR, NOREAD, SILENT, STALE, CLOSED, ODD, MODES }; int ncalls = 2 + sim::rnd(4), l = sim::net::raw_listen(4300), conns = 0; static const double tos[] = {0.5, 1, 2}; double to = tos[sim::rnd(3)]; std::vector<rc::Call> cs; std::vector<int> mode; std::vector<int> sub; for (int i = 0; i < ncalls; i++) { rc::Call c = plan_(i + 1); if (!c.fn) c.fn = 1; int m = sim::rnd(MODES); if (m == NOREAD) { c.fn = 2; c.a[0] = nc::bytes(70000, i, 0); } cs.push_back(c); mode.push_back(m); sub.push_back(sim::rnd(1000)); } if (std::count(mode.begin(), mode.end(), (int)NOREAD)) sim::net::buffer_limit(sim::coin() ? 3000 : 20000);
  sim::set_hang_id("call-hang", "a call to a misbehaving peer never returns:"); int cur = -1; bool stop = false; std::vector<int> seen(ncalls); S stale;
  sim::go([&] {
    sim::net::Outside out;
    for (;;) {
      int fd = sim::net::raw_accept(l); { sim::Atomic a; if (stop) { sim::net::raw_close(fd); return; } conns++; }
      sim::go([&, fd] { sim::net::Outside out; { Peer p(fd); int k0 = cur; if (k0 >= 0 && mode[k0] == NOREAD && !seen[k0]) { double hold = sub[k0] % 2 ? to * 3 : 100 * to; while (cur == k0 && hold > 0) { sim::sleep_ns(50000000); hold -= .05; } if (sub[k0] % 3 == 0) sim::sleep_ns(200000000); }
        while (p.next()) {
          msgpack::object *q = p.o.via.array.ptr; SIM_CHECK(p.o.type == msgpack::type::ARRAY && p.o.via.array.size == 4 && q[0].as<int>() == 0, "request", "what the client sent is not a request"); uint64_t id = q[1].as<uint32_t>(); msgpack::object par = q[3]; SIM_CHECK(par.type == msgpack::type::ARRAY && par.via.array.size >= 1, "request", "what the client sent has no arguments");
          int call = par.via.array.ptr[0].as<int>() - 1; SIM_CHECK(call >= 0 && call < ncalls, "request", "a request that no call made"); rc::Call &c = cs[call]; SIM_CHECK(q[2].as<S>() == sim::fmt("f%d", c.fn) && mp_par(par) == margs(c), "request", "the request of call %d does not carry its function and arguments", call); seen[call]++; SIM_CHECK(seen[call] == 1, "twice", "call %d was sent %d times", call, seen[call]);
          S good = reply(id, nil, value(c)); int m = mode[call], s = sub[call];
          if (m == GOOD || m == NOREAD) sim::net::raw_send(fd, good);
          else if (m == CUT) { sim::net::raw_send(fd, good.substr(0, s % good.size())); break; }
          else if (m == GARBAGE) { static const char *g[] = {"\xc1", "\x94\xc1", "\xd9", "\xc7zzz", "\x94\x01\x01\x01\xc1"}; sim::net::raw_send(fd, g[s % 5]); if (s % 3) sim::net::raw_send(fd, good); if (s % 2) break; }
          else if (m == FOREIGN_FIRST) { S x = reply(id + 1000 + s % 3, nil, mp_(S("not yours"))) + (s % 2 ? reply((id - 1000) & 0xffffffff, mp_(S("old error")), nil) : S()) + request(c, id); sim::net::raw_send(fd, x + good); }
          else if (m == ERR) { S e = s % 5 == 0 ? mnum(1) : s % 5 == 1 ? mnum(2) : s % 5 == 2 ? mp_(S("own")) : s % 5 == 3 ? mnum(77) : S("\xc3"); sim::net::raw_send(fd, reply(id, e, s % 5 == 0 ? mp_(S("other name")) : s % 2 ? nil : value(c))); }
          else if (m == SILENT) { }
          else if (m == STALE) { sim::sleep_ns((int64_t)(to * 2.5e9)); sim::net::raw_send(fd, reply(id, nil, mp_(S("stale")))); }
          else if (m == CLOSED) { if (s % 2) sim::net::raw_send(fd, good); break; }
          else { static const char *odd[] = {"\x90", "\x07", "\x93\x02\xa1n\x90", "\xa3txt", "\x94\xa1x\x01\xc0\xc0", "\x94\x01\xff\xc0\xc0", "\x94\xcd\x01\x01\x01\xc0\xc0"}; sim::net::raw_send(fd, odd[s % 7]); sim::net::raw_send(fd, good); }
        } }
        sim::net::raw_half_close(fd); sim::net::raw_recv_all(fd); sim::net::raw_close(fd); });
    }
  });
  sim::go([&] {
    { mp::tst_client cl("127.0.0.1", 4300, to); bool may_fail = false; double backlog = 0;
      for (int i = 0; i < ncalls; i++) {
        { sim::Atomic a; cur = i; } int m = mode[i], s = sub[i]; Got g = attempt([&] { rc::invoke(cl, cs[i]); }); double sl = sim::stall_total() / 1e9 + 0.5;
        SIM_CHECK(g.w != FOREIGN, "wrong-error", "a call ends with %s '%s' (peer kind %d)", wn[g.w], g.msg.c_str(), m); SIM_CHECK(m != SILENT || may_fail || request(cs[i], 1).size() > 50 || g.t <= 4 * to + sl, "late", "a call with a time limit of %.2f s ended after %.3f s (peer kind %d)", to, g.t, m);
        if (g.w == TIMEOUT) SIM_CHECK(g.t > to * 0.99, "early", "a call with a time limit of %.2f s gave up after %.3f s", to, g.t);
        bool soft = may_fail && (g.w == OTHER || g.w == TIMEOUT); if (soft) { may_fail = true; if (g.w == OTHER) may_fail = false; (void)backlog; if (g.w == TIMEOUT) continue; continue; }
        switch (m) {
          case GOOD: case FOREIGN_FIRST: SIM_CHECK(g.w == OK, "wrong-error", "an answered call ends with %s '%s' (peer kind %d)", wn[g.w], g.msg.c_str(), m); break;
          case CUT: SIM_CHECK(g.w == OTHER, "wrong-error", "a call whose answer is cut off ends with %s", wn[g.w]); break;
          case GARBAGE: SIM_CHECK(g.w == OTHER, "wrong-error", "a call that gets a malformed answer ends with %s '%s'", wn[g.w], g.msg.c_str()); break;
          case ERR: { What e = s % 5 == 0 ? NOTFOUND : s % 5 == 1 ? TYPE : OTHER; SIM_CHECK(g.w == e, "wrong-error", "an error answer %d ends a call with %s '%s'", s % 5, wn[g.w], g.msg.c_str()); if (e == NOTFOUND) SIM_CHECK(g.name == "other name", "wrong-error", "method_not_found names '%s'", g.name.c_str()); if (s % 5 == 2) SIM_CHECK(g.msg == "own", "wrong-error", "the error '%s' instead of 'own'", g.msg.c_str()); break; }
          case NOREAD: SIM_CHECK(g.w == OK || g.w == TIMEOUT, "wrong-error", "a call to a peer that does not read ends with %s '%s'", wn[g.w], g.msg.c_str()); if (g.w == TIMEOUT) may_fail = true; break;
          case SILENT: SIM_CHECK(g.w == TIMEOUT, "wrong-error", "a call that is not answered ends with %s", wn[g.w]); break;
          case STALE: SIM_CHECK(g.w == TIMEOUT, "wrong-error", "a call that is answered too late ends with %s", wn[g.w]); may_fail = true; break;
          case CLOSED: SIM_CHECK(g.w == (s % 2 ? OK : OTHER), "wrong-error", "a call on a connection the peer closes ends with %s", wn[g.w]); if (s % 2) may_fail = true; break;
          case ODD: SIM_CHECK(g.w == OTHER || ((s % 7 == 5 || s % 7 == 6) && g.w == OK), "wrong-error", "a call that gets an odd message ends with %s '%s'", wn[g.w], g.msg.c_str()); break;
        }
        if (g.w == OK) { may_fail = m == CLOSED; }
      }
      { sim::Atomic a; stop = true; cur = -2; } }
    sim::net::Outside o; int fd = sim::net::raw_connect(4300); sim::net::raw_close(fd);
  });
  sim::join_all(); sim::net::raw_close(l); SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
}
// a server whose clients misbehave: the others are served, nothing that was not requested runs, every worker survives
SCENARIO(C30, bad_clients, 5) {
  rc::State state; rc::st = &state; swarm(); int ncl = 1 + sim::rnd(2), nbad = 1 + sim::rnd(4), nth = 1 + sim::rnd(3); double to = sim::coin() ? 0 : 50; Srv srv(4200, nth, to); sim::set_hang_id("call-hang", "a server is stuck after malformed messages:"); int id = 1;
  std::vector<std::vector<rc::Call> > plan(ncl); for (auto &p : plan) { p.resize(1 + sim::rnd(3)); for (auto &c : p) { c = plan_(id++); if (!c.fn) c.fn = 1; } }
  for (int i = 0; i < nbad; i++) { rc::Call c = plan_(900 + i); if (!c.fn) c.fn = 2; int kind = sim::rnd(11), sub = sim::rnd(1000), nok = sim::rnd(3); bool rst = sim::rnd(4) == 0; sim::go([=] {
    sim::net::Outside out; int fd = sim::net::raw_connect(4200); uint32_t mid = 5; { Peer p(fd); bool open = true;
      for (int k = 0; k < nok && open; k++) { rc::Call o; o.fn = 1; o.id = 2000 + i * 10 + k; sim::net::raw_send(fd, request(o, mid)); SIM_CHECK(p.next() && mp_par(p.o) == reply(mid, nil, value(o)), "wrong-result", "the answer to a request is not the encoding of its result"); mid++; }
      S s = request(c, mid), x; bool dead = false, expect_err = false; S err;
      switch (kind) {
        case 0: x = s.substr(0, sub % s.size()); dead = true; break;
        case 1: { static const char *g[] = {"\xc1", "\x94\xc1", "\xd9zz", "\xc7", "\x94\x00\x01\xa2""f1\xc4"}; x = g[sub % 5] + s; dead = true; break; }
        case 2: x = marr({mnum(0), mnum(mid), mnum(sub % 7), marr({mnum(1)})}); dead = true; break;                      // the name is no string
        case 3: x = marr({mnum(0), mnum(mid), mp_(S("f1")), mnum(3)}); expect_err = true; err = mnum(2); break;               // the arguments are no array
        case 4: x = reply(mid, nil, mnum(1)); break;                                                                  // an answer to nothing
        case 5: { static const char *g[] = {"\x90", "\x07", "\x93\x02\xa1n\x90", "\xa3txt", "\x94\xa1x\x01\xc0\xc0", "\x94\x00\xff\xa2""f1\x91\x01"}; x = g[sub % 6]; dead = true; break; }
        case 6: x = marr({mnum(0), mnum(mid), mp_(S("nope\0x", 6)), marr({mnum(3)})}); expect_err = true; err = mnum(1); break;
        case 7: x = marr({mnum(0), mnum(mid), mp_(S("f1")), marr({mp_(S("x"))})}); expect_err = true; err = mnum(2); break;
        case 8: x = marr({mnum(0), mnum(mid), mp_(S("f3")), marr({mnum(3), mp_(VS(1, "a")), mp_(VS())})}); expect_err = true; err = mnum(2); break;
        case 9: x = marr({mnum(0), mnum(mid), mp_(S("f1")), marr({mnum(1ull << 40)})}); expect_err = true; err = mnum(2); break;
        default: x = S("\xdd\xff\xff\xff\xff", 5) + s; dead = true; break;
      }
      sim::net::raw_send(fd, x);
      if (expect_err) { SIM_CHECK(p.next() && p.o.type == msgpack::type::ARRAY && p.o.via.array.size == 4, "wrong-error", "no answer to a request that cannot be executed (kind %d)", kind); msgpack::object *q = p.o.via.array.ptr; SIM_CHECK(mp_par(q[0]) == mnum(1) && mp_par(q[1]) == mnum(mid) && mp_par(q[2]) == err, "wrong-error", "the wrong answer to a request that cannot be executed (kind %d)", kind); mid++; }
      if (!dead && sub % 2) { rc::Call o; o.fn = 1; o.id = 2000 + i * 10 + 8; sim::net::raw_send(fd, request(o, mid)); SIM_CHECK(p.next() && mp_par(p.o) == reply(mid, nil, value(o)), "wrong-result", "after a message of kind %d, the answer to the next request is wrong or missing", kind); } }
    if (rst) { sim::net::raw_reset(fd); return; } if (sub % 3) { sim::net::raw_half_close(fd); sim::net::raw_recv_all(fd); } sim::net::raw_close(fd); }); }
  for (int i = 0; i < ncl; i++) sim::go([&, i] { for (auto &k : plan[i]) { mp::tst_client c("localhost", 4200, 0); Got g = attempt([&] { rc::invoke(c, k); }); SIM_CHECK(g.w == OK, "disturbed", "while other clients send malformed messages, a call ends with %s '%s'", wn[g.w], g.msg.c_str()); rc::judge(k, true); } });
  sim::join_all(); { sim::Atomic a; for (auto &e : state.log) SIM_CHECK(e.id < 900 || e.id >= 2000, "executed", "a request that was never completely or correctly sent was executed (id %d)", e.id); }
  { sim::net::Outside out; std::vector<int> fd; for (int i = 0; i < nth; i++) fd.push_back(sim::net::raw_connect(4200)); for (int i = 0; i < nth; i++) { Peer p(fd[i]); rc::Call o; o.fn = 1; o.id = 3000 + i; sim::set_hang_id("worker-lost", "a worker of the server was lost after malformed messages:"); sim::net::raw_send(fd[i], request(o, 7)); SIM_CHECK(p.next() && mp_par(p.o) == reply(7, nil, value(o)), "wrong-result", "the answer to a request is not the encoding of its result"); } for (int f : fd) sim::net::raw_close(f); }
  srv.end(); SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds()); sim::cover(300 + nbad * 10 + nth);
}
// a client that does not read its answers, and stopping with connections open
SCENARIO(C30, stopping, 3) {
  rc::State state; rc::st = &state; swarm(); sim::enable(sim::K_STALL, 0); static const double tos[] = {0.5, 1, 2}; double to = tos[sim::rnd(3)]; int nth = 1 + sim::rnd(3), ncl = sim::rnd(4), how = sim::rnd(3); bool unread = sim::coin(); if (unread) sim::net::buffer_limit(3000); std::unique_ptr<Srv> srv(new Srv(4200, nth, to)); std::vector<int> fds; sim::set_hang_id("call-hang", "a remote call never returns:");
  { sim::net::Outside out; for (int i = 0; i < ncl; i++) { int fd = sim::net::raw_connect(4200); fds.push_back(fd); int k = sim::rnd(4); rc::Call o = plan_(500 + i); o.fn = 2; if (unread) o.a[0] = nc::bytes(20000, i, 0); S s = request(o, 1); if (k == 0) continue; if (k == 1) sim::net::raw_send(fd, s.substr(0, s.size() < 900 ? s.size() / 2 : 400)); else if (k == 2) { if (unread) { S all = s; sim::go([=] { sim::net::Outside o2; sim::net::raw_send(fd, all); rc::Call n; n.fn = 1; n.id = 7; sim::net::raw_send(fd, request(n, 2)); sim::sleep_ns((int64_t)(to * 8e9)); Peer p(fd); int c = 0; while (p.next()) { SIM_CHECK(mp_par(p.o) == reply(++c == 1 ? 1 : 2, nil, c == 1 ? value(o) : value(n)), "torn", "what a client reads after it was slow is not a sequence of answers"); } SIM_CHECK(!p.broken, "torn", "what a client reads after it was slow is malformed"); }); } else sim::net::raw_send(fd, s); } } }
  if (how) sim::sleep_ns((int64_t)(sim::rnd(30) * to * 1e8)); double t0 = sim::now_s(); srv->end(); double t = sim::now_s() - t0; SIM_CHECK(t < 5 * to + 1 + sim::stall_total() / 1e9, "slow-stop", "a server with a time limit of %.2f s needs %.2f s to stop", to, t); srv.reset();
  { mp::tst_client c("localhost", 4200, to); Got g = attempt([&] { c.call<S(int)>("f1")(3); }); SIM_CHECK(g.w == OTHER, "wrong-error", "a call to a stopped server ends with %s '%s'", wn[g.w], g.msg.c_str()); }
  { sim::net::Outside o; Srv again(4200, nth, to); mp::tst_client c("localhost", 4200, to); Got g = attempt([&] { c.call<S(int)>("f1")(4); }); SIM_CHECK(g.w == OK, "no-restart", "a call to a restarted server ends with %s '%s'", wn[g.w], g.msg.c_str()); again.end(); }
  sim::join_all(); { sim::net::Outside o; for (int f : fds) sim::net::raw_close(f); } SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds()); sim::cover(400 + nth * 10 + ncl);
}
// a server that cannot start says so, leaves nothing behind, and starts when it can
SCENARIO(C30, starting, 3) {
  rc::State state; rc::st = &state; sim::net::latency(false); int nth = 1 + sim::rnd(3), how = sim::rnd(4), busy = -1; bool serv = sim::coin(); sim::set_hang_id("start-hang", "a server that cannot start does not give up:");
  { std::unique_ptr<mp::tst_server> s(new mp::tst_server(1.0)); set_all(*s); int tries = 1 + sim::rnd(2);
    for (int t = 0; t < tries; t++) {
      if (how == 0) busy = sim::net::raw_listen(4200); else if (how == 1) sim::enable(sim::K_THREADFAIL, 4); else if (how == 2) sim::enable(sim::K_SOCKFAIL, 3); uint64_t f0 = sim::fault_count(sim::K_THREADFAIL) + sim::fault_count(sim::K_SOCKFAIL);
      bool r; if (serv && how == 0) r = s->serv(4200, nth); else { r = s->create(4200); if (r) { bool q = sim::fault_count(sim::K_SOCKFAIL) == 0 || how != 2; SIM_CHECK(q || sim::fault_count(sim::K_THREADFAIL) + sim::fault_count(sim::K_SOCKFAIL) == f0, "start-lies", "listening reports success, but a step of it failed"); sim::enable(sim::K_SOCKFAIL, 0); r = s->run(nth, false); } }
      bool faulted = how == 0 || sim::fault_count(sim::K_THREADFAIL) + sim::fault_count(sim::K_SOCKFAIL) > f0; sim::enable(sim::K_THREADFAIL, 0); sim::enable(sim::K_SOCKFAIL, 0);
      SIM_CHECK(r == !faulted, faulted ? "start-lies" : "start", "starting returned %d, %s", r, faulted ? "but a step of it failed" : "but nothing failed"); SIM_CHECK(s->running() == r, "running", "running() is %d after a start that %s", s->running(), r ? "succeeded" : "failed");
      if (r) { SIM_CHECK(!s->run(nth, false), "start", "a running server starts again"); mp::tst_client c("localhost", 4200, 5); Got g = attempt([&] { c.call<S(int)>("f1")(4); }); SIM_CHECK(g.w == OK, "wrong-error", "a call to a server that started ends with %s '%s'", wn[g.w], g.msg.c_str()); }
      if (r) { s->stop(); s->join(); } if (busy >= 0) { sim::net::raw_close(busy); busy = -1; } SIM_CHECK(!s->running(), "running", "running() after stop()");
      sim::wait_quiescent(); SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%d threads left:%s", sim::live_threads() - 1, sim::blocked().c_str()); if (!r) SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open by a start that failed", sim::net::open_fds());
    }
    if (sim::coin()) { if (serv) { bool r = false; sim::go([&] { r = s->serv(4200, nth); }); mp::tst_client c("localhost", 4200, 5); Got g; for (int k = 0; k < 50; k++) { g = attempt([&] { c.call<S(int)>("f1")(8); }); if (g.w == OK) break; sim::sleep_ns(10000000); } SIM_CHECK(g.w == OK, "no-restart", "a call to a server that started at last ends with %s '%s'", wn[g.w], g.msg.c_str()); s->stop(); sim::join_all(); SIM_CHECK(r, "start", "a server that ran and was stopped reports that it did not start"); }
      else { SIM_CHECK(s->create(4200) && s->run(nth, false), "no-restart", "after a failed start, starting again fails"); { mp::tst_client c("localhost", 4200, 5); Got g = attempt([&] { c.call<S(int)>("f1")(8); }); SIM_CHECK(g.w == OK, "no-restart", "a call to a server that started at last ends with %s '%s'", wn[g.w], g.msg.c_str()); } s->stop(); s->join(); } } }
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds()); sim::cover(600 + how * 10 + nth);
}
}
