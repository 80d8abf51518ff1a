// Shared pieces of the RPC harnesses: an interface with functions of every arity.
#ifndef VERIF_RPCCOMMON_H
#define VERIF_RPCCOMMON_H
#include "netcommon.h"
#include <map>
#include <set>
#include <memory>
#include <sstream>
#include "network/rpc.h"
#include "network/dns.h"
typedef std::string S;
typedef std::vector<std::string> VS;
typedef std::map<std::string, int> MSI;
RPC_PROC(f0, int());
RPC_PROC(f1, S(int));
RPC_PROC(f2, S(int, S));
RPC_PROC(f3, VS(int, VS, MSI));
RPC_PROC(f4, MSI(int, S, MSI, double));
RPC_PROC(f5, S(int, S, S, S, S));
RPC_PROC(f6, S(int, S, S, S, S, S));
RPC_PROC(f7, S(int, S, S, S, S, S, S));
RPC_PROC(f8, S(int, S, S, S, S, S, S, S));
RPC_PROC(f9, S(int, S, S, S, S, S, S, S, S));
RPC_GEN(7, tst, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9);
RPC_GEN(8, tst8, f0, f1, f2, f3, f4, f5, f6, f7, f8, f9);
namespace rc {
struct Exec { int fn, id; S args; };
struct State { std::vector<Exec> log; int counter; bool pause; int throw_mod; State() : counter(0), pause(false), throw_mod(0) {} };
extern State *st;
State *st __attribute__((weak)) = 0;
inline S ser(const VS &v) { S r; for (size_t i = 0; i < v.size(); i++) r += sim::fmt("%zu:", v[i].size()) + v[i]; return r; }
inline S ser(const MSI &m) { S r; for (MSI::const_iterator i = m.begin(); i != m.end(); ++i) r += sim::fmt("%zu:", i->first.size()) + i->first + sim::fmt("=%d;", i->second); return r; }
inline void enter(int fn, int id, const S &args) {
  { sim::Atomic a; Exec e = {fn, id, args}; st->log.push_back(e); }
  if (st->pause && sim::rnd(2)) sim::sleep_ns(1 + (int64_t)sim::rnd(1000) * 1000000);
  if (st->throw_mod) { if (id % 4 == 1) throw pfi::network::rpc::rpc_error("handler refuses"); if (id % 4 == 2 && st->throw_mod > 1) throw std::runtime_error("handler broke"); }
}
inline int h0() { int c; { sim::Atomic a; c = ++st->counter; } enter(0, c, ""); return c; }
inline S h1(int i) { enter(1, i, ""); return sim::fmt("<%d>", i); }
inline S h2(int i, const S &a) { enter(2, i, a); return sim::fmt("<%d>", i) + a; }
inline VS h3(int i, const VS &a, const MSI &b) { enter(3, i, ser(a) + "/" + ser(b)); VS r(a.rbegin(), a.rend()); r.push_back(sim::fmt("%d", i)); return r; }
inline MSI h4(int i, const S &a, const MSI &b, double d) { enter(4, i, a + "/" + ser(b) + sim::fmt("/%g", d)); MSI r = b; r[a] = i; r["d"] = (int)(d * 4); return r; }
inline S hs(int fn, int i, const VS &v) { enter(fn, i, ser(v)); return sim::fmt("%d ", i) + ser(v); }
template <class SV> void set_all(SV &s) {
  s.set_f0(&h0); s.set_f1(&h1); s.set_f2(pfi::lang::function<S(int, S)>(&h2)); s.set_f3(pfi::lang::function<VS(int, VS, MSI)>(&h3)); s.set_f4(pfi::lang::function<MSI(int, S, MSI, double)>(&h4));
  s.set_f5([](int i, S a, S b, S c, S d) { return hs(5, i, VS{a, b, c, d}); });
  s.set_f6([](int i, S a, S b, S c, S d, S e) { return hs(6, i, VS{a, b, c, d, e}); });
  s.set_f7([](int i, S a, S b, S c, S d, S e, S f) { return hs(7, i, VS{a, b, c, d, e, f}); });
  s.set_f8([](int i, S a, S b, S c, S d, S e, S f, S g) { return hs(8, i, VS{a, b, c, d, e, f, g}); });
  s.set_f9([](int i, S a, S b, S c, S d, S e, S f, S g, S h) { return hs(9, i, VS{a, b, c, d, e, f, g, h}); });
}
// one call with a unique id; throws what the client throws; checks the result
struct Call { int fn, id; VS a; MSI m; double d; int r0; };
inline void swarm() {
  nc::swarm(); nc::volume = sim::rnd(30) == 0 ? 2 : sim::rnd(6) == 0 ? 1 : 0; nc::bigs = 0;
  // at least the kernel's minimum: a server may answer before it read the whole request
  static const size_t cap[] = {65536, 65536, 64, 300, 5000}; sim::net::buffer_limit(cap[sim::rnd(5)]);
  if (nc::volume == 2) sim::net::buffer_limit(sim::coin() ? 65536 : 5000);
}
inline Call plan(int id) {
  Call c; static const int t[] = {0, 1, 2, 2, 3, 3, 4, 4, 2, 1, 5, 6, 7, 8, 9}; c.fn = t[sim::rnd(15)]; c.id = id; c.d = (sim::rnd(100) - 50) / 4.0; c.r0 = 0;
  for (int i = 0; i < 8; i++) c.a.push_back(i < 2 ? nc::bytes(nc::some_size(), id * 10 + i, sim::rnd(3)) : nc::bytes((id * 7 + i * 3) % 9, id + i, 0));
  int n = sim::rnd(4); for (int i = 0; i < n; i++) c.m[nc::bytes(sim::rnd(6), i + id, 2)] = (int)sim::rnd(2000) - 1000;
  return c;
}
inline S args_of(const Call &c) {
  switch (c.fn) { case 0: case 1: return ""; case 2: return c.a[0]; case 3: return ser(VS(c.a.begin(), c.a.begin() + 3)) + "/" + ser(c.m); case 4: return c.a[0] + "/" + ser(c.m) + sim::fmt("/%g", c.d); default: return ser(VS(c.a.begin(), c.a.begin() + c.fn - 1)); }
}
template <class CL> void invoke(CL &cl, Call &c) {
  bool ok = true; VS &a = c.a; int i = c.id;
  switch (c.fn) {
    case 0: c.r0 = cl.call_f0(); break;
    case 1: ok = cl.call_f1(i) == sim::fmt("<%d>", i); break;
    case 2: ok = cl.call_f2(i, a[0]) == sim::fmt("<%d>", i) + a[0]; break;
    case 3: { VS v(a.begin(), a.begin() + 3), w(v.rbegin(), v.rend()); w.push_back(sim::fmt("%d", i)); ok = cl.call_f3(i, v, c.m) == w; break; }
    case 4: { MSI r = c.m; r[a[0]] = i; r["d"] = (int)(c.d * 4); ok = cl.call_f4(i, a[0], c.m, c.d) == r; break; }
    case 5: ok = cl.call_f5(i, a[0], a[1], a[2], a[3]) == sim::fmt("%d ", i) + args_of(c); break;
    case 6: ok = cl.call_f6(i, a[0], a[1], a[2], a[3], a[4]) == sim::fmt("%d ", i) + args_of(c); break;
    case 7: ok = cl.call_f7(i, a[0], a[1], a[2], a[3], a[4], a[5]) == sim::fmt("%d ", i) + args_of(c); break;
    case 8: ok = cl.call_f8(i, a[0], a[1], a[2], a[3], a[4], a[5], a[6]) == sim::fmt("%d ", i) + args_of(c); break;
    case 9: ok = cl.call_f9(i, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]) == sim::fmt("%d ", i) + args_of(c); break;
  }
  SIM_CHECK(ok, "wrong-result", "call %d of a function with %d arguments returned a value that is not its function's result for these arguments", i, c.fn);
}
// judge the recorded executions of one call
inline void judge(const Call &c, bool success) {
  sim::Atomic a; int n = 0;
  if (c.fn == 0) { if (success) { for (size_t i = 0; i < st->log.size(); i++) n += st->log[i].fn == 0 && st->log[i].id == c.r0; SIM_CHECK(n == 1, "wrong-result", "a call without arguments returned %d, which no execution produced", c.r0); } return; }
  for (size_t i = 0; i < st->log.size(); i++) if (st->log[i].fn && st->log[i].id == c.id) { n++; SIM_CHECK(st->log[i].fn == c.fn, "wrong-function", "call %d of function %d executed function %d", c.id, c.fn, st->log[i].fn); SIM_CHECK(st->log[i].args == args_of(c), "wrong-arguments", "call %d was executed with arguments that were not passed", c.id); }
  SIM_CHECK(n <= 1, "executed-twice", "one call (id %d) was executed %d times", c.id, n);
  if (success) SIM_CHECK(n == 1, "not-executed", "call %d returned a result without having been executed", c.id);
}
// the bytes of a request and of its reply, written independently of the callers under test
inline std::string enc(const std::string &s) { uint32_t n = s.size(); return std::string((char *)&n, 4) + s; }
// the bytes of a request and of its reply
inline std::string request_of(const Call &c) {
  std::ostringstream o; pfi::data::serialization::binary_oarchive oa(o); std::string n = sim::fmt("f%d", c.fn); int v = 7, id = c.id; oa << n << v;
  if (c.fn) oa << id;
  if (c.fn == 2) { S x = c.a[0]; oa << x; } else if (c.fn == 3) { VS x(c.a.begin(), c.a.begin() + 3); MSI m = c.m; oa << x << m; } else if (c.fn == 4) { S x = c.a[0]; MSI m = c.m; double d = c.d; oa << x << m << d; }
  else if (c.fn >= 5) for (int i = 0; i < c.fn - 1; i++) { S x = c.a[i]; oa << x; }
  return o.str();
}
inline std::string value_of(const Call &c) {
  std::ostringstream o; pfi::data::serialization::binary_oarchive oa(o); S id = sim::fmt("%d", c.id);
  if (c.fn == 3) { VS w; for (int i = 2; i >= 0; i--) w.push_back(c.a[i]); w.push_back(id); oa << w; }
  else if (c.fn == 4) { MSI r = c.m; r[c.a[0]] = c.id; r["d"] = (int)(c.d * 4); oa << r; }
  else { S s = c.fn == 1 ? "<" + id + ">" : c.fn == 2 ? "<" + id + ">" + c.a[0] : id + " " + args_of(c); oa << s; }
  return o.str();
}
}
#endif
