// C07: multiplexing channel.
#include "../sim/sim.h"
#include "lin.h"
#include "thrval.h"
#include <deque>
#include <map>
#include "concurrent/chan.h"
using pfi::concurrent::chan;
using pfi::lang::shared_ptr;
namespace {
enum { DUP, WRITE, READ, UNGET, SIZE, EMPTY, FAILED };
const char *const names[] = {"dup", "write", "read", "unget", "size", "empty", "(failed)"};
// one endpoint: gets every write from its creation on
struct Model {
  std::deque<int64_t> q; bool exists;
  bool step(const lin::Hist::Op &o) {
    switch (o.code) {
      case DUP: exists = true; return true;
      case WRITE: if (exists) q.push_back(o.a); return true;
      case READ: if (q.empty() || q.front() != o.r) return false; q.pop_front(); return true;
      case UNGET: q.push_front(o.a); return true;
      case SIZE: return (int64_t)q.size() == o.r;
      case EMPTY: return q.empty() == (o.r != 0);
      case FAILED: return true;        // ended with an exception: no effect
    }
    return false;
  }
  bool pend(const lin::Hist::Op &o) { if (o.code == READ) { if (q.empty()) return false; q.pop_front(); return true; } if (o.code == WRITE) { if (exists) q.push_back(o.a); return true; } return true; }
  std::string key() const { std::string s(exists ? "e" : "n"); for (size_t i = 0; i < q.size(); i++) s += (char)q[i]; return s; }
};
struct Ep { shared_ptr<chan<Val> > c; lin::Hist h; };

void ops_scenario(bool throwing) {
  sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  int ne = 1 + sim::rnd(3), nt = 2 + sim::rnd(3), total = 3 + sim::rnd(8);
  static Ep ep[6]; int made = 1; uint64_t clk = 0;
  ep[0].c = shared_ptr<chan<Val> >(new chan<Val>());
  for (int i = 1; i < ne; i++) { ep[i].c = ep[sim::rnd(i)].c->dup(); made++; }
  std::vector<bool> early(6, false); for (int i = 0; i < ne; i++) early[i] = true;
  struct Op { int code, e, v; };
  std::vector<std::vector<Op> > plan(nt); int next = 1, dups = 0;
  for (int i = 0; i < total; i++) {
    int r = sim::rnd(20); Op o; o.e = sim::rnd(ne); o.v = 0;
    o.code = r < 7 ? WRITE : r < 13 ? READ : r < 15 ? UNGET : r < 17 ? SIZE : r < 18 ? EMPTY : DUP;
    if (o.code == DUP && (ne + dups >= 6 || dups >= 2)) o.code = WRITE;
    if (o.code == DUP) { o.v = ne + dups; dups++; }
    if (o.code == WRITE || o.code == UNGET) o.v = next++;
    plan[sim::rnd(nt)].push_back(o);
  }
  // histories: clk is shared so that invocation order is comparable
  struct Rec { int e, i; };
  auto begin = [&](int code, int e, int v) { std::vector<Rec> r; sim::Atomic a; ++clk;
    for (int k = 0; k < 6; k++) if (k == e || (code == WRITE && e < 0)) { ep[k].h.clk = clk; Rec x = {k, ep[k].h.begin(code, v)}; ep[k].h.ops[x.i].inv = clk; r.push_back(x); }
    return r; };
  auto end = [&](const std::vector<Rec> &r, bool ok, int64_t v) { sim::Atomic a; ++clk; for (size_t k = 0; k < r.size(); k++) { ep[r[k].e].h.end(r[k].i, ok, v); ep[r[k].e].h.ops[r[k].i].res = clk; } };
  auto failed = [&](const std::vector<Rec> &r) { sim::Atomic a; for (size_t k = 0; k < r.size(); k++) ep[r[k].e].h.ops[r[k].i].code = FAILED; end(r, false, 0); };
  throwing_swarm(throwing); sim::set_hang_id("chan-hang", "a channel operation never returns:");
  for (int t = 0; t < nt; t++) sim::go([&, t] {
    for (size_t i = 0; i < plan[t].size(); i++) {
      Op o = plan[t][i];
      std::vector<Rec> r;
      switch (o.code) {
        // a write that fails may have reached any of the endpoints
        case WRITE: { Val v(o.v); r = begin(WRITE, -1, o.v); if (attempt([&] { ep[o.e].c->write(v); })) end(r, true, 0); else { sim::Atomic a; for (size_t k = 0; k < r.size(); k++) ep[r[k].e].h.ops[r[k].i].ok = true; } break; }
        case READ: { r = begin(READ, o.e, 0); Val v; if (attempt([&] { v = ep[o.e].c->read(); })) { SIM_CHECK(v.good(), "torn-value", "a value that was never written"); end(r, true, v.a); } else failed(r); break; }
        case UNGET: { Val v(o.v); r = begin(UNGET, o.e, o.v); if (attempt([&] { ep[o.e].c->unget(v); })) end(r, true, 0); else failed(r); break; }
        case SIZE: { r = begin(SIZE, o.e, 0); int v = ep[o.e].c->size(); end(r, true, v); break; }
        case EMPTY: { r = begin(EMPTY, o.e, 0); bool v = ep[o.e].c->empty(); end(r, true, v); break; }
        case DUP: { r = begin(DUP, o.v, 0); shared_ptr<chan<Val> > n; attempt([&] { n = ep[o.e].c->dup(); }); { sim::Atomic a; ep[o.v].c = n; } end(r, true, 0); break; }
      }
    }
  });
  sim::wait_quiescent(); throwing_end();
  std::vector<std::vector<int> > content(6);
  for (int e = 0; e < 6; e++) if (ep[e].c) {
    int sz = ep[e].c->size(); SIM_CHECK(ep[e].c->empty() == (sz == 0), "empty-size", "empty() and size() disagree");
    for (size_t i = 0; i < ep[e].h.ops.size(); i++) if (ep[e].h.ops[i].res == lin::PENDING) {
      if (ep[e].h.ops[i].code == WRITE && ep[e].h.ops[i].ok) continue;
      SIM_CHECK(ep[e].h.ops[i].code == READ, "chan-hang", "%s never returned", names[ep[e].h.ops[i].code]);
      SIM_CHECK(sz == 0, "lost-wakeup", "a reader is blocked although its endpoint holds %d elements", sz);
    }
    for (int k = 0; k < sz; k++) { std::vector<Rec> r = begin(READ, e, 0); int v = ep[e].c->read(); end(r, true, v); sim::Atomic a; content[e].push_back(v); }
  }
  sim::Atomic at;
  for (int e = 0; e < 6; e++) if (ep[e].c) {
    Model m; m.exists = early[e];
    SIM_CHECK(lin::linearizable(ep[e].h, m), "not-linearizable", "no order of the operations explains endpoint %d:%s", e, lin::show(ep[e].h, names).c_str());
  }
  uint64_t cv = ne * 7 + nt; for (int e = 0; e < 6; e++) for (size_t i = 0; i < ep[e].h.ops.size(); i++) cv = cv * 31 + ep[e].h.ops[i].code * 8 + ep[e].h.ops[i].tid + (ep[e].h.ops[i].res == lin::PENDING) * 64;
  sim::cover(cv);
  sim::done();
}
SCENARIO(C07, ops, 5) { ops_scenario(false); }
SCENARIO(C07, throwing, 3) { ops_scenario(true); }
// all endpoints see all writes, in one common order, each exactly once
SCENARIO(C07, common_order, 4) {
  sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  int ne = 2 + sim::rnd(3), nw = 1 + sim::rnd(3), per = 1 + sim::rnd(4), total = nw * per;
  std::vector<shared_ptr<chan<int> > > c; c.push_back(shared_ptr<chan<int> >(new chan<int>()));
  for (int i = 1; i < ne; i++) c.push_back(c[sim::rnd(i)]->dup());
  std::vector<std::vector<int> > got(ne); int late = sim::rnd(2); std::vector<int> lategot;
  std::vector<int> via(nw); for (int i = 0; i < nw; i++) via[i] = sim::rnd(ne); int ung = sim::rnd(2);
  sim::set_hang_id("chan-lost", "an endpoint does not get every element:");
  for (int w = 0; w < nw; w++) sim::go([&, w] { for (int i = 0; i < per; i++) c[via[w]]->write(1000 * (w + 1) + i); });
  for (int e = 0; e < ne; e++) sim::go([&, e] {
    for (int i = 0; i < total; i++) {
      int v = c[e]->read();
      if (ung && (i & 1)) { c[e]->unget(v); int u = c[e]->read(); SIM_CHECK(u == v, "unget-order", "after unget(%d) the next read on that endpoint gives %d", v, u); }
      sim::Atomic a; got[e].push_back(v);
    }
  });
  shared_ptr<chan<int> > tmp;
  if (late) sim::go([&] { shared_ptr<chan<int> > d = c[0]->dup(); sim::yield(); int n = d->size(); for (int i = 0; i < n; i++) { int v = d->read(); sim::Atomic a; lategot.push_back(v); } d.reset(); });
  sim::join_all();
  sim::Atomic a;
  for (int e = 0; e < ne; e++) {
    SIM_CHECK(c[e]->size() == 0, "chan-extra", "endpoint %d still holds %d elements", e, c[e]->size());
    SIM_CHECK(got[e] == got[0], "order-differs", "endpoints see different orders or elements");
  }
  std::map<int, int> last; std::map<int, int> cnt;
  for (size_t i = 0; i < got[0].size(); i++) { int w = got[0][i] / 1000, n = got[0][i] % 1000; SIM_CHECK(++cnt[got[0][i]] == 1, "duplicated", "%d delivered twice", got[0][i]); SIM_CHECK(!last.count(w) || last[w] < n, "reordered", "one writer's elements arrive out of order"); last[w] = n; }
  // a late endpoint sees a contiguous piece of the common order
  if (!lategot.empty()) {
    size_t p = 0; while (p < got[0].size() && got[0][p] != lategot[0]) p++;
    for (size_t i = 0; i < lategot.size(); i++) SIM_CHECK(p + i < got[0].size() && got[0][p + i] == lategot[i], "dup-gap", "an endpoint made while writers are active misses or reorders elements");
  }
}
// endpoints come and go while others write and read
SCENARIO(C07, churn, 2) {
  shared_ptr<chan<int> > base(new chan<int>()); int nt = 1 + sim::rnd(3), per = 1 + sim::rnd(3), nw = 1 + sim::rnd(2); int reads = 0;
  sim::set_hang_id("chan-hang", "creating or destroying endpoints blocks:");
  for (int w = 0; w < nw; w++) sim::go([&, w] { shared_ptr<chan<int> > mine = base->dup(); for (int i = 0; i < per * 2; i++) { mine->write(w * 100 + i); } int n = mine->size(); SIM_CHECK(n >= per * 2, "chan-lost", "a writer's own endpoint holds %d of its %d elements", n, per * 2); });
  for (int t = 0; t < nt; t++) sim::go([&] { for (int i = 0; i < per; i++) { shared_ptr<chan<int> > d = base->dup(); d->write(7); int v = d->read(); (void)v; sim::Atomic a; reads++; } });
  sim::join_all();
  SIM_CHECK(base->size() == nw * per * 2 + nt * per, "chan-lost", "the first endpoint holds %d of %d elements", base->size(), nw * per * 2 + nt * per);
}
}
