// C05: producer/consumer buffer is a linearizable bounded FIFO queue.
#include "../sim/sim.h"
#include "lin.h"
#include "thrval.h"
#include <deque>
#include <stdexcept>
#include "concurrent/pcbuf.h"

using pfi::concurrent::pcbuf;
namespace {
enum { PUSH, POP, TPUSH, TPOP, CLEAR, SIZE, EMPTY, FAILED };
const char *const names[] = {"push", "pop", "push_timed", "pop_timed", "clear", "size", "empty", "(failed)"};

struct Model {
  std::deque<int64_t> q; size_t cap;
  bool step(const lin::Hist::Op &o) {
    switch (o.code) {
      case PUSH: case TPUSH:
        if (!o.ok) return o.code == TPUSH && q.size() >= cap;
        if (q.size() >= cap) return false;
        q.push_back(o.a); return true;
      case POP: case TPOP:
        if (!o.ok) return o.code == TPOP && q.empty();
        if (q.empty() || q.front() != o.r) return false;
        q.pop_front(); return true;
      case CLEAR: q.clear(); return true;
      case SIZE: return (int64_t)q.size() == o.r;
      case EMPTY: return q.empty() == (o.r != 0);
      case FAILED: return true;        // ended with an exception: no effect
    }
    return false;
  }
  bool pend(const lin::Hist::Op &o) {
    switch (o.code) {
      case PUSH: case TPUSH: if (q.size() >= cap) return false; q.push_back(o.a); return true;
      case POP: case TPOP: if (q.empty()) return false; q.pop_front(); return true;
      case CLEAR: q.clear(); return true;
    }
    return true;
  }
  std::string key() const { std::string s; for (size_t i = 0; i < q.size(); i++) { s += (char)q[i]; } return s; }
};

void ops_scenario(bool timed, bool with_clear, bool throwing = false) {
  throwing_swarm(throwing);
  sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  size_t cap = 1 + sim::rnd(3);
  int nt = 2 + sim::rnd(3), total = 3 + sim::rnd(9);
  pcbuf<Val> buf(cap);
  lin::Hist h;
  int next = 1;
  struct Plan { std::vector<std::pair<int, int> > ops; };
  std::vector<Plan> plan(nt);
  for (int i = 0; i < total; i++) {
    int t = sim::rnd(nt), r = sim::rnd(20), code;
    if (r < 7) code = timed && sim::coin() ? TPUSH : PUSH;
    else if (r < 14) code = timed && sim::coin() ? TPOP : POP;
    else if (r < 16) code = with_clear ? CLEAR : POP;
    else if (r < 18) code = SIZE; else code = EMPTY;
    plan[t].ops.push_back(std::make_pair(code, code == PUSH || code == TPUSH ? next++ : (int)sim::rnd(4)));
  }
  SIM_CHECK(buf.capacity() == cap, "capacity", "capacity() is %zu, constructed with %zu", buf.capacity(), cap);
  sim::set_hang_id("lost-wakeup", "");
  static const double secs[] = {0.001, 0.01, 0.05, 0.0};
  for (int t = 0; t < nt; t++) {
    sim::go([&, t] {
      for (size_t i = 0; i < plan[t].ops.size(); i++) {
        int code = plan[t].ops[i].first, a = plan[t].ops[i].second;
        double sec = secs[(a + i) % 4];
        int k = h.begin(code, a);
        switch (code) {
          case PUSH: { Val v(a); if (attempt([&] { buf.push(v); })) h.end(k, true); else { h.ops[k].code = FAILED; h.end(k, false); } break; }
          case TPUSH: { Val v(a); bool ok = false; if (attempt([&] { ok = buf.push(v, sec); })) h.end(k, ok); else { h.ops[k].code = FAILED; h.end(k, false); } break; }
          case POP: case TPOP: {
            Val v(-1); bool ok = true;
            if (!attempt([&] { if (code == POP) buf.pop(v); else ok = buf.pop(v, sec); })) { h.ops[k].code = FAILED; h.end(k, false); break; }
            SIM_CHECK(v.good(), "torn-value", "popped a value that was never pushed");
            if (!ok) SIM_CHECK(v.a == -1, "failed-pop-touches-value", "a timed-out pop changed the destination");
            h.end(k, ok, v.a); break;
          }
          case CLEAR: buf.clear(); h.end(k, true); break;
          case SIZE: { size_t s = buf.size(); SIM_CHECK(s <= cap, "over-capacity", "size() %zu exceeds capacity %zu", s, cap); h.end(k, true, s); break; }
          case EMPTY: { bool e = buf.empty(); h.end(k, true, e); break; }
        }
        sim::log("%s(%d) done", names[code], a);
      }
    });
  }
  // run until nothing can move any more, then judge who is still blocked
  sim::wait_quiescent();
  sim::log("quiescent"); throwing_end();
  // final observation
  size_t final_size = buf.size();
  { int k = h.begin(SIZE); h.end(k, true, final_size); }
  { int k = h.begin(EMPTY); h.end(k, true, buf.empty()); }
  for (size_t i = 0; i < h.ops.size(); i++) {
    const lin::Hist::Op &o = h.ops[i];
    if (o.res != lin::PENDING) continue;
    SIM_CHECK(o.code == PUSH || o.code == POP, "stuck", "%s never returned", names[o.code]);
    if (o.code == PUSH) SIM_CHECK(final_size >= cap, "lost-wakeup", "push is blocked although the buffer has %zu of %zu elements;%s", final_size, cap, lin::show(h, names).c_str());
    if (o.code == POP) SIM_CHECK(final_size == 0, "lost-wakeup", "pop is blocked although the buffer holds %zu elements;%s", final_size, lin::show(h, names).c_str());
  }
  // drain: what is left must be the model's content, in order
  for (int n = 0; buf.size() > 0 && n < 40; n++) {
    int k = h.begin(TPOP); Val v; bool ok = buf.pop(v, 0.0); h.end(k, ok, v.a);
  }
  sim::wait_quiescent();
  Model m; m.cap = cap;
  SIM_CHECK(lin::linearizable(h, m), "not-linearizable", "no order of the operations explains the results (capacity %zu):%s", cap, lin::show(h, names).c_str());
  uint64_t cv = cap * 131 + nt; for (size_t i = 0; i < h.ops.size(); i++) cv = cv * 31 + h.ops[i].code * 64 + h.ops[i].tid * 8 + h.ops[i].ok * 4 + (h.ops[i].res == lin::PENDING);
  sim::cover(cv);
  sim::done();     // blocked threads still use the buffer
}

SCENARIO(C05, mixed, 4) { ops_scenario(true, true); }
SCENARIO(C05, throwing, 3) { ops_scenario(sim::coin(), false, true); }
SCENARIO(C05, untimed, 3) { ops_scenario(false, false); }

// balanced producers and consumers must always finish, in per-producer order
SCENARIO(C05, pipeline, 3) {
  sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  size_t cap = 1 + sim::rnd(3);
  int np = 1 + sim::rnd(3), nc = 1 + sim::rnd(3), per = 1 + sim::rnd(6);
  int total = np * per;
  bool timed = sim::coin();
  pcbuf<Val> buf(cap);
  std::vector<std::vector<int64_t> > got(nc);
  int taken = 0;
  sim::set_hang_id("lost-wakeup", "producers and consumers are balanced but");
  for (int p = 0; p < np; p++) sim::go([&, p] { for (int i = 0; i < per; i++) { Val v(1000 * (p + 1) + i); if (timed && (i & 1)) { while (!buf.push(v, 0.002)) {} } else buf.push(v); } });
  for (int c = 0; c < nc; c++) {
    int n = total / nc + (c < total % nc);
    sim::go([&, c, n] { for (int i = 0; i < n; i++) { Val v; if (timed && (i & 1)) { while (!buf.pop(v, 0.002)) {} } else buf.pop(v); sim::Atomic a; SIM_CHECK(v.good(), "torn-value", "popped a value that was never pushed"); got[c].push_back(v.a); taken++; } });
  }
  sim::go([&] { for (int i = 0; i < 3; i++) { size_t s = buf.size(); SIM_CHECK(s <= cap, "over-capacity", "size() %zu exceeds capacity %zu", s, cap); buf.empty(); } });
  sim::join_all();
  SIM_CHECK(buf.empty() && buf.size() == 0, "residue", "buffer not empty after as many pops as pushes");
  sim::Atomic a;
  std::vector<int> seen(total, 0);
  for (int c = 0; c < nc; c++) {
    std::vector<int64_t> last(np + 1, -1);
    for (size_t i = 0; i < got[c].size(); i++) {
      int p = got[c][i] / 1000, n = got[c][i] % 1000;
      SIM_CHECK(p >= 1 && p <= np && n < per, "invented", "popped %lld which nobody pushed", (long long)got[c][i]);
      SIM_CHECK(!seen[(p - 1) * per + n]++, "duplicated", "%lld was popped twice", (long long)got[c][i]);
      SIM_CHECK(n > last[p], "reordered", "consumer %d got %d of producer %d after %lld", c, n, p, (long long)last[p]);
      last[p] = n;
    }
  }
  SIM_CHECK(taken == total, "lost", "%d of %d elements were delivered", taken, total);
}
}
