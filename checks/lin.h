// Linearizability of small histories (Wing & Gong search with memoisation).
#ifndef VERIF_LIN_H
#define VERIF_LIN_H
#include <stdint.h>
#include <string>
#include <vector>
#include <set>
#include <sstream>
#include "../sim/sim.h"

namespace lin {
const uint64_t PENDING = ~0ULL;

// Clock of the history: a counter bumped at every invocation and response.
struct Hist {
  struct Op {
    int tid; int code; int64_t a, b;       // operation and arguments
    bool ok; int64_t r;                    // outcome
    uint64_t inv, res;
    int64_t t0, t1;                        // virtual time
  };
  std::vector<Op> ops;
  uint64_t clk;
  Hist() : clk(0) { ops.reserve(256); }
  int begin(int code, int64_t a = 0, int64_t b = 0) {
    sim::Atomic at;
    Op o; o.tid = sim::self(); o.code = code; o.a = a; o.b = b; o.ok = false; o.r = 0; o.inv = ++clk; o.res = PENDING; o.t0 = sim::now(); o.t1 = -1;
    ops.push_back(o);
    return (int)ops.size() - 1;
  }
  void end(int i, bool ok, int64_t r = 0) { sim::Atomic at; ops[i].ok = ok; ops[i].r = r; ops[i].res = ++clk; ops[i].t1 = sim::now(); sim::note(ok * 2 + 1); sim::note((uint64_t)r); }
};

// Model: copyable; bool step(const Op&) -> may this op take effect here with this
// outcome (and apply it); bool pend(Op) -> apply a pending op whose outcome is open;
// std::string key().
template <class Model>
struct Checker {
  const std::vector<Hist::Op> &ops;
  std::set<std::string> seen;
  uint64_t nodes;
  Checker(const std::vector<Hist::Op> &o) : ops(o), nodes(0) {}
  bool go(std::vector<bool> &done, size_t left, const Model &m) {
    if (left == 0) return true;            // all completed ops placed
    if (++nodes > 300000) return true;     // give up: never an alarm
    std::string k; for (size_t i = 0; i < ops.size(); i++) k += done[i] ? '1' : '0';
    k += m.key();
    if (!seen.insert(k).second) return false;
    uint64_t minres = PENDING;
    for (size_t i = 0; i < ops.size(); i++) if (!done[i] && ops[i].res < minres) minres = ops[i].res;
    for (size_t i = 0; i < ops.size(); i++) {
      if (done[i] || ops[i].inv > minres) continue;
      Model n = m;
      bool pending = ops[i].res == PENDING;
      if (pending ? n.pend(ops[i]) : n.step(ops[i])) {
        done[i] = true;
        if (go(done, left - (pending ? 0 : 1), n)) return true;
        done[i] = false;
      }
    }
    return false;
  }
};
template <class Model>
bool linearizable(const Hist &h, const Model &init) {
  sim::Atomic at;
  Checker<Model> c(h.ops);
  std::vector<bool> done(h.ops.size(), false);
  size_t left = 0; for (size_t i = 0; i < h.ops.size(); i++) if (h.ops[i].res != PENDING) left++;
  return c.go(done, left, init);
}
inline std::string show(const Hist &h, const char *const *names) {
  std::ostringstream o;
  for (size_t i = 0; i < h.ops.size(); i++) {
    const Hist::Op &p = h.ops[i];
    o << " [T" << p.tid << " " << names[p.code] << "(" << p.a << (p.b ? "," : "") ;
    if (p.b) o << p.b;
    o << ")";
    if (p.res == PENDING) o << " pending"; else o << "=" << (p.ok ? "" : "!") << p.r;
    o << " @" << p.inv << "-"; if (p.res != PENDING) o << p.res; o << "]";
  }
  return o.str();
}
}
#endif
