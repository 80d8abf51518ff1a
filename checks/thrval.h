// A value wider than a word, so that torn or stale copies are visible, whose copies (never its moves) may throw.
#ifndef VERIF_THRVAL_H
#define VERIF_THRVAL_H
#include "../sim/sim.h"
#include <stdexcept>
namespace {
struct CopyFail : std::runtime_error { CopyFail() : std::runtime_error("copying failed") { } };
struct Val {
  int64_t a, b, c; static bool throwing; static thread_local bool in_op;
  static void maybe() { if (throwing && in_op && sim::chance(sim::K_ALLOCFAIL, 0.15)) { sim::log("copying a value fails"); throw CopyFail(); } }
  Val() : a(0), b(0), c(0) {}
  Val(int64_t v) : a(v), b(v * 3), c(v * 7) {}
  Val(const Val &o) : a(o.a), b(o.b), c(o.c) { maybe(); }
  Val &operator=(const Val &o) { maybe(); a = o.a; b = o.b; c = o.c; return *this; }
  Val(Val &&o) noexcept : a(o.a), b(o.b), c(o.c) {}
  Val &operator=(Val &&o) noexcept { a = o.a; b = o.b; c = o.c; return *this; }
  operator int64_t() const { return a; }
  bool good() const { return b == a * 3 && c == a * 7; }
};
bool Val::throwing = false; thread_local bool Val::in_op = false;
// one operation of the code under test: copies and allocations may fail inside
struct InOp { InOp() { Val::in_op = true; if (Val::throwing) sim::fail_allocs(true); } ~InOp() { Val::in_op = false; sim::fail_allocs(false); } };
// f(), or the exception it ended with: false
template <class F> bool attempt(F f) { try { InOp i; f(); return true; } catch (const CopyFail &) { return false; } catch (const std::bad_alloc &) { return false; } }
inline void throwing_swarm(bool on) { Val::throwing = on; if (on) sim::enable(sim::K_ALLOCFAIL, 1); }
inline void throwing_end() { Val::throwing = false; }
}
#endif
