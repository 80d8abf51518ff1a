// C35: containers and value holders when allocations and element copies fail.
#include "../sim/sim.h"
#include <algorithm>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>
#include "data/lru.h"
#include "data/intern.h"
#include "data/optional.h"
#include "lang/any.h"
#include "text/json.h"
namespace js = pfi::text::json;
namespace {
typedef std::string Str;
bool armed; int live;      // elements may refuse to be copied; elements alive
struct Oops : std::runtime_error { Oops() : std::runtime_error("copy") { } };
struct Armed { Armed() { armed = true; sim::fail_allocs(true); } ~Armed() { sim::fail_allocs(false); armed = false; } };
struct E {
  int id; Str s;
  static Str pad(int i) { Str r = sim::fmt("%d", i); return i % 3 ? r + Str(20 + i % 50, '#') : r; }
  E() : id(0) { live++; }
  explicit E(int i) : id(i), s(pad(i)) { live++; }
  E(const E &o) : id(o.id), s(o.s) { if (armed && sim::chance(sim::K_ALLOCFAIL, 0.06)) throw Oops(); live++; }
  E &operator=(const E &o) { if (armed && sim::chance(sim::K_ALLOCFAIL, 0.06)) throw Oops(); Str t(o.s); s.swap(t); id = o.id; return *this; }
  ~E() { live--; id = -1; }
  bool sound() const { return id == 0 ? s.empty() : s == pad(id); }
};
bool operator<(const E &a, const E &b) { return a.id < b.id; }
bool operator==(const E &a, const E &b) { return a.id == b.id && a.s == b.s; }
// runs f; true: done, false: reported a failure that was injected
template <class F> bool attempt(const char *what, F f) {
  uint64_t n = sim::fault_count(sim::K_ALLOCFAIL); bool ok = false;
  { Armed a; try { f(); ok = true; } catch (const std::bad_alloc &) { } catch (const Oops &) { } }
  SIM_CHECK(ok || sim::fault_count(sim::K_ALLOCFAIL) > n, "wrong-error", "%s fails without a reason", what); return ok;
}
void begin() { armed = false; live = 0; sim::enable(sim::K_ALLOCFAIL, sim::rnd(4) ? 1 : 0); }
// least recently used first
typedef std::vector<std::pair<int, int> > Lru; typedef std::vector<Lru> Cands;
Lru::iterator at(Lru &l, int k) { Lru::iterator i = l.begin(); while (i != l.end() && i->first != k) ++i; return i; }
void touch(Lru &l, int k) { Lru::iterator i = at(l, k); if (i == l.end()) return; std::pair<int, int> x = *i; l.erase(i); l.push_back(x); }
void put(Lru &l, int k, int v, int max) { if (at(l, k) != l.end()) return; while ((int)l.size() >= max) l.erase(l.begin()); l.push_back(std::make_pair(k, v)); }
SCENARIO(C35, cache, 5) {
  begin(); uint64_t b0 = sim::live_blocks();
  { int max = 1 + sim::rnd(4), ops = 4 + sim::rnd(20), dom = max + 2, nv = 0; pfi::data::lru<E, E> c(max); Cands cs(1);
    auto narrow = [&](const char *when) { Cands r; for (auto &l : cs) { bool same = true; for (int k = 1; k <= dom; k++) same &= c.has(E(k)) == (at(l, k) != l.end()); if (same && std::find(r.begin(), r.end(), l) == r.end()) r.push_back(l); } Str have; for (int k = 1; k <= dom; k++) if (c.has(E(k))) have += sim::fmt(" %d", k); Str want; for (auto &x : cs[0]) want += sim::fmt(" %d", x.first); SIM_CHECK(!r.empty(), "wrong-content", "%s: the cache holds%s instead of%s", when, have.c_str(), want.c_str()); cs.swap(r); };
    for (int o = 0; o < ops; o++) {
      int k = 1 + sim::rnd(dom), v = 100 + nv++; E ek(k), ev(v); bool in = at(cs[0], k) != cs[0].end(), ok; int what = sim::rnd(9); sim::log("T: op %d key %d", what, k);
      switch (what) {
        case 0: case 1: case 2: { ok = attempt("set", [&] { c.set(ek, ev); }); Cands n; for (auto &l : cs) { Lru d = l; put(d, k, v, max); if (!ok) { n.push_back(l); Lru m = l; if (!in) while ((int)m.size() >= max) { m.erase(m.begin()); n.push_back(m); } } else n.push_back(d); } cs = n; narrow(ok ? "after a set" : "after a set that failed"); break; }
        case 3: case 4: { int got = -1; bool bad = false, missing = false; ok = attempt("get", [&] { try { const E &e = c.get(ek); got = e.id; bad = !e.sound(); } catch (const Oops &) { throw; } catch (const std::runtime_error &) { missing = true; } }); SIM_CHECK(!ok || missing == !in, "wrong-content", "get of key %d, which is %s, %s", k, in ? "there" : "not there", missing ? "throws" : "returns"); if (ok && in) { Cands n; for (auto &l : cs) if (at(l, k)->second == got) n.push_back(l); SIM_CHECK(!n.empty() && !bad, "wrong-value", "key %d has the value %d instead of %d", k, got, at(cs[0], k)->second); cs = n; } Cands n; for (auto &l : cs) { Lru d = l; touch(d, k); n.push_back(d); if (!ok) n.push_back(l); } cs = n; narrow(ok ? "after a get" : "after a get that failed"); break; }
        case 5: { ok = attempt("touch", [&] { c.touch(ek); }); Cands n; for (auto &l : cs) { Lru d = l; touch(d, k); n.push_back(d); if (!ok) n.push_back(l); } cs = n; narrow(ok ? "after a touch" : "after a touch that failed"); break; }
        case 6: { ok = attempt("remove", [&] { c.remove(ek); }); Cands n; for (auto &l : cs) { Lru d = l; Lru::iterator i = at(d, k); if (i != d.end()) d.erase(i); n.push_back(d); if (!ok) n.push_back(l); } cs = n; narrow(ok ? "after a remove" : "after a remove that failed"); break; }
        case 7: { bool stored = false; ok = attempt("indexing", [&] { E &e = c[ek]; e = ev; stored = true; }); Cands n; for (auto &l : cs) { Lru d = l; touch(d, k); put(d, k, 0, max); if (!ok) { n.push_back(l); n.push_back(d); Lru m = l; if (!in) while ((int)m.size() >= max) { m.erase(m.begin()); n.push_back(m); } } else { at(d, k)->second = v; n.push_back(d); } } cs = n; narrow(ok ? "after indexing" : "after indexing that failed"); break; }
        default: if (sim::rnd(3) == 0) { c.clear(); cs.assign(1, Lru()); narrow("after clear"); } else if (in && (int)cs[0].size()) { int k2 = 1 + sim::rnd(dom); E e2(k2); int val = -1; ok = attempt("set", [&] { const E &e = c.get(ek); val = e.id; c.set(e2, e); }); Cands n; for (auto &l : cs) { Lru d = l; touch(d, k); Lru t = d; int vv = at(d, k)->second; put(d, k2, vv, max); if (ok) { if (vv == val) n.push_back(d); } else { n.push_back(l); n.push_back(t); Lru m = t; if (at(t, k2) == t.end()) while ((int)m.size() >= max) { m.erase(m.begin()); n.push_back(m); } } } SIM_CHECK(!n.empty(), "wrong-value", "key %d has another value", k); cs = n; narrow("after setting a value of the cache itself"); }
      }
      SIM_CHECK(cs.size() < 200, "setup", "too many candidates");
    }
    // what the cache forgets from now on, and in which order, and every value
    sim::faults_off(); for (int k = 1; k <= dom; k++) { bool in = at(cs[0], k) != cs[0].end(); if (!in || sim::coin()) continue; const E &e = c.get(E(k)); Cands n; for (auto &l : cs) if (at(l, k)->second == e.id) { Lru d = l; touch(d, k); n.push_back(d); } SIM_CHECK(!n.empty() && e.sound(), "wrong-value", "key %d has the value %d instead of %d", k, e.id, at(cs[0], k)->second); cs = n; }
    for (int i = 0; i < max; i++) { c.set(E(1000 + i), E(7)); for (auto &l : cs) put(l, 1000 + i, 7, max); narrow("filling the cache"); SIM_CHECK(c.has(E(1000 + i)), "wrong-content", "a new entry is not kept"); }
    sim::cover(max * 10); }
  SIM_CHECK(live == 0 && sim::live_blocks() <= b0, "leak", "%d elements, %lld blocks left", live, (long long)(sim::live_blocks() - b0));
}
Str word(int i) { return i % 2 ? sim::fmt("word %d ", i) + Str(i * 5 % 60, 'x') : sim::fmt("%d", i); }
SCENARIO(C35, dictionary, 3) {
  begin(); uint64_t b0 = sim::live_blocks();
  { pfi::data::intern<Str> d[2]; std::vector<Str> m[2]; int ops = 4 + sim::rnd(30), dom = 4 + sim::rnd(60);
    for (int o = 0; o < ops; o++) {
      int w = sim::rnd(2); pfi::data::intern<Str> &x = d[w]; std::vector<Str> &y = m[w]; Str k = word(sim::rnd(dom)); int pos = std::find(y.begin(), y.end(), k) - y.begin(); bool in = pos < (int)y.size(), ok = true; int id = -2, what = sim::rnd(10);
      if (what < 6) { bool gen = what > 0; ok = attempt("asking for a number", [&] { id = what == 5 ? x.key2id(k) : x.key2id(k, gen); }); if (ok) SIM_CHECK(id == (in ? pos : gen ? (int)y.size() : -1), "wrong-value", "a word %s gets the number %d", in ? "known" : "new", id); if (!in && gen && (ok || x.size() == y.size() + 1)) y.push_back(k); }
      else if (what == 6) { ok = attempt("copying", [&] { d[1 - w] = x; }); if (ok) m[1 - w] = y; else { d[1 - w].clear(); m[1 - w].clear(); } } else if (what == 7) { swap(d[0], d[1]); m[0].swap(m[1]); } else if (what == 8 && sim::rnd(4) == 0) { x.clear(); y.clear(); }
      for (int v = 0; v < 2; v++) { SIM_CHECK(d[v].size() == m[v].size() && d[v].empty() == m[v].empty(), "wrong-content", "a dictionary of %zu words says %zu%s", m[v].size(), d[v].size(), ok ? "" : " after an operation that failed"); SIM_CHECK(!d[v].exist_id(m[v].size()) && !d[v].exist_id(-1), "wrong-content", "numbers that were never given exist"); for (size_t i = 0; i < m[v].size(); i++) SIM_CHECK(d[v].exist_id(i) && d[v].id2key(i) == m[v][i] && d[v].key2id_nogen(m[v][i]) == (int)i && d[v].exist_key(m[v][i]), "wrong-content", "word %zu of %zu is not what it was%s", i, m[v].size(), ok ? "" : " after an operation that failed"); }
      { Str q = word(dom + 1); SIM_CHECK(d[0].key2id_nogen(q) == -1 && !d[0].exist_key(q), "wrong-content", "a word that was never added is there"); }
    }
    sim::cover(100 + m[0].size() % 10); }
  SIM_CHECK(sim::live_blocks() <= b0, "leak", "%lld blocks left", (long long)(sim::live_blocks() - b0));
}
SCENARIO(C35, holders, 3) {
  begin(); uint64_t b0 = sim::live_blocks();
  { typedef pfi::data::optional<E> O; typedef pfi::lang::any A; O o[3]; A a[3]; int om[3] = {-1, -1, -1}, am[3] = {-1, -1, -1}, ops = 4 + sim::rnd(25);      // -1: nothing; any: negative below -1: a number
    for (int n = 0; n < ops; n++) {
      int i = sim::rnd(3), j = sim::rnd(3), v = 1 + sim::rnd(99), what = sim::rnd(10); E e(v); bool ok = true; sim::log("T: op %d on %d, %d", what, i, j);
      switch (what) {
        case 0: case 1: ok = attempt("assigning", [&] { o[i] = e; }); if (ok) om[i] = v; break;
        case 2: ok = attempt("assigning", [&] { o[i] = o[j]; }); if (ok) om[i] = om[j]; break;
        case 3: o[i].swap(o[j]); std::swap(om[i], om[j]); break;
        case 4: ok = attempt("copying", [&] { O x(o[j]), y(e), z; z = y; x.swap(z); SIM_CHECK(x == y && *x == e, "wrong-value", "a copy differs"); }); if (sim::rnd(3) == 0) { o[i] = O(); om[i] = -1; } break;
        case 5: case 6: ok = attempt("assigning", [&] { a[i] = e; }); if (ok) am[i] = v; break;
        case 7: ok = attempt("assigning", [&] { a[i] = a[j]; }); if (ok) am[i] = am[j]; break;
        case 8: if (sim::coin()) { a[i].swap(a[j]); std::swap(am[i], am[j]); } else { ok = attempt("assigning", [&] { a[i] = v; }); if (ok) am[i] = -1 - v; } break;
        default: ok = attempt("copying", [&] { A x(a[j]), y(e); y.swap(x); SIM_CHECK(pfi::lang::any_cast<E>(x) == e, "wrong-value", "a copy differs"); }); if (sim::rnd(3) == 0) { a[i] = A(); am[i] = -1; }
      }
      const char *w = ok ? "" : " after an operation that failed";
      for (int k = 0; k < 3; k++) {
        SIM_CHECK(!!o[k] == (om[k] > 0) && (om[k] < 0 || (o[k]->id == om[k] && o[k]->sound())), "wrong-content", "an optional value is not what it was%s", w);
        for (int l = 0; l < 3; l++) SIM_CHECK((o[k] == o[l]) == (om[k] == om[l]) && (o[k] < o[l]) == (om[k] < om[l]) && (o[k] != o[l]) == (om[k] != om[l]) && (o[k] >= o[l]) == (om[k] >= om[l]), "wrong-content", "optional values compare wrongly%s", w);
        if (am[k] == -1) SIM_CHECK(a[k].type() == typeid(void), "wrong-content", "an empty holder holds something%s", w); else if (am[k] > 0) { SIM_CHECK(a[k].type() == typeid(E), "wrong-content", "a holder holds another type%s", w); const E &x = pfi::lang::any_cast<E>(a[k]); SIM_CHECK(x.id == am[k] && x.sound(), "wrong-content", "a holder holds another value%s", w); } else SIM_CHECK(a[k].type() == typeid(int) && pfi::lang::any_cast<int>(a[k]) == -1 - am[k], "wrong-content", "a holder holds another number%s", w);
        bool t = false; try { if (am[k] > 0) pfi::lang::any_cast<int>(a[k]); else pfi::lang::any_cast<E>(a[k]); } catch (const pfi::lang::bad_any_cast &) { t = true; } SIM_CHECK(t, "wrong-content", "a holder gives a value of a type it does not hold");
      }
    }
    sim::cover(200 + ops % 10); }
  SIM_CHECK(live == 0 && sim::live_blocks() <= b0, "leak", "%d elements, %lld blocks left", live, (long long)(sim::live_blocks() - b0));
}
// JSON trees: objects of numbers and one list, changed, copied and merged
struct Tree { std::map<Str, int> m; std::vector<int> v; };
int num(const js::json &j) { const js::json_integer *p = dynamic_cast<const js::json_integer *>(j.get()); return p ? (int)p->get() : -1; }
bool same(const js::json &j, const Tree &t) {
  if (j.type() != js::json::Object || j.size() != t.m.size() + 1 || !j.count("list")) return false; const js::json &l = j["list"]; if (l.type() != js::json::Array || l.size() != t.v.size()) return false; for (size_t i = 0; i < t.v.size(); i++) if (num(l[i]) != t.v[i]) return false; for (auto &x : t.m) if (!j.count(x.first) || num(j[x.first]) != x.second) return false;
  size_t n = 0; for (js::json::const_iterator i = j.begin(); i != j.end(); ++i) { n++; if (i->first != "list") { auto p = t.m.find(i->first); if (p == t.m.end() || num(i->second) != p->second) return false; } } return n == t.m.size() + 1;
}
js::json make(const Tree &t) { js::json j(new js::json_object()), l(new js::json_array()); for (int x : t.v) l.add(js::json(new js::json_integer(x))); for (auto &x : t.m) j.add(x.first, js::json(new js::json_integer(x.second))); j.add("list", l); return j; }
struct Plus { js::json operator()(const js::json &a, const js::json &b) const { return num(a) < 0 || num(b) < 0 ? b : js::json(new js::json_integer(num(a) + num(b))); } };
SCENARIO(C35, trees, 4) {
  begin(); { js::json warm; (void)warm; } uint64_t b0 = sim::live_blocks();
  { Tree t[2]; for (int k = 0; k < 2; k++) { int n = sim::rnd(5); for (int i = 0; i < n; i++) t[k].m[word(sim::rnd(6))] = sim::rnd(100); n = sim::rnd(4); for (int i = 0; i < n; i++) t[k].v.push_back(sim::rnd(100)); } js::json j[2] = {make(t[0]), make(t[1])}; int ops = 2 + sim::rnd(12);
    for (int o = 0; o < ops; o++) {
      int w = sim::rnd(2), v = sim::rnd(100), what = sim::rnd(9); Str k = word(sim::rnd(8)); bool ok = true; sim::log("T: op %d", what);
      switch (what) {
        case 0: case 1: ok = attempt("adding a member", [&] { j[w].add(k, js::json(new js::json_integer(v))); }); if (ok) t[w].m[k] = v; break;
        case 2: ok = attempt("adding an element", [&] { j[w]["list"].add(js::json(new js::json_integer(v))); }); if (ok) t[w].v.push_back(v); break;
        case 3: { js::json c; ok = attempt("cloning", [&] { c = j[w].clone(); }); if (!ok) break; SIM_CHECK(same(c, t[w]), "wrong-content", "a clone differs"); bool eq = c == j[w] && !(c != j[w]); SIM_CHECK(eq, "wrong-content", "a clone does not compare equal"); c.add("list", js::json(new js::json_integer(v))); SIM_CHECK(c != j[w], "wrong-content", "a changed clone compares equal"); c = j[w].clone(); c["list"].add(js::json(new js::json_integer(v))); c.add(k, js::json(new js::json_integer(-7))); break; }
        case 4: case 5: { js::json r; Tree want = t[w]; ok = attempt("merging", [&] { if (what == 4) r = j[w].merge(j[1 - w]); else r = merge_with(j[w], j[1 - w], Plus()); }); if (!ok) break; for (auto &x : t[1 - w].m) { if (what == 4 || !want.m.count(x.first)) want.m[x.first] = x.second; else want.m[x.first] += x.second; } want.v = t[1 - w].v; SIM_CHECK(same(r, want), "wrong-content", "two trees merge to something else"); r.add(k, js::json(new js::json_integer(12345))); r.add("list", js::json(new js::json_null())); break; }
        case 6: { js::json share = j[w]; ok = attempt("adding a member", [&] { share.add(k, js::json(new js::json_integer(v))); }); if (ok) t[w].m[k] = v; break; }
        case 7: { bool e = j[0] == j[1]; SIM_CHECK(e == (t[0].m == t[1].m && t[0].v == t[1].v), "wrong-content", "trees compare wrongly"); break; }
        default: { int n = -1; bool t1 = false; try { j[w].add(js::json()); } catch (const js::json_bad_cast_any &) { t1 = true; } SIM_CHECK(t1, "error-lost", "an element is added to an object"); const js::json &c = j[w]; bool there = t[w].m.count(k) > 0, t2 = false; try { n = num(c[k]); } catch (const std::out_of_range &) { t2 = true; } SIM_CHECK(t2 == !there && (t2 || n == t[w].m[k]), "wrong-content", "a member that is %s %s", there ? "there" : "not there", t2 ? "is refused" : "is given"); }
      }
      for (int x = 0; x < 2; x++) SIM_CHECK(same(j[x], t[x]), "wrong-content", "a tree is not what it was%s", ok ? "" : " after an operation that failed");
    }
    sim::cover(300 + t[0].m.size()); }
  SIM_CHECK(sim::live_blocks() <= b0, "leak", "%lld blocks left", (long long)(sim::live_blocks() - b0));
}
}
