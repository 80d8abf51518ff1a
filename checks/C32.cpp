// C32: objects shared between threads live exactly as long as somebody owns them.
#include "../sim/sim.h"
#include <memory>
#include "lang/shared_ptr.h"
#include "lang/weak_ptr.h"
#include "lang/enable_shared_from_this.h"
#include "lang/ref.h"
using pfi::lang::shared_ptr; using pfi::lang::weak_ptr;
namespace {
struct Life { int owners, gone, deleted; bool custom, born; Life() : owners(0), gone(0), deleted(0), custom(false), born(false) { } };
std::vector<Life> *life;
struct Base { int id; unsigned mark; Base(int i) : id(i), mark(0xfeedbeef) { } virtual ~Base() { sim::Atomic a; SIM_CHECK(mark == 0xfeedbeef, "destroyed-twice", "object %d is destroyed twice", id); mark = 0xdead; Life &l = (*life)[id]; SIM_CHECK(l.owners == 0, "destroyed-early", "object %d is destroyed while %d owners are left", id, l.owners); SIM_CHECK(!l.gone++, "destroyed-twice", "object %d is destroyed twice", id); } int look() const { SIM_CHECK(mark == 0xfeedbeef, "dangling", "an owner looks at a destroyed object"); return id; } };
struct Node : Base, pfi::lang::enable_shared_from_this<Node> { int x; Node(int i) : Base(i), x(i * 3) { } };
struct Leaf : Node { int y; Leaf(int i) : Node(i), y(i * 5) { } };
struct Other : Base { Other() : Base(-1) { } };
struct Del { int id; void operator()(Node *n) const { { sim::Atomic a; SIM_CHECK(!(*life)[id].deleted++, "deleter-twice", "the deleter of object %d ran twice", id); } delete n; } };
typedef shared_ptr<Node> P; typedef weak_ptr<Node> W;
// an owner as the harness counts it: registered before it certainly owns, unregistered before it lets go
void own(int id, int d) { if (id >= 0) { sim::Atomic a; (*life)[id].owners += d; } }
struct Own { P p; int id; Own() : id(-1) { } };
int id_of(const P &p) { return p ? p->look() : -1; }
void drop(Own &o) { own(o.id, -1); o.id = -1; }
void take(Own &d, const Own &s, int how) {       // d := s ; s belongs to this thread and owns throughout
  int id = s.id; own(id, +1); if (&d != &s) own(d.id, -1); else own(id, -1);
  switch (how) { case 0: d.p = s.p; break; case 1: { P t(s.p); d.p = t; break; } case 2: { shared_ptr<Node, pfi::concurrent::threading_model::single_thread> t(s.p); d.p = t; break; } case 3: { P t(s.p); t.swap(d.p); break; } default: { shared_ptr<Base> b(s.p); shared_ptr<Node> n = pfi::lang::static_pointer_cast<Node>(b); d.p = n; } }
  d.id = id; SIM_CHECK(id_of(d.p) == id, "wrong-object", "a copy refers to object %d instead of %d", id_of(d.p), id);
}
struct Shared { std::vector<Own> box; };           // handed over between threads
SCENARIO(C32, shared, 1) {
  int no = 1 + sim::rnd(4), nt = 1 + sim::rnd(4); life = new std::vector<Life>(no); sim::enable(sim::K_STALL, sim::rnd(4) == 0); std::vector<std::vector<Own> > mine(nt, std::vector<Own>(3)); std::vector<std::vector<W> > watch(nt, std::vector<W>(no)); std::vector<W> cross(no); 
  for (int i = 0; i < no; i++) { Own o; bool leaf = sim::coin(); (*life)[i].custom = sim::rnd(3) == 0; (*life)[i].born = true; Node *n = leaf ? new Leaf(i) : new Node(i); if ((*life)[i].custom) { Del d = {i}; o.p = P(n, d); } else if (leaf) o.p = P((Leaf *)n); else o.p = P(n); o.id = i; own(i, 1); cross[i] = o.p;
    for (int t = 0; t < nt; t++) { if (sim::coin()) take(mine[t][sim::rnd(3)], o, sim::rnd(5)); switch (sim::rnd(4)) { case 0: watch[t][i] = o.p; break; case 1: watch[t][i] = cross[i]; break; case 2: { W w(o.p); watch[t][i] = w; break; } default: { weak_ptr<Node> w(cross[i]); watch[t][i] = w; } } } drop(o); }
  std::vector<Own> post(2); 
  for (int t = 0; t < nt; t++) sim::go([&, t] { std::vector<Own> &m = mine[t]; int steps = 2 + sim::rnd(10);
    for (int s = 0; s < steps; s++) { int i = sim::rnd(3), j = sim::rnd(3), k = sim::rnd(no);
      switch (sim::rnd(11)) {
        case 0: case 1: take(m[i], m[j], sim::rnd(5)); break;
        case 2: case 3: drop(m[i]); if (sim::coin()) m[i].p.reset(); else m[i].p = P(); SIM_CHECK(!m[i].p, "wrong-object", "a reset owner still refers to an object"); break;
        case 4: case 5: { P p = watch[t][k].lock(); if (p) { SIM_CHECK(p->look() == k, "wrong-object", "an observer of object %d gives object %d", k, p->look()); own(k, 1); SIM_CHECK((*life)[k].gone == 0, "dangling", "an observer gives a destroyed object"); drop(m[i]); m[i].p = p; m[i].id = k; } else { sim::Atomic a; SIM_CHECK((*life)[k].owners == 0, "lock-lost", "an observer finds object %d gone although it has %d owners", k, (*life)[k].owners); } sim::cover(!!p); break; }
        case 6: { bool got = false; try { P p(watch[t][k]); got = true; SIM_CHECK(p && p->look() == k, "wrong-object", "an owner made from an observer does not refer to object %d", k); own(k, 1); drop(m[i]); m[i].p = p; m[i].id = k; } catch (pfi::lang::bad_weak_ptr &) { } if (!got) { sim::Atomic a; SIM_CHECK((*life)[k].owners == 0, "lock-lost", "an owner cannot be made although object %d has %d owners", k, (*life)[k].owners); } sim::cover(2 + got); break; }
        case 7: if (m[i].p) { int id = m[i].id; P p = m[i].p->shared_from_this(); SIM_CHECK(p.get() == m[i].p.get() && p->look() == id, "wrong-object", "shared_from_this refers to something else"); const Node &c = *m[i].p; shared_ptr<const Node> q = c.shared_from_this(); SIM_CHECK(q.get() == p.get(), "wrong-object", "shared_from_this refers to something else"); SIM_CHECK(p.use_count() >= 3, "count", "%ld owners are counted, this thread alone has 3", p.use_count()); shared_ptr<Node> r = pfi::lang::const_pointer_cast<Node>(q); SIM_CHECK(r == p, "wrong-object", "a cast refers to something else"); } break;
        case 8: if (m[i].p) { shared_ptr<Leaf> l = pfi::lang::dynamic_pointer_cast<Leaf>(m[i].p); shared_ptr<Base> b(m[i].p); shared_ptr<Other> no_ = pfi::lang::dynamic_pointer_cast<Other>(b); SIM_CHECK(!no_, "wrong-object", "a failing cast gives an object"); bool leaf = dynamic_cast<Leaf *>(m[i].p.get()) != 0; SIM_CHECK(!!l == leaf && (!l || l->y == m[i].id * 5), "wrong-object", "a cast gives the wrong object"); Del *d = pfi::lang::get_deleter<Del>(m[i].p); SIM_CHECK(!!d == (*life)[m[i].id].custom && (!d || d->id == m[i].id), "deleter", "the deleter of object %d is not the one given", m[i].id); } break;
        case 9: if (m[i].p) { W w; if (sim::coin()) w = m[i].p; else { W v(m[i].p); w = v; } watch[t][m[i].id] = w; P q = w.lock(); SIM_CHECK(q == m[i].p && !w.expired(), "lock-lost", "an observer of an owned object finds it gone"); } else { W w = watch[t][k]; bool e = w.expired(); if (e) { sim::Atomic a; SIM_CHECK((*life)[k].owners == 0, "lock-lost", "an observer finds object %d gone although it has owners", k); } if (sim::rnd(3) == 0) watch[t][k] = w; } break;
        default: { Own o; { sim::Atomic a; int b = sim::rnd(2); o.p.swap(post[b].p); std::swap(o.id, post[b].id); post[b].p.swap(m[i].p); std::swap(post[b].id, m[i].id); } m[i].p.swap(o.p); std::swap(m[i].id, o.id); }
      }
      for (auto &o : m) SIM_CHECK(id_of(o.p) == o.id, "wrong-object", "an owner of object %d refers to %d", o.id, id_of(o.p)); }
    for (auto &o : m) { drop(o); o.p.reset(); } if (sim::coin()) for (auto &w : watch[t]) w = W(); });
  sim::join_all(); for (auto &o : post) { drop(o); o.p.reset(); } for (int i = 0; i < no; i++) { SIM_CHECK((*life)[i].gone == 1, "leaked", "object %d was never destroyed", i); SIM_CHECK((*life)[i].deleted == (*life)[i].custom, "deleter", "the deleter of object %d ran %d times", i, (*life)[i].deleted); SIM_CHECK(cross[i].expired() && !cross[i].lock(), "dangling", "an observer still gives object %d", i); bool t = false; try { P p(cross[i]); } catch (pfi::lang::bad_weak_ptr &) { t = true; } SIM_CHECK(t, "dangling", "an owner can be made of a destroyed object"); }
  Node loose(0); (*life)[0].gone = 0; bool t = false; try { loose.shared_from_this(); } catch (pfi::lang::bad_weak_ptr &) { t = true; } SIM_CHECK(t, "dangling", "shared_from_this of an object nobody owns gives an owner"); sim::cover(100 + no * 5 + nt);
}
// owners kept inside the objects they lead to: walking and cutting a chain through one owner
struct Other_tm; struct Link; typedef shared_ptr<Link, Other_tm> LP;
struct Link : Base { LP next; weak_ptr<Link> prev; Link(int i) : Base(i) { } };
struct Big : Link { int pad[3]; Big(int i) : Link(i) { pad[0] = i; } };
SCENARIO(C32, chain, 1) {
  int nt = 1 + sim::rnd(3), n = 1 + sim::rnd(6); life = new std::vector<Life>(nt * n); sim::enable(sim::K_STALL, sim::rnd(4) == 0);
  for (int t = 0; t < nt; t++) sim::go([&, t] { shared_ptr<Base> any; shared_ptr<Link> head; shared_ptr<const Link> ro; LP tail; std::vector<weak_ptr<Link> > seen(n);
    for (int i = n; i--; ) { LP p; if (sim::coin()) p = shared_ptr<Big>(new Big(t * n + i)); else p = LP(new Link(t * n + i)); p->next = tail; if (tail) tail->prev = p; if (sim::coin()) seen[i] = p; else { weak_ptr<Link> w(p); seen[i] = w; } tail = p; }
    head = tail; tail = LP(); int at = 0, held = -1, mode = sim::rnd(3);
    while (at < n) { SIM_CHECK(head && head->look() == t * n + at, "wrong-object", "a walk along the chain is at object %d instead of %d", head ? head->look() : -1, t * n + at); SIM_CHECK(!at || head->prev.expired() == !(held >= 0 && held < at), "lock-lost", "an observer of the previous object of the chain is wrong");
      if (sim::rnd(3) == 0) { if (sim::coin()) any = head; else any = head->next; held = any ? any->look() - t * n : -1; } else if (sim::rnd(3) == 0) { ro = head; SIM_CHECK(ro.get() == head.get(), "wrong-object", "a copy refers to something else"); ro = shared_ptr<Big>(); SIM_CHECK(!ro, "wrong-object", "an owner given nothing still refers to an object"); }
      if (mode == 0) head = head->next; else if (mode == 1) { LP nx(head->next); head = nx; } else { shared_ptr<Base> b; b = head->next; head = pfi::lang::static_pointer_cast<Link>(b); }
      at++; for (int i = 0; i < n; i++) { bool alive = i >= at || (held >= 0 && i >= held); shared_ptr<Link> p = seen[i].lock(); SIM_CHECK(!!p == alive && seen[i].expired() == !alive, alive ? "lock-lost" : "leaked", "object %d of the chain %s", i, alive ? "is gone although it can be reached" : "lives although nothing leads to it"); SIM_CHECK(!p || p->look() == t * n + i, "wrong-object", "an observer gives another object"); } }
    SIM_CHECK(!head, "wrong-object", "the end of the chain refers to an object"); if (sim::coin()) any = LP(); else any.reset(); SIM_CHECK(!any, "wrong-object", "an owner given nothing still refers to an object"); for (auto &w : seen) SIM_CHECK(w.expired(), "leaked", "an object of the chain was never destroyed"); });
  sim::join_all(); for (auto &l : *life) SIM_CHECK(l.gone == 1, "leaked", "an object was destroyed %d times", l.gone); sim::cover(n * 4 + nt);
}
}
