// C23: databases: transactions are all or nothing, statements run once, values come back as stored.
#include "db.h"
#include <memory>
#include <stdexcept>
#include <cstring>
#include <set>
#include <iostream>
#include <sstream>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include "database/database.h"
#include "database/util.h"
#include "database/postgresql/connection.h"
#include "database/mysql/connection.h"
using namespace pfi::database;
typedef std::string Str; typedef pfi::lang::shared_ptr<sql_value> V; typedef pfi::system::time::clock_time CT;
namespace {
bool pg; std::stringbuf sink;
typedef pfi::lang::shared_ptr<connection> Conn;
Conn open() { if (pg && sim::coin()) return Conn(postgresql::connect("host=db dbname=x")); return Conn(pg ? postgresql::connect("db", 5432, "x", "u", "p") : mysql::connect("db", 3306, "x", "u", "p")); }
void start() { setenv("TZ", "UTC", 1); tzset(); std::cout.rdbuf(&sink); pg = sim::coin(); db::reset(pg); }
const char *ins = "INSERT INTO t_si VALUES (?, ?)";
struct Oops { };
struct Block { std::set<Str> ok, failed; bool began, committed, commit_failed; Block() : began(false), committed(false), commit_failed(false) { } };
void judge(const Block &b, const char *how) {
  sim::Atomic a; size_t here = 0, bad = 0, twice = 0; for (auto &k : b.ok) { size_t n = db::find(k).size(); here += n > 0; twice += n > 1 || db::executed(k) > 1; } for (auto &k : b.failed) { size_t n = db::find(k).size(); bad += n > 0; twice += db::executed(k) > 1; }
  SIM_CHECK(!twice, "executed-twice", "%s: a statement was executed twice", how);
  if (b.committed) { SIM_CHECK(here == b.ok.size(), "lost-commit", "%s: commit reported success, but only %zu of %zu changes are stored", how, here, b.ok.size()); SIM_CHECK(!bad, "failed-statement-stored", "%s: a statement that reported failure is stored by a commit that reported success", how); }
  else if (b.commit_failed) SIM_CHECK((here == 0 || here == b.ok.size()) && !(bad && here < b.ok.size()), "torn", "%s: commit failed, and %zu of %zu changes are stored", how, here, b.ok.size());
  else SIM_CHECK(here == 0 && bad == 0, "not-rolled-back", "%s: %zu changes of a transaction that was not committed are stored", how, here + bad);
}
void worker(int w) {
  Conn c; int blocks = 1 + sim::rnd(4), n = 0;
  for (int i = 0; i < blocks; i++) {
    if (!c) try { c = open(); } catch (const database_error &) { continue; }
    Block b; int ops = 1 + sim::rnd(4), kind = sim::rnd(5); bool go_on = sim::coin(), throwing = sim::rnd(3) == 0; pfi::lang::shared_ptr<statement> st; if (sim::rnd(3) == 0) try { st = pfi::lang::shared_ptr<statement>(c->prepare(ins)); } catch (const database_error &) { }
    auto one = [&](bool in_txn) -> bool {
      Str k = sim::fmt("w%d.%d", w, n++); int how = sim::rnd(8);
      try { if (how == 0) { k += "!"; c->run("INSERT INTO refused VALUES (?)", k); SIM_CHECK(false, "error-lost", "a statement the server refused reports success"); } else if (how == 1) { k += "?"; c->run("INSERT WRONG"); SIM_CHECK(false, "error-lost", "a statement with a syntax error reports success"); } else if (st && how < 5) st->execute(k, n); else c->run(ins, k, n); b.ok.insert(k); return true; }
      catch (const database_error &e) { sim::log("T: '%s' fails: %s", k.c_str(), e.what()); b.failed.insert(k); return false; }
    };
    if (kind == 0) {      // no transaction: every statement counts by itself
      for (int o = 0; o < ops; o++) { b.ok.clear(); b.failed.clear(); bool r = one(false); sim::Atomic a; if (r) { const Str &k = *b.ok.begin(); SIM_CHECK(db::find(k).size() == 1 && db::executed(k) == 1, "lost-statement", "a statement outside a transaction reported success, but is stored %zu times", db::find(k).size()); } else { const Str &k = *b.failed.begin(); SIM_CHECK(db::executed(k) <= 1, "executed-twice", "a statement that reported failure was executed %d times", db::executed(k)); } }
      continue;
    }
    if (kind == 1) {      // scoped transaction
      bool thrown = false; bool err = false;
      try { transaction(c) { b.began = true; for (int o = 0; o < ops; o++) if (!one(true) && !go_on) throw Oops(); if (throwing) throw Oops(); } b.committed = true; }
      catch (const Oops &) { thrown = true; } catch (const database_error &) { err = true; b.commit_failed = b.began; }
      sim::cover(100 + thrown * 2 + err); judge(b, "scoped transaction"); continue;
    }
    try { c->begin_transaction(); b.began = true; } catch (const database_error &) { if (kind == 4) c.reset(); try { if (c) c->rollback(); } catch (const database_error &) { } judge(b, "begin failed"); continue; }
    bool fail = false; for (int o = 0; o < ops && (!fail || go_on); o++) if (!one(true)) fail = true;
    if (kind == 2 && (!fail || go_on)) { try { c->commit(); b.committed = true; } catch (const database_error &) { b.commit_failed = true; } judge(b, "transaction"); if (b.commit_failed) try { c->rollback(); } catch (const database_error &) { } sim::cover(200 + b.committed * 2 + fail); }
    else if (kind == 4) { st.reset(); c.reset(); judge(b, "connection dropped within a transaction"); sim::cover(300); }
    else { try { c->rollback(); } catch (const database_error &) { } judge(b, "rollback"); sim::cover(400 + fail); }
  }
}
SCENARIO(C23, transactions, 8) {
  start(); int nw = 1 + sim::rnd(3); sim::enable(sim::K_DBFAIL, sim::rnd(4) ? 1 : 0); sim::enable(sim::K_CRASH, sim::rnd(3) == 0 ? 1 : 0); sim::enable(sim::K_CONNFAIL, sim::rnd(3) == 0 ? 1 : 0); sim::enable(sim::K_ALLOCFAIL, sim::rnd(6) == 0 ? 1 : 0);
  sim::set_hang_id("db-hang", "a database operation does not end:"); for (int i = 0; i < nw; i++) sim::go([i] { worker(i); }); sim::join_all();
  SIM_CHECK(db::sessions() == 0, "session-leak", "%d sessions are still open", db::sessions()); SIM_CHECK(db::handles() == 0, "handle-leak", "%d client library objects are not released", db::handles());
}
// whatever failed before: once the faults stop, the same connection object works again
SCENARIO(C23, recovery, 4) {
  start(); Conn c = open(); sim::enable(sim::K_DBFAIL, 3); sim::enable(sim::K_CONNFAIL, 3); int n = 1 + sim::rnd(6); pfi::lang::shared_ptr<statement> st; bool txn = false;
  for (int i = 0; i < n; i++) try { switch (sim::rnd(6)) { case 0: c->begin_transaction(); txn = true; break; case 1: txn = false; c->commit(); break; case 2: c->rollback(); txn = false; break; case 3: st = pfi::lang::shared_ptr<statement>(c->prepare(ins)); break; case 4: if (st) { st->execute(sim::fmt("s%d", i), i); break; } default: c->run(ins, sim::fmt("r%d", i), i); } } catch (const database_error &) { }
  sim::faults_off(); if (sim::coin()) db::crash(); bool ok = false; Str err;
  if (txn || sim::coin()) for (int t = 0; t < 2; t++) try { c->rollback(); break; } catch (const database_error &e) { }
  for (int t = 0; t < 2 && !ok; t++) try { c->run(ins, Str("after"), 1); ok = true; } catch (const database_error &e) { err = e.what(); }
  SIM_CHECK(ok, "no-recovery", "after the faults stopped, the connection still fails: %s", err.c_str()); SIM_CHECK(db::find("after").size() == 1, "lost-statement", "the first statement after recovery is stored %zu times", db::find("after").size());
  Block b; try { c->begin_transaction(); b.ok.insert("x1"); c->run(ins, Str("x1"), 1); b.ok.insert("x2"); c->run(ins, Str("x2"), 2); c->commit(); b.committed = true; } catch (const database_error &e) { sim::fail("no-recovery", "a transaction after recovery fails: %s", e.what()); } judge(b, "after recovery");
  st.reset(); c.reset(); SIM_CHECK(db::handles() == 0 && db::sessions() == 0, "handle-leak", "%d client library objects, %d sessions left", db::handles(), db::sessions());
}
// several prepared statements at once, results read while others execute
SCENARIO(C23, statements, 4) {
  start(); Conn c = open(); sim::enable(sim::K_DBFAIL, sim::rnd(3) == 0 ? 1 : 0); int ns = 2 + sim::rnd(3); struct P { pfi::lang::shared_ptr<statement> s; int kind; Str key; size_t at; bool open; std::vector<int> left; }; std::vector<P> ps(ns); int n = 0;
  for (int k = 0; k < 3; k++) { int m = sim::rnd(4); for (int j = 0; j < m; j++) { db::Row r; r.push_back(db::Val(sim::fmt("k%d", k))); r.push_back(db::Val(sim::fmt("%d", 10 * k + j))); db::seed_row("si", r); } }
  for (int step = 0; step < 14; step++) { P &p = ps[sim::rnd(ns)];
    try {
      if (sim::rnd(8) == 0) { bool t = false; int w = sim::rnd(3); uint64_t l = db::losses(); Str k = sim::fmt("a%d", n++); try { if (w == 0) c->prepare("INSERT WRONG"); else if (w == 1) c->run(ins, k); else c->run(ins, k, n, n); } catch (const database_error &) { t = true; } SIM_CHECK(t, "error-lost", "a wrong statement is %s without an error", w ? "executed" : "prepared"); SIM_CHECK(!db::executed(k) || db::losses() > l, "error-lost", "a statement with a wrong number of parameters is executed"); }
      if (!p.s || sim::rnd(5) == 0) { p.s.reset(); p.open = false; p.kind = sim::rnd(3); p.s = pfi::lang::shared_ptr<statement>(c->prepare(p.kind == 0 ? "INSERT INTO t_si VALUES (?, ?)" : p.kind == 1 ? "INSERT INTO t_sl VALUES (?, ?)" : "SELECT * FROM t_si WHERE id=?")); }
      else if (p.kind < 2) { Str k = sim::fmt("i%d", n++); try { p.s->execute(k, n); } catch (const database_error &) { p.s.reset(); SIM_CHECK(db::executed(k) <= 1, "executed-twice", "executed twice"); throw; } std::vector<db::Rec> r = db::find(k); SIM_CHECK(r.size() == 1 && r[0].types == (p.kind ? "sl" : "si"), "wrong-statement", "executing a prepared statement ran %s", r.empty() ? "something else" : "a statement prepared later"); }
      else if (!p.open) { p.key = sim::fmt("k%d", sim::rnd(3)); p.s->execute(p.key); p.open = true; p.at = 0; }
      else { Str k; int v; std::vector<db::Rec> r = db::find(p.key); bool more = p.s->fetch_row(k, v); SIM_CHECK(more == (p.at < r.size()), "wrong-row", "fetch %zu of %zu rows returned %d", p.at, r.size(), more); if (more) { SIM_CHECK(k == p.key && sim::fmt("%d", v) == r[p.at].row[1].s, "wrong-row", "row %zu of '%s' is ('%s', %d)", p.at, p.key.c_str(), k.c_str(), v); p.at++; } else p.open = false; }
    } catch (const database_error &e) { SIM_CHECK(db::losses() > 0, "spurious-error", "an error although nothing failed: %s", e.what()); p.s.reset(); p.open = false; }
  }
  ps.clear(); c.reset(); SIM_CHECK(db::handles() == 0 && db::sessions() == 0, "handle-leak", "%d client library objects, %d sessions left", db::handles(), db::sessions());
}
struct Vals { Str s[2]; int i[2]; int64_t l[2]; double d[2]; bool b; CT t; Vals() : t(0, 0) { } };
Str text() { switch (sim::rnd(7)) { case 0: return ""; case 1: return "it's \"quoted\" ? $1"; case 2: return "\xe3\x81\x82\xff\n\t"; case 3: return Str(sim::coin() ? 16384 : 16383, 'x'); case 4: return Str(16385 + sim::rnd(3000), 'y') + "z"; case 5: return pg ? "null" : Str("a\0b", 3); default: return sim::fmt("v%u", sim::rnd(1000)); } }
Vals vals() {
  Vals v; static const int is[] = {0, -1, 7, 2147483647, -2147483647 - 1}; static const int64_t ls[] = {0, -1, 9223372036854775807LL, -9223372036854775807LL - 1, 4294967296LL, 2147483647LL, -2147483648LL, 2147483648LL, -2147483649LL}; static const double ds[] = {0, -1.5, 1e15, 1.0 / 1024, -123456.0625}; static const int us[] = {0, 1, 500000, 999999, 120000, 10};
  for (int k = 0; k < 2; k++) { v.s[k] = text(); v.i[k] = is[sim::rnd(5)]; v.l[k] = ls[sim::rnd(9)]; v.d[k] = ds[sim::rnd(5)]; } v.b = sim::coin(); v.t = CT(sim::rnd(2000000000), us[sim::rnd(6)]); return v;
}
const char *all = "sildbtsild";
void wrong(pfi::lang::shared_ptr<statement> &s, Vals &v, int n) { Str &a = v.s[0], &g = v.s[1]; int &b = v.i[0], &h = v.i[1]; int64_t &c = v.l[0], &i = v.l[1]; double &d = v.d[0], &j = v.d[1]; bool &e = v.b; CT &f = v.t;
  switch (n) { case 1: s->fetch_row(a); break; case 2: s->fetch_row(a, b); break; case 3: s->fetch_row(a, b, c); break; case 4: s->fetch_row(a, b, c, d); break; case 5: s->fetch_row(a, b, c, d, e); break; case 6: s->fetch_row(a, b, c, d, e, f); break; case 7: s->fetch_row(a, b, c, d, e, f, g); break; case 8: s->fetch_row(a, b, c, d, e, f, g, h); break; case 9: s->fetch_row(a, b, c, d, e, f, g, h, i); break; default: s->fetch_row(a, b, c, d, e, f, g, h, i, j); } }
// values through every arity of run, execute and fetch_row
SCENARIO(C23, values, 5) {
  start(); Conn c = open(); int ar = 1 + sim::rnd(10), rows = 1 + sim::rnd(3); Str ty(all, ar), q = "INSERT INTO t_" + ty + " VALUES ("; for (int i = 0; i < ar; i++) q += i ? ",?" : "?"; q += ")"; std::vector<Vals> vs; bool prep = sim::coin();
  pfi::lang::shared_ptr<statement> st; if (prep) st = pfi::lang::shared_ptr<statement>(c->prepare(q));
  for (int r = 0; r < rows; r++) { Vals v = vals(); v.s[0] = "key"; vs.push_back(v);
#define A1 v.s[0]
#define A2 A1, v.i[0]
#define A3 A2, v.l[0]
#define A4 A3, v.d[0]
#define A5 A4, v.b
#define A6 A5, v.t
#define A7 A6, v.s[1]
#define A8 A7, v.i[1]
#define A9 A8, v.l[1]
#define A10 A9, v.d[1]
#define DO(n) case n: if (prep) st->execute(A##n); else c->run(q, A##n); break;
    switch (ar) { DO(1) DO(2) DO(3) DO(4) DO(5) DO(6) DO(7) DO(8) DO(9) DO(10) }
  }
  pfi::lang::shared_ptr<statement> sel(c->prepare("SELECT * FROM t_" + ty + " WHERE id=?")); int again = 1 + sim::rnd(2);
  while (again--) { sel->execute(Str("key"));
    if (sim::rnd(3) == 0) { int o = sim::coin() ? ar % 10 + 1 : ar == 1 ? 2 : ar - 1; bool t = false; try { Vals v; wrong(sel, v, o); } catch (const database_error &) { t = true; } SIM_CHECK(t, "error-lost", "a row of %d columns is read into %d variables", ar, o); sel->execute(Str("key")); }
    for (int r = 0; ; r++) { Vals v; bool more = false; int mb = 0;
#define FO(n) case n: more = sel->fetch_row(A##n); break;
#undef A5
#define A5 A4, mb
      if (!pg) switch (ar) { FO(1) FO(2) FO(3) FO(4) FO(5) FO(6) FO(7) FO(8) FO(9) FO(10) }
#undef A5
#define A5 A4, v.b
      if (pg) { switch (ar) { FO(1) FO(2) FO(3) FO(4) FO(5) FO(6) FO(7) FO(8) FO(9) FO(10) } mb = v.b; }
      SIM_CHECK(more == (r < rows), "wrong-row", "fetching row %d of %d returned %d", r, rows, more); if (!more) { std::vector<V> x; SIM_CHECK(!sel->fetch_row(x), "wrong-row", "another row after the end"); break; } const Vals &w = vs[r];
      SIM_CHECK(v.s[0] == "key" && (ar < 2 || v.i[0] == w.i[0]) && (ar < 3 || v.l[0] == w.l[0]) && (ar < 4 || v.d[0] == w.d[0]) && (ar < 5 || (mb != 0) == w.b), "value", "row %d comes back as another value", r);
      SIM_CHECK(ar < 6 || (v.t.sec == w.t.sec && v.t.usec == w.t.usec), "value", "the time %llu.%06d comes back as %llu.%06d", (unsigned long long)w.t.sec, w.t.usec, (unsigned long long)v.t.sec, v.t.usec);
      SIM_CHECK((ar < 7 || v.s[1] == w.s[1]) && (ar < 8 || v.i[1] == w.i[1]) && (ar < 9 || v.l[1] == w.l[1]) && (ar < 10 || v.d[1] == w.d[1]), "value", "row %d comes back as another value (columns 7 to 10; a text of %zu bytes became %zu)", r, w.s[1].size(), v.s[1].size());
    }
  }
  sim::cover(500 + ar * 2 + pg);
}
template <class T> bool refuses(const V &v) { try { from_sql<T>(v); return false; } catch (const database_error &) { return true; } }
// null values and the untyped interface
SCENARIO(C23, nulls, 2) {
  start(); Conn c = open(); const int N = 7; int rows = 1 + sim::rnd(3); std::vector<Vals> vs; std::vector<std::vector<bool> > nulls;
  for (int r = 0; r < rows; r++) { std::vector<V> a(N); Vals v = vals(); v.s[0] = "n"; if (sim::coin()) v.s[1] = ""; std::vector<bool> null(N); for (int i = 1; i < N; i++) null[i] = sim::coin(); vs.push_back(v); nulls.push_back(null);
    a[0] = to_sql(v.s[0]); if (!null[1]) a[1] = to_sql(v.i[0]); if (!null[2]) a[2] = to_sql(v.l[0]); if (!null[3]) a[3] = to_sql(v.d[0]); if (!null[4]) a[4] = to_sql(v.b); if (!null[5]) a[5] = to_sql(v.t); if (!null[6]) a[6] = to_sql(v.s[1]);
    try { c->run("INSERT INTO t_sildbts VALUES (?,?,?,?,?,?,?)", a); } catch (const database_error &e) { sim::fail("value", "storing a row with null values fails: %s", e.what()); } }
  std::vector<db::Rec> rec = db::find("n"); SIM_CHECK((int)rec.size() == rows, "lost-statement", "stored %zu times", rec.size()); for (int r = 0; r < rows; r++) for (int i = 0; i < N; i++) SIM_CHECK(rec[r].row[i].null == nulls[r][i], "value", "column %d is stored as %s", i, rec[r].row[i].null ? "null" : "not null");
  pfi::lang::shared_ptr<statement> s(c->prepare("SELECT * FROM t_sildbts WHERE id=?")); s->execute(Str("n")); std::vector<V> b; if (sim::coin()) { b.resize(sim::rnd(12)); for (auto &x : b) if (sim::coin()) x = to_sql(Str("old")); }
  for (int r = 0; r < rows; r++) { const Vals &v = vs[r]; const std::vector<bool> &null = nulls[r]; SIM_CHECK(s->fetch_row(b), "wrong-row", "row %d is missing", r); SIM_CHECK(b.size() == N, "wrong-row", "a row of %d columns is returned as %zu", N, b.size()); for (int i = 0; i < N; i++) SIM_CHECK(!b[i] == null[i], "value", "row %d: column %d comes back as %s", r, i, b[i] ? "not null" : "null");
    SIM_CHECK(from_sql<Str>(b[0]) == "n" && (null[1] || from_sql<int>(b[1]) == v.i[0]) && (null[2] || from_sql<int64_t>(b[2]) == v.l[0]) && (null[3] || from_sql<double>(b[3]) == v.d[0]) && (null[6] || from_sql<Str>(b[6]) == v.s[1]), "value", "a value comes back as another one");
    // the same values asked for as another type: converted without loss, or an error
    SIM_CHECK(null[1] || from_sql<int64_t>(b[1]) == v.i[0], "value", "a small number asked for as a large one is another"); if (!null[2]) { bool t = false; int32_t x = 0; try { x = from_sql<int32_t>(b[2]); } catch (const database_error &) { t = true; } SIM_CHECK(t == (v.l[0] != (int32_t)v.l[0]) && (t || x == v.l[0]), "value", "the large number %lld asked for as a small one %s %d", (long long)v.l[0], t ? "is refused, not" : "becomes", x); }
    if (!null[5]) { CT t = from_sql<CT>(b[5]); pfi::system::time::calendar_time k = from_sql<pfi::system::time::calendar_time>(b[5]); SIM_CHECK(t.sec == v.t.sec && t.usec == v.t.usec && CT(k).sec == v.t.sec && CT(k).usec == v.t.usec, "value", "a time comes back as another one"); }
    for (int i = 0; i < N; i++) { int bad = 0; if (i != 1 && i != 2) { if (!(i == 4 && !pg)) bad += refuses<int32_t>(b[i]) + refuses<int64_t>(b[i]); else bad += 2; } else bad += 2; bad += i == 3 ? !null[3] || refuses<double>(b[3]) : refuses<double>(b[i]); bad += i == 5 ? !null[5] || (refuses<CT>(b[5]) && refuses<pfi::system::time::calendar_time>(b[5])) : refuses<CT>(b[i]) && refuses<pfi::system::time::calendar_time>(b[i]); bad += i == 4 || refuses<bool>(b[i]); SIM_CHECK(bad == 5, "error-lost", "column %d (%s) is read as a type it is not", i, null[i] ? "null" : "not null"); } }
  SIM_CHECK(!s->fetch_row(b) && !s->fetch_row(b), "wrong-row", "more rows than were stored"); sim::cover(600 + rows);
}
}
