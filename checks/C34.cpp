// C34: values of user types sent as JSON documents: what arrives is what was sent, or the mismatch is reported.
#include "jsoncommon.h"
#include <map>
#include "text/json/serialization.h"
#include "data/optional.h"
#include "data/unordered_map.h"
namespace {
using pfi::data::optional; namespace ser = pfi::data::serialization;
struct In { int a; Str s; optional<int> o; std::vector<Str> v; In() : a(0) { } template <class A> void serialize(A &ar) { ar & MEMBER(a) & MEMBER(s) & MEMBER(o) & NAMED_MEMBER("list of words", v); } };
struct Out {
  long long n; double d; bool b; Str name; In in; std::vector<In> list; std::map<Str, int> m; pfi::data::unordered_map<Str, Str> um; optional<In> oi; optional<Str> os; float f; long l; std::vector<std::vector<int> > vv; std::map<Str, std::vector<double> > mv; js::json any; int last;
  Out() : n(0), d(0), b(false), f(0), l(0), last(0) { }
  template <class A> void serialize(A &ar) { ar & MEMBER(n) & MEMBER(d) & MEMBER(b) & MEMBER(name) & MEMBER(in) & MEMBER(list) & MEMBER(m) & MEMBER(um) & MEMBER(oi) & MEMBER(os) & MEMBER(f) & MEMBER(l) & MEMBER(vv) & MEMBER(mv) & MEMBER(any) & MEMBER(last); }
};
// --- reference: what a document means for a variable. strict: false = does not fit. with defaults: what does not fit stays.
bool unsure;
bool num(const J &j, int64_t lo, int64_t hi) { if (j.k != 2) return false; if (j.i < lo || j.i > hi) unsure = true; return true; }
bool fit(const J &j, int &v, bool) { if (!num(j, INT_MIN, INT_MAX)) return false; v = (int)j.i; return true; }
bool fit(const J &j, long &v, bool) { if (!num(j, LONG_MIN, LONG_MAX)) return false; v = j.i; return true; }
bool fit(const J &j, long long &v, bool) { if (!num(j, LLONG_MIN, LLONG_MAX)) return false; v = j.i; return true; }
bool fit(const J &j, double &v, bool) { if (j.k == 2) v = j.i; else if (j.k == 3) v = j.d; else return false; return true; }
bool fit(const J &j, float &v, bool) { double d = 0; if (!fit(j, d, true)) return false; if (fabs(d) > 1e30 || (d && fabs(d) < 1e-30)) unsure = true; v = d; return true; }
bool fit(const J &j, bool &v, bool) { if (j.k != 1) return false; v = j.i; return true; }
bool fit(const J &j, Str &v, bool) { if (j.k != 4) return false; v = j.s; return true; }
bool fit(const J &j, js::json &v, bool) { v = build(j); return true; }
bool fit(const J &j, In &v, bool strict); bool fit(const J &j, Out &v, bool strict);
template <class T> bool fit(const J &j, optional<T> &v, bool strict);
template <class T> bool fit(const J &j, std::map<Str, T> &v, bool strict);
template <class T> bool fit(const J &j, pfi::data::unordered_map<Str, T> &v, bool strict);
template <class T> bool fit(const J &j, std::vector<T> &v, bool strict) {
  if (j.k != 5) return false;
  if (strict) { std::vector<T> t(j.v.size()); for (size_t i = 0; i < t.size(); i++) if (!fit(j.v[i], t[i], true)) return false; v = t; return true; }
  if (v.size() < j.v.size()) v.resize(j.v.size()); for (size_t i = 0; i < j.v.size(); i++) fit(j.v[i], v[i], false); return true;
}
template <class M> bool fit_map(const J &j, M &v, bool strict) {
  if (j.k != 6) return false; M t; if (!strict) t = v;
  for (size_t i = 0; i < j.v.size(); i++) if (!fit(j.v[i], t[j.key[i]], strict) && strict) return false;
  v = t; return true;
}
template <class T> bool fit(const J &j, std::map<Str, T> &v, bool strict) { return fit_map(j, v, strict); }
template <class T> bool fit(const J &j, pfi::data::unordered_map<Str, T> &v, bool strict) { return fit_map(j, v, strict); }
template <class T> bool fit(const J &j, optional<T> &v, bool strict) {
  if (j.k == 0) { v = optional<T>(); return true; } T t = T(); if (!strict && v) t = *v; bool r = fit(j, t, strict); if (!r && strict) return false; if (!r && !v) { unsure = true; return true; } v = t; return true;
}
const J *mem(const J &j, const char *n) { for (size_t i = 0; i < j.key.size(); i++) if (j.key[i] == n) return &j.v[i]; return 0; }
template <class T> bool field(const J &j, const char *n, optional<T> &v, bool strict) { const J *m = mem(j, n); if (!m) { if (strict) v = optional<T>(); return true; } return fit(*m, v, strict) || !strict; }
template <class T> bool field(const J &j, const char *n, T &v, bool strict) { const J *m = mem(j, n); if (!m) return !strict; return fit(*m, v, strict) || !strict; }
bool fit(const J &j, In &v, bool s) { if (j.k != 6) return false; return field(j, "a", v.a, s) && field(j, "s", v.s, s) && field(j, "o", v.o, s) && field(j, "list of words", v.v, s); }
bool fit(const J &j, Out &v, bool s) { if (j.k != 6) return false; return field(j, "n", v.n, s) && field(j, "d", v.d, s) && field(j, "b", v.b, s) && field(j, "name", v.name, s) && field(j, "in", v.in, s) && field(j, "list", v.list, s) && field(j, "m", v.m, s) && field(j, "um", v.um, s) && field(j, "oi", v.oi, s) && field(j, "os", v.os, s) && field(j, "f", v.f, s) && field(j, "l", v.l, s) && field(j, "vv", v.vv, s) && field(j, "mv", v.mv, s) && field(j, "any", v.any, s) && field(j, "last", v.last, s); }
// --- equality
bool eq_(const int &a, const int &b) { return a == b; } bool eq_(const long &a, const long &b) { return a == b; } bool eq_(const long long &a, const long long &b) { return a == b; } bool eq_(const bool &a, const bool &b) { return a == b; } bool eq_(const Str &a, const Str &b) { return a == b; }
bool eq_(const double &a, const double &b) { return fabs(a - b) <= fabs(a) * 1e-10; } bool eq_(const float &a, const float &b) { return fabs(a - b) <= fabs(a) * 1e-5; }
bool eq_(const js::json &a, const js::json &b) { 
  if (a.type() != b.type()) return (a.type() == js::json::Float && b.type() == js::json::Integer) || (b.type() == js::json::Float && a.type() == js::json::Integer) ? eq_(js::json_cast<double>(a), js::json_cast<double>(b)) : false;
  switch (a.type()) { case js::json::Null: return true; case js::json::Integer: return js::json_cast<int64_t>(a) == js::json_cast<int64_t>(b); case js::json::Float: return eq_(js::json_cast<double>(a), js::json_cast<double>(b)); case js::json::Bool: return js::json_cast<bool>(a) == js::json_cast<bool>(b); case js::json::String: return js::json_cast<Str>(a) == js::json_cast<Str>(b);
    case js::json::Array: if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eq_(a[i], b[i])) return false; return true;
    default: if (a.size() != b.size()) return false; for (js::json::const_iterator i = a.begin(); i != a.end(); ++i) if (!b.count(i->first) || !eq_(i->second, b[i->first])) return false; return true; } }
bool eq_(const In &a, const In &b); bool eq_(const Out &a, const Out &b);
template <class T> bool eq_(const optional<T> &a, const optional<T> &b);
template <class T> bool eq_(const std::map<Str, T> &a, const std::map<Str, T> &b);
template <class T> bool eq_(const pfi::data::unordered_map<Str, T> &a, const pfi::data::unordered_map<Str, T> &b);
template <class T> bool eq_(const std::vector<T> &a, const std::vector<T> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eq_(a[i], b[i])) return false; return true; }
template <class M> bool eq_map(const M &a, const M &b) { if (a.size() != b.size()) return false; for (typename M::const_iterator i = a.begin(); i != a.end(); ++i) { typename M::const_iterator k = b.find(i->first); if (k == b.end() || !eq_(i->second, k->second)) return false; } return true; }
template <class T> bool eq_(const std::map<Str, T> &a, const std::map<Str, T> &b) { return eq_map(a, b); }
template <class T> bool eq_(const pfi::data::unordered_map<Str, T> &a, const pfi::data::unordered_map<Str, T> &b) { return eq_map(a, b); }
template <class T> bool eq_(const optional<T> &a, const optional<T> &b) { return !!a == !!b && (!a || eq_(*a, *b)); }
bool eq_(const In &a, const In &b) { return eq_(a.a, b.a) && eq_(a.s, b.s) && eq_(a.o, b.o) && eq_(a.v, b.v); }
bool eq_(const Out &a, const Out &b) { return eq_(a.n, b.n) && eq_(a.d, b.d) && eq_(a.b, b.b) && eq_(a.name, b.name) && eq_(a.in, b.in) && eq_(a.list, b.list) && eq_(a.m, b.m) && eq_(a.um, b.um) && eq_(a.oi, b.oi) && eq_(a.os, b.os) && eq_(a.f, b.f) && eq_(a.l, b.l) && eq_(a.vv, b.vv) && eq_(a.mv, b.mv) && eq_(a.any, b.any) && eq_(a.last, b.last); }
// --- documents: generated as reference values, so that the typed value is what the reference makes of them
J ji(int64_t i) { J j; j.k = 2; j.i = i; return j; } J jb(bool b) { J j; j.k = 1; j.i = b; return j; } J js_(const Str &s) { J j; j.k = 4; j.s = s; return j; } J jd() { static const double t[] = {0.5, -0.25, 3.14159265359, 100.125, -2e5, 6.02e23, 0.001}; J j; j.k = 3; j.d = t[sim::rnd(7)]; if (sim::rnd(4) == 0) return ji((int)sim::rnd(1000) - 500); return j; }
J jint() { static const int t[] = {0, 1, -1, 7, 255, 65536, INT_MAX, INT_MIN}; return ji(t[sim::rnd(8)]); }
J jlong() { static const int64_t t[] = {0, 1, -1, 1ll << 31, 1ll << 32, -(1ll << 40), LLONG_MAX, LLONG_MIN}; return ji(t[sim::rnd(8)]); }
J arr() { J j; j.k = 5; return j; } J obj() { J j; j.k = 6; return j; } void put_(J &o, const Str &k, const J &v) { o.key.push_back(k); o.v.push_back(v); }
unsigned few() { return sim::rnd(6) ? sim::rnd(3) : 3 + sim::rnd(9); }
J jin() { J o = obj(), w = arr(); put_(o, "a", jint()); put_(o, "s", js_(rstr())); if (sim::coin()) put_(o, "o", sim::rnd(3) ? jint() : J()); for (unsigned n = few(); n; n--) w.v.push_back(js_(rstr())); put_(o, "list of words", w); return o; }
J jout() {
  J o = obj(), l = arr(), m = obj(), um = obj(), vv = arr(), mv = obj(); put_(o, "n", jlong()); put_(o, "d", jd()); put_(o, "b", jb(sim::coin())); put_(o, "name", js_(rstr())); put_(o, "in", jin()); for (unsigned n = few() / 2; n; n--) l.v.push_back(jin()); put_(o, "list", l);
  for (unsigned n = few(), i = 0; i < n; i++) put_(m, i == 0 && sim::rnd(3) == 0 ? Str() : (sim::coin() ? rstr() : Str("k")) + sim::fmt("%u", i), jint()); put_(o, "m", m); for (unsigned n = few(), i = 0; i < n; i++) put_(um, i || sim::rnd(3) ? sim::fmt("u%u", i) : sim::coin() ? Str() : rstr(), js_(rstr())); put_(o, "um", um);
  if (sim::coin()) put_(o, "oi", sim::rnd(3) ? jin() : J()); if (sim::coin()) put_(o, "os", sim::rnd(3) ? js_(rstr()) : J()); put_(o, "f", jd()); put_(o, "l", jlong());
  for (unsigned n = few(), i = 0; i < n; i++) { J a = arr(); for (unsigned k = few(); k; k--) a.v.push_back(jint()); vv.v.push_back(a); } put_(o, "vv", vv); for (unsigned n = few(), i = 0; i < n; i++) { J a = arr(); for (unsigned k = few(); k; k--) a.v.push_back(jd()); put_(mv, sim::fmt("v%u", i), a); } put_(o, "mv", mv); budget = 6; put_(o, "any", rval(2)); put_(o, "last", jint()); return o;
}
J jvec() { J a = arr(); for (unsigned k = few(); k; k--) a.v.push_back(jin()); return a; }
J jmap() { J a = obj(); for (unsigned n = few(), i = 0; i < n; i++) { J b = arr(); for (unsigned k = few(); k; k--) b.v.push_back(jint()); put_(a, i || sim::rnd(3) ? sim::fmt("k%u", i) : sim::coin() ? Str() : rstr(), b); } return a; }
void shuffle(J &j) { if (j.k == 6) for (size_t i = j.v.size(); i > 1; i--) { size_t k = sim::rnd(i); std::swap(j.v[i - 1], j.v[k]); std::swap(j.key[i - 1], j.key[k]); } for (auto &x : j.v) if (x.k >= 5 && sim::coin()) shuffle(x); }
void extra(J &j) { if (j.k != 6) return; budget = 4; put_(j, sim::coin() ? "unknown" : "zz", rval(1)); }
// one difference in shape somewhere: a member missing, or a value of another kind
void bend(J &j) {
  J *p = &j; for (int g = 0; g < 4 && p->k >= 5 && !p->v.empty(); g++) { size_t i = sim::rnd(p->v.size()); if (p->v[i].k < 5 || p->v[i].v.empty() || sim::rnd(3) == 0) { if (p->k == 6 && sim::coin()) { p->v.erase(p->v.begin() + i); p->key.erase(p->key.begin() + i); } else { J n; static const int kk[] = {0, 1, 2, 3, 4, 5, 6}; n.k = kk[sim::rnd(7)]; n.i = 1; n.d = 0.5; n.s = "other"; p->v[i] = n; } return; } p = &p->v[i]; }
  J n; n.k = sim::rnd(7); n.i = 1; n.d = 1.5; n.s = "other"; j = n;
}
// what one reader does with one document
template <class T> struct Rd {
  static void strict(std::istream &is, T &v, int how) { if (how == 0) is >> js::via_json(v); else if (how == 1) { ser::json_iarchive ia(is); ia >> v; } else { ser::json_iarchive ia(is); ia & v; } }
  static void dflt(std::istream &is, T &v) { is >> js::via_json_with_default(v); }
};
struct Doc { int type; J j; bool dflt; int how; Str txt; };        // type: 0 Out 1 vector<In> 2 map<vector<int>> 3 In
template <class T> T before(int type) { T v = T(); for (int g = 0; g < 5; g++) { J j = type == 0 ? jout() : type == 1 ? jvec() : type == 2 ? jmap() : jin(); unsure = false; T t = T(); if (fit(j, t, true) && !unsure) { v = t; break; } } return v; }
enum Res { VALUE, MISFIT, END, BROKEN };
template <class T> void read_one(std::istream &is, const Doc &d, const T &was, bool complete, Res &res, bool container) {
  T v = was, want = was; unsure = false; bool ok = fit(d.j, want, !d.dflt); if (d.dflt) ok = true; res = VALUE; bool un = unsure;
  try { if (d.dflt) Rd<T>::dflt(is, v); else Rd<T>::strict(is, v, d.how); }
  catch (const js::json_bad_cast_any &e) { res = MISFIT; SIM_CHECK(complete && (!ok || un), "wrong-error", "a document that fits is refused: %s", e.what()); if (container) SIM_CHECK(eq_(v, was), "half-read", "a list or map whose document does not fit was changed all the same"); return; }
  catch (const pfi::lang::end_of_data &) { res = END; SIM_CHECK(!complete, "wrong-error", "a complete document is reported as the end of the data"); SIM_CHECK(eq_(v, was), "half-read", "a document that was cut off changed the variable"); return; }
  catch (const pfi::lang::parse_error &e) { res = BROKEN; SIM_CHECK(!complete, "wrong-error", "a sound document is called wrong: %s", e.what()); SIM_CHECK(eq_(v, was), "half-read", "a document that was cut off changed the variable"); return; }
  SIM_CHECK(complete, "invented", "a document that was cut off is read as a value"); if (un) return;
  SIM_CHECK(ok, "misfit-hidden", "a document that does not fit is read as a value"); SIM_CHECK(eq_(v, want), "wrong-value", "what was read (%s) differs from what the document says", d.dflt ? "with defaults" : "strictly");
}
void consume(std::istream &is, const Doc &d, bool complete, Res &r) {
  switch (d.type) { case 0: { Out w = before<Out>(0); read_one(is, d, w, complete, r, false); break; } case 1: { std::vector<In> w = before<std::vector<In> >(1); read_one(is, d, w, complete, r, !d.dflt); break; } case 2: { std::map<Str, std::vector<int> > w = before<std::map<Str, std::vector<int> > >(2); read_one(is, d, w, complete, r, !d.dflt); break; } default: { In w = before<In>(3); read_one(is, d, w, complete, r, false); } }
}
Doc doc(bool bent) { Doc d; d.type = sim::rnd(4); d.j = d.type == 0 ? jout() : d.type == 1 ? jvec() : d.type == 2 ? jmap() : jin(); d.dflt = sim::rnd(3) == 0; d.how = sim::rnd(3); if (sim::rnd(3) == 0) shuffle(d.j); if (sim::rnd(3) == 0) { if (d.type != 2) extra(d.j); } if (bent) bend(d.j); put(d.txt, d.j); d.txt += sim::coin() ? "\n" : "\r\n "; return d; }
// documents one after the other over one connection
SCENARIO(C34, documents, 6) {
  nc::swarm(); unsigned n = 1 + sim::rnd(4); std::vector<Doc> ds; Str all; std::vector<size_t> end; for (unsigned i = 0; i < n; i++) { ds.push_back(doc(sim::rnd(3) == 0)); Str t; put(t, ds[i].j); end.push_back(all.size() + ds[i].txt.size() - 1); all += ds[i].txt; } int fate = sim::rnd(3); size_t cut = fate == 0 ? sim::rnd(all.size()) : all.size();
  server_socket srv; SIM_CHECK(srv.create(4200), "setup", "create"); sim::set_hang_id("document-hang", "reading documents does not end although the connection did:");
  sim::go([&] { sim::net::Outside o; int fd = sim::net::raw_connect(4200); sim::net::raw_send(fd, all.substr(0, cut)); sim::net::raw_close(fd); });
  { pfi::lang::shared_ptr<stream_socket> c(srv.accept()); SIM_CHECK(!!c, "accept", "accept"); socketstream s(c); unsigned i = 0; Res r = VALUE;
    for (; i < n; i++) { bool whole = end[i] <= cut; size_t e = ds[i].txt.find_last_not_of(" \r\n"); if (!whole && cut >= end[i] + 1 - ds[i].txt.size() + e + 1 && tells_end(ds[i].j)) whole = true; if (!whole && !tells_end(ds[i].j)) break; consume(s, ds[i], whole, r); if (r == END || r == BROKEN) break; }
    if (i == n) { bool over = false; In x; try { s >> js::via_json(x); } catch (const pfi::lang::end_of_data &) { over = true; } catch (const std::exception &) { } SIM_CHECK(over, "no-end", "the end of the connection is not reported as the end of the data"); } }
  sim::join_all(); sim::cover(fate * 8 + n);
}
// values written by the library, read by the library and by the reference
template <class T> void through(std::ostream &os, const T &v, int how) { if (how == 0) os << js::to_json(v) << '\n'; else if (how == 1) os << js::pretty(js::to_json(v)) << '\n'; else { ser::json_oarchive oa(os, how == 3, how == 4); if (sim::coin()) oa << v; else { T w = v; oa & w; } if (how == 3) os << '\n'; } os.flush(); SIM_CHECK(os.good(), "write", "writing a document to a healthy stream fails"); }
template <class T> void roundtrip(int type, int n, int how, bool raw) {
  std::vector<T> v; for (int i = 0; i < n; i++) v.push_back(before<T>(type)); server_socket srv; SIM_CHECK(srv.create(4200), "setup", "create"); sim::set_hang_id("document-hang", "a document sent completely is not returned:"); unsigned done = 0; bool step = sim::coin();
  sim::go([&] { socketstream s("127.0.0.1", 4200); SIM_CHECK(!!s, "connect", "connect"); for (int i = 0; i < n; i++) { through(s, v[i], how); if (step) while (done <= (unsigned)i) sim::sleep_ns(2000000); } });
  { pfi::lang::shared_ptr<stream_socket> c(srv.accept()); SIM_CHECK(!!c, "accept", "accept"); socketstream s(c);
    if (raw) { for (int i = 0; i < n; i++) { js::json j; s >> j; std::ostringstream o; o << j; J r; Str txt = o.str(); Ref ref(txt); int ok = ref.verdict(r); SIM_CHECK(ok, "wrong-text", "a value is written as something that is no JSON text"); T got = T(); unsure = false; if (ok == 1) { SIM_CHECK(fit(r, got, true), "wrong-text", "the document written does not have the shape of the value"); if (!unsure) SIM_CHECK(eq_(got, v[i]), "wrong-text", "the document written does not say what the value is"); } done = i + 1; } }
    else for (int i = 0; i < n; i++) { T got = before<T>(type); if (how & 1) s >> js::via_json(got); else { ser::json_iarchive ia(s); ia >> got; } SIM_CHECK(eq_(got, v[i]), "wrong-value", "value %d read back differs from the one sent", i); done = i + 1; }
    int ch; while ((ch = s.get()) != EOF) SIM_CHECK(isspace(ch), "extra-data", "something other than white space follows the last document"); }
  sim::join_all(); sim::cover(100 + how * 8 + type * 2 + raw);
}
SCENARIO(C34, values, 5) { nc::swarm(); int t = sim::rnd(4), n = 1 + sim::rnd(3), how = sim::rnd(5); bool raw = sim::rnd(3) == 0; if (t == 0) roundtrip<Out>(0, n, how, raw); else if (t == 1) roundtrip<std::vector<In> >(1, n, how, raw); else if (t == 2) roundtrip<std::map<Str, std::vector<int> > >(2, n, how, raw); else roundtrip<In>(3, n, how, raw); }
// kinds of numbers that can only be written
struct Uns { unsigned u; unsigned long ul; unsigned long long ull; template <class A> void serialize(A &ar) { ar & MEMBER(u) & MEMBER(ul) & MEMBER(ull); } };
SCENARIO(C34, unsigned_numbers, 1) {
  nc::swarm(); Uns v; static const unsigned long long t[] = {0, 1, 7, 4294967295ull, 1ull << 31, 1ull << 32, 9223372036854775807ull, 1ull << 62}; v.u = (unsigned)t[sim::rnd(5)]; v.ul = t[sim::rnd(8)]; v.ull = t[sim::rnd(8)];
  server_socket srv; SIM_CHECK(srv.create(4200), "setup", "create"); sim::set_hang_id("document-hang", "a document sent completely is not returned:"); int how = sim::rnd(5);
  sim::go([&] { socketstream s("127.0.0.1", 4200); SIM_CHECK(!!s, "connect", "connect"); through(s, v, how); });
  Str all;
  { pfi::lang::shared_ptr<stream_socket> c(srv.accept()); SIM_CHECK(!!c, "accept", "accept"); socketstream s(c); int ch; while ((ch = s.get()) != EOF) all += (char)ch; }
  sim::join_all(); J r; Ref ref(all); int ok = ref.verdict(r); SIM_CHECK(ok, "wrong-text", "a value is written as something that is no JSON text"); if (ok != 1) return;
  const J *a = mem(r, "u"), *b = mem(r, "ul"), *c = mem(r, "ull"); SIM_CHECK(r.k == 6 && r.v.size() == 3 && a && b && c && a->k == 2 && b->k == 2 && c->k == 2, "wrong-text", "the document written does not have the shape of the value"); SIM_CHECK((unsigned long long)a->i == v.u && (unsigned long long)b->i == v.ul && (unsigned long long)c->i == v.ull, "wrong-text", "the document written does not say what the value is: %s", all.c_str());
  sim::cover(400 + how);
}
// failing memory while converting
SCENARIO(C34, memory, 3) {
  nc::volume = 0; Doc d = doc(sim::rnd(3) == 0); js::json j = build(d.j); uint64_t b0 = sim::live_blocks(); int what = sim::rnd(3);
  { std::vector<In> was = before<std::vector<In> >(1), v = was, want = was; Out o = before<Out>(0), o2; unsure = false; bool fits = fit(d.j, want, true); bool done = false; js::json made; uint64_t faults = sim::fault_count(sim::K_ALLOCFAIL); 
    sim::enable(sim::K_ALLOCFAIL, 1); sim::fail_allocs(true);
    try { if (what == 0) js::from_json(j, v); else if (what == 1) made = js::to_json(o); else { Out t; js::from_json_with_default(j, t); } done = true; sim::fail_allocs(false); }
    catch (const std::bad_alloc &) { sim::fail_allocs(false); } catch (const js::json_bad_cast_any &) { sim::fail_allocs(false); SIM_CHECK(what == 0 && !fits, "wrong-error", "failing memory is reported as a misfit"); }
    faults = sim::fault_count(sim::K_ALLOCFAIL) - faults; SIM_CHECK(done || faults || what == 0, "wrong-error", "a conversion fails without a reason");
    if (what == 0 && !unsure) { if (done) SIM_CHECK(fits && eq_(v, want), "wrong-value", "a list converted while memory failed differs"); else SIM_CHECK(eq_(v, was), "half-read", "a list whose conversion failed was changed all the same"); }
    if (what == 1 && done) { js::from_json(made, o2); SIM_CHECK(eq_(o, o2), "wrong-value", "a document made while memory failed differs"); } }
  SIM_CHECK(sim::live_blocks() <= b0, "leak", "%llu blocks are left after a conversion", (unsigned long long)(sim::live_blocks() - b0)); sim::cover(200 + what);
}
// one document and one value used by several threads
SCENARIO(C34, shared, 3) {
  nc::volume = 0; Out o = before<Out>(0); const js::json j = js::to_json(o); int n = 2 + sim::rnd(3); J r; { std::ostringstream t; t << j; Str x = t.str(); if (Ref(x).verdict(r) == 1) { Out q; unsure = false; SIM_CHECK(fit(r, q, true) && (unsure || eq_(q, o)), "wrong-text", "the document made does not say what the value is"); } }
  bool texts = sim::rnd(3) == 0; std::ostringstream w; w << j; const Str txt = w.str();
  for (int t = 0; t < n; t++) sim::go([&, t] { for (int i = 0; i < 2; i++) {
    if (texts) { std::istringstream is(txt); Out q = before<Out>(0); if (t & 1) is >> js::via_json(q); else { ser::json_iarchive ia(is); ia >> q; } SIM_CHECK(eq_(q, o), "shared", "a document read by several threads comes out differently"); std::ostringstream os; ser::json_oarchive oa(os); oa << o; SIM_CHECK(os.str() == txt || os.str() == txt + "\n", "shared", "a value written by several threads comes out differently"); continue; }
    if (t % 3 == 0) { Out q = js::json_cast<Out>(j); SIM_CHECK(eq_(q, o), "shared", "a document converted by several threads comes out differently"); } else if (t % 3 == 1) { js::json k = js::to_json(o); SIM_CHECK(eq_(k, j), "shared", "a value converted by several threads comes out differently"); } else { Out q; q.name = "other"; q = js::json_cast_with_default<Out>(j, q); SIM_CHECK(eq_(q, o), "shared", "a document converted by several threads comes out differently"); js::json c = j["in"]; SIM_CHECK(eq_(js::json_cast<In>(c), o.in), "shared", "a part of a shared document differs"); } } });
  sim::join_all(); { Out q; js::from_json(j, q); SIM_CHECK(eq_(q, o), "shared", "the shared document changed"); } sim::cover(300 + n);
}
}
