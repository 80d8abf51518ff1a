// C25: archives over files, connections and damaged data.
#include "../sim/sim.h"
#include "../sim/file.h"
#include <memory>
#include <sstream>
#include <string.h>
#include "system/file.h"
#include "data/serialization.h"
#include "data/serialization/unordered_map.h"
#include "data/serialization/unordered_set.h"
#include "data/intern.h"
namespace ser = pfi::data::serialization; namespace fs = sim::fs;
typedef std::string Str; typedef ser::binary_iarchive IA; typedef ser::binary_oarchive OA;
namespace {
unsigned scale;                                  // container sizes in this run
unsigned cnt() { return sim::rnd(scale); }
// a value of every kind, from choices; equality; smallest number of bytes it can occupy
template <class T> void gen(T &x);
uint64_t word() { static const uint64_t t[] = {0, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, 0x0102030405060708ull, 0x0a0d1a00ff0d0a1aull}; unsigned k = sim::rnd(20); return k < 15 ? t[k] : (uint64_t)sim::rnd(0xffffffffu) << 32 | sim::rnd(0xffffffffu); }
struct Pod { short a; unsigned char b; };
struct Point { int x; double y; Str name; template <class A> void serialize(A &ar) { ar & x & y & name; } };
struct Rec {
  bool b; char c; signed char sc; unsigned char uc; short s; unsigned short us; int i; unsigned u; long l; unsigned long ul; long long ll; unsigned long long ull; float f; double d; long double ld; Str str; int arr[5]; std::pair<int, Str> p; std::vector<Point> pts; std::map<Str, std::vector<int> > m;
private: friend class ser::access;
  template <class A> void serialize(A &ar) { ar & NAME(rec) & MEMBER(b) & MEMBER(c) & MEMBER(sc) & MEMBER(uc) & MEMBER(s) & MEMBER(us) & MEMBER(i) & MEMBER(u) & MEMBER(l) & MEMBER(ul) & MEMBER(ll) & MEMBER(ull) & MEMBER(f) & MEMBER(d) & NAMED_MEMBER("long double", ld) & MEMBER(str) & arr & p & MEMBER(pts) & MEMBER(m); }
};
template <class T> struct G { static void gen(T &x) { uint64_t w = word(); memcpy(&x, &w, sizeof x); } static bool eq(const T &a, const T &b) { return !memcmp(&a, &b, sizeof a); } };
template <> struct G<bool> { static void gen(bool &x) { x = sim::coin(); } static bool eq(bool a, bool b) { return a == b; } };
template <> struct G<long double> { static void gen(long double &x) { static const long double t[] = {0, 1, -1.5L, 1e4000L, 3.14159265358979323846264338327950288L}; x = t[sim::rnd(5)]; } static bool eq(const long double &a, const long double &b) { return a == b; } };
template <class C> struct G<std::basic_string<C> > { typedef std::basic_string<C> S; static void gen(S &x) { unsigned n = cnt() * (sim::rnd(8) ? 1 : 40); x.clear(); for (unsigned i = 0; i < n; i++) x += (C)(i % 3 ? i * 7 + n : word()); } static bool eq(const S &a, const S &b) { return a == b; } };
template <class L> struct GSeq { static void gen(L &x) { unsigned n = cnt(); x.clear(); for (unsigned i = 0; i < n; i++) { typename L::value_type v = typename L::value_type(); ::gen(v); x.push_back(v); } }
  static bool eq(const L &a, const L &b) { if (a.size() != b.size()) return false; auto q = b.begin(); for (auto p = a.begin(); p != a.end(); ++p, ++q) if (!G<typename L::value_type>::eq(*p, *q)) return false; return true; } };
template <class T> struct G<std::vector<T> > : GSeq<std::vector<T> > { };
template <class T> struct G<std::deque<T> > : GSeq<std::deque<T> > { };
template <class T> struct G<std::list<T> > : GSeq<std::list<T> > { };
template <class S> struct GSet { static void gen(S &x) { unsigned n = cnt(); x.clear(); for (unsigned i = 0; i < n; i++) { typename S::value_type v = typename S::value_type(); ::gen(v); x.insert(v); } } static bool eq(const S &a, const S &b) { if (a.size() != b.size()) return false; for (auto p = a.begin(); p != a.end(); ++p) if (!b.count(*p)) return false; return true; } };
template <class T> struct G<std::set<T> > : GSet<std::set<T> > { };
template <class T> struct G<pfi::data::unordered_set<T> > : GSet<pfi::data::unordered_set<T> > { };
template <class M> struct GMap { static void gen(M &x) { unsigned n = cnt(); x.clear(); for (unsigned i = 0; i < n; i++) { typename M::key_type k = typename M::key_type(); ::gen(k); ::gen(x[k]); } } static bool eq(const M &a, const M &b) { if (a.size() != b.size()) return false; for (auto p = a.begin(); p != a.end(); ++p) { auto q = b.find(p->first); if (q == b.end() || !G<typename M::mapped_type>::eq(p->second, q->second)) return false; } return true; } };
template <class K, class V> struct G<std::map<K, V> > : GMap<std::map<K, V> > { };
template <class K, class V> struct G<pfi::data::unordered_map<K, V> > : GMap<pfi::data::unordered_map<K, V> > { };
template <class A, class B> struct G<std::pair<A, B> > { typedef std::pair<A, B> P; static void gen(P &x) { ::gen(x.first); ::gen(x.second); } static bool eq(const P &a, const P &b) { return G<A>::eq(a.first, b.first) && G<B>::eq(a.second, b.second); } };
template <class K> struct G<pfi::data::intern<K> > { typedef pfi::data::intern<K> I; static void gen(I &x) { unsigned n = cnt(); x.clear(); for (unsigned i = 0; i < n; i++) { K k = K(); ::gen(k); x.key2id(k); } }
  static bool eq(const I &a, const I &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) { if (!b.exist_id(i) || !G<K>::eq(a.id2key(i), b.id2key(i)) || b.key2id_nogen(a.id2key(i)) != (int)i) return false; } return !b.exist_id(a.size()); } };
template <> struct G<Point> { static void gen(Point &x) { ::gen(x.x); ::gen(x.y); ::gen(x.name); } static bool eq(const Point &a, const Point &b) { return a.x == b.x && G<double>::eq(a.y, b.y) && a.name == b.name; } };
template <> struct G<Rec> {
  static void gen(Rec &x) { ::gen(x.b); ::gen(x.c); ::gen(x.sc); ::gen(x.uc); ::gen(x.s); ::gen(x.us); ::gen(x.i); ::gen(x.u); ::gen(x.l); ::gen(x.ul); ::gen(x.ll); ::gen(x.ull); ::gen(x.f); ::gen(x.d); ::gen(x.ld); ::gen(x.str); for (int i = 0; i < 5; i++) ::gen(x.arr[i]); ::gen(x.p); ::gen(x.pts); ::gen(x.m); }
  static bool eq(const Rec &a, const Rec &b) { return a.b == b.b && a.c == b.c && a.sc == b.sc && a.uc == b.uc && a.s == b.s && a.us == b.us && a.i == b.i && a.u == b.u && a.l == b.l && a.ul == b.ul && a.ll == b.ll && a.ull == b.ull && G<float>::eq(a.f, b.f) && G<double>::eq(a.d, b.d) && a.ld == b.ld && a.str == b.str && !memcmp(a.arr, b.arr, sizeof a.arr) && G<std::pair<int, Str> >::eq(a.p, b.p) && G<std::vector<Point> >::eq(a.pts, b.pts) && G<std::map<Str, std::vector<int> > >::eq(a.m, b.m); }
};
struct Arr { int g; Str a[3]; short m[2][2]; template <class A> void serialize(A &ar) { ar & g & a & m; } };
template <> struct G<Arr> { static void gen(Arr &x) { ::gen(x.g); for (int i = 0; i < 3; i++) ::gen(x.a[i]); for (int i = 0; i < 4; i++) ::gen(x.m[i / 2][i % 2]); } static bool eq(const Arr &a, const Arr &b) { return a.g == b.g && a.a[0] == b.a[0] && a.a[1] == b.a[1] && a.a[2] == b.a[2] && !memcmp(a.m, b.m, sizeof a.m); } };
template <class T> void gen(T &x) { G<T>::gen(x); }
struct Val { virtual ~Val() { } virtual void write(OA &) = 0; virtual Val *target() = 0; virtual void read(IA &) = 0; virtual bool eq(const Val &) const = 0; virtual bool scalar() const = 0; const char *name; };
template <class T> struct isc { enum { v = 0 }; };
template <class T> struct Box : Val { T x; Box() : x() { } void write(OA &a) { a << x; } Val *target() { Box *b = new Box; b->name = name; if (sim::coin()) gen(b->x); return b; } void read(IA &a) { a >> x; } bool eq(const Val &o) const { return G<T>::eq(x, static_cast<const Box &>(o).x); } bool scalar() const { return std::is_arithmetic<T>::value; } };
template <class T> Val *box(const char *n) { Box<T> *b = new Box<T>; b->name = n; gen(b->x); return b; }
Val *value() {
  using namespace pfi::data;
  switch (sim::rnd(38)) {
#define V(k, ...) case k: return box<__VA_ARGS__ >(#__VA_ARGS__);
    V(0, bool) V(1, char) V(2, signed char) V(3, unsigned char) V(4, short) V(5, unsigned short) V(6, int) V(7, unsigned) V(8, long) V(9, unsigned long) V(10, long long) V(11, unsigned long long) V(12, float) V(13, double) V(14, long double)
    V(15, Str) V(16, std::basic_string<unsigned short>) V(17, std::vector<int>) V(18, std::vector<Str>) V(19, std::deque<short>) V(20, std::deque<Str>) V(21, std::list<Str>) V(22, std::list<char>) V(23, std::set<int>) V(24, std::set<Str>) V(25, std::map<Str, int>) V(26, std::map<int, std::vector<Str> >) V(27, unordered_map<Str, int>) V(28, unordered_map<int, std::list<Str> >) V(29, unordered_set<Str>) V(30, std::pair<Str, double>) V(31, intern<Str>) V(32, std::vector<std::vector<std::set<int> > >) V(33, Rec) V(34, std::vector<Rec>) V(35, intern<int>) V(36, Arr) V(37, std::vector<Arr>)
#undef V
  }
  return 0;
}
typedef std::vector<std::unique_ptr<Val> > Vals;
Vals values(unsigned n) { static const unsigned t[] = {2, 4, 4, 9, 30}; scale = t[sim::rnd(5)]; Vals v; for (unsigned i = 0; i < n; i++) v.emplace_back(value()); return v; }
// read the values back; `sure` of them must be there
void read_back(std::istream &is, const Vals &v, size_t sure, bool complete, const char *what, bool holes = false) {
  IA a(is); size_t i = 0; bool failed = false;
  for (; i < v.size(); i++) { std::unique_ptr<Val> t(v[i]->target()), before; if (t->scalar()) before.reset(v[i]->target()); t->read(a);
    if (!a) { failed = true; SIM_CHECK(i >= sure && !complete, "lost-value", "%s: value %zu (%s), which is completely there, is not read", what, i, v[i]->name); }
    else { SIM_CHECK(!failed, "failure-forgotten", "%s: the archive works again after it had failed", what); if (holes && i >= sure) return; SIM_CHECK(t->eq(*v[i]), "wrong-value", "%s: value %zu (%s) is read as something else", what, i, v[i]->name); } }
  sim::cover(failed * 64 + std::min<size_t>(i, 63));
}
SCENARIO(C25, files, 5) {
  unsigned n = 1 + sim::rnd(6); Vals v = values(n); sim::enable(sim::K_EINTR, sim::rnd(3)); sim::enable(sim::K_SEG, sim::coin()); bool faults = sim::coin(); if (faults) { sim::enable(sim::K_IOFAIL, sim::coin()); if (sim::coin()) fs::quota(sim::rnd(3000)); }
  size_t sure = 0; unsigned crash = sim::coin() ? sim::rnd(n + 1) : n + 1; Str disk; uint64_t bad = fs::failed(); unsigned i = 0;
  {
    std::unique_ptr<std::iostream> f; if (sim::coin()) f.reset(new pfi::system::file::fd_stream(fs::open("/sim/a"))); else { Str t = "/sim/aXXXXXX"; f.reset(pfi::system::file::tmpstream(t)); fs::remove("/sim/a"); fs::link(t, "/sim/a"); }
    OA a(*f);
    for (;; i++) { if (i == crash) { disk = fs::get("/sim/a"); break; } if (i == n) break; v[i]->write(a); if (sim::rnd(3) == 0) { a.flush(); if (a) sure = i + 1; } }
    if (i != crash) { a.flush(); if (a) sure = n; if (fs::failed() == bad) SIM_CHECK(!!a, "spurious-error", "writing fails although nothing went wrong"); }
  }
  bool hit = fs::failed() != bad;   // a failed write may leave a hole
  if (i != crash) disk = fs::get("/sim/a"); sim::faults_off(); fs::quota(-1); sim::cover(1000 + sure * 8 + (i == crash) * 2 + faults);
  fs::put("/sim/b", disk); sim::faults_on(); sim::enable(sim::K_IOFAIL, 0); pfi::system::file::fd_stream r(fs::open("/sim/b")); read_back(r, v, sure, sure == n, "file", hit);
}
// a connection: a writer and a reader that talk through a pipe of bytes, cut at any point
struct Pipe { Str buf; size_t cap; bool closed; int64_t left; Pipe() : cap(1), closed(false), left(-1) { } };
class PBuf : public std::streambuf { Pipe &p; char c; 
public: PBuf(Pipe &p) : p(p) { }
  int underflow() { for (;;) { { sim::Atomic at; if (!p.buf.empty() || p.closed) break; } sim::sleep_ns(1000); } sim::Atomic at; if (p.buf.empty()) return EOF; c = p.buf[0]; p.buf.erase(0, 1); setg(&c, &c, &c + 1); return (unsigned char)c; }
  int overflow(int ch) { for (;;) { { sim::Atomic at; if (p.buf.size() < p.cap || p.closed) break; } sim::sleep_ns(1000); } sim::Atomic at; if (p.closed || p.left == 0) { p.closed = true; return EOF; } if (p.left > 0) p.left--; p.buf += (char)ch; return (unsigned char)ch; }
};
SCENARIO(C25, connection, 3) {
  unsigned n = 1 + sim::rnd(5); Vals v = values(n); if (scale > 9) scale = 9; Pipe p; static const size_t caps[] = {1, 3, 64, 4096}; p.cap = caps[sim::rnd(4)]; size_t done = 0, sure = 0; bool step = sim::coin(), cut = sim::rnd(3) == 0; size_t total; { std::ostringstream o; OA a(o); for (auto &x : v) x->write(a); total = o.str().size(); } if (cut) p.left = sim::rnd(total); if (p.cap < total / 60) p.cap = total / 60;
  sim::set_hang_id("archive-hang", "a value sent completely is not received:");
  sim::go([&] { PBuf b(p); std::ostream o(&b); OA a(o); for (unsigned i = 0; i < n; i++) { v[i]->write(a); if (a) sure = i + 1; if (!cut) SIM_CHECK(!!a, "spurious-error", "writing fails"); if (step) while (done <= i && !p.closed) sim::sleep_ns(1000000); } if (cut) SIM_CHECK(!a, "failure-hidden", "the connection broke, but the archive reports success"); p.closed = true; });
  sim::go([&] { PBuf b(p); std::istream is(&b); IA a(is); for (unsigned i = 0; i < n; i++) { std::unique_ptr<Val> t(v[i]->target()); t->read(a); if (!a) { SIM_CHECK(cut, "lost-value", "value %u (%s) is not read from a good connection", i, v[i]->name); break; } SIM_CHECK(t->eq(*v[i]), "wrong-value", "value %u (%s) is read as something else", i, v[i]->name); done = i + 1; } });
  sim::join_all(); SIM_CHECK(done >= sure && (!cut || done < n), "lost-value", "%zu values were sent completely, %zu were read", sure, done); sim::cover(2000 + cut * 2 + step);
}
// containers of many elements, around the sizes where counters of 8 and 16 bits and buffers end
template <class C> Val *many(const char *n, size_t k) { Box<C> *b = new Box<C>; b->name = n; C x; for (size_t i = 0; i < k; i++) x.insert(x.end(), (typename C::value_type)i); b->x.swap(x); return b; }
template <class C> Val *manym(const char *n, size_t k) { Box<C> *b = new Box<C>; b->name = n; for (size_t i = 0; i < k; i++) b->x[i * 3] = i; return b; }
SCENARIO(C25, large, 1) {
  static const size_t s[] = {127, 128, 255, 256, 257, 300, 511, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 65537, 70001}; size_t k = s[sim::rnd(sim::rnd(6) ? 16 : 22)]; scale = 2; Vals v; using namespace pfi::data;
  switch (sim::rnd(10)) {
#define V(k_, ...) case k_: v.emplace_back(many<__VA_ARGS__ >(#__VA_ARGS__, k)); break;
#define M(k_, ...) case k_: v.emplace_back(manym<__VA_ARGS__ >(#__VA_ARGS__, k)); break;
    V(0, Str) V(1, std::vector<int>) V(2, std::deque<short>) V(3, std::list<char>) V(4, std::set<int>) V(5, unordered_set<int>) M(6, std::map<int, int>) M(7, unordered_map<int, short>) V(8, std::basic_string<unsigned short>)
#undef V
#undef M
    default: { Box<intern<int> > *b = new Box<intern<int> >; b->name = "intern<int>"; for (size_t i = 0; i < k; i++) b->x.key2id(i * 7); v.emplace_back(b); } }
  v.emplace_back(value()); std::ostringstream o; { OA a(o); for (auto &x : v) x->write(a); } std::istringstream is(o.str()); read_back(is, v, v.size(), true, "a large container"); sim::cover(4000 + (k > 5000));
}
// truncated at every point, or damaged: no crash, no memory or time beyond the data
SCENARIO(C25, damaged, 4) {
  Vals v = values(1 + sim::rnd(3)); std::ostringstream o; std::vector<size_t> ends; { OA a(o); for (auto &x : v) { x->write(a); ends.push_back(o.str().size()); } } Str w = o.str();
  if (sim::coin()) { size_t cut = sim::rnd(w.size() + 1); size_t sure = 0; while (sure < ends.size() && ends[sure] <= cut) sure++; std::istringstream is(w.substr(0, cut)); read_back(is, v, sure, false, "truncated data"); std::istringstream js(w.substr(0, cut)); IA a(js); for (auto &x : v) { std::unique_ptr<Val> t(x->target()); t->read(a); } SIM_CHECK(!!a == (sure == v.size()), "truncation-missed", "%zu of %zu bytes: the archive reports %s", cut, w.size(), a ? "success" : "failure"); return; }
  int flips = 1 + sim::rnd(4); for (int i = 0; i < flips && !w.empty(); i++) { size_t p = sim::rnd(w.size()); static const unsigned char t[] = {0, 1, 0x7f, 0x80, 0xff}; w[p] = sim::coin() ? t[sim::rnd(5)] : sim::rnd(256); if (sim::coin() && p + 4 <= w.size()) { static const uint32_t b[] = {0xffffffffu, 0x7fffffffu, 0x80000000u, 0x10000000u, 100000}; memcpy(&w[p], &b[sim::rnd(5)], 4); } }
  std::istringstream is(w); IA a(is); sim::set_hang_id("archive-hang", "reading damaged data does not end:"); 
  for (auto &x : v) { std::unique_ptr<Val> t(x->target()); sim::reset_max_alloc(); uint64_t h = sim::heap_peak(); int64_t t0 = sim::now(); (void)t0; t->read(a); SIM_CHECK(sim::max_alloc() <= 512 * w.size() + 4096, "memory", "%zu bytes of damaged data (%s) lead to an allocation of %llu bytes", w.size(), x->name, (unsigned long long)sim::max_alloc()); SIM_CHECK(sim::heap_peak() - h <= 4096 * w.size() + 100000, "memory", "%zu bytes of damaged data (%s) lead to %llu bytes being allocated", w.size(), x->name, (unsigned long long)(sim::heap_peak() - h)); }
  sim::cover(3000 + !!a);
}
}
