// C15: a socket stream behaves like an iostream over the connection.
#include "netcommon.h"
#include <sstream>
#include <iostream>
#include "network/iostream.h"
#include "network/dns.h"
#include <memory>
using namespace pfi::network;
namespace {
struct WOp { int k; int n; std::string s; };
std::vector<WOp> plan_w() { std::vector<WOp> v; int n = 1 + sim::rnd(8); for (int i = 0; i < n; i++) { WOp o; o.k = sim::rnd(20) ? sim::rnd(8) : 8; o.n = (int)sim::rnd(100000) - 500; o.s = o.k == 0 || o.k == 6 ? nc::bytes(nc::some_size(), sim::rnd(9999), sim::rnd(4)) : ""; v.push_back(o); } return v; }
void do_w(std::ostream &o, const std::vector<WOp> &v) {
  for (size_t i = 0; i < v.size(); i++) switch (v[i].k) {
    case 0: o.write(v[i].s.data(), v[i].s.size()); break;
    case 1: o << v[i].n << ' '; break;
    case 2: o << "word" << v[i].n << std::endl; break;
    case 3: o.put((char)(v[i].n & 0xff)); break;
    case 4: o << v[i].n / 7.0 << "\r\n"; break;
    case 5: o.flush(); break;
    case 6: o << v[i].s; break;
    case 8: for (int k = 0; k < (v[i].n & 0xfff) + 700; k++) o.put((char)(k * 7)); break;
    case 7: o.put((char)0xff); o.put('\0'); o.put('\n'); break;
  }
}
struct ROp { int k, n; };
std::vector<ROp> plan_r() { std::vector<ROp> v; int n = 2 + sim::rnd(8); for (int i = 0; i < n; i++) { static const int t[] = {0, 1, 2, 5, 80, 1000, 9000}; ROp o = {(int)sim::rnd(9), t[sim::rnd(7)]}; v.push_back(o); } return v; }
// performs one operation; the result is a printable summary used to compare with the reference
std::string do_r(std::istream &is, const ROp &o) {
  std::string r;
  switch (o.k) {
    case 0: { std::vector<char> b(o.n + 1, 'z'); is.read(b.data(), o.n); r = "read " + std::string(b.data(), is.gcount()); break; }
    case 1: r = sim::fmt("get %d", is.get()); break;
    case 2: { std::string l; std::getline(is, l); r = "line " + l; break; }
    case 3: { std::string w; is >> w; r = "word " + w; break; }
    case 4: { int x = -1; is >> x; r = sim::fmt("int %d", x); break; }
    case 5: r = sim::fmt("peek %d", is.peek()); break;
    case 6: { is.ignore(o.n); r = sim::fmt("ignore %d", (int)is.gcount()); break; }
    case 7: { r = sim::fmt("peek-get %d", is.peek()); r += sim::fmt(" %d", is.get()); break; }
    case 8: { char b[64]; is.getline(b, 64, '\n'); r = sim::fmt("cline %d ", (int)is.gcount()) + (is ? b : ""); break; }
  }
  r += sim::fmt(" [%d%d%d]", is.eof(), is.fail(), is.bad());
  if (is.fail() && !is.eof()) is.clear();       // a parse failure is not the end
  return r;
}
void compare(std::istream &a, std::istream &b, const std::vector<ROp> &plan) {
  int guard = 0;
  for (size_t i = 0;; i++) {
    ROp o = plan[i % plan.size()]; if (guard++ > 150) { o.k = 0; o.n = 100000; } 
    if (guard > 40 && (o.k == 4 || o.k == 5 || o.n == 0)) o.k = 1;
    std::string x = do_r(a, o), y = do_r(b, o);
    SIM_CHECK(x == y, "differs", "operation %d on the socket stream gives '%s', on the bytes sent '%s'", o.k, nc::show(x, 60).c_str(), nc::show(y, 60).c_str());
    if (b.eof()) break;
  }
}
// both ends are socket streams; the reader must see exactly what a string stream would give
SCENARIO(C15, transfer, 6) {
  nc::swarm(); int rounds = 1 + sim::rnd(2); std::vector<WOp> w = plan_w(), wb = plan_w(); std::vector<ROp> r = plan_r(), rb = plan_r(); int ctor = sim::rnd(3); (void)rounds;
  server_socket srv; SIM_CHECK(srv.create(4100), "setup", "create"); bool back = sim::coin(); std::string ref_s, ref_b;
  { std::ostringstream o; do_w(o, w); ref_s = o.str(); } { std::ostringstream o; do_w(o, wb); ref_b = o.str(); }
  sim::set_hang_id("stream-hang", "a transfer over a socket stream does not finish:");
  sim::go([&] {
    std::unique_ptr<socketstream> s;
    if (ctor == 0) s.reset(new socketstream("127.0.0.1", 4100)); else if (ctor == 1) { s.reset(new socketstream()); s->connect("localhost", 4100); }
    else { pfi::lang::shared_ptr<stream_socket> p(new stream_socket()); SIM_CHECK(p->connect("127.0.0.1", 4100), "connect", "connect"); s.reset(new socketstream(p)); }
    SIM_CHECK(*s && s->is_connected() && s->socket(), "connect", "a connected socket stream is not good()");
    // the first half tells how much follows, so that the peer can answer on the same connection
    if (back) *s << ref_s.size() << '\n';
    do_w(*s, w); s->flush(); SIM_CHECK(s->good(), "write", "writing to a healthy socket stream sets an error state");
    if (back) { std::istringstream ref(ref_b); compare(*s, ref, rb); }
  });
  sim::go([&] {
    pfi::lang::shared_ptr<stream_socket> c(srv.accept()); SIM_CHECK(c.get(), "accept", "accept"); socketstream s(c);
    if (back) { size_t n = 0; s >> n; SIM_CHECK(s.get() == '\n' && n == ref_s.size(), "differs", "announced %zu, expected %zu", n, ref_s.size()); std::string d(n, 0); if (n) s.read(&d[0], n); SIM_CHECK((size_t)(n ? s.gcount() : 0) == n && d == ref_s, "differs", "announced bytes differ"); do_w(s, wb); s.flush(); SIM_CHECK(s.good(), "write", "writing to a healthy socket stream sets an error state"); }
    else { std::istringstream ref(ref_s); compare(s, ref, r); }
  });
  sim::join_all(); srv.close();
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  sim::cover(ref_s.size() * 2 + back);
}
// failures show up in the stream state
SCENARIO(C15, failures, 4) {
  nc::swarm(); int how = sim::rnd(4); std::string got; std::vector<WOp> w = plan_w(); for (int i = 0; i < 3; i++) { WOp o = {0, 0, nc::bytes(nc::some_size(), i, 0)}; w.push_back(o); }
  int l = how == 0 ? -1 : sim::net::raw_listen(4100); size_t take = nc::some_size();
  sim::set_hang_id("stream-hang", "a stream over a broken connection does not finish:");
  if (how) sim::go([&] { int fd = sim::net::raw_accept(l); if (fd < 0) return; std::string g = sim::net::raw_recv_n(fd, take); if (how == 1) sim::net::raw_close(fd); else if (how == 2) sim::net::raw_reset(fd); else { g += sim::net::raw_recv_all(fd); sim::net::raw_close(fd); } sim::Atomic a; got = g; });
  std::string ref; { std::ostringstream o; do_w(o, w); ref = o.str(); }
  sim::go([&] {
    { socketstream s("127.0.0.1", 4100);
    if (how == 0) { SIM_CHECK(!s && !s.is_connected(), "connect-lies", "a socket stream to nowhere is good()"); s << "x" << std::flush; s.clear(); int x; SIM_CHECK(!(s >> x) && s.get() == EOF, "data-from-nowhere", "data from an unconnected stream"); s.clear(); s << "data" << std::flush; SIM_CHECK(!s, "write-lies", "flushing to an unconnected stream succeeds"); return; }
    SIM_CHECK((bool)s, "connect", "connect failed");
    for (size_t i = 0; i < w.size(); i++) { std::vector<WOp> one(1, w[i]); do_w(s, one); if (sim::coin()) { s.flush(); } if (!s) break; if (s) sim::sleep_ns(30000000); if (i % 2) { s.flush(); if (s) SIM_CHECK(s.is_connected(), "write-lies", "flush left the stream good although the connection is gone"); } }
    if (s) { s.flush(); if (s) SIM_CHECK(sim::net::lib_sent() == ref.size(), "write-lies", "the stream is good after flush, but only %llu of %zu bytes were handed to the network", (unsigned long long)sim::net::lib_sent(), ref.size()); }
    if (how == 3) SIM_CHECK((bool)s, "write", "a healthy stream went bad"); }
  });
  sim::join_all(); sim::net::raw_close(l);
  SIM_CHECK(got == ref.substr(0, got.size()), "differs", "the peer got something that was not written");
  if (how == 3) SIM_CHECK(got == ref, "lost", "peer got %zu of %zu bytes", got.size(), ref.size());
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
}
// a peer that stalls longer than the send time-out: what could not be sent is reported, never dropped behind a good state
SCENARIO(C15, stalled, 3) {
  nc::swarm(); sim::net::buffer_limit(1 + sim::rnd(3000)); int l = sim::net::raw_listen(4100), n = 1 + sim::rnd(4); long long wake = 1000000LL * (20 + sim::rnd(400)); size_t take = sim::rnd(2000); std::string got, ref; bool good = false; int style = sim::rnd(3);
  sim::set_hang_id("stream-hang", "writing to a stalled peer does not finish:");
  sim::go([&] { int fd = sim::net::raw_accept(l); if (fd < 0) return; std::string g = sim::net::raw_recv_n(fd, take); sim::sleep_ns(wake); g += sim::net::raw_recv_all(fd); sim::net::raw_close(fd); sim::Atomic a; got = g; });
  sim::go([&] {
    socketstream s("127.0.0.1", 4100); SIM_CHECK((bool)s, "connect", "connect failed"); SIM_CHECK(s.socket()->set_send_timeout(0.1), "setup", "set_send_timeout");
    for (int i = 0; i < n && s; i++) {
      if (style == 0 || (style == 2 && sim::coin())) { int m = 200 + sim::rnd(3000); for (int k = 0; k < m && s; k++) { s.put((char)(k * 7 + i)); ref += (char)(k * 7 + i); } }
      else { std::string d = nc::bytes(nc::some_size(), i, 0); s << d; ref += d; }
      if (s && sim::rnd(3) == 0) sim::sleep_ns(1000000LL * sim::rnd(200));
    }
    if (s) s.flush();
    good = s.good();
  });
  sim::join_all(); sim::net::raw_close(l);
  if (good) SIM_CHECK(got == ref, "write-lies", "the stream is good after flush, the peer got %zu of %zu bytes", got.size(), ref.size());
  else SIM_CHECK(got == ref.substr(0, got.size()) , "differs", "the peer got something that was not written");
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  sim::cover(good);
}
// one stream object, one connection after the other; and a stream that was never connected
SCENARIO(C15, reuse, 3) {
  nc::swarm(); sim::net::buffer_limit(65536); std::string in[2] = {"first-" + nc::bytes(20, 1, 2), "second-" + nc::bytes(20, 2, 2)}; std::string got[2]; int l[2]; int n = sim::rnd(8), peek = sim::coin(), via = sim::rnd(2), toend = sim::rnd(3) == 0; std::string tail = nc::bytes(sim::rnd(30), 5, 0);
  for (int i = 0; i < 2; i++) l[i] = sim::net::raw_listen(4100 + i);
  sim::set_hang_id("stream-hang", "reconnecting a stream does not finish:");
  for (int i = 0; i < 2; i++) sim::go([&, i] { int fd = sim::net::raw_accept(l[i]); sim::net::raw_send(fd, in[i]); if (toend) sim::net::raw_half_close(fd); std::string g = sim::net::raw_recv_all(fd); sim::net::raw_close(fd); sim::Atomic a; got[i] = g; });
  sim::go([&] {
    socketstream s; SIM_CHECK(!s.is_connected(), "unconnected", "a fresh stream claims to be connected");
    { socketstream u; char c; u << "x" << std::flush; u.clear(); SIM_CHECK(!u.read(&c, 1) && u.gcount() == 0, "unconnected", "data from a stream that was never connected"); SIM_CHECK(u.rdbuf()->sgetc() == EOF && u.rdbuf()->sbumpc() == EOF, "unconnected", "data from a stream that was never connected"); u.clear(); u.rdbuf()->sputn("abc", 3); u.rdbuf()->sputc('d'); SIM_CHECK(u.rdbuf()->pubsync() == -1 || !(u << std::flush), "unconnected", "a stream that was never connected takes data"); }
    for (int i = 0; i < 2; i++) {
      if (via == 0 || i == 0) s.connect("127.0.0.1", 4100 + i); else { pfi::lang::shared_ptr<stream_socket> p(new stream_socket()); SIM_CHECK(p->connect("127.0.0.1", 4100 + i), "connect", "connect"); s.setsock(p); }
      SIM_CHECK((bool)s, "connect", "connect failed");
      for (int k = 0; k < n; k++) { int c = s.get(); SIM_CHECK(c == (unsigned char)in[i][k], "crossed-read", "byte %d of connection %d is '%c', its peer sent '%c'", k, i + 1, c, in[i][k]); }
      if (peek) { int c = s.peek(); SIM_CHECK(c == (unsigned char)in[i][n], "crossed-read", "peek on connection %d is '%c', its peer sent '%c'", i + 1, c, in[i][n]); }
      s << "hello" << i << std::flush; s << tail;
      if (toend) { s.flush(); while (s.get() != EOF) ; SIM_CHECK(s.eof() && !s, "eof", "the end of the input is not shown"); }      // the next connection starts with a clean state
    }
  });
  sim::join_all();
  for (int i = 0; i < 2; i++) { sim::net::raw_close(l[i]); std::string full = sim::fmt("hello%d", i) + tail; SIM_CHECK(got[i] == full.substr(0, got[i].size()) && got[i].size() >= (i == 1 ? full.size() : 0) , "crossed-write", "peer %d got '%s', written was '%s'", i + 1, nc::show(got[i], 60).c_str(), nc::show(full, 60).c_str()); }
}
}
