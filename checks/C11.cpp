// C11: a stream socket delivers exactly the bytes written, in order.
#include "netcommon.h"
#include "network/socket.h"
#include "network/dns.h"
#include "lang/shared_ptr.h"
#include <memory>
using namespace pfi::network;
namespace {
// reference: what each read operation must return on a stream 's' that ends after its last byte
struct Ref {
  const std::string &s; size_t pos; bool ended;
  Ref(const std::string &s, bool ended) : s(s), pos(0), ended(ended) {}
  size_t left() const { return s.size() - pos; }
  std::string read(size_t n) { std::string r = s.substr(pos, n); pos += r.size(); return r; }
  int getc() { return pos < s.size() ? (unsigned char)s[pos++] : -1; }
  bool getline(std::string &out, int limit) {
    std::string r;
    for (int i = 0; limit < 0 || i < limit; i++) {
      int c = getc();
      if (c == '\n') { if (!r.empty() && r[r.size() - 1] == '\r') r.erase(r.size() - 1); break; }
      if (c < 0) { if (r.empty()) return false; break; }
      r += (char)c;
    }
    out = r; return true;
  }
  // does an operation finish without data after the end of s?
  bool line_complete(int limit) const { size_t nl = s.find('\n', pos); if (nl != std::string::npos && (limit < 0 || nl - pos < (size_t)limit)) return true; return limit >= 0 && left() >= (size_t)limit; }
};
struct WOp { int kind; std::string data; };
std::vector<WOp> plan_writes(std::string &all, int flavour) {
  std::vector<WOp> v; int n = 1 + sim::rnd(6); 
  for (int i = 0; i < n; i++) { WOp o; o.kind = sim::rnd(5); if (o.kind != 4) { o.data = nc::bytes(nc::some_size(), sim::rnd(100000), flavour); all += o.data; } v.push_back(o); }
  return v;
}
void do_writes(stream_socket &s, const std::vector<WOp> &v) {
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i].kind == 4) { SIM_CHECK(s.flush() < 0, "flush-failed", "flush() reports a failure on a healthy connection"); continue; }
    if (v[i].kind == 3) SIM_CHECK(s.puts(v[i].data), "write-failed", "puts() of %zu bytes failed on a healthy connection", v[i].data.size());
    else { int r = s.write(v[i].data.data(), v[i].data.size()); SIM_CHECK(r == (int)v[i].data.size(), "write-short", "write of %zu bytes returned %d on a healthy connection", v[i].data.size(), r); }
  }
  SIM_CHECK(s.flush() < 0, "flush-failed", "flush() reports a failure on a healthy connection");
}
// consume exactly 'ref' with a random mix of read operations; when the stream ends there, also check the end
void do_reads(stream_socket &s, Ref &ref, const std::vector<int> &ops, const std::vector<int> &args) {
  size_t k = 0; std::string got; std::vector<char> b;
  while (ref.left() > 0) {
    int op = ops[k % ops.size()], a = args[k % args.size()]; k++;
    if (k > 400) op = 0, a = 100000;
    size_t p0 = ref.pos;
    if (op == 0) {
      size_t n = a; if (!ref.ended && n > ref.left()) n = ref.left();
      b.assign(n + 1, 'Z'); int r = s.read(b.data(), n); std::string want = ref.read(n);
      SIM_CHECK(r == (int)want.size(), "read-count", "read of %zu bytes at offset %zu of %zu returned %d", n, p0, ref.s.size(), r);
      SIM_CHECK(std::string(b.data(), r) == want, "read-data", "read at offset %zu returned wrong bytes: %s instead of %s", p0, nc::show(std::string(b.data(), r)).c_str(), nc::show(want).c_str());
      SIM_CHECK(b[n] == 'Z', "read-overrun", "read wrote past the destination");
    } else if (op == 1) {
      int c = s.getc(), want = ref.getc(); SIM_CHECK(c == want, "getc", "getc at offset %zu returned %d, the byte sent is %d", p0, c, want);
    } else {
      int limit = op == 2 ? -1 : a % 50; if (!ref.ended && !ref.line_complete(limit)) { limit = std::min<size_t>(ref.left(), 30); }
      std::string l = "?", w = "?"; bool r = s.getline(l, limit), wr = ref.getline(w, limit);
      SIM_CHECK(r == wr && l == w, "getline", "getline(limit %d) at offset %zu returned %d '%s', expected %d '%s'", limit, p0, r, nc::show(l).c_str(), wr, nc::show(w).c_str());
    }
  }
}
struct RPlan { std::vector<int> ops, args; };
RPlan plan_reads() { RPlan p; int style = sim::rnd(5); for (int i = 0; i < 6; i++) { p.ops.push_back(style == 4 ? (int)sim::rnd(4) : style); static const int t[] = {1, 2, 10, 100, 8191, 8192, 8193, 20000, 5}; p.args.push_back(t[sim::rnd(9)]); } return p; }

// two library sockets, ping-pong rounds, then one side closes and the other sees the end
SCENARIO(C11, pingpong, 5) {
  nc::swarm();
  int rounds = 1 + sim::rnd(4), flavour = sim::rnd(4); int big = nc::volume; bool client_first = sim::coin(), nodelay = sim::coin();
  struct R { std::string data; std::vector<WOp> w; RPlan r; bool from_client; };
  std::vector<R> rs(rounds);
  for (int i = 0; i < rounds; i++) { rs[i].w = plan_writes(rs[i].data, flavour); rs[i].r = plan_reads(); rs[i].from_client = (i % 2 == 0) == client_first; }
  server_socket srv; SIM_CHECK(srv.create(0), "setup", "create failed"); uint16_t port = srv.port();
  SIM_CHECK(port != 0 && srv.is_alive(), "port", "port() is 0 after create(0)");
  sim::set_hang_id("socket-hang", "a transfer between two healthy sockets does not finish:");
  for (int side = 0; side < 2; side++) sim::go([&, side] {
    std::unique_ptr<stream_socket> s;
    if (side == 0) { s.reset(new stream_socket()); SIM_CHECK(s->connect("127.0.0.1", port), "connect", "connect to a listening server failed"); SIM_CHECK(s->remote_port() == port && s->remote_addr() == ipv4_address("127.0.0.1"), "remote", "remote address of a connected socket is %s:%u", s->remote_addr().to_string().c_str(), s->remote_port()); }
    else { s.reset(srv.accept()); SIM_CHECK(s.get(), "accept", "accept failed"); }
    SIM_CHECK(s->is_connected(), "connected", "is_connected() is false after a successful connection");
    if (nodelay) s->set_nodelay(true);
    for (int i = 0; i < rounds; i++) {
      bool last = i == rounds - 1;
      if (rs[i].from_client == (side == 0)) do_writes(*s, rs[i].w);
      else { Ref ref(rs[i].data, last); do_reads(*s, ref, rs[i].r.ops, rs[i].r.args);
        if (last) {
          char c; std::string l = "old"; 
          SIM_CHECK(s->getc() == EOF, "eof", "getc at the end of the stream is not EOF");
          SIM_CHECK(s->read(&c, 1) == 0, "eof", "read at the end of the stream returned data"); SIM_CHECK(!s->getline(l), "eof", "getline at the end of the stream returned true");
          SIM_CHECK(!s->is_connected(), "eof", "is_connected() is still true after the end of the stream was seen");
        } }
    }
  });
  sim::join_all();
  srv.close();
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  sim::cover(sim::hash_str(sim::fmt("%d %d %d %zu", rounds, flavour, big, rs[0].data.size())));
}
// the destructor sends what was written but not flushed
SCENARIO(C11, close_flushes, 3) {
  nc::swarm();
  std::string all; std::vector<WOp> w = plan_writes(all, sim::rnd(4)); bool lib_is_client = sim::coin(); std::string got;
  int l = -1; server_socket srv; uint16_t port = 4100;
  if (lib_is_client) l = sim::net::raw_listen(port); else SIM_CHECK(srv.create(port), "setup", "create failed");
  sim::set_hang_id("socket-hang", "a transfer does not finish:");
  sim::go([&] {
    std::unique_ptr<stream_socket> s;
    if (lib_is_client) { s.reset(new stream_socket()); SIM_CHECK(s->connect("localhost", port), "connect", "connect failed"); } else s.reset(srv.accept());
    for (size_t i = 0; i < w.size(); i++) if (w[i].kind != 4) { int r = s->write(w[i].data.data(), w[i].data.size()); SIM_CHECK(r == (int)w[i].data.size(), "write-short", "write of %zu returned %d", w[i].data.size(), r); }
    if (sim::coin()) s->shutdown();        // may drop buffered data, but what arrives is a prefix
    else { s.reset(); sim::Atomic a; sim::note(1); }
    if (s.get()) { sim::Atomic a; all = "P" + all; }
  });
  sim::go([&] { int fd = lib_is_client ? sim::net::raw_accept(l) : sim::net::raw_connect(port); std::string g = sim::net::raw_recv_all(fd); { sim::Atomic a; got = g; } sim::net::raw_close(fd); });
  sim::join_all();
  if (all.size() && all[0] == 'P' && all.size() != got.size()) { std::string exp = all.substr(1); SIM_CHECK(got == exp.substr(0, got.size()), "data", "what arrived is not a prefix of what was written"); }
  else SIM_CHECK(got == all || (all.size() && got == all.substr(1)), "data", "%zu bytes written before the socket was destroyed, %zu arrived%s", all.size(), got.size(), got.size() == all.size() ? ", different" : "");
}
// an outside peer feeds arbitrary segments; every kind of read sees the same stream
SCENARIO(C11, feed, 4) {
  nc::swarm();
  std::string all = nc::bytes(nc::some_size() + nc::some_size(), sim::rnd(100000), sim::rnd(4)); RPlan r = plan_reads(); int pieces = 1 + sim::rnd(5); bool reset_end = false;
  int l = sim::net::raw_listen(4100);
  sim::set_hang_id("socket-hang", "reading does not finish:");
  sim::go([&] { int fd = sim::net::raw_accept(l); size_t at = 0; for (int i = 0; i < pieces; i++) { size_t n = i == pieces - 1 ? all.size() - at : (all.size() - at) / 2; sim::net::raw_send(fd, all.substr(at, n)); at += n; sim::sleep_ns(1000000); } sim::net::raw_close(fd); });
  sim::go([&] { stream_socket s; SIM_CHECK(s.connect("127.0.0.1", 4100), "connect", "connect failed"); Ref ref(all, true); do_reads(s, ref, r.ops, r.args); SIM_CHECK(s.getc() == EOF, "eof", "no EOF at the end"); (void)reset_end; });
  sim::join_all();
  sim::cover(all.size() * 8 + pieces);
}
}
