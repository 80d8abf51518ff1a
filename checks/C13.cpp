// C13: socket timeouts bound every blocking operation, and only at the set time.
#include "netcommon.h"
#include "network/socket.h"
#include "network/dns.h"
#include <memory>
using namespace pfi::network;
namespace {
const int64_t MS = 1000000, SLACK = 60 * MS, EARLY = 20000;
static const double secs[] = {0.05, 0.25, 1.0, 2.5, 0.999999, 10.75, 30.0, 0.001};
// a reader with a receive timeout; the peer sends pieces with known gaps and then goes silent (or closes)
SCENARIO(C13, recv, 5) {
  sim::enable(sim::K_EINTR, sim::coin() ? 1 : 0); sim::enable(sim::K_STALL, 0); sim::net::latency(false);
  double sec = secs[sim::rnd(8)]; int64_t to = (int64_t)(sec * 1e9); int via = sim::rnd(3);  // 0 set_recv_timeout, 1 set_timeout, 2 inherited from the server socket
  int pieces = sim::rnd(4); static const int pct[] = {10, 50, 90}; int64_t gap = to / 100 * pct[sim::rnd(3)]; bool closes = sim::rnd(4) == 0; std::string piece = nc::bytes(1 + sim::rnd(30), 3, 2); int op = sim::rnd(3); bool retract = sim::rnd(5) == 0 && !closes;
  server_socket srv; if (via == 2) { SIM_CHECK(srv.create(4100), "setup", "create"); SIM_CHECK(srv.set_timeout(sec) && srv.timeout() == sec, "set-timeout", "set_timeout(%g) of a server failed", sec); }
  int l = via == 2 ? -1 : sim::net::raw_listen(4100); sim::Event fin; int64_t last_sent = 0; bool came_back = false;
  sim::set_hang_id("timeout-ignored", "a read with a receive timeout does not return:");
  sim::go([&] {
    int fd = via == 2 ? sim::net::raw_connect(4100) : sim::net::raw_accept(l);
    { sim::Atomic a; last_sent = sim::now(); }
    for (int i = 0; i < pieces; i++) { sim::sleep_ns(gap); sim::net::raw_send(fd, piece); sim::Atomic a; last_sent = sim::now(); }
    if (closes) { sim::sleep_ns(gap); sim::net::raw_close(fd); { sim::Atomic a; last_sent = sim::now(); } fd = -1; }
    if (retract) { sim::sleep_ns(to * 5); sim::net::raw_send(fd, "late"); { sim::Atomic a; came_back = true; } sim::net::raw_half_close(fd); }
    fin.wait(); sim::net::raw_close(fd);
  });
  sim::go([&] {
    std::unique_ptr<stream_socket> s;
    if (via == 2) { s.reset(srv.accept()); SIM_CHECK(s.get(), "accept", "accept failed although a client connects"); }
    else { s.reset(new stream_socket()); SIM_CHECK(s->connect("127.0.0.1", 4100), "connect", "connect failed"); SIM_CHECK(via == 0 ? s->set_recv_timeout(sec) : s->set_timeout(sec), "set-timeout", "setting a timeout of %g s failed", sec); }
    if (retract) SIM_CHECK(s->set_recv_timeout(0), "set-timeout", "set_recv_timeout(0) failed");
    SIM_CHECK(!s->set_recv_timeout(-1.0) && !s->set_send_timeout(-0.5) && !s->set_timeout(-3), "negative", "a negative timeout was accepted");
    int64_t t0 = sim::now(); std::string all, got; for (int i = 0; i < pieces; i++) all += piece;
    std::vector<char> b(all.size() + 100);
    if (retract) { int n = s->read(b.data(), all.size() + 4); SIM_CHECK(came_back && n == (int)all.size() + 4, "no-timeout", "without a timeout, a read gave up (%d bytes) before the peer continued", n); fin.set(); return; }
    if (op == 0) { int n = s->read(b.data(), all.size() + 50); got.assign(b.data(), n); }
    else if (op == 1) { for (;;) { int c = s->getc(); if (c == EOF) break; got += (char)c; } }
    else { std::string ln; int guard = 0; while (s->getline(ln) && guard++ < 300) got += ln + "\n"; got = all; }
    int64_t t1 = sim::now(); sim::Atomic a;
    SIM_CHECK(got == all, "data-lost", "a read that timed out returned %zu bytes, %zu had arrived", got.size(), all.size());
    int64_t quiet = t1 - std::max(last_sent, t0);
    if (closes) SIM_CHECK(quiet <= SLACK, "late", "the end of the stream was reported %.3f s late", quiet / 1e9);
    else {
      SIM_CHECK(quiet >= to - EARLY, "early", "a read with timeout %g s gave up after %.6f s of silence", sec, quiet / 1e9);
      SIM_CHECK(quiet <= (op == 2 ? 2 : 1) * to + SLACK, "late", "a read with timeout %g s gave up only after %.6f s of silence", sec, quiet / 1e9);
    }
    SIM_CHECK(!s->is_connected(), "still-connected", "is_connected() after a read that ended");
    fin.set();
  });
  sim::join_all();
  sim::cover(sim::hash_str(sim::fmt("%g %d %d %d %d %d", sec, via, pieces, closes, op, retract)));
}
// a writer with a send timeout; the peer stops reading
SCENARIO(C13, send, 4) {
  sim::enable(sim::K_EINTR, sim::coin() ? 1 : 0); sim::enable(sim::K_STALL, 0); sim::net::latency(false);
  double sec = secs[sim::rnd(8)]; int64_t to = (int64_t)(sec * 1e9); size_t cap = 200 + sim::rnd(3) * 900; sim::net::buffer_limit(cap); int via = sim::rnd(2);
  size_t take = sim::rnd(3) * 300; bool resumes = sim::rnd(3) == 0; static const int pct[] = {20, 80}; int64_t pause = to / 100 * pct[sim::rnd(2)];
  int l = sim::net::raw_listen(4100); sim::Event fin; int64_t last_read = 0; std::string data = nc::bytes(9000 + sim::rnd(2) * 9000, 7, 0); std::string got;
  sim::set_hang_id("timeout-ignored", "a write with a send timeout does not return:");
  sim::go([&] {
    int fd = sim::net::raw_accept(l); std::string g = sim::net::raw_recv_n(fd, take); { sim::Atomic a; last_read = sim::now(); }
    if (resumes) { for (;;) { sim::sleep_ns(pause); std::string p = sim::net::raw_recv(fd, 100000); { sim::Atomic a; last_read = sim::now(); } if (p.empty()) break; g += p; } }
    else { fin.wait(); g += sim::net::raw_recv_all(fd); }
    sim::net::raw_close(fd); sim::Atomic a; got = g;
  });
  size_t reported = 0; bool ok = true;
  sim::go([&] {
    { stream_socket s; SIM_CHECK(s.connect("127.0.0.1", 4100), "connect", "connect failed"); SIM_CHECK(via ? s.set_send_timeout(sec) : s.set_timeout(sec), "set-timeout", "setting a timeout failed");
      int r = s.write(data.data(), data.size()); int f = r == (int)data.size() ? s.flush() : 0; ok = r == (int)data.size() && f < 0; reported = r;
      int64_t t1 = sim::now(); sim::Atomic a;
      if (resumes) SIM_CHECK(ok, "early", "the peer reads every %.3f s, but a write with timeout %g s failed", pause / 1e9, sec);
      else {
        SIM_CHECK(!ok, "lies", "everything reported as sent, but the peer does not read");
        int64_t quiet = t1 - last_read;
        SIM_CHECK(quiet >= to - EARLY, "early", "a write with timeout %g s gave up after %.6f s", sec, quiet / 1e9);
        SIM_CHECK(quiet <= to + SLACK, "late", "a write with timeout %g s gave up only after %.6f s", sec, quiet / 1e9);
        SIM_CHECK(!s.is_connected(), "still-connected", "is_connected() after a failed write");
      } }
    fin.set();
  });
  sim::join_all(); sim::net::raw_close(l);
  SIM_CHECK(got == data.substr(0, got.size()) && (!resumes || got.size() == data.size()), "data", "peer got %zu of %zu bytes", got.size(), data.size());
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left", sim::net::open_fds());
}
// accept with a timeout
SCENARIO(C13, accept, 3) {
  sim::enable(sim::K_EINTR, sim::coin() ? 1 : 0); sim::enable(sim::K_STALL, 0); sim::net::latency(false);
  double sec = secs[sim::rnd(8)]; int64_t to = (int64_t)(sec * 1e9); static const int pct[] = {0, 30, 85, 130, 400}; int64_t at = to / 100 * pct[sim::rnd(5)]; bool none = sim::rnd(3) == 0;
  server_socket srv; SIM_CHECK(!srv.set_timeout(sec), "set-timeout", "set_timeout before create succeeded"); SIM_CHECK(srv.create(4100), "setup", "create");
  SIM_CHECK(srv.timeout() < 0, "set-timeout", "timeout() of a fresh server is %g", srv.timeout()); SIM_CHECK(!srv.set_timeout(-1) , "negative", "negative timeout accepted"); SIM_CHECK(srv.set_timeout(sec) && srv.timeout() == sec, "set-timeout", "set_timeout failed");
  sim::set_hang_id("timeout-ignored", "accept with a timeout does not return:"); int64_t start = sim::now();
  if (!none) sim::go([&] { sim::sleep_ns(at); int fd = sim::net::raw_connect(4100); sim::sleep_ns(1000000000); sim::net::raw_close(fd); });
  sim::go([&] {
    int64_t t0 = sim::now(); std::unique_ptr<stream_socket> s(srv.accept()); int64_t el = sim::now() - t0; sim::Atomic a;
    if (s) SIM_CHECK(!none, "accept-nobody", "accept returned a connection nobody made");
    else {
      SIM_CHECK(el >= to - EARLY, "early", "accept with timeout %g s gave up after %.6f s", sec, el / 1e9); SIM_CHECK(el <= to + SLACK, "late", "accept with timeout %g s gave up after %.6f s", sec, el / 1e9);
      SIM_CHECK(none || start + at + 10 * MS > t0 + to, "missed", "a client connected before the timeout but accept failed");
      SIM_CHECK(srv.is_alive(), "dead", "a server whose accept timed out is not alive");
    }
  });
  sim::join_all();
}
// connect with a send timeout against an address that does not answer
SCENARIO(C13, connect, 2) {
  sim::enable(sim::K_STALL, 0); sim::net::latency(false); double sec = secs[sim::rnd(8)]; int64_t to = (int64_t)(sec * 1e9);
  stream_socket s; SIM_CHECK(s.set_timeout(sec), "set-timeout", "set_timeout failed on a fresh socket");
  sim::set_hang_id("timeout-ignored", "connect with a timeout does not return:");
  int64_t t0 = sim::now(); bool r = s.connect("10.9.9.9", 4100); int64_t el = sim::now() - t0;
  SIM_CHECK(!r && !s.is_connected(), "lies", "connected to an address that does not answer");
  SIM_CHECK(el >= to - EARLY && el <= to + SLACK, "late", "connect with timeout %g s returned after %.6f s", sec, el / 1e9);
}
}
