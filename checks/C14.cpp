// C14: server sockets: create / accept / close.
#include "netcommon.h"
#include "network/socket.h"
#include "network/dns.h"
#include <memory>
#include <set>
#include <map>
#include <sys/socket.h>
#include <netinet/in.h>
using namespace pfi::network;
namespace {
uint16_t local_port(int fd) { sim::net::Outside o; sockaddr_in in; socklen_t l = sizeof in; if (getsockname(fd, (sockaddr *)&in, &l)) return 0; return ntohs(in.sin_port); }
SCENARIO(C14, create, 4) {
  sim::enable(sim::K_SOCKFAIL, sim::coin() ? 3 : 0); sim::enable(sim::K_EINTR, sim::coin() ? 1 : 0);
  int busy = sim::rnd(3) == 0 ? sim::net::raw_listen(4200) : -1; int base = sim::net::open_fds();
  for (int i = 0; i < 4; i++) {
    static const uint16_t ports[] = {4200, 4201, 0, 4202}; uint16_t p = ports[sim::rnd(4)]; uint64_t f0 = sim::fault_count(sim::K_SOCKFAIL);
    { server_socket s; SIM_CHECK(!s.is_alive(), "alive", "a fresh server socket claims to be alive"); SIM_CHECK(s.accept() == NULL, "accept-uncreated", "accept on an uncreated server returned a connection");
      bool r = s.create(p); bool failed = sim::fault_count(sim::K_SOCKFAIL) > f0;
      SIM_CHECK(r == s.is_alive(), "alive", "create returned %d, is_alive() is %d", r, s.is_alive());
      if (r) {
        SIM_CHECK(!failed, "create-lies", "create succeeded although a system call failed"); SIM_CHECK(!(p == 4200 && busy >= 0), "create-busy", "create on a port that is in use succeeded");
        SIM_CHECK(p ? s.port() == p : s.port() != 0, "port", "created on port %u, port() is %u", p, s.port()); SIM_CHECK(sim::net::open_fds() == base + 1, "fd-leak", "%d descriptors for one server", sim::net::open_fds() - base);
        int fd = sim::net::raw_connect(s.port()); SIM_CHECK(fd >= 0, "port", "nobody listens on the port that port() reports (%u)", s.port()); 
        std::unique_ptr<stream_socket> c(s.accept()); SIM_CHECK(c.get(), "accept", "accept failed"); uint16_t lp = local_port(fd); SIM_CHECK(c->remote_port() == lp, "peer", "remote port %u, the client's is %u", c->remote_port(), lp); sim::net::raw_close(fd);
        if (sim::coin()) { SIM_CHECK(s.close(), "close", "close of a live server returned false"); SIM_CHECK(!s.is_alive() && s.accept() == NULL && !s.close(), "close", "a closed server still works"); SIM_CHECK(sim::net::raw_connect(p ? p : s.port()) < 0 || (p == 4200 && busy >= 0), "close", "a closed server still accepts connections"); }
      } else { SIM_CHECK(failed || (p == 4200 && busy >= 0), "create-refused", "create(%u) failed for no reason", p); SIM_CHECK(sim::net::open_fds() == base, "fd-leak", "a failed create leaves %d descriptors open", sim::net::open_fds() - base); SIM_CHECK(s.accept() == NULL && !s.close(), "failed-create", "a server whose create failed accepts or closes"); } }
    SIM_CHECK(sim::net::open_fds() == base, "fd-leak", "%d descriptors left after the server is gone", sim::net::open_fds() - base);
    sim::cover(p * 4 + (busy >= 0));
  }
}
// an object that is created again, closed, created again
SCENARIO(C14, again, 2) {
  sim::enable(sim::K_SOCKFAIL, sim::coin() ? 2 : 0); sim::enable(sim::K_EINTR, sim::coin() ? 1 : 0); sim::enable(sim::K_CLOSEFAIL, sim::rnd(4) == 0 ? 3 : 0); int busy = sim::rnd(3) == 0 ? sim::net::raw_listen(4200) : -1, base = sim::net::open_fds(); uint16_t live = 0; sim::set_hang_id("hang", "a server socket created again hangs:");
  { server_socket s;
    for (int i = 0; i < 5; i++) {
      static const uint16_t ports[] = {4200, 4201, 0, 4202}; int k = sim::rnd(5); uint16_t p = ports[sim::rnd(4)], old = live; uint64_t f0 = sim::fault_count(sim::K_SOCKFAIL), c0 = sim::fault_count(sim::K_CLOSEFAIL);
      if (k == 0) { bool r = s.close(); SIM_CHECK(r == (live != 0) || sim::fault_count(sim::K_CLOSEFAIL) > c0, "close", "close of a %s server returned %d", live ? "live" : "dead", r); live = 0; }
      else { bool r = s.create(p), failed = sim::fault_count(sim::K_SOCKFAIL) > f0; SIM_CHECK(r || failed || (p == 4200 && busy >= 0), "create-refused", "create(%u) failed for no reason", p); SIM_CHECK(!r || !(failed || (p == 4200 && busy >= 0)), "create-lies", "create(%u) succeeded although a step failed", p); live = r ? s.port() : 0; SIM_CHECK(!r || (p ? live == p : live != 0), "port", "created on port %u, port() is %u", p, live); }
      SIM_CHECK(s.is_alive() == (live != 0), "alive", "is_alive() is %d after a %s", s.is_alive(), k == 0 ? "close" : live ? "create" : "failed create");
      SIM_CHECK(sim::net::open_fds() == base + (live != 0), "fd-leak", "%d descriptors open for a %s server", sim::net::open_fds() - base, live ? "live" : "dead");
      if (old && old != live && !(old == 4200 && busy >= 0)) { int fd = sim::net::raw_connect(old); SIM_CHECK(fd < 0, "close", "the old port %u is still served", old); }
      if (live) { int fd = sim::net::raw_connect(live); SIM_CHECK(fd >= 0, "port", "nobody listens on port %u", live); std::unique_ptr<stream_socket> c(s.accept()); SIM_CHECK(c.get() && c->remote_port() == local_port(fd), "accept", "the client is not accepted"); sim::net::raw_close(fd); }
      else SIM_CHECK(s.accept() == NULL, "accept-dead", "a dead server accepts");
      sim::cover(i * 10 + k);
    } }
  SIM_CHECK(sim::net::open_fds() == base, "fd-leak", "%d descriptors left after the server is gone", sim::net::open_fds() - base);
}
// many clients, several accepting threads, failing accepts
SCENARIO(C14, accept, 6) {
  sim::enable(sim::K_EINTR, sim::coin() ? 1 : 0); sim::enable(sim::K_ACCEPTFAIL, sim::coin() ? 1.5 : 0); sim::enable(sim::K_STALL, sim::coin() ? 1 : 0);
  int nc = 1 + sim::rnd(6), na = 1 + sim::rnd(3); bool tight = sim::rnd(4) == 0;
  server_socket srv; SIM_CHECK(srv.create(4100, 100), "setup", "create"); int served = 0; std::map<uint16_t, int> by_port; std::vector<uint16_t> lp(nc, 0); int finished = 0; sim::Event over; int answered = 0;
  if (tight) sim::net::fd_limit(2 * nc + 2);
  sim::set_hang_id("accept-hang", "a client that connected is never accepted:");
  for (int c = 0; c < nc; c++) sim::go([&, c] {
    sim::net::Outside o; int fd = sim::net::raw_connect(4100); SIM_CHECK(fd >= 0, "setup", "raw connect failed"); { sim::Atomic a; lp[c] = local_port(fd); }
    std::string me = sim::fmt("client-%d", c); sim::net::raw_send(fd, me + "\n"); std::string ans = sim::net::raw_recv_all(fd); sim::net::raw_close(fd);
    bool last; { sim::Atomic a; if (!ans.empty()) { answered++; SIM_CHECK(ans == sim::fmt("%u %s", lp[c], me.c_str()), "mixed-up", "client %d on port %u got '%s'", c, lp[c], ans.c_str()); } last = ++finished == nc; }
    if (last) over.set();
  });
  for (int k = 0; k < na; k++) sim::go([&] {
    srv.is_alive();
    for (;;) {
      { sim::Atomic a; if (finished == nc) return; }
      std::unique_ptr<stream_socket> s(srv.accept());
      if (!s) { SIM_CHECK(srv.is_alive(), "dead", "a failed accept killed the server socket"); sim::sleep_ns(1000000); continue; }
      uint16_t rp = s->remote_port(); { sim::Atomic a; served++; by_port[rp]++; SIM_CHECK(by_port[rp] == 1, "accepted-twice", "one connection was accepted twice"); }
      SIM_CHECK(s->remote_addr().to_string() == "127.0.0.1" && s->is_connected(), "peer", "remote address is %s", s->remote_addr().to_string().c_str());
      std::string l; if (!s->getline(l)) continue; SIM_CHECK(s->puts(sim::fmt("%u %s", rp, l.c_str())), "write", "puts failed");
    }
  });
  if (true) sim::go([&] { over.wait(); sim::net::Outside o; sim::sleep_ns(1000000); for (int i = 0; i < na; i++) { int fd = sim::net::raw_connect(4100); sim::sleep_ns(100000000); sim::net::raw_close(fd); } });
  sim::join_all(); sim::Atomic a;
  for (int c = 0; c < nc; c++) SIM_CHECK(by_port.count(lp[c]) || sim::fault_count(sim::K_ACCEPTFAIL), "never-accepted", "client %d was never accepted", c);
  if (!sim::fault_count(sim::K_ACCEPTFAIL)) SIM_CHECK(answered == nc, "never-accepted", "%d of %d clients answered", answered, nc);
}
}
