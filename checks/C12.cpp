// C12: connection failures are reported truthfully and stay contained.
#include "netcommon.h"
#include "network/socket.h"
#include "network/dns.h"
#include <memory>
#include <errno.h>
using namespace pfi::network;
namespace {
// ---- writing to a peer that goes away ---------------------------------------
SCENARIO(C12, write_fails, 4) {
  nc::swarm(); sim::enable(sim::K_RESET, sim::rnd(3) == 0 ? 1 : 0); sim::enable(sim::K_CLOSEFAIL, sim::rnd(4) == 0 ? 4 : 0);
  int how = sim::rnd(4); size_t take = nc::some_size(); bool lib_is_client = sim::coin();     // peer reads 'take' bytes, then closes / resets / half-closes / keeps reading
  int n = 1 + sim::rnd(8); struct W { std::string d; int flush; int64_t pause; }; std::vector<W> w(n);
  for (int i = 0; i < n; i++) { w[i].d = nc::bytes(nc::some_size(), i + 1, 0); w[i].flush = sim::rnd(3); w[i].pause = sim::rnd(3) == 0 ? 300000000 : 0; }
  int l = -1; server_socket srv; if (lib_is_client) l = sim::net::raw_listen(4100); else SIM_CHECK(srv.create(4100), "setup", "create failed");
  std::string got, sent; bool ok = true;
  sim::set_hang_id("socket-hang", "writing to a peer that went away does not finish:");
  sim::go([&] {
    int fd = lib_is_client ? sim::net::raw_accept(l) : sim::net::raw_connect(4100); if (fd < 0) return;
    std::string g = sim::net::raw_recv_n(fd, take);
    if (how == 0) sim::net::raw_close(fd); else if (how == 1) sim::net::raw_reset(fd);
    else { if (how == 2) sim::net::raw_half_close(fd); g += sim::net::raw_recv_all(fd); sim::net::raw_close(fd); }
    sim::Atomic a; got = g;
  });
  sim::go([&] {
    {
      std::unique_ptr<stream_socket> s;
      if (lib_is_client) { s.reset(new stream_socket()); SIM_CHECK(s->connect("127.0.0.1", 4100), "connect", "connect to a listening peer failed"); } else { s.reset(srv.accept()); if (!s) return; }
      for (int i = 0; i < n && ok; i++) {
        uint64_t h0 = sim::net::lib_sent(); (void)h0;
        int r = s->write(w[i].d.data(), w[i].d.size());
        SIM_CHECK(r >= 0 && r <= (int)w[i].d.size(), "count", "write of %zu bytes returned %d", w[i].d.size(), r);
        if (r < (int)w[i].d.size()) {
          ok = false; uint64_t h = sim::net::lib_sent();
          if (r > 0) SIM_CHECK(h == sent.size() + r, "short-count", "write of %zu bytes after %zu reported %d, but %llu bytes in total were handed to the network", w[i].d.size(), sent.size(), r, (unsigned long long)h);
          else SIM_CHECK(h <= sent.size(), "short-count", "write reported 0 of its bytes as sent, but %llu of %zu were handed to the network", (unsigned long long)h, sent.size());
          SIM_CHECK(!s->is_connected(), "still-connected", "a write failed, but is_connected() is true");
        }
        { sim::Atomic a; sent += w[i].d; }
        if (ok && w[i].flush == 0) {
          int f = s->flush(); uint64_t h = sim::net::lib_sent();
          if (f < 0) { SIM_CHECK(h == sent.size(), "flush-lies", "flush() reports success, but only %llu of %zu bytes were handed to the network", (unsigned long long)h, sent.size()); }
          else { ok = false; SIM_CHECK(h < sent.size(), "flush-lies", "flush() reports failure although everything was handed over"); SIM_CHECK(!s->is_connected(), "still-connected", "a flush failed, but is_connected() is true"); }
        }
        if (w[i].pause) sim::sleep_ns(w[i].pause);
      }
      if (ok) { int f = s->flush(); if (f >= 0) ok = false; else SIM_CHECK(sim::net::lib_sent() == sent.size(), "flush-lies", "flush() reports success, but only %llu of %zu bytes were handed to the network", (unsigned long long)sim::net::lib_sent(), sent.size()); }
      if (!ok) {       // a dead connection stays dead and harmless
        uint64_t h = sim::net::lib_sent(); char c;
        s->write("x", 1); s->flush(); s->puts("y\n"); s->flush(); SIM_CHECK(s->read(&c, 1) == 0 && s->getc() == EOF, "data-from-nowhere", "data read from a dead connection"); std::string ln; SIM_CHECK(!s->getline(ln), "data-from-nowhere", "line read from a dead connection");
        SIM_CHECK(sim::net::lib_sent() == h && !s->is_connected(), "still-connected", "a dead connection came back");
      }
    }
    if (sim::coin()) sim::sleep_ns(1000000);
  });
  sim::join_all(); srv.close(); sim::net::raw_close(l);
  SIM_CHECK(got == sent.substr(0, got.size()), "data", "the peer received something that is not a prefix of what was written");
  if (how == 3 && sim::fault_count(sim::K_RESET) == 0) SIM_CHECK(got == sent, "lost", "a peer that reads to the end got %zu of %zu bytes", got.size(), sent.size());
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  sim::cover(how * 100 + ok * 10 + lib_is_client);
}
// ---- reading from a peer that goes away ---------------------------------------
SCENARIO(C12, read_fails, 4) {
  nc::swarm(); sim::enable(sim::K_CLOSEFAIL, sim::rnd(4) == 0 ? 4 : 0); int how = sim::rnd(3); std::string all = nc::bytes(nc::some_size() + nc::some_size(), sim::rnd(1000), 0); size_t cut = all.empty() ? 0 : sim::rnd(all.size() + 1);
  int l = sim::net::raw_listen(4100); std::vector<int> ops; for (int i = 0; i < 5; i++) ops.push_back(sim::rnd(3)); std::vector<int> ar; for (int i = 0; i < 5; i++) { static const int t[] = {1, 3, 50, 1000, 8192, 10000}; ar.push_back(t[sim::rnd(6)]); }
  sim::set_hang_id("socket-hang", "reading from a peer that went away does not finish:");
  sim::go([&] { int fd = sim::net::raw_accept(l); sim::net::raw_send(fd, all.substr(0, cut)); if (sim::coin()) sim::sleep_ns(500000000); if (how == 0) sim::net::raw_close(fd); else if (how == 1) sim::net::raw_reset(fd); else { sim::net::raw_half_close(fd); sim::sleep_ns(2000000000); sim::net::raw_close(fd); } });
  sim::go([&] {
    stream_socket s; SIM_CHECK(s.connect("127.0.0.1", 4100), "connect", "connect failed");
    std::string got; std::vector<char> b(10001); bool end = false;
    for (int k = 0; !end; k++) {
      int op = k > 300 ? 0 : ops[k % 5], a = k > 300 ? 10000 : ar[k % 5];
      if (op == 0) { int r = s.read(b.data(), a); SIM_CHECK(r >= 0 && r <= a, "count", "read of %d returned %d", a, r); got.append(b.data(), r); end = r < a; }
      else if (op == 1) { int c = s.getc(); if (c == EOF) end = true; else { SIM_CHECK(c >= 0 && c < 256, "count", "getc returned %d", c); got += (char)c; } }
      else { int lim = a % 100 + 1; std::string ln; uint64_t before = got.size(); (void)before; std::string raw; bool r = s.getline(ln, lim); if (!r) end = true; else { // reconstruct from the reference
          size_t p = got.size(), q = p; std::string exp; while (q < all.size() && (int)(q - p) < lim) { char c = all[q++]; if (c == '\n') { if (!exp.empty() && exp[exp.size() - 1] == '\r') exp.erase(exp.size() - 1); break; } exp += c; }
          if (ln != exp) { SIM_CHECK(exp.compare(0, ln.size(), ln) == 0, "data", "getline returned bytes that were not sent"); got.append(ln); end = true; SIM_CHECK(s.getc() == EOF, "line-cut", "getline returned a partial line although more data follows"); }
          else got = all.substr(0, q); } }
      SIM_CHECK(got == all.substr(0, got.size()) && got.size() <= cut + 1, "data", "what was read is not a prefix of what was sent");
    }
    if (how != 1) SIM_CHECK(got.size() >= cut, "lost", "the peer sent %zu bytes and closed, only %zu were returned", cut, got.size());
    SIM_CHECK(got.size() >= sim::net::lib_recvd(), "lost", "%llu bytes arrived, only %zu were returned before the end was reported", (unsigned long long)sim::net::lib_recvd(), got.size());
    SIM_CHECK(!s.is_connected(), "still-connected", "the end was reported but is_connected() is true"); SIM_CHECK(s.getc() == EOF, "eof", "data after the end");
  });
  sim::join_all(); sim::net::raw_close(l);
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  sim::cover(how * 1000 + cut % 997);
}
// ---- connecting -----------------------------------------------------------------
SCENARIO(C12, connecting, 4) {
  sim::enable(sim::K_EINTR, sim::coin() ? 1 : 0); sim::enable(sim::K_DNSFAIL, sim::rnd(4) == 0 ? 2 : 0); sim::enable(sim::K_SOCKFAIL, sim::rnd(4) == 0 ? 1 : 0);
  static const int errs[] = {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH};
  int n = 1 + sim::rnd(4), first = -1; std::vector<std::string> ips; bool listening = sim::rnd(5) != 0, known = sim::rnd(6) != 0; 
  for (int i = 0; i < n; i++) { std::string ip = sim::fmt("10.0.0.%d", i + 1); ips.push_back(ip); bool bad = sim::rnd(3) != 0; if (bad) sim::net::refuse(ip, errs[sim::rnd(4)]); else if (first < 0) first = i; }
  if (known) sim::net::host("svc.example", ips);
  int l = listening ? sim::net::raw_listen(4100) : -1; bool expect = listening && known && first >= 0; int connected = 0;
  int nt = 1 + sim::rnd(3);
  sim::set_hang_id("socket-hang", "connect does not return:");
  for (int t = 0; t < nt; t++) sim::go([&] {
    uint64_t d0 = sim::fault_count(sim::K_DNSFAIL), k0 = sim::fault_count(sim::K_SOCKFAIL);
    stream_socket s; SIM_CHECK(!s.is_connected(), "connected", "a fresh socket claims to be connected");
    bool r = s.connect("svc.example", 4100); bool disturbed = sim::fault_count(sim::K_DNSFAIL) > d0 || sim::fault_count(sim::K_SOCKFAIL) > k0;
    SIM_CHECK(r == s.is_connected(), "connected", "connect returned %d but is_connected() is %d", r, s.is_connected());
    if (r) { SIM_CHECK(expect, "connect-lies", "connect reports success although no address accepts"); { sim::Atomic a; connected++; }
      SIM_CHECK(s.remote_addr().to_string() == ips[first] && s.remote_port() == 4100, "remote", "connected to %s, but the remote address is reported as %s:%u", ips[first].c_str(), s.remote_addr().to_string().c_str(), s.remote_port()); }
    else if (!disturbed) SIM_CHECK(!expect, "connect-gives-up", "connect failed although address %d of %d accepts", first + 1, n);
  });
  sim::join_all();
  SIM_CHECK((int)sim::net::conns_established() == connected, "connections", "%llu connections established, %d reported", (unsigned long long)sim::net::conns_established(), connected);
  std::vector<std::string> tr = sim::net::tried();
  if (nt == 1) for (size_t i = 0; i < tr.size(); i++) SIM_CHECK(i < ips.size() && tr[i] == ips[i] + ":4100", "order", "attempt %zu goes to %s", i + 1, tr[i].c_str());
  sim::net::raw_close(l);
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
  sim::cover(n * 100 + first * 10 + expect);
}
// ---- one connection after another on the same object --------------------------------
SCENARIO(C12, reconnect, 4) {
  nc::swarm();
  int rounds = 2 + sim::rnd(2); struct R { std::string in, out, tail; size_t rd; int how, op; }; std::vector<R> rs(rounds); std::vector<std::string> got(rounds);
  for (int i = 0; i < rounds; i++) { rs[i].in = nc::bytes(nc::some_size(), i + 1, 2); rs[i].out = nc::bytes(nc::some_size(), i + 11, 0); rs[i].tail = nc::bytes(sim::rnd(40), i + 21, 0); rs[i].rd = rs[i].in.empty() ? 0 : sim::rnd(rs[i].in.size() + 1); rs[i].how = sim::rnd(3); rs[i].op = sim::rnd(2); }
  std::vector<int> l(rounds); for (int i = 0; i < rounds; i++) l[i] = sim::net::raw_listen(4100 + i);
  sim::set_hang_id("socket-hang", "a sequence of connections does not finish:");
  for (int i = 0; i < rounds; i++) sim::go([&, i] { int fd = sim::net::raw_accept(l[i]); if (fd < 0) return; sim::Tid snd = sim::go([&, i, fd] { sim::net::raw_send(fd, rs[i].in); }); std::string g = sim::net::raw_recv_all(fd); sim::join(snd); sim::net::raw_close(fd); sim::Atomic a; got[i] = g; });
  std::vector<std::string> flushed(rounds); int reached = 0;
  sim::go([&] {
    stream_socket s; 
    for (int i = 0; i < rounds; i++) {
      SIM_CHECK(s.connect("127.0.0.1", 4100 + i), "connect", "connect number %d failed", i + 1);
      SIM_CHECK(s.remote_port() == 4100 + i, "remote", "remote port %u after connecting to %d", s.remote_port(), 4100 + i);
      std::vector<char> b(rs[i].rd + 1); std::string r;
      if (rs[i].op) { for (size_t k = 0; k < rs[i].rd && k < 200; k++) { int c = s.getc(); if (c == EOF) break; r += (char)c; } }
      else { int n = s.read(b.data(), rs[i].rd); r.assign(b.data(), n); }
      SIM_CHECK(r == rs[i].in.substr(0, r.size()) && r.size() == std::min(rs[i].rd, rs[i].op ? (size_t)200 : rs[i].rd), "crossed-read", "reading from connection %d returned '%s', its peer sent '%s'", i + 1, nc::show(r).c_str(), nc::show(rs[i].in).c_str());
      int wr = s.write(rs[i].out.data(), rs[i].out.size()); SIM_CHECK(wr == (int)rs[i].out.size(), "write-short", "write of %zu returned %d", rs[i].out.size(), wr);
      if (s.flush() < 0) { sim::Atomic a; flushed[i] = rs[i].out; reached = i; }
      s.write(rs[i].tail.data(), rs[i].tail.size());           // left in the buffer
      if (i + 1 < rounds && rs[i].how == 1) SIM_CHECK(s.shutdown(), "shutdown", "shutdown of a connected socket failed");
      if (rs[i].how == 1 && i + 1 < rounds) SIM_CHECK(!s.is_connected(), "still-connected", "is_connected() after shutdown()");
    }
  });
  sim::join_all();
  for (int i = 0; i < rounds; i++) { sim::net::raw_close(l[i]); std::string full = rs[i].out + rs[i].tail;
    SIM_CHECK(got[i] == full.substr(0, got[i].size()), "crossed-write", "peer %d received '%s', which is not what was written on its connection", i + 1, nc::show(got[i].substr(0, 24)).c_str()); }
  SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
}
}
