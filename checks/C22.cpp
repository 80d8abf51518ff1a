// C22: the stand-alone CGI server: every request handled once, with its own data, whatever other clients do.
#include <getopt.h>
#include "cgicommon.h"
#include "network/cgi/server.h"
#include <sys/socket.h>
#include <netinet/in.h>
namespace {
bool split(const std::string &s, int &code, std::string &reason, SM &head, std::string &body) {
  size_t e = s.find("\r\n\r\n"); if (e == std::string::npos) return false; std::istringstream is(s.substr(0, e + 2)); std::string line; std::getline(is, line); if (line.compare(0, 9, "HTTP/1.1 ")) return false; if (line.size() && line[line.size() - 1] == '\r') line.resize(line.size() - 1); code = atoi(line.c_str() + 9); reason = line.size() > 13 ? line.substr(13) : "";
  while (std::getline(is, line)) { if (line.size() && line[line.size() - 1] == '\r') line.resize(line.size() - 1); size_t c = line.find(": "); if (c == std::string::npos) return false; std::string k = line.substr(0, c); for (size_t i = 0; i < k.size(); i++) k[i] = tolower(k[i]); head[k] = line.substr(c + 2); }
  body = s.substr(e + 4); return true;
}
void judge(Plan &p, const std::string &got, const char *when) {
  sim::Atomic a; SIM_CHECK(p.runs == 1, "not-handled", "%srequest %d was not handled", when, p.id);
  if (p.boom) { SIM_CHECK(got.empty(), "reply", "request %d: a reply although the handler threw", p.id); return; }
  int code; std::string reason, body; SM head; SIM_CHECK(split(got, code, reason, head, body), "reply", "%srequest %d: the reply '%s' is malformed", when, p.id, nc::show(got, 60).c_str());
  SIM_CHECK(code == p.code && reason == p.reason, "reply", "request %d: status %d '%s' instead of %d '%s'", p.id, code, reason.c_str(), p.code, p.reason.c_str()); SIM_CHECK(body == p.out, "reply", "request %d: a reply body of %zu bytes arrives as %zu bytes", p.id, p.out.size(), body.size());
  for (SM::iterator i = p.rhead.begin(); i != p.rhead.end(); ++i) { std::string k = i->first; for (size_t j = 0; j < k.size(); j++) k[j] = tolower(k[j]); SIM_CHECK(head.count(k) && head[k] == i->second, "reply", "request %d: reply header %s is '%s'", p.id, k.c_str(), head[k].c_str()); }
  if (head.count("content-length")) SIM_CHECK(head["content-length"] == sim::fmt("%zu", p.out.size()), "reply", "request %d: Content-Length %s for a body of %zu bytes", p.id, head["content-length"].c_str(), p.out.size()); SIM_CHECK(p.rhead.count("X-Reply") || !head.count("x-reply"), "reply", "request %d: a reply header of another request", p.id);
  SIM_CHECK(head.count("content-type") && head["content-type"] == (p.rhead.count("Content-Type") ? p.rhead["Content-Type"] : "text/plain; charset=utf-8"), "reply", "request %d: content type '%s'", p.id, head["content-type"].c_str());
}
void send_split(int fd, const std::string &s) { if (sim::rnd(3)) { sim::net::raw_send(fd, s); return; } size_t at = 0; for (int k = 0; k < 3; k++) { size_t n = sim::rnd(s.size() - at + 1); sim::net::raw_send(fd, s.substr(at, n)); at += n; sim::sleep_ns(1 + sim::rnd(30000000)); } sim::net::raw_send(fd, s.substr(at)); }
std::stringbuf sink;
int my_port(int fd) { sim::net::Outside o; sockaddr_in a; socklen_t l = sizeof a; return getsockname(fd, (sockaddr *)&a, &l) ? 0 : ntohs(a.sin_port); }
// by numbers, by command line, on a socket made before
cgi::run_server *start(Handler &h, int nth, double to) {
  int way = sim::rnd(4); if (way < 2) return new cgi::run_server(h, 8080, nth, to);
  if (way == 2) { cgi::run_server::socket_type k(new server_socket()); SIM_CHECK(k->create(8080), "setup", "listen"); if (to > 0) SIM_CHECK(k->set_timeout(to), "setup", "set_timeout"); return new cgi::run_server(h, k, nth); }
  static std::vector<std::string> a; a.clear(); a.push_back("prog"); bool s = sim::coin();
  for (int k = 0, at = sim::rnd(3); k < 3; k++) switch ((k + at) % 3) { case 0: if (s) a.push_back("--port=8080"); else if (sim::coin()) { a.push_back("-p"); a.push_back("8080"); } break; case 1: if (nth == 1 && sim::coin()) break; if (s) a.push_back(sim::fmt("--thread=%d", nth)); else { a.push_back("-t"); a.push_back(sim::fmt("%d", nth)); } break; default: a.push_back(sim::fmt(s ? "--timeout=%g" : "-o%g", to)); }
  if (sim::coin()) a.push_back(sim::coin() ? "-s" : "--server"); static char *v[12]; int n = 0; for (auto &x : a) v[n++] = &x[0]; v[n] = 0; optind = 0; return new cgi::run_server(h, n, v);
}
void serve(bool hostile_too) {
  nc::swarm(); if (hostile_too && nc::volume == 0) sim::net::buffer_limit(sim::coin() ? 100 : 65536); std::cout.rdbuf(&sink); std::cerr.rdbuf(&sink); handlers = 0; int nth = 1 + sim::rnd(3), ncl = 1 + sim::rnd(4), nh = hostile_too ? 1 + sim::rnd(4) : 0; double to = hostile_too ? (sim::rnd(3) ? 15 + sim::rnd(3) * 10 : 0.9) : sim::coin() ? 30 : 0; if (to > 0) sim::enable(sim::K_STALL, 0); size_t maxlen = 4500;
  std::vector<Plan> ps; for (int i = 0; i < ncl + 1 + nh; i++) { ps.push_back(plan(i > ncl ? 70000000 + i * 1111111 : 100 + i, maxlen)); ps[i].hostile = i > ncl; } plans = &ps; if (sim::rnd(3) == 0) { size_t mb = 1; for (auto &p : ps) if (!p.hostile) mb = std::max(mb, p.body.size()); maxlen = mb; }
  Handler h; h.set_max_content_length(maxlen); cgi::run_server *srv = start(h, nth, to); srv->run(false); SIM_CHECK(handlers == nth, "setup", "%d handler copies for %d threads", handlers, nth); sim::set_hang_id("no-progress", "a request is not answered:");
  for (int i = 0; i < nh; i++) sim::go([&, i] {
    Plan &p = ps[ncl + 1 + i]; std::string w = p.wire; int how = sim::rnd(11); sim::sleep_ns(sim::rnd(3) * 40000000LL); int fd = sim::net::raw_connect(8080); if (fd < 0) return; sim::cover(7000 + how);
    switch (how) {
      case 0: case 1: sim::net::raw_send(fd, w.substr(0, sim::rnd(w.size()))); sim::sleep_ns(to < 1 ? 800000000000LL : 3000000000000LL); sim::net::raw_close(fd); return;           // goes silent
      case 2: sim::net::raw_send(fd, w.substr(0, sim::rnd(w.size()))); sim::net::raw_reset(fd); return;
      case 3: sim::net::raw_send(fd, w.substr(0, sim::rnd(w.size()))); sim::net::raw_half_close(fd); break;
      case 4: w[sim::rnd(w.size())] ^= 1 << sim::rnd(8); sim::net::raw_send(fd, w); sim::net::raw_half_close(fd); break;
      case 5: sim::net::raw_send(fd, raw(sim::rnd(300))); sim::net::raw_half_close(fd); break;
      case 6: { std::string q = sim::fmt("POST /x HTTP/1.1\r\nHost: h\r\nContent-Length: %zu\r\n\r\nid=%d&", maxlen + 1 + sim::rnd(3) * 1000000000ULL, p.id) + std::string(100, 'x'); if (sim::coin()) { size_t n = maxlen + 1 + (sim::coin() ? 0 : sim::rnd(3000)); std::string b = sim::fmt("id=%d&x=", p.id); b.resize(std::max(n, b.size()), 'y'); if (b.size() > n) b.resize(n); q = sim::fmt("POST /x HTTP/1.1\r\nHost: h\r\nContent-Length: %zu\r\n\r\n", n) + b; } sim::net::raw_send(fd, q); sim::net::raw_half_close(fd); std::string r = sim::net::raw_recv_all(fd); sim::net::raw_close(fd); sim::Atomic a; SIM_CHECK(p.runs == 0, "too-long", "a request longer than allowed is handled"); SIM_CHECK(r.substr(0, 13) == std::string("HTTP/1.1 500 ").substr(0, r.size()), "too-long", "a request longer than allowed is answered '%s'", nc::show(r, 40).c_str()); return; }
      case 7: { size_t n = 1 + sim::rnd(200), less = 1 + sim::rnd(n); std::string b = sim::fmt("id=%d&x=", p.id) + std::string(n, 'y'), q = sim::fmt("POST /x HTTP/1.1\r\nHost: h\r\nContent-Length: %zu\r\n\r\n", b.size()); sim::net::raw_send(fd, q + b.substr(0, b.size() - less)); if (sim::coin()) sim::net::raw_half_close(fd); std::string r = sim::net::raw_recv_all(fd); sim::net::raw_close(fd); sim::Atomic a; SIM_CHECK(p.runs == 0, "too-short", "a request whose body is incomplete is handled"); SIM_CHECK(r.substr(0, 13) == std::string("HTTP/1.1 500 ").substr(0, r.size()), "too-short", "a request whose body is incomplete is answered '%s'", nc::show(r, 40).c_str()); return; }
      case 8: { Plan *q = &p; { sim::Atomic a; q->out = nc::bytes(20000, 5, 0); } sim::net::raw_send(fd, w); sim::sleep_ns(to < 1 ? 800000000000LL : 3000000000000LL); sim::net::raw_close(fd); return; }      // never reads the reply
      case 10: if (p.kind == MULTI) { bool nob = sim::coin(); std::string b = nob ? p.body : p.cut, q = sim::fmt("POST /x HTTP/1.1\r\nHost: h\r\nContent-Type: %s\r\nContent-Length: %zu\r\n\r\n", nob ? "multipart/form-data" : p.ctype.c_str(), b.size()); sim::net::raw_send(fd, q + b); if (sim::coin()) sim::net::raw_half_close(fd); std::string r = sim::net::raw_recv_all(fd); sim::net::raw_close(fd); sim::Atomic a; SIM_CHECK(p.runs == 0, "malformed", "a request whose multipart body is malformed is handled"); SIM_CHECK(r.substr(0, 13) == std::string("HTTP/1.1 500 ").substr(0, r.size()), "malformed", "a request whose multipart body is malformed is answered '%s'", nc::show(r, 40).c_str()); return; } sim::net::raw_send(fd, w); break;
      default: { std::string q = "POST / HTTP/1.1\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=B\r\n", b = sim::rnd(3) == 0 ? "--B\r\n\r\n" : sim::coin() ? "--B\r\nContent-Type: multipart/x\r\n\r\nq\r\n--B--" : "--B"; sim::net::raw_send(fd, q + sim::fmt("Content-Length: %zu\r\n\r\n", b.size()) + b); break; }
    }
    sim::net::raw_recv_all(fd); sim::net::raw_close(fd);
  });
  for (int i = 0; i < ncl; i++) sim::go([&, i] {
    if (sim::coin()) sim::sleep_ns(sim::rnd(50000000)); Plan &p = ps[i]; int fd = sim::net::raw_connect(8080); SIM_CHECK(fd >= 0, "setup", "connect"); { sim::Atomic a; p.open = 1; p.port = my_port(fd); } int64_t t0 = sim::now();
    send_split(fd, p.wire); std::string got = sim::net::raw_recv_all(fd); sim::net::raw_close(fd); judge(p, got, ""); double limit = (nh * 5 + 2) * to + 300;
    if (!sim::stalled()) SIM_CHECK(sim::now() - t0 < limit * 1e9, "slow", "request %d took %.1f s", p.id, (sim::now() - t0) / 1e9);
  });
  sim::join_all();
  Plan &p = ps[ncl]; int fd = sim::net::raw_connect(8080); SIM_CHECK(fd >= 0, "setup", "connect"); p.open = 1; p.port = my_port(fd); sim::net::raw_send(fd, p.wire); judge(p, sim::net::raw_recv_all(fd), "afterwards: "); sim::net::raw_close(fd);
  if (nh == 0) { sim::sleep_ns(1000000000); SIM_CHECK(sim::net::open_fds() == 1, "fd-leak", "%d connections are still open", sim::net::open_fds() - 1); }
  sim::cover(nth * 1000 + ncl * 100 + nh * 10 + p.kind); sim::done();
}
SCENARIO(C22, clients, 6) { serve(false); }
SCENARIO(C22, hostile, 5) { serve(true); }
}
