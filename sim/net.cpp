// Simulated TCP sockets behind the libc socket API.
//
// Semantics follow Linux: a connection is an ordered byte stream in each
// direction; segments are delayed, cut and merged arbitrarily; send() blocks
// while the buffer is full; close() with unread data resets the peer; data that
// arrives at a closed endpoint is answered by a reset; data queued before a
// reset stays readable; a blocked call keeps its socket alive when another
// thread closes the descriptor.
#include "rt.h"
#include "net.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <dlfcn.h>
#include <deque>
#include <map>
#include <memory>

namespace rt { long raw_syscall(long, long, long, long, long, long, long);
// optional file layer
struct VFile; 
int file_close_hook(int fd) __attribute__((weak));
ssize_t file_read_hook(int fd, void *b, size_t n) __attribute__((weak));
ssize_t file_write_hook(int fd, const void *b, size_t n) __attribute__((weak));
}
using namespace rt;
using sim::chance; using sim::choose;

namespace {
struct Sock;
struct Conn;
struct Dir {                      // one direction of a connection
  std::string rcv; size_t off = 0;   // delivered, unread
  size_t flight = 0;              // sent, not delivered
  bool fin_sent = false, fin = false;
  int64_t last = 0;               // delivery time of the last segment
  size_t unread() const { return rcv.size() - off; }
};
struct Conn : std::enable_shared_from_this<Conn> {
  Dir d[2];                       // d[s]: data from side s to side 1-s
  bool closed[2] = {false, false};
  int err[2] = {0, 0};            // pending error for the side
  bool dead[2] = {false, false};  // reset seen
  size_t cap = 65536;
  uint32_t ip[2]; uint16_t port[2];
  int id;
};
struct Sock {
  enum St { NEW, CONNECTING, CONNECTED, LISTEN } st = NEW;
  int refs = 1;
  std::shared_ptr<Conn> c; int side = 0;
  uint16_t lport = 0; uint32_t lip = 0; bool bound = false;
  bool reuse = false, nonblock = false; bool shut_rd = false, shut_wr = false;
  int64_t rcvtimeo = 0, sndtimeo = 0;
  bool linger = false; int linger_s = 0;
  size_t backlog = 0; std::deque<std::shared_ptr<Conn> > pend; size_t syn = 0;
  int conn_result = -1;           // -1 pending, 0 ok, errno
  bool closed = false;            // last descriptor gone
  std::map<std::pair<int, int>, int> opts;
};
struct World {
  std::map<int, Sock *> fds;
  std::map<int, int> files;       // fds of the file layer
  std::map<uint16_t, Sock *> listeners;
  std::map<uint16_t, int64_t> port_busy_until;   // TIME_WAIT-like
  std::map<uint16_t, int> port_conns;
  std::map<std::string, std::vector<std::string> > hosts;
  std::map<std::string, uint64_t> lookups;
  std::map<std::string, bool> up;
  int64_t lookup_delay = 0;
  uint16_t eph = 40000; int live = 0; uint64_t ebadf = 0, est = 0; int addrlists = 0; int fd_limit = 700;
  size_t cap = 65536; bool rnd_latency = true, part = false; int next_conn = 1;
  std::vector<std::function<void()> > held;   // deliveries held by a partition
  bool sigpipe_ignored = false;
  uint64_t rsts = 0, lib_sent = 0, lib_recvd = 0; std::map<std::string, int> refuse; std::vector<std::string> tried;
};
World *w() { static World *x = NULL; if (!x) { RtScope rs; x = new World(); } return x; }
const char NETKEY = 0;
struct OutsideFlag { static std::map<int, int> &m() { static std::map<int, int> *x = new std::map<int, int>(); return *x; } };
bool outside() { auto it = OutsideFlag::m().find(cur->id); return it != OutsideFlag::m().end() && it->second > 0; }
bool flt(sim::Kind k, double p) { if (outside()) return false; return chance(k, p); }

void changed() { wake_all(&NETKEY, W_IO); }
// block until some network change; false on deadline
bool net_wait(int64_t dl) { if (dl >= 0 && dl <= vnow()) return false; block(&NETKEY, W_IO, dl); return true; }

int64_t seg_delay() {
  if (!w()->rnd_latency) return 20000;
  static const int64_t t[] = {20000, 20000, 50000, 200000, 1000000, 5000000, 40000000, 200000000};
  return t[choose(sim::K_DELAY, 8)];
}
int fd_alloc() { int n = 0; for (auto &x : w()->fds) { (void)x; n++; } for (auto &x : w()->files) { (void)x; n++; } if (n >= w()->fd_limit) return -1; for (int i = VFD_BASE; i < VFD_END; i++) if (!w()->fds.count(i) && !w()->files.count(i)) return i; return -1; }
Sock *get(int fd) { auto it = w()->fds.find(fd); if (it == w()->fds.end()) { w()->ebadf++; return NULL; } return it->second; }

void do_reset(std::shared_ptr<Conn> c, int side, int e);     // side learns of a reset
void deliver_later(std::shared_ptr<Conn> c, int from, std::function<void()> f, bool immediate = false) {
  Dir &d = c->d[from];
  int64_t at = vnow() + (immediate ? 20000 : seg_delay()); if (at < d.last) at = d.last; d.last = at;
  add_event(at, [f] { if (w()->part) { w()->held.push_back(f); return; } f(); });
}
void send_rst(std::shared_ptr<Conn> c, int from) {             // from 'from' to the peer
  deliver_later(c, from, [c, from] { do_reset(c, 1 - from, ECONNRESET); }, true);
}
void do_reset(std::shared_ptr<Conn> c, int side, int e) {
  if (c->dead[side]) return;
  c->dead[side] = true; c->err[side] = c->d[1 - side].fin ? 0 : e; w()->rsts++;     // after the peer's FIN a reset shows as EPIPE, not ECONNRESET
  trace("[net] conn %d: reset reaches side %d", c->id, side);
  changed();
}
void deliver(std::shared_ptr<Conn> c, int from, std::string s) {
  Dir &d = c->d[from]; int to = 1 - from;
  d.flight -= s.size();
  if (c->dead[to]) { changed(); return; }
  if (c->closed[to]) { send_rst(c, to); changed(); return; }
  if (d.off > 4096 && d.off * 2 > d.rcv.size()) { d.rcv.erase(0, d.off); d.off = 0; }
  d.rcv += s;
  changed();
}
void send_fin(std::shared_ptr<Conn> c, int from) {
  Dir &d = c->d[from]; if (d.fin_sent) return; d.fin_sent = true;
  deliver_later(c, from, [c, from] { c->d[from].fin = true; changed(); });
}
void port_release(Conn &c) { for (int i = 0; i < 2; i++) { auto it = w()->port_conns.find(c.port[i]); if (it != w()->port_conns.end() && --it->second <= 0) { w()->port_conns.erase(it); } w()->port_busy_until[c.port[i]] = vnow() + 60000000000LL; } }
void close_side(std::shared_ptr<Conn> c, int side, bool abort) {
  if (c->closed[side]) return;
  c->closed[side] = true;
  Dir &in = c->d[1 - side];
  if (!c->dead[side]) {
    if (abort || in.unread() > 0) { trace("[net] conn %d: side %d closes with %s, reset", c->id, side, abort ? "abort" : "unread data"); send_rst(c, side); c->dead[side] = true; }
    else { trace("[net] conn %d: side %d closes", c->id, side); send_fin(c, side); }
  }
  if (c->closed[0] && c->closed[1]) port_release(*c);
  changed();
}
void sock_release(Sock *s) {
  if (--s->refs > 0) return;
  if (s->st == Sock::LISTEN) {
    w()->listeners.erase(s->lport);
    for (auto &c : s->pend) close_side(c, 1, true);
    s->pend.clear();
  } else if (s->c && s->st == Sock::CONNECTED) close_side(s->c, s->side, s->linger && s->linger_s == 0 && false);
  else if (s->c) { close_side(s->c, s->side, true); }
  w()->live--;
  changed();
  delete s;
}
struct Hold { Sock *s; Hold(Sock *s) : s(s) { s->refs++; } ~Hold() { sock_release(s); } };
int fail_errno(int e) { errno = e; return -1; }
int64_t dl_of(int64_t timeo) { return timeo > 0 ? vnow() + timeo : -1; }

int new_fd(Sock *s) { int fd = fd_alloc(); if (fd < 0) return -1; w()->fds[fd] = s; return fd; }

ssize_t do_recv(int fd, void *buf, size_t n, int flags) {
  spoint("recv");
  Sock *s = get(fd); if (!s) { trace("recv(%d): EBADF", fd); return fail_errno(EBADF); }
  if (s->st != Sock::CONNECTED) return fail_errno(ENOTCONN);
  Hold h(s);
  Conn &c = *s->c; Dir &d = c.d[1 - s->side];
  int64_t dl = dl_of(s->rcvtimeo);
  if (flt(sim::K_EINTR, 0.08)) { trace("recv(%d): EINTR", fd); return fail_errno(EINTR); }
  if (n == 0) return 0;
  for (;;) {
    if (d.unread()) {
      size_t k = std::min(n, d.unread());
      if (k > 1 && !outside()) { uint32_t cut = choose(sim::K_SEG, 4); if (cut == 1) k = 1; else if (cut == 2) k = 1 + (k - 1) / 2; else if (cut == 3) k = k - 1; }
      memcpy(buf, d.rcv.data() + d.off, k);
      if (!(flags & MSG_PEEK)) d.off += k;
      if (!outside() && !(flags & MSG_PEEK)) w()->lib_recvd += k;
      mix(k); trace("recv(%d, %zu) = %zu", fd, n, k);
      changed();
      return k;
    }
    if (s->shut_rd) return 0;
    if (c.err[s->side]) { int e = c.err[s->side]; c.err[s->side] = 0; trace("recv(%d): error %s", fd, strerrorname_np(e)); mix(e); return fail_errno(e); }
    if (c.dead[s->side] || d.fin) { trace("recv(%d): EOF", fd); return 0; }
    if (s->nonblock || (flags & MSG_DONTWAIT)) return fail_errno(EAGAIN);
    if (!net_wait(dl)) { trace("recv(%d): timeout", fd); return fail_errno(EAGAIN); }
  }
}
ssize_t do_send(int fd, const void *buf, size_t n, int flags) {
  spoint("send");
  Sock *s = get(fd); if (!s) { trace("send(%d): EBADF", fd); return fail_errno(EBADF); }
  if (s->st != Sock::CONNECTED) { if (!(flags & MSG_NOSIGNAL) && !w()->sigpipe_ignored) finish(ST_VIOL, "killed-by-SIGPIPE", "send on an unconnected socket killed the process with SIGPIPE"); return fail_errno(EPIPE); }
  Hold h(s);
  std::shared_ptr<Conn> c = s->c; Dir &d = c->d[s->side];
  int64_t dl = dl_of(s->sndtimeo);
  if (flt(sim::K_EINTR, 0.08)) { trace("send(%d): EINTR", fd); return fail_errno(EINTR); }
  if (flt(sim::K_RESET, 0.03)) {
    trace("[net] conn %d: reset by the network", c->id);
    do_reset(c, s->side, ECONNRESET); std::shared_ptr<Conn> cc = c; int o = 1 - s->side;
    add_event(vnow() + 30000, [cc, o] { do_reset(cc, o, ECONNRESET); });
  }
  if (n == 0) return 0;
  for (;;) {
    if (s->shut_wr || (c->dead[s->side] && !c->err[s->side])) {
      trace("send(%d): EPIPE", fd);
      if (!(flags & MSG_NOSIGNAL) && !w()->sigpipe_ignored) finish(ST_VIOL, "killed-by-SIGPIPE", "writing to a connection the peer closed killed the process with SIGPIPE");
      return fail_errno(EPIPE);
    }
    if (c->err[s->side]) { int e = c->err[s->side]; c->err[s->side] = 0; trace("send(%d): error %s", fd, strerrorname_np(e)); mix(e); return fail_errno(e); }
    size_t used = d.flight + d.unread(); size_t room = used < c->cap ? c->cap - used : 0;
    if (room) {
      size_t k = std::min(n, room);
      if (k > 1 && !outside()) { uint32_t cut = choose(sim::K_SEG, 5); if (cut == 1) k = 1; else if (cut == 2) k = 1 + (k - 1) / 2; else if (cut == 3) k = k - 1; }
      d.flight += k;
      int side = s->side; 
      // deliver in one to three segments
      std::string all((const char *)buf, k); size_t at = 0; int segs = k > 3 ? 1 + choose(sim::K_SEG, 3) : 1;
      for (int i = 0; i < segs; i++) { size_t l = i == segs - 1 ? k - at : (k - at) / 2; if (!l) continue; std::string part = all.substr(at, l); at += l; deliver_later(c, side, [c, side, part] { deliver(c, side, part); }); }
      if (!outside()) w()->lib_sent += k;
      mix(k); trace("send(%d, %zu) = %zu", fd, n, k);
      if (flt(sim::K_DROPLINK, 0.02)) { static const int64_t t[] = {500000000LL, 2000000000LL, 10000000000LL, 45000000000LL}; int64_t st = t[choose(sim::K_DELAY, 4)]; d.last = std::max(d.last, vnow()) + st; trace("[net] conn %d: link stalls for %lld ms", c->id, (long long)st / 1000000); }
      return k;
    }
    if (s->nonblock || (flags & MSG_DONTWAIT)) return fail_errno(EAGAIN);
    if (!net_wait(dl)) { trace("send(%d): timeout", fd); return fail_errno(EAGAIN); }
  }
}
bool port_free(uint16_t p, bool reuse) {
  if (w()->listeners.count(p)) return false;
  if (!reuse) { if (w()->port_conns.count(p)) return false; auto it = w()->port_busy_until.find(p); if (it != w()->port_busy_until.end() && it->second > vnow()) return false; }
  return true;
}
// system calls on descriptors the simulator does not own: the C convention, and a scheduling point
long sys(long n, long a, long b, long c, long d, long e, long f) {
  if (active() && (int)a < 0) { RtScope rs; spoint("bad-fd"); w()->ebadf++; errno = EBADF; return -1; }
  long r = raw_syscall(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = -r; return -1; } return r;
}
int real_close(int fd) { return sys(SYS_close, fd, 0, 0, 0, 0, 0); }
bool isv(int fd) { return fd >= VFD_BASE && fd < VFD_END; }
}

namespace rt {
int vfd_new_file() { int fd = fd_alloc(); if (fd >= 0) w()->files[fd] = 1; return fd; }
bool vfd_is_file(int fd) { return cur && w()->files.count(fd) > 0; }
void vfd_drop_file(int fd) { w()->files.erase(fd); }
bool net_outside() { return outside(); }
}

extern "C" {
int socket(int dom, int type, int proto) {
  if (!active()) return sys(SYS_socket, dom, type, proto, 0, 0, 0);
  RtScope rs; spoint("socket");
  if (dom != AF_INET || (type & 0xf) != SOCK_STREAM) return fail_errno(EAFNOSUPPORT);
  if (flt(sim::K_EINTR, 0.03)) return fail_errno(EINTR);
  if (flt(sim::K_SOCKFAIL, 0.05)) { trace("socket(): EMFILE"); return fail_errno(EMFILE); }
  Sock *s = new Sock(); int fd = new_fd(s); if (fd < 0) { delete s; trace("socket(): out of descriptors"); return fail_errno(EMFILE); }
  if (type & SOCK_NONBLOCK) s->nonblock = true;
  w()->live++;
  trace("socket() = %d", fd);
  return fd;
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
  if (!active() || !isv(fd)) return sys(SYS_bind, fd, (long)a, l, 0, 0, 0);
  RtScope rs; spoint("bind");
  Sock *s = get(fd); if (!s) return fail_errno(EBADF);
  if (flt(sim::K_EINTR, 0.03)) return fail_errno(EINTR);
  if (flt(sim::K_SOCKFAIL, 0.05)) { trace("bind(%d): fails", fd); return fail_errno(EADDRINUSE); }
  const sockaddr_in *in = (const sockaddr_in *)a; uint16_t p = ntohs(in->sin_port);
  if (s->bound) return fail_errno(EINVAL);
  if (p == 0) { do p = w()->eph++; while (!port_free(p, false)); }
  else if (!port_free(p, s->reuse)) { trace("bind(%d, %u): EADDRINUSE", fd, p); return fail_errno(EADDRINUSE); }
  s->lport = p; s->lip = in->sin_addr.s_addr; s->bound = true;
  trace("bind(%d, %u)", fd, p);
  return 0;
}
int listen(int fd, int backlog) {
  if (!active() || !isv(fd)) return sys(SYS_listen, fd, backlog, 0, 0, 0, 0);
  RtScope rs; spoint("listen");
  Sock *s = get(fd); if (!s) return fail_errno(EBADF);
  if (flt(sim::K_EINTR, 0.03)) return fail_errno(EINTR);
  if (flt(sim::K_SOCKFAIL, 0.05)) { trace("listen(%d): fails", fd); return fail_errno(EADDRINUSE); }
  if (!s->bound) { s->lport = w()->eph++; s->bound = true; }
  if (s->st == Sock::LISTEN) { s->backlog = backlog < 0 ? 0 : backlog; return 0; }
  if (s->st != Sock::NEW) return fail_errno(EINVAL);
  if (w()->listeners.count(s->lport)) return fail_errno(EADDRINUSE);
  s->st = Sock::LISTEN; s->backlog = backlog < 0 ? 0 : backlog; w()->listeners[s->lport] = s;
  trace("listen(%d) on port %u", fd, s->lport);
  return 0;
}
static int accept_impl(int fd, struct sockaddr *a, socklen_t *l, int flags) {
  RtScope rs; spoint("accept");
  Sock *s = get(fd); if (!s) { trace("accept(%d): EBADF", fd); return fail_errno(EBADF); }
  if (s->st != Sock::LISTEN) return fail_errno(EINVAL);
  Hold h(s);
  int64_t dl = dl_of(s->rcvtimeo);
  if (flt(sim::K_EINTR, 0.08)) { trace("accept(%d): EINTR", fd); return fail_errno(EINTR); }
  for (;;) {
    if (!s->pend.empty()) {
      if (flt(sim::K_ACCEPTFAIL, 0.08)) {
        static const int es[] = {ECONNABORTED, EMFILE, ENOBUFS, EPROTO};
        int e = es[choose(sim::K_ACCEPTFAIL, 4)];
        if (e == ECONNABORTED || e == EPROTO) { std::shared_ptr<Conn> c = s->pend.front(); s->pend.pop_front(); close_side(c, 1, true); }
        trace("accept(%d): error %s", fd, strerrorname_np(e)); return fail_errno(e);
      }
      int nfd = fd_alloc(); if (nfd < 0) { trace("accept(%d): EMFILE", fd); return fail_errno(EMFILE); }
      std::shared_ptr<Conn> c = s->pend.front(); s->pend.pop_front();
      Sock *n = new Sock(); n->st = Sock::CONNECTED; n->c = c; n->side = 1; n->lport = s->lport; n->lip = c->ip[1]; n->bound = true;
      n->rcvtimeo = s->rcvtimeo; n->sndtimeo = s->sndtimeo; n->linger = s->linger; n->linger_s = s->linger_s; n->opts = s->opts;
      if (flags & SOCK_NONBLOCK) n->nonblock = true;
      w()->fds[nfd] = n; w()->live++;
      if (a && l) { sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = c->ip[0]; in.sin_port = htons(c->port[0]); memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; }
      trace("accept(%d) = %d (conn %d)", fd, nfd, c->id);
      changed();
      return nfd;
    }
    if (s->nonblock) return fail_errno(EAGAIN);
    if (s->shut_rd) return fail_errno(EINVAL);
    if (!net_wait(dl)) { trace("accept(%d): timeout", fd); return fail_errno(EAGAIN); }
  }
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { if (!active() || !isv(fd)) return sys(SYS_accept, fd, (long)a, (long)l, 0, 0, 0); return accept_impl(fd, a, l, 0); }
int accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { if (!active() || !isv(fd)) return sys(SYS_accept4, fd, (long)a, (long)l, f, 0, 0); return accept_impl(fd, a, l, f); }

static void try_establish(Sock *s, uint32_t ip, uint16_t port, int tries);
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  if (!active() || !isv(fd)) return sys(SYS_connect, fd, (long)a, l, 0, 0, 0);
  RtScope rs; spoint("connect");
  Sock *s = get(fd); if (!s) { trace("connect(%d): EBADF", fd); return fail_errno(EBADF); }
  if (s->st == Sock::CONNECTED || s->st == Sock::LISTEN) return fail_errno(EISCONN);
  Hold h(s);
  const sockaddr_in *in = (const sockaddr_in *)a; uint16_t port = ntohs(in->sin_port); uint32_t ip = in->sin_addr.s_addr;
  int64_t dl = dl_of(s->sndtimeo);
  if (s->st == Sock::NEW) {
    s->st = Sock::CONNECTING; s->conn_result = -1;
    if (!s->bound) { s->lport = w()->eph++; s->lip = htonl(INADDR_LOOPBACK); s->bound = true; }
    char ips[32]; inet_ntop(AF_INET, &in->sin_addr, ips, sizeof ips);
    bool known = (ntohl(ip) >> 24) == 127 || w()->up.count(ips);
    if (!outside()) w()->tried.push_back(std::string(ips) + ":" + std::to_string(port));
    if (w()->refuse.count(ips)) { int e = w()->refuse[ips]; s->refs++; add_event(vnow() + (e == ETIMEDOUT ? 127000000000LL : 300000), [s, e] { if (s->conn_result < 0) s->conn_result = e; changed(); sock_release(s); }); }
    else
    if (flt(sim::K_CONNFAIL, 0.1)) {
      static const int es[] = {ECONNREFUSED, ETIMEDOUT, EHOSTUNREACH, ENETUNREACH}; int e = es[choose(sim::K_CONNFAIL, 4)];
      int64_t t = e == ETIMEDOUT ? 127000000000LL : 1000000; s->refs++;
      add_event(vnow() + t, [s, e] { if (s->conn_result < 0) s->conn_result = e; changed(); sock_release(s); });
    } else if (!known) { s->refs++; add_event(vnow() + 127000000000LL, [s] { if (s->conn_result < 0) s->conn_result = ETIMEDOUT; changed(); sock_release(s); }); }
    else { s->refs++; add_event(vnow() + seg_delay(), [s, ip, port] { try_establish(s, ip, port, 0); }); }
  }
  if (flt(sim::K_EINTR, 0.08)) { trace("connect(%d): EINTR", fd); return fail_errno(EINTR); }
  while (s->conn_result < 0) {
    if (s->nonblock) return fail_errno(EINPROGRESS);
    if (!net_wait(dl)) { trace("connect(%d): send timeout", fd); return fail_errno(EINPROGRESS); }
  }
  int r = s->conn_result;
  if (r == 0) { s->st = Sock::CONNECTED; trace("connect(%d) ok (conn %d)", fd, s->c->id); return 0; }
  s->st = Sock::NEW; s->conn_result = -1; trace("connect(%d): error %s", fd, strerrorname_np(r)); mix(r);
  return fail_errno(r);
}
static void try_establish(Sock *s, uint32_t ip, uint16_t port, int tries) {
  if (w()->part) { w()->held.push_back([=] { try_establish(s, ip, port, tries); }); return; }
  auto it = w()->listeners.find(port);
  if (s->refs <= 1) { sock_release(s); return; }       // given up meanwhile
  if (it == w()->listeners.end()) { s->conn_result = ECONNREFUSED; changed(); sock_release(s); return; }
  Sock *ls = it->second;
  if (ls->pend.size() > ls->backlog) {
    if (tries > 6) { s->conn_result = ETIMEDOUT; changed(); sock_release(s); return; }
    add_event(vnow() + (1000000000LL << tries), [=] { try_establish(s, ip, port, tries + 1); }); return;
  }
  std::shared_ptr<Conn> c = std::make_shared<Conn>();
  c->id = w()->next_conn++; c->cap = w()->cap; c->ip[0] = s->lip; c->port[0] = s->lport; c->ip[1] = ip; c->port[1] = port;
  w()->port_conns[c->port[0]]++; w()->port_conns[c->port[1]]++; w()->est++;
  s->c = c; s->side = 0; s->conn_result = 0;
  if (s->st == Sock::CONNECTING && false) s->st = Sock::CONNECTED;
  ls->pend.push_back(c);
  trace("[net] conn %d established to port %u", c->id, port);
  changed(); sock_release(s);
}
ssize_t recv(int fd, void *b, size_t n, int f) { if (!active() || !isv(fd)) return sys(SYS_recvfrom, fd, (long)b, n, f, 0, 0); RtScope rs; return do_recv(fd, b, n, f); }
ssize_t send(int fd, const void *b, size_t n, int f) { if (!active() || !isv(fd)) return sys(SYS_sendto, fd, (long)b, n, f, 0, 0); RtScope rs; return do_send(fd, b, n, f); }
ssize_t recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *, socklen_t *) { return recv(fd, b, n, f); }
ssize_t sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *, socklen_t) { return send(fd, b, n, f); }
ssize_t read(int fd, void *b, size_t n) {
  if (!active() || !isv(fd)) { long r = sys(SYS_read, fd, (long)b, n, 0, 0, 0); return r; }
  RtScope rs; if (w()->files.count(fd) && file_read_hook) return file_read_hook(fd, b, n); return do_recv(fd, b, n, 0);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!active() || !isv(fd)) { long r = sys(SYS_write, fd, (long)b, n, 0, 0, 0); return r; }
  RtScope rs; if (w()->files.count(fd) && file_write_hook) return file_write_hook(fd, b, n); return do_send(fd, b, n, 0);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (!active() || !isv(fd)) { long r = sys(SYS_writev, fd, (long)v, n, 0, 0, 0); return r; }
  std::string s; { RtScope rs; for (int i = 0; i < n; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); }
  return write(fd, s.data(), s.size());
}
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (!active() || !isv(fd)) { long r = sys(SYS_readv, fd, (long)v, n, 0, 0, 0); return r; }
  for (int i = 0; i < n; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int f) { std::string s; { RtScope rs; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); } return send(fd, s.data(), s.size(), f); }
ssize_t recvmsg(int fd, struct msghdr *m, int f) { for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return recv(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, f); return 0; }
int close(int fd) {
  if (active() && fd >= 0 && fd < 3) { RtScope rs; sim::fail("close-of-foreign-fd", "close(%d) closes a descriptor that was never opened by the code: the standard streams of the process", fd); }
  if (!active() || !isv(fd)) return real_close(fd);
  RtScope rs; spoint("close");
  if (w()->files.count(fd) && file_close_hook) return file_close_hook(fd);
  auto it = w()->fds.find(fd);
  if (it == w()->fds.end()) { trace("close(%d): EBADF", fd); sim::fail("close-of-closed-fd", "close(%d) on a descriptor that is not open: another thread's descriptor could be hit", fd); }
  Sock *s = it->second; w()->fds.erase(it);
  trace("close(%d)", fd);
  sock_release(s);
  if (flt(sim::K_CLOSEFAIL, 0.1)) { trace("close(%d): EIO", fd); return fail_errno(EIO); }     // closed all the same
  return 0;
}
int shutdown(int fd, int how) {
  if (!active() || !isv(fd)) return sys(SYS_shutdown, fd, how, 0, 0, 0, 0);
  RtScope rs; spoint("shutdown");
  Sock *s = get(fd); if (!s) return fail_errno(EBADF);
  trace("shutdown(%d, %d)", fd, how);
  if (s->st == Sock::LISTEN) { if (how != SHUT_WR) s->shut_rd = true; changed(); return 0; }
  if (s->st != Sock::CONNECTED) return fail_errno(ENOTCONN);
  if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
  if (how == SHUT_WR || how == SHUT_RDWR) { s->shut_wr = true; send_fin(s->c, s->side); }
  changed(); return 0;
}
int setsockopt(int fd, int lev, int opt, const void *v, socklen_t l) {
  if (!active() || !isv(fd)) return sys(SYS_setsockopt, fd, lev, opt, (long)v, l, 0);
  RtScope rs; spoint("setsockopt");
  Sock *s = get(fd); if (!s) return fail_errno(EBADF);
  if (flt(sim::K_EINTR, 0.03)) return fail_errno(EINTR);
  if (flt(sim::K_SOCKFAIL, 0.04)) { trace("setsockopt(%d) fails", fd); return fail_errno(ENOBUFS); }
  if (lev == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) {
    if (l < sizeof(struct timeval)) return fail_errno(EINVAL);
    const struct timeval *tv = (const struct timeval *)v;
    if (tv->tv_usec < 0 || tv->tv_usec >= 1000000) return fail_errno(EDOM);
    int64_t ns = tv->tv_sec < 0 ? 0 : tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL;
    (opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo) = ns; trace("timeout(%d) %s %lld us", fd, opt == SO_RCVTIMEO ? "recv" : "send", (long long)ns / 1000);
    return 0;
  }
  if (l < sizeof(int)) return fail_errno(EINVAL);
  if (lev == SOL_SOCKET && opt == SO_REUSEADDR) s->reuse = *(const int *)v != 0;
  if (lev == SOL_SOCKET && opt == SO_LINGER) { const struct linger *g = (const struct linger *)v; s->linger = g->l_onoff; s->linger_s = g->l_linger; }
  s->opts[std::make_pair(lev, opt)] = *(const int *)v;
  return 0;
}
int getsockopt(int fd, int lev, int opt, void *v, socklen_t *l) {
  if (!active() || !isv(fd)) return sys(SYS_getsockopt, fd, lev, opt, (long)v, (long)l, 0);
  RtScope rs; spoint("getsockopt");
  Sock *s = get(fd); if (!s) return fail_errno(EBADF);
  if (lev == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) { int64_t ns = opt == SO_RCVTIMEO ? s->rcvtimeo : s->sndtimeo; struct timeval tv = {(time_t)(ns / 1000000000), (suseconds_t)(ns % 1000000000 / 1000)}; memcpy(v, &tv, sizeof tv); *l = sizeof tv; return 0; }
  int r = 0;
  if (lev == SOL_SOCKET && opt == SO_ERROR) { if (s->c) { r = s->c->err[s->side]; s->c->err[s->side] = 0; } else if (s->conn_result > 0) r = s->conn_result; }
  else { auto it = s->opts.find(std::make_pair(lev, opt)); if (it != s->opts.end()) r = it->second; }
  memcpy(v, &r, sizeof r); *l = sizeof r; return 0;
}
static int name_impl(int fd, struct sockaddr *a, socklen_t *l, bool peer) {
  RtScope rs; spoint("getname");
  Sock *s = get(fd); if (!s) return fail_errno(EBADF);
  if (!peer && flt(sim::K_SOCKFAIL, 0.03)) return fail_errno(ENOBUFS);
  sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET;
  if (peer) { if (s->st != Sock::CONNECTED) return fail_errno(ENOTCONN); in.sin_addr.s_addr = s->c->ip[1 - s->side]; in.sin_port = htons(s->c->port[1 - s->side]); }
  else { in.sin_addr.s_addr = s->lip; in.sin_port = htons(s->lport); }
  memcpy(a, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) { if (!active() || !isv(fd)) return sys(SYS_getsockname, fd, (long)a, (long)l, 0, 0, 0); return name_impl(fd, a, l, false); }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) { if (!active() || !isv(fd)) return sys(SYS_getpeername, fd, (long)a, (long)l, 0, 0, 0); return name_impl(fd, a, l, true); }
static int poll_once(struct pollfd *p, nfds_t n) {
  int r = 0;
  for (nfds_t i = 0; i < n; i++) {
    p[i].revents = 0; if (p[i].fd < 0) continue;
    auto it = w()->fds.find(p[i].fd); if (it == w()->fds.end()) { p[i].revents = POLLNVAL; r++; continue; }
    Sock *s = it->second; short e = 0;
    if (s->st == Sock::LISTEN) { if (!s->pend.empty()) e |= POLLIN; }
    else if (s->st == Sock::CONNECTED || s->conn_result >= 0) {
      if (s->conn_result > 0) e |= POLLERR | POLLOUT | POLLIN;
      else if (s->c) { Dir &in = s->c->d[1 - s->side], &out = s->c->d[s->side];
        if (in.unread() || in.fin || s->c->dead[s->side] || s->shut_rd) e |= POLLIN; if (s->c->dead[s->side]) e |= POLLERR | POLLHUP;
        if (out.flight + out.unread() < s->c->cap) e |= POLLOUT; } }
    e &= p[i].events | POLLERR | POLLHUP; p[i].revents = e; if (e) r++;
  }
  return r;
}
int poll(struct pollfd *p, nfds_t n, int ms) {
  if (!active()) return sys(SYS_poll, (long)p, n, ms, 0, 0, 0);
  RtScope rs; spoint("poll");
  int64_t dl = ms < 0 ? -1 : vnow() + ms * 1000000LL;
  if (flt(sim::K_EINTR, 0.05)) return fail_errno(EINTR);
  for (;;) { int r = poll_once(p, n); if (r) return r; if (ms == 0) return 0; if (!net_wait(dl)) return 0; }
}
int select(int n, fd_set *r, fd_set *wr, fd_set *ex, struct timeval *tv) {
  if (!active()) return sys(SYS_select, n, (long)r, (long)wr, (long)ex, (long)tv, 0);
  std::vector<struct pollfd> v; { RtScope rs; for (int i = 0; i < n; i++) { struct pollfd p = {i, 0, 0}; if (r && FD_ISSET(i, r)) p.events |= POLLIN; if (wr && FD_ISSET(i, wr)) p.events |= POLLOUT; if (p.events) v.push_back(p); } }
  int k = poll(v.data(), v.size(), tv ? (int)(tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000) : -1);
  if (k < 0) return k;
  RtScope rs; if (r) FD_ZERO(r); if (wr) FD_ZERO(wr); if (ex) FD_ZERO(ex); int c = 0;
  for (auto &p : v) { if (r && (p.revents & (POLLIN | POLLHUP | POLLERR)) && (p.events & POLLIN)) { FD_SET(p.fd, r); c++; } if (wr && (p.revents & (POLLOUT | POLLERR)) && (p.events & POLLOUT)) { FD_SET(p.fd, wr); c++; } }
  return c;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (!active() || !isv(fd)) { long r = sys(SYS_fcntl, fd, cmd, a, 0, 0, 0); return r; }
  RtScope rs; auto it = w()->fds.find(fd); if (it == w()->fds.end()) { if (w()->files.count(fd)) return 0; return fail_errno(EBADF); }
  if (cmd == F_GETFL) return O_RDWR | (it->second->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { it->second->nonblock = (a & O_NONBLOCK) != 0; return 0; }
  return 0;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap);
  if (!active() || !isv(fd)) { long r = sys(SYS_ioctl, fd, rq, (long)a, 0, 0, 0); return r; }
  RtScope rs; Sock *s = get(fd); if (!s) return fail_errno(EBADF);
  if (rq == FIONREAD) { *(int *)a = s->c ? s->c->d[1 - s->side].unread() : 0; return 0; }
  if (rq == FIONBIO) { s->nonblock = *(int *)a != 0; return 0; }
  return fail_errno(EINVAL);
}
int ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const sigset_t *) { return poll(f, n, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1); }
int pselect(int n, fd_set *r, fd_set *w_, fd_set *x, const struct timespec *ts, const sigset_t *) { struct timeval tv; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = (ts->tv_nsec + 999) / 1000; } return select(n, r, w_, x, ts ? &tv : NULL); }
typedef void (*sigh)(int);
sigh signal(int sig, sigh h) {
  if (cur && sig == SIGPIPE) { RtScope rs; sigh o = w()->sigpipe_ignored ? SIG_IGN : SIG_DFL; w()->sigpipe_ignored = h == SIG_IGN || (h != SIG_DFL); return o; }
  struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = SA_RESTART; if (sigaction(sig, &a, &o)) return SIG_ERR; return o.sa_handler;
}
int sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
  if (cur && sig == SIGPIPE && a) { RtScope rs; if (o) { memset(o, 0, sizeof *o); o->sa_handler = w()->sigpipe_ignored ? SIG_IGN : SIG_DFL; } w()->sigpipe_ignored = a->sa_handler != SIG_DFL; return 0; }
  static int (*f)(int, const struct sigaction *, struct sigaction *) = NULL; if (!f) { RtScope rs; f = (decltype(f))dlsym(RTLD_NEXT, "sigaction"); }
  return f(sig, a, o);
}
// ---- resolver ----------------------------------------------------------------
static bool numeric(const char *s, uint32_t *ip) { struct in_addr a; if (inet_pton(AF_INET, s, &a) == 1) { *ip = a.s_addr; return true; } return false; }
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *hints, struct addrinfo **res) {
  if (!active()) return EAI_FAIL;
  RtScope rs; spoint("getaddrinfo");
  std::string n = node ? node : "";
  w()->lookups[n]++;
  trace("getaddrinfo(%s)", n.c_str());
  if (flt(sim::K_DNSFAIL, 0.15)) { trace("getaddrinfo fails"); return choose(sim::K_DNSFAIL, 2) ? EAI_NONAME : EAI_AGAIN; }
  int port = svc ? atoi(svc) : 0; std::vector<uint32_t> ips; uint32_t ip;
  if (numeric(n.c_str(), &ip)) ips.push_back(ip);
  else {
    std::vector<std::string> at_query; bool found = false;
    if (n == "localhost") { at_query.push_back("127.0.0.1"); found = true; }
    auto it = w()->hosts.find(n); if (it != w()->hosts.end()) { at_query = it->second; found = true; }
    if (w()->lookup_delay) block(NULL, W_SLEEP, vnow() + w()->lookup_delay);
    if (!found) return EAI_NONAME;
    for (auto &s : at_query) if (numeric(s.c_str(), &ip)) ips.push_back(ip);
    if (ips.empty()) return EAI_NONAME;
  }
  struct addrinfo *head = NULL, **tail = &head;
  // as the C library does: every socket type when none is asked for, and IPv6 answers when the family is left open
  int copies = hints && hints->ai_socktype ? 1 : 3; std::vector<uint32_t> all; for (auto x : ips) for (int k = 0; k < copies; k++) all.push_back(x);
  if (!hints || hints->ai_family == AF_UNSPEC || hints->ai_family == AF_INET6) {
    struct addrinfo *ai = (struct addrinfo *)calloc(1, sizeof(struct addrinfo) + sizeof(sockaddr_in6)); sockaddr_in6 *in = (sockaddr_in6 *)(ai + 1); in->sin6_family = AF_INET6; in->sin6_addr.s6_addr[15] = 1; in->sin6_port = htons(port);
    ai->ai_family = AF_INET6; ai->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM; ai->ai_addr = (struct sockaddr *)in; ai->ai_addrlen = sizeof *in; *tail = ai; tail = &ai->ai_next;
  }
  if (hints && hints->ai_family == AF_INET6) all.clear();
  for (auto x : all) {
    struct addrinfo *ai = (struct addrinfo *)calloc(1, sizeof(struct addrinfo) + sizeof(sockaddr_in)); sockaddr_in *in = (sockaddr_in *)(ai + 1);
    in->sin_family = AF_INET; in->sin_addr.s_addr = x; in->sin_port = htons(port);
    ai->ai_family = AF_INET; ai->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM; ai->ai_addr = (struct sockaddr *)in; ai->ai_addrlen = sizeof *in; *tail = ai; tail = &ai->ai_next;
  }
  w()->addrlists++; *res = head; return 0;
}
void freeaddrinfo(struct addrinfo *a) { bool in = active(); RtScope rs; if (a && in) w()->addrlists--; while (a) { struct addrinfo *n = a->ai_next; free(a); a = n; } }
int getnameinfo(const struct sockaddr *a, socklen_t, char *h, socklen_t hl, char *s, socklen_t sl, int) {
  RtScope rs; const sockaddr_in *in = (const sockaddr_in *)a;
  if (a->sa_family == AF_INET6) { if (h && hl && !inet_ntop(AF_INET6, &((const sockaddr_in6 *)a)->sin6_addr, h, hl)) return EAI_OVERFLOW; if (s && sl) snprintf(s, sl, "%u", ntohs(in->sin_port)); return 0; }
  if (h && hl) { if (!inet_ntop(AF_INET, &in->sin_addr, h, hl)) return EAI_OVERFLOW; }
  if (s && sl) snprintf(s, sl, "%u", ntohs(in->sin_port));
  return 0;
}
}

namespace sim { namespace net {
int open_fds() { RtScope rs; return w()->fds.size() + w()->files.size(); }
int open_socks() { return w()->live; }
int addr_lists() { return w()->addrlists; }
uint64_t ebadf_uses() { return w()->ebadf; }
void host(const std::string &n, const std::vector<std::string> &ips) { RtScope rs; w()->hosts[std::string(n.c_str())] = ips; for (auto &i : ips) w()->up[i] = true; }
void unhost(const std::string &n) { RtScope rs; w()->hosts.erase(n); }
uint64_t lookups(const std::string &n) { RtScope rs; auto it = w()->lookups.find(n); return it == w()->lookups.end() ? 0 : it->second; }
void lookup_delay(int64_t ns) { w()->lookup_delay = ns; }
void ip_up(const std::string &ip) { RtScope rs; w()->up[std::string(ip.c_str())] = true; }
void buffer_limit(size_t b) { w()->cap = b; }
void latency(bool r) { w()->rnd_latency = r; }
void fd_limit(int n) { w()->fd_limit = n; }
void partition(bool on) { RtScope rs; w()->part = on; trace("[net] partition %s", on ? "starts" : "heals"); if (!on) { std::vector<std::function<void()> > h; h.swap(w()->held); for (auto &f : h) f(); } }
Outside::Outside() { RtScope rs; OutsideFlag::m()[cur->id]++; }
Outside::~Outside() { RtScope rs; OutsideFlag::m()[cur->id]--; }
uint64_t conns_established() { return w()->est; }
uint64_t resets() { return w()->rsts; }
uint64_t lib_sent() { return w()->lib_sent; }
uint64_t lib_recvd() { return w()->lib_recvd; }
void refuse(const std::string &ip, int e) { RtScope rs; w()->refuse[std::string(ip.c_str())] = e; }
std::vector<std::string> tried() { std::vector<std::string> v; for (size_t i = 0; i < w()->tried.size(); i++) v.push_back(std::string(w()->tried[i].c_str())); return v; }
int raw_listen(int port, int backlog) {
  Outside o; int fd = ::socket(AF_INET, SOCK_STREAM, 0); int one = 1; ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
  sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(port);
  if (::bind(fd, (sockaddr *)&in, sizeof in) || ::listen(fd, backlog)) { ::close(fd); return -1; } return fd;
}
int raw_accept(int fd) { Outside o; return ::accept(fd, NULL, NULL); }
int raw_connect(int port, const char *ip) {
  Outside o; int fd = ::socket(AF_INET, SOCK_STREAM, 0); if (fd < 0) return -1; sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(port); inet_pton(AF_INET, ip, &in.sin_addr);
  if (::connect(fd, (sockaddr *)&in, sizeof in)) { ::close(fd); return -1; } return fd;
}
bool raw_send(int fd, const std::string &s) { Outside o; size_t n = 0; while (n < s.size()) { ssize_t k = ::send(fd, s.data() + n, s.size() - n, MSG_NOSIGNAL); if (k <= 0) return false; n += k; } return true; }
std::string raw_recv(int fd, size_t max) { Outside o; std::vector<char> b(max); ssize_t k = ::recv(fd, b.data(), max, 0); return k > 0 ? std::string(b.data(), k) : std::string(); }
std::string raw_recv_n(int fd, size_t n) { std::string r; while (r.size() < n) { std::string p = raw_recv(fd, n - r.size()); if (p.empty()) break; r += p; } return r; }
std::string raw_recv_all(int fd) { std::string r; for (;;) { std::string p = raw_recv(fd, 65536); if (p.empty()) return r; r += p; } }
void raw_close(int fd) { Outside o; if (fd >= 0) ::close(fd); }
void raw_reset(int fd) { Outside o; if (fd < 0) return; { RtScope rs; auto it = w()->fds.find(fd); if (it != w()->fds.end() && it->second->c && it->second->st == Sock::CONNECTED) close_side(it->second->c, it->second->side, true); } ::close(fd); }
void raw_half_close(int fd) { Outside o; ::shutdown(fd, SHUT_WR); }
} }
