// C21: HTTP messages over sockets: what is sent is what is parsed, bodies end exactly where they end.
#include "netcommon.h"
#include <sstream>
#include <memory>
#include "network/http.h"
using namespace pfi::network;
typedef pfi::lang::shared_ptr<stream_socket> Sock;
namespace {
typedef std::vector<std::pair<std::string, std::string> > HV;
struct Msg { std::string method, path; int code; std::string reason; std::pair<int, int> ver; HV head; std::string body; bool has_len; };
std::string token(int i) { static const char *t[] = {"X-A", "x-b", "Accept", "Cookie", "X-Long-Header-Name", "Z", "Host", "User-Agent"}; return t[i]; }
std::string value() { static const char *t[] = {"v", "some value", "a:b;c=\"d\"", "http://h:80/?x=y", "", "tab\there", "0", "trail:", "some longer value in several words"}; int k = sim::rnd(10); return k < 9 ? t[k] : nc::bytes(sim::rnd(3) ? 50 : 2000, sim::rnd(1000), 9 /*0xff*/).replace(0, 1, "L"); }
HV headers() { HV h; int n = sim::rnd(5); int at = sim::rnd(8); for (int i = 0; i < n; i++) h.push_back(std::make_pair(token((at + i) % 8), value())); return h; }
std::string body() { return nc::bytes(nc::some_size(), sim::rnd(100000), sim::rnd(4)); }
Msg plan(bool last) {
  Msg m; static const char *me[] = {"GET", "POST", "PUT", "X"}, *pa[] = {"/", "/a/b.html", "/x?q=1&r=%20", "http://host:8080/p"}, *re[] = {"OK", "Not Found", "", "I am a teapot 2"}; static const int co[] = {200, 404, 302, 999};
  m.method = me[sim::rnd(4)]; m.path = pa[sim::rnd(4)]; m.code = co[sim::rnd(4)]; m.reason = re[sim::rnd(4)]; m.ver = std::make_pair(1, (int)sim::rnd(2)); if (sim::rnd(8) == 0) m.ver = std::make_pair((int)sim::rnd(12), (int)sim::rnd(30)); m.head = headers(); m.body = body(); (void)last; return m;
}
bool known_header(const std::string &k) { for (int i = 0; i < 8; i++) if (token(i) == k) return true; return false; }
std::string blank(const std::string &v) { if (v.compare(0, 4, "some") != 0) return v; std::string r; for (char c : v) if (c != ' ' && c != '\t') r += c; else if (!r.empty() && r[r.size() - 1] != ' ') r += ' '; return r; }   // a folded line may show as tabs or blanks
template <class M> void check_head(M &m, const HV &want, const char *what) {
  for (size_t i = 0; i < want.size(); i++) { SIM_CHECK(m.head().has_key(want[i].first), "header", "%s: header %s is missing", what, want[i].first.c_str()); SIM_CHECK(blank(m.head()[want[i].first]) == blank(want[i].second), "header", "%s: header %s is '%s', sent '%s'", what, want[i].first.c_str(), nc::show(m.head()[want[i].first]).c_str(), nc::show(want[i].second).c_str()); }
  size_t n = 0; for (http::header::iterator p = m.head().begin(); p != m.head().end(); ++p) if (known_header(p->first)) { SIM_CHECK(n < want.size() && want[n].first == p->first, "header", "%s: unexpected header %s", what, p->first.c_str()); n++; }
}
template <class M> void gone(M &m) { if (sim::rnd(3)) return; m.head()["X-Gone"] = "g"; if (sim::coin()) m.head()["X-After"] = "a"; m.head().erase(sim::coin() ? "X-Gone" : "x-gone"); }     // set, then taken back before sending
template <class M> void not_there(M &m) { SIM_CHECK(!m.head().has_key("X-Gone"), "header", "a header that was taken back arrives"); }
int last_how;
std::string read_body(std::istream &is) {
  std::string r; int how = sim::rnd(4); last_how = how;
  if (how == 0) { std::stringstream ss; ss << is.rdbuf(); return ss.str(); }
  if (how == 1) { int c; while ((c = is.get()) != EOF) { SIM_CHECK(c >= 0 && c < 256, "body", "get() returned %d", c); r += (char)c; } return r; }
  if (how == 2) { for (;;) { char b[300]; is.read(b, 1 + sim::rnd(300)); r.append(b, is.gcount()); if (!is) return r; } }
  for (;;) { int c = is.peek(); if (c == EOF) return r; SIM_CHECK(c >= 0 && c < 256, "body", "peek() returned %d", c); int d = is.get(); SIM_CHECK(c == d, "body", "peek() %d, then get() %d", c, d); r += (char)d; }
}
void check_body(const std::string &got, const std::string &want, const char *what) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; SIM_CHECK(got == want, "body", "%s: body of %zu bytes arrives as %zu bytes, first difference at %zu (byte 0x%02x)", what, want.size(), got.size(), i, i < want.size() ? (unsigned char)want[i] : 0); }
// library on both sides, several messages on one connection
SCENARIO(C21, exchange, 6) {
  nc::swarm(); int n = 1 + sim::rnd(3); std::vector<Msg> rq, rs; for (int i = 0; i < n; i++) { rq.push_back(plan(false)); rs.push_back(plan(false)); }
  sim::set_hang_id("http-hang", "an HTTP exchange does not end:");
  server_socket ls; SIM_CHECK(ls.create(8080), "setup", "listen");
  auto fill = [](std::iostream &b, const Msg &m) { b.write(m.body.data(), m.body.size()); };
  // a body may also be written after the head was sent, with its length stated before, or (last answer) until the end of the connection
  std::vector<int> qs, as; for (int i = 0; i < n; i++) { qs.push_back(rq[i].body.empty() || sim::rnd(4) ? 0 : 1); as.push_back(sim::rnd(4) ? 0 : i == n - 1 && sim::coin() ? 2 : rs[i].body.empty() ? 0 : 1); }
  auto after = [&](std::iostream &b, const Msg &m) { size_t at = 0; while (at < m.body.size()) { size_t k = std::min<size_t>(m.body.size() - at, 1 + sim::rnd(5000)); b.write(m.body.data() + at, k); at += k; if (sim::rnd(3) == 0) b.flush(); } b.flush(); SIM_CHECK(b.good(), "stream", "writing a body to a healthy connection fails"); };
  sim::go([&] {
    Sock s(ls.accept()); SIM_CHECK(s.get(), "setup", "accept");
    for (int i = 0; i < n; i++) {
      const Msg &q = rq[i], &p = rs[i]; http::request r(s);
      SIM_CHECK(r.method() == q.method && r.version() == q.ver, "request-line", "request line '%s' %d.%d, sent '%s' %d.%d", r.method().c_str(), r.version().first, r.version().second, q.method.c_str(), q.ver.first, q.ver.second);
      SIM_CHECK(pfi::lang::lexical_cast<std::string>(r.path()) == pfi::lang::lexical_cast<std::string>(uri(q.path)), "request-line", "request for '%s' arrives as '%s'", q.path.c_str(), pfi::lang::lexical_cast<std::string>(r.path()).c_str());
      check_head(r, q.head, "request"); not_there(r); check_body(read_body(r.body()), q.body, "request");
      http::response a(p.code, p.reason, p.ver.first, p.ver.second); for (size_t k = 0; k < p.head.size(); k++) a.head()[p.head[k].first] = p.head[k].second; gone(a); if (as[i] == 1 || (p.body.empty() && !as[i])) a.head()["Content-Length"] = sim::fmt("%zu", p.body.size()); if (!as[i]) fill(a.body(), p); a.send(s); if (as[i]) after(a.body(), p);
    }
  });
  sim::go([&] {
    Sock s(new stream_socket()); SIM_CHECK(s->connect("127.0.0.1", 8080), "setup", "connect");
    for (int i = 0; i < n; i++) {
      const Msg &q = rq[i], &p = rs[i]; http::request r(q.method, uri(q.path), q.ver.first, q.ver.second); for (size_t k = 0; k < q.head.size(); k++) r.head()[q.head[k].first] = q.head[k].second; gone(r); if (qs[i] || q.body.empty()) r.head()["Content-Length"] = sim::fmt("%zu", q.body.size()); if (!qs[i]) fill(r.body(), q); r.send(s); if (qs[i]) after(r.body(), q);
      http::response a(s);
      SIM_CHECK(a.code() == p.code && a.version() == p.ver && a.reason() == p.reason, "status-line", "status line %d '%s', sent %d '%s'", a.code(), a.reason().c_str(), p.code, p.reason.c_str());
      check_head(a, p.head, "response"); not_there(a); check_body(read_body(a.body()), p.body, "response");
    }
  });
  sim::join_all(); sim::cover(n * 100 + std::min<size_t>(rq[0].body.size(), 99));
}
// the wire format written here, with everything it allows: chunks, extensions, trailers, folded headers
std::string chunked(const std::string &b) {
  std::string r; size_t at = 0; bool first = true; std::string ext = sim::coin() ? ";ext=1" : "", nl = sim::rnd(4) ? "\r\n" : "\n";
  while (at < b.size()) { size_t k = 1 + sim::rnd(b.size() - at > 40 ? (sim::coin() ? 40 : 9000) : b.size() - at); if (k > b.size() - at) k = b.size() - at; r += sim::fmt(first && sim::coin() ? "%zX" : sim::coin() ? "%04zx" : "%zx", k) + ext + nl + b.substr(at, k) + nl; at += k; first = false; }
  r += std::string(sim::coin() ? "0" : "000") + nl; for (int t = sim::rnd(3) ? 0 : 1 + sim::rnd(3); t > 0; t--) r += "X-Trailer: t" + nl; return r + nl;
}
struct Wire { Msg m; std::string bytes; int mode; };   // mode 0 length, 1 chunked, 2 until close
Wire wire(bool request, bool last) {
  Wire w; w.m = plan(last); w.mode = sim::rnd(last ? 3 : 2); std::string eol = sim::rnd(4) ? "\r\n" : "\n"; Msg &m = w.m;
  std::string s = request ? m.method + " " + m.path + sim::fmt(sim::rnd(6) ? " HTTP/%d.%d" : " http/%d.%d", m.ver.first, m.ver.second) + eol : sim::fmt(sim::rnd(6) ? "HTTP/%d.%d %d " : "Http/%d.%d %d ", m.ver.first, m.ver.second, m.code) + m.reason + eol;
  for (size_t i = 0; i < m.head.size(); i++) { std::string v = m.head[i].second; if (v.compare(0, 5, "some ") == 0 && sim::coin()) { std::string f; for (char c : v) if (c == ' ' && sim::coin()) { static const char *ws[] = {" ", "\t", "  ", " \t "}; f += (sim::rnd(4) ? "" : " ") + eol + ws[sim::rnd(4)]; } else f += c; v = f; } s += m.head[i].first + (sim::rnd(4) ? ":" : " :") + (v.empty() || sim::coin() ? " " : "  ") + v + eol; }
  if (w.mode == 0) s += (sim::coin() ? "Content-Length: " : "content-length:") + sim::fmt("%zu", m.body.size()) + eol; if (w.mode == 1) s += (sim::coin() ? "Transfer-Encoding: chunked" : "transfer-encoding: Chunked") + eol;
  s += eol; w.bytes = s + (w.mode == 1 ? chunked(m.body) : m.body); return w;
}
SCENARIO(C21, wire, 6) {
  nc::swarm(); bool request = sim::coin(); int n = 1 + sim::rnd(3); std::vector<Wire> ws; std::string all; for (int i = 0; i < n; i++) { ws.push_back(wire(request, i == n - 1)); all += ws[i].bytes; }
  sim::set_hang_id("http-hang", "reading HTTP messages does not end:");
  server_socket ls; SIM_CHECK(ls.create(8080), "setup", "listen"); bool parsed = false, close_early = ws[n - 1].mode == 2 || sim::coin();
  sim::go([&] { int fd = sim::net::raw_connect(8080); sim::net::raw_send(fd, all); if (close_early) sim::net::raw_half_close(fd); else while (!parsed) sim::sleep_ns(50000000); sim::net::raw_recv_all(fd); sim::net::raw_close(fd); });
  sim::go([&] {
    { Sock s(ls.accept());
    for (int i = 0; i < n; i++) {
      Msg &m = ws[i].m; const char *what = ws[i].mode == 0 ? "message with a length" : ws[i].mode == 1 ? "chunked message" : "message until close";
      if (request) { http::request r(s); SIM_CHECK(r.method() == m.method && r.version() == m.ver, "request-line", "request line '%s'", r.method().c_str()); check_head(r, m.head, what); check_body(read_body(r.body()), m.body, what); }
      else { http::response r(s); SIM_CHECK(r.code() == m.code && r.reason() == m.reason && r.version() == m.ver, "status-line", "status line %d '%s', sent %d '%s'", r.code(), r.reason().c_str(), m.code, m.reason.c_str()); check_head(r, m.head, what); check_body(read_body(r.body()), m.body, what); }
    } sim::Atomic a; parsed = true; }
  });
  sim::join_all(); SIM_CHECK(sim::net::open_fds() == 1, "fd-leak", "%d descriptors left open", sim::net::open_fds() - 1);
  sim::cover(request * 1000 + ws[0].mode * 100 + ws[n - 1].mode * 10 + n);
}
// cut, corrupted and hostile messages
SCENARIO(C21, hostile, 5) {
  nc::swarm(); bool request = sim::coin(); Wire w = wire(request, true); std::string s = w.bytes; int how = sim::rnd(8); size_t cut = s.size(), start = s.find('\n') + 1; bool exact = false, malformed = false, refused = false;
  static const char *lens[] = {"-5", "-1", "99999999999999999999", "9223372036854775807", "abc", "5x", "", "0x10", "18446744073709551615"}, *chunks[] = {"-5", "-1", "ffffffff", "7fffffff", "80000000", "zz", "", "fffffffffffffffffff", "-7fffffff"};
  std::string line = request ? "POST / HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n"; std::string b = nc::bytes(sim::rnd(200), 7, 0);
  switch (how) {
    case 0: case 1: cut = sim::rnd(s.size() + 1); s = s.substr(0, cut); exact = true; break;
    case 2: s[sim::rnd(s.size())] ^= 1 << sim::rnd(8); break;
    case 3: s = nc::bytes(sim::rnd(200), sim::rnd(10000), sim::rnd(4)); break;
    case 4: s = line + "Content-Length: " + lens[sim::rnd(9)] + "\r\n\r\n" + b; break;
    case 5: { static const char *f[] = {"3\r\nabcX\r\n0\r\n\r\n", "3\r\nabcd\r\n0\r\n\r\n", "3\r\nabc\rX\n0\r\n\r\n", "3\r\nabc 0\r\n\r\n", "2\r\nabc\r\n0\r\n\r\n"}; malformed = true; s = line + "Transfer-Encoding: chunked\r\n\r\n" + f[sim::rnd(5)]; b = "abcd"; break; }
    case 6: { static const char *q[] = {"GET / XTTP/1.1", "GET / HTTP/", "GET /", "GET", "", "GET / HTTP/x.y", "GET / 1.1"}, *a[] = {"XTTP/1.1 200 OK", "HTTP/ 200 OK", "200 OK", "", "HTTP/x.y 200 OK", "1.1 200 OK", "ICY 200 OK"}; refused = true; s = std::string(request ? q[sim::rnd(7)] : a[sim::rnd(7)]) + "\r\nContent-Length: 3\r\n\r\nabc"; break; }
    default: { int c = sim::rnd(9); malformed = c != 3; s = line + "Transfer-Encoding: chunked\r\n\r\n" + (sim::coin() ? "3\r\nabc\r\n" : "") + chunks[c] + "\r\n" + b; break; }
  }
  sim::set_hang_id("http-hang", "reading a broken HTTP message does not end:"); sim::reset_max_alloc();
  server_socket ls; SIM_CHECK(ls.create(8080), "setup", "listen"); int end = sim::rnd(2);
  sim::go([&] { int fd = sim::net::raw_connect(8080); sim::net::raw_send(fd, s); if (end) { sim::net::raw_half_close(fd); sim::net::raw_recv_all(fd); sim::net::raw_close(fd); } else { sim::sleep_ns(400000000); sim::net::raw_reset(fd); } });
  sim::go([&] {
    Sock k(ls.accept()); bool threw = false, bad = false; std::string got;
    try { if (request) { http::request r(k); got = read_body(r.body()); bad = last_how == 0 || r.body().bad(); } else { http::response r(k); got = read_body(r.body()); bad = last_how == 0 || r.body().bad(); } } catch (const std::exception &) { threw = true; }
    if (exact && !threw) { SIM_CHECK(w.m.body.compare(0, got.size(), got) == 0 && got.size() <= w.m.body.size(), "body", "a message cut after %zu of %zu bytes yields bytes that were not sent", cut, w.bytes.size()); }
    if (how == 7 && !threw) SIM_CHECK(got == "" || got == "abc" || got.size() <= b.size() + 3, "body", "a body of %zu bytes from %zu", got.size(), s.size());
    if (malformed && end && !threw) SIM_CHECK(bad, "error-hidden", "a body with a malformed chunk ends as if it were complete");
    if (exact && cut <= start) SIM_CHECK(threw, "error-hidden", "a message cut after %zu bytes, in its start line, is taken for a message", cut);
    if (refused) SIM_CHECK(threw, "error-hidden", "a message with the start line '%s' is accepted", s.substr(0, s.find('\r')).c_str());
    SIM_CHECK(got.size() <= s.size(), "body", "%zu bytes became a body of %zu bytes", s.size(), got.size());
  });
  sim::join_all(); SIM_CHECK(sim::max_alloc() < 300000, "memory", "%zu bytes made the process allocate %llu bytes at once", s.size(), (unsigned long long)sim::max_alloc());
  sim::cover(how * 1000 + std::min<size_t>(s.size(), 300));
}
// sending over a connection that breaks: no exception means everything was handed over
SCENARIO(C21, send_fails, 3) {
  nc::swarm(); nc::volume = 2; Msg m = plan(true); bool small = sim::coin(), request = sim::coin(); m.body = nc::bytes(small ? sim::rnd(300) : 5000 + sim::rnd(30000), 3, 0); if (sim::rnd(4) == 0) m.body = ""; size_t pad = sim::coin() ? 0 : 8192 * (1 + sim::rnd(2)) - (request ? m.method.size() + m.path.size() + 12 : m.reason.size() + 15) - 9 - sim::rnd(5);   // the head ends about where a buffer does
   sim::net::buffer_limit(2000 + sim::rnd(60000)); size_t take = sim::rnd(3) == 0 ? 0 : sim::rnd(40000); bool rst = sim::coin();
  server_socket ls; SIM_CHECK(ls.create(8080), "setup", "listen"); sim::set_hang_id("http-hang", "sending does not end:"); std::string got; bool ok = false, gone = false, wait = small && sim::coin(); uint64_t sent = 0;
  sim::go([&] { int fd = sim::net::raw_connect(8080); if (!wait) got = sim::net::raw_recv_n(fd, take); if (rst) sim::net::raw_reset(fd); else sim::net::raw_close(fd); gone = true; });
  sim::go([&] { Sock s(ls.accept()); while (wait && !gone) sim::sleep_ns(1000000); if (wait) sim::sleep_ns((int64_t)sim::rnd(3) * 1000000000);
    try { if (request) { http::request r(m.method, uri(m.path)); if (pad) r.head()["X-Pad"] = std::string(pad, 'p'); r.body().write(m.body.data(), m.body.size()); r.send(s); } else { http::response r(m.code, m.reason); if (pad) r.head()["X-Pad"] = std::string(pad, 'p'); r.body().write(m.body.data(), m.body.size()); r.send(s); } ok = true; } catch (const http::http_exception &) { } sent = sim::net::lib_sent(); });
  sim::join_all();
  if (ok) SIM_CHECK(sent >= m.body.size() + 13 + (pad ? pad + 8 : 0), "send-lies", "send returned, but only %llu bytes of a message with headers of %zu and a body of %zu were handed over", (unsigned long long)sent, pad, m.body.size());
  sim::cover(ok * 10 + rst + (pad > 0) * 100);
}
// download through httpstream
SCENARIO(C21, httpstream, 3) {
  nc::swarm(); std::string ips = "127.0.0.1"; sim::net::host("www.example", std::vector<std::string>(1, ips)); Wire w = wire(false, true); int l = sim::net::raw_listen(8081); std::string req; bool nobody = sim::rnd(6) == 0; sim::set_hang_id("http-hang", "a download does not end:"); bool user = sim::coin();
  if (!nobody) sim::go([&] { int fd = sim::net::raw_accept(l); while (req.find("\r\n\r\n") == std::string::npos) { std::string p = sim::net::raw_recv(fd, 500); if (p.empty()) break; req += p; } sim::net::raw_send(fd, w.bytes); sim::net::raw_half_close(fd); sim::net::raw_recv_all(fd); sim::net::raw_close(fd); });
  sim::go([&] {
    bool threw = false;
    try { http::httpstream hs(std::string("http://") + (user ? "u:p@" : "") + "www.example:" + (nobody ? "8082" : "8081") + "/dir/file?x=1"); for (size_t i = 0; i < w.m.head.size(); i++) SIM_CHECK(blank(hs.head()[w.m.head[i].first]) == blank(w.m.head[i].second), "header", "header %s", w.m.head[i].first.c_str()); check_body(read_body(hs), w.m.body, "download"); } catch (const http::http_exception &) { threw = true; }
    SIM_CHECK(threw == nobody, "download", nobody ? "no exception although nobody listens" : "an exception for a good download");
  });
  sim::join_all(); if (!nobody) { SIM_CHECK(req.compare(0, 4, "GET ") == 0 && req.find("/dir/file?x=1 HTTP/1.1\r\n") != std::string::npos && req.find("\r\nHost: www.example\r\n") != std::string::npos, "request-line", "the request is '%s'", nc::show(req, 100).c_str()); SIM_CHECK(!user || req.find("Authorization: Basic dTpw\r\n") != std::string::npos, "request-line", "no or wrong credentials in '%s'", nc::show(req, 200).c_str()); }
  sim::net::raw_close(l); SIM_CHECK(sim::net::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::net::open_fds());
}
}
