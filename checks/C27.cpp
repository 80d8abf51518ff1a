// C27: FastCGI and plain CGI programs: every request once, with its own data, however requests end.
#include "cgicommon.h"
#include "network/cgi/fcgi.h"
#include "network/cgi/cgi.h"
#include <fcgiapp.h>
extern char **environ;
namespace {
// the web server and the FastCGI library, as seen by the program
struct Req { Plan p; std::vector<std::string> env; std::vector<char *> envp; std::string in; size_t at; std::string out, err; int64_t quota; bool open, whole, toolong, bad; Req() : at(0), quota(-1), open(false), whole(true), toolong(false), bad(false) { } };
std::vector<Req> reqs; int cur_req, accept_end; FCGX_Stream sin_, sout_, serr_; bool is_cgi; char *no_env[1];
Req *at() { SIM_CHECK(cur_req >= 0 && cur_req < (int)reqs.size() && reqs[cur_req].open, "after-finish", "a request is used after it was finished"); return &reqs[cur_req]; }
void prepare(Req &r, int id, size_t maxlen) {
  r.p = plan(id, maxlen); r.p.boom = false; r.p.work = 0; Plan &p = r.p;
  if (p.kind == MULTI && sim::rnd(6) == 0) { r.bad = true; if (sim::coin()) p.ctype = sim::coin() ? "multipart/form-data" : "multipart/form-data; charset=utf-8"; else { p.body = p.cut; if (sim::rnd(3) == 0) p.body.resize(sim::rnd(p.body.size() + 1)); if (sim::rnd(4) == 0) p.body = raw(sim::rnd(30)) + "."; } p.hostile = true; }
  r.in = p.kind == GET ? "" : p.body; std::vector<std::string> &e = r.env;
  e.push_back(std::string("REQUEST_METHOD=") + (p.kind == GET ? "GET" : "POST")); e.push_back("SCRIPT_NAME=" + p.path); e.push_back("QUERY_STRING=" + p.qs); e.push_back("REQUEST_URI=" + p.path + (p.qs.empty() ? "" : "?" + p.qs)); e.push_back("REMOTE_ADDR=127.0.0.1"); e.push_back("SERVER_PORT=8080"); for (SM::iterator i = p.head.begin(); i != p.head.end(); ++i) { std::string k = i->first; for (size_t j = 0; j < k.size(); j++) k[j] = toupper(k[j]); e.push_back("HTTP_" + k + "=" + i->second); }
  if (p.kind != GET) { e.push_back(sim::fmt("CONTENT_LENGTH=%zu", p.body.size())); e.push_back("CONTENT_TYPE=" + p.ctype); } else if (!p.ctype.empty()) { e.push_back("CONTENT_TYPE=" + p.ctype); if (sim::coin()) e.push_back("CONTENT_LENGTH=0"); } if (sim::coin()) e.push_back("EMPTY="); if (sim::coin()) e.push_back("NOVALUE"); if (sim::coin()) e.push_back("=odd");
  for (size_t i = e.size(); i > 1; i--) std::swap(e[i - 1], e[sim::rnd(i)]);
  int how = 2 + sim::rnd(6); if (sim::chance(sim::K_CUT, 0.15)) how = 0; if (sim::chance(sim::K_RESET, 0.15)) how = 1; if (how == 0 && !r.in.empty()) { r.in.resize(sim::rnd(r.in.size())); r.whole = false; } else if (how == 2) r.in += "extra bytes of nobody"; else if (how == 1) r.quota = sim::rnd(300); if (!r.whole) p.hostile = true; sim::note(sim::hash_str(r.in) + r.quota); for (size_t i = 0; i < e.size(); i++) sim::note(sim::hash_str(e[i]));
}
void judge(Req &r) {
  Plan &p = r.p; if (r.toolong) { SIM_CHECK(p.runs == 0, "too-long", "a request longer than allowed is handled"); if (r.quota < 0) SIM_CHECK(r.out.find("Status: 500 ") != std::string::npos, "too-long", "a request longer than allowed is answered '%s'", nc::show(r.out, 60).c_str()); return; }
  if (!r.whole) { SIM_CHECK(p.runs == 0, "too-short", "a request whose body is incomplete is handled"); if (r.quota < 0) SIM_CHECK(r.out.find("Status: 500 ") != std::string::npos, "too-short", "a request whose body is incomplete is answered '%s'", nc::show(r.out, 60).c_str()); return; }
  if (r.bad) { SIM_CHECK(p.runs == 0, "malformed", "a request whose multipart body is malformed is handled"); if (r.quota < 0) SIM_CHECK(r.out.find("Status: 500 ") != std::string::npos, "malformed", "a request whose multipart body is malformed is answered '%s'", nc::show(r.out, 60).c_str()); return; }
  SIM_CHECK(p.runs == 1, "not-handled", "request %d was handled %d times", p.id, p.runs); std::string want_body = p.out; size_t e = r.out.find("\n\n"); std::string full = r.out;
  if (r.quota >= 0 && (int64_t)full.size() >= r.quota) return;     // the client went away while the reply was sent
  SIM_CHECK(e != std::string::npos, "reply", "request %d: the reply '%s' is malformed", p.id, nc::show(r.out, 60).c_str()); SIM_CHECK(r.out.substr(e + 2) == p.out, "reply", "request %d: a reply of %zu bytes arrives as %zu bytes", p.id, p.out.size(), r.out.size() - e - 2);
  SM h; std::istringstream is(r.out.substr(0, e + 1)); std::string l; while (std::getline(is, l)) { size_t c = l.find(": "); SIM_CHECK(c != std::string::npos, "reply", "request %d: header line '%s'", p.id, nc::show(l, 60).c_str()); SIM_CHECK(!h.count(l.substr(0, c)), "reply", "request %d: header %s twice", p.id, l.substr(0, c).c_str()); h[l.substr(0, c)] = l.substr(c + 2); }
  SM w = p.rhead; if (!w.count("Content-Type")) w["Content-Type"] = "text/plain; charset=utf-8"; if (!p.status.empty()) w["Status"] = p.status; SM lw, lh; for (auto &x : w) { std::string k = x.first; for (auto &c : k) c = tolower(c); lw[k] = x.second; } for (auto &x : h) { std::string k = x.first; for (auto &c : k) c = tolower(c); lh[k] = x.second; } SIM_CHECK(lw == lh, "reply", "request %d: %zu reply headers instead of %zu, or other values", p.id, lh.size(), lw.size()); SIM_CHECK(r.err.empty(), "reply", "something is written to the error stream");
}
std::vector<Plan> &mirror() { static std::vector<Plan> v; return v; }
void finish() { if (cur_req >= 0 && cur_req < (int)reqs.size() && reqs[cur_req].open) { reqs[cur_req].open = false; reqs[cur_req].p.runs = (*plans)[cur_req].runs; judge(reqs[cur_req]); } }
size_t setup(int n, size_t maxlen) { nc::volume = sim::rnd(3); sim::enable(sim::K_CUT, 1); sim::enable(sim::K_RESET, 1); reqs.clear(); reqs.resize(n); mirror().clear(); for (int i = 0; i < n; i++) { prepare(reqs[i], 100 + i, maxlen); mirror().push_back(reqs[i].p); } plans = &mirror(); cur_req = -1; if (sim::coin()) { const Plan &x = reqs[sim::rnd(n)].p; if (x.kind != GET && x.body.size()) { maxlen = x.body.size(); for (int i = 0; i < n; i++) reqs[i].toolong = reqs[i].p.kind != GET && reqs[i].p.body.size() > maxlen; } } return maxlen; }
SCENARIO(C27, fastcgi, 6) {
  int n = 1 + sim::rnd(6); size_t ml = setup(n, 4500); is_cgi = false; accept_end = n; { Handler h; h.set_max_content_length(ml); pfi::network::cgi::run_fcgi f(h); sim::set_hang_id("no-end", "the program does not end when no request comes any more:"); f.run(); }
  finish(); SIM_CHECK(cur_req == n, "not-handled", "the program ended after %d of %d requests", cur_req, n); sim::cover(n);
}
SCENARIO(C27, plain, 3) {
  size_t ml = setup(1, 4500); reqs[0].quota = -1; is_cgi = true; Req &r = reqs[0]; r.open = true; mirror()[0].open = 1; cur_req = 0; for (auto &x : r.env) r.envp.push_back(&x[0]); r.envp.push_back(0);
  std::istringstream in(r.in); std::ostringstream out, err; std::streambuf *a = std::cin.rdbuf(in.rdbuf()), *b = std::cout.rdbuf(out.rdbuf()), *c = std::cerr.rdbuf(err.rdbuf()); std::cin.clear(); char **old = environ; environ = &r.envp[0];
  { Handler h; h.set_max_content_length(ml); if (sim::coin()) { pfi::network::cgi::run_fcgi f(h); f.run(); } else { pfi::network::cgi::run_cgi f(h); f.run(); } }
  environ = old; std::cin.rdbuf(a); std::cout.rdbuf(b); std::cerr.rdbuf(c); r.out = out.str(); r.err = err.str(); finish(); sim::cover(100 + r.whole);
}
}
extern "C" {
int FCGX_IsCGI(void) { return is_cgi; }
int FCGX_Accept(FCGX_Stream **in, FCGX_Stream **out, FCGX_Stream **err, FCGX_ParamArray *env) {
  SIM_CHECK(!is_cgi, "mode", "a plain CGI program waits for FastCGI requests"); finish(); cur_req++; *in = *out = *err = 0; *env = 0; if (cur_req >= accept_end) { cur_req = reqs.size(); return -1; } Req &r = reqs[cur_req]; r.open = true; mirror()[cur_req].open = 1; r.envp.clear(); for (auto &x : r.env) r.envp.push_back(&x[0]); r.envp.push_back(0); *in = &sin_; *out = &sout_; *err = &serr_; *env = &r.envp[0]; return 0; }
void FCGX_Finish(void) { finish(); if (cur_req >= 0 && cur_req < (int)reqs.size()) for (auto &x : reqs[cur_req].env) x.assign(x.size(), '#'); }
int FCGX_GetChar(FCGX_Stream *s) { SIM_CHECK(s == &sin_, "mode", "reading from another stream"); Req *r = at(); return r->at < r->in.size() ? (unsigned char)r->in[r->at++] : EOF; }
static int room(Req *r, int n) { return r->quota >= 0 && (int64_t)r->out.size() + n > r->quota ? -1 : n; }
int FCGX_PutChar(int c, FCGX_Stream *s) { Req *r = at(); if (s == &serr_) { r->err += (char)c; return (unsigned char)c; } SIM_CHECK(s == &sout_, "mode", "writing to another stream"); if (room(r, 1) < 0) { r->out.resize(r->quota); return EOF; } r->out += (char)c; return (unsigned char)c; }
int FCGX_PutStr(const char *p, int n, FCGX_Stream *s) { Req *r = at(); if (s == &serr_) { r->err.append(p, n); return n; } SIM_CHECK(s == &sout_, "mode", "writing to another stream"); if (room(r, n) < 0) { r->out.append(p, r->quota > (int64_t)r->out.size() ? r->quota - r->out.size() : 0); r->quota = r->out.size(); return EOF; } r->out.append(p, n); return n; }
}
