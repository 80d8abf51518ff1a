// Requests and the handler that checks them, shared by the CGI harnesses.
#ifndef VERIF_CGICOMMON_H
#define VERIF_CGICOMMON_H
#include "netcommon.h"
#include <sstream>
#include <cstring>
#include <iostream>
#include <map>
#include <set>
#include <memory>
#include "network/cgi.h"
using namespace pfi::network;
namespace {
typedef std::map<std::string, std::string> SM; typedef std::map<std::string, std::vector<std::string> > MM;
enum { GET, FORM, MULTI };
struct Plan {
  int id, kind; SM query, file, info; MM multi; SM head; std::string path, qs, wire, body, ctype, cut;     // request
  std::string status, reason, out; int code; SM rhead; bool boom; int64_t work;   // reply
  int runs, open, port; bool hostile;
};
std::vector<Plan> *plans; int handlers;
std::string raw(int n) { return nc::bytes(n, sim::rnd(10000), sim::rnd(3)); }
std::string pct(const std::string &s, bool lower) { std::string r; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (isalnum(c) || strchr("-_.~", c)) r += c; else if (c == ' ' && lower) r += "%20"; else r += sim::fmt(lower ? "%%%02x" : "%%%02X", c); } return r; }
void add(Plan &p, const std::string &k, const std::string &v) { p.query[k] = v; p.multi[k].push_back(v); }
std::string key() { static const char *t[] = {"a", "b", "key with space", "%&=+", "\xe3\x81\x82", "x[]"}; return t[sim::rnd(6)]; }
std::string val(int max) { int n = sim::rnd(4) ? sim::rnd(8) : sim::rnd(max); std::string s = raw(n); for (size_t i = 0; i < s.size(); i++) if (!s[i]) s[i] = '0'; return s; }
std::string part() { std::string v = raw(sim::rnd(3) ? sim::rnd(20) : sim::rnd(600)); static const char *tail[] = {"", "\n--", "\r\n-- \r\nsig", "\n", "\r", "\r\n--", "--", "\n-"}; return v + tail[sim::rnd(8)]; }
bool bad_part(const std::string &v, const std::string &b) { return ("\r\n" + v + "\r\n").find("\n--" + b) != std::string::npos; }
Plan plan(int id, size_t maxlen) {
  Plan p; p.id = id; p.kind = sim::rnd(3); p.runs = 0; p.open = 0; p.port = 0; p.hostile = false; p.boom = sim::rnd(8) == 0; p.work = sim::rnd(3) ? 0 : 1 + sim::rnd(50000000);
  static const char *pa[] = {"/", "/a", "/cgi-bin/x.cgi", "/d/e/"}; p.path = pa[sim::rnd(4)]; add(p, "id", sim::fmt("%d", id));
  bool lower = sim::coin(); std::string body, ct;
  if (p.kind != MULTI) {
    std::string s = sim::fmt("id=%d", id); int n = sim::rnd(4); for (int i = 0; i < n; i++) { std::string k = key(), v = sim::rnd(5) ? val(sim::rnd(15) ? 60 : 1200) : ""; bool eq = !v.empty() || sim::coin(); s += "&" + pct(k, lower) + (eq ? "=" : "") + pct(v, lower); add(p, k, v); }
    if (p.kind == GET) p.qs = s; else { body = s; ct = "application/x-www-form-urlencoded"; }
  } else {
    static const char *bs[] = {"X", "----WebKitFormBoundary7MA4YWxk", "b-b", "AaB03x"}; std::string b = bs[sim::rnd(4)], in = "i" + b; ct = "multipart/form-data; boundary=" + b; int n = sim::rnd(4); bool plain = sim::coin();
    if (!plain && sim::rnd(3) == 0) body = sim::coin() ? "a preamble\r\n" : "--" + b.substr(0, b.size() - 1) + "\r\n\r\n";
    body += "--" + b + (!plain && sim::rnd(3) == 0 ? "  " : "") + "\r\nContent-Disposition: form-data; name=\"id\"\r\n\r\n" + sim::fmt("%d", id);
    for (int i = 0; i < n; i++) {
      bool f = sim::coin(); std::string k = sim::fmt("k%u", sim::rnd(3)), v = part(), fn = sim::fmt("f%d.txt", i); if (!plain && sim::rnd(3) == 0) { static const char *odd[] = {"a;b", "x; filename=y", "a=b", "", " s ", "a-rather-long-one;with;many;of;them;and;a-long-tail-after-the-last-one", "form-data"}; (sim::coin() ? k : fn) = odd[sim::rnd(7)]; }
      bool up = !plain && sim::rnd(4) == 0, swap = !plain && sim::rnd(4) == 0; std::string N = up ? "NAME" : "name", F = up ? "Filename" : "filename", an = " " + N + (up ? " =" : "=") + "\"" + k + "\"", af = " " + F + "=\"" + fn + "\"", ty = sim::coin() ? "application/octet-stream" : "text/plain; charset=utf-8"; bool typed = f || (!plain && sim::rnd(3) == 0);
      std::string cd = std::string(up ? "content-disposition" : "Content-Disposition") + ": form-data;" + (!f ? an : swap ? af + ";" + an : an + ";" + af), t = typed ? (up ? "CONTENT-TYPE: " : "Content-Type: ") + ty : "";
      body += "\r\n--" + b + "\r\n"; int what = plain ? 0 : sim::rnd(6);
      if (what == 1) { body += "Content-Disposition: " + std::string(sim::coin() ? "inline; name=\"" : "attached; name=\"") + k + "\"\r\n\r\n" + v; if (bad_part(v, b)) return plan(id, maxlen); continue; }   // nothing a form sends
      if (what == 2) {   // several files of one field
        body += "Content-Disposition: form-data; name=\"" + k + "\"\r\nContent-Type: multipart/mixed; boundary=" + in + "\r\n\r\n"; int m = 1 + sim::rnd(3);
        for (int j = 0; j < m; j++) { std::string w = part(), nn = sim::fmt("m%d.bin", sim::rnd(4) ? i * 10 + j : 0); if (bad_part(w, b) || bad_part(w, in)) return plan(id, maxlen); body += (j ? "\r\n--" : "--") + in + "\r\nContent-Disposition: attachment; filename=\"" + nn + "\"\r\nContent-Type: " + ty + "\r\n\r\n" + w; p.file[nn] = w; p.info[nn] = ty; }
        body += "\r\n--" + in + "--"; if (sim::coin()) body += "\r\n"; continue;
      }
      body += (typed && swap ? t + "\r\n" + cd : cd + (typed ? "\r\n" + t : "")) + "\r\n\r\n" + v;
      if (bad_part(v, b)) return plan(id, maxlen);   // the client must choose a boundary that does not occur
      add(p, k, f ? fn : v); if (f) { p.file[fn] = v; p.info[fn] = ty; }
    }
    p.cut = body; body += "\r\n--" + b + "--"; if (plain || sim::coin()) body += "\r\n"; if (!plain && sim::rnd(4) == 0) body += "\r\nan epilogue";
  }
  if (body.size() > maxlen || p.qs.size() > 3900) return plan(id, maxlen);
  if (sim::coin()) p.head["Foo"] = "bar"; if (sim::coin()) p.head["COOKIE"] = "a=b; c=\"d\""; p.head["Host"] = "h";
  p.wire = std::string(p.kind == GET ? "GET " : "POST ") + p.path + (p.qs.empty() ? "" : "?" + p.qs) + " HTTP/1.1\r\n"; for (SM::iterator i = p.head.begin(); i != p.head.end(); ++i) p.wire += i->first + ": " + i->second + "\r\n";
  if (p.kind != GET) p.wire += (sim::coin() ? "Content-Length: " : "content-length: ") + sim::fmt("%zu\r\n", body.size()) + "Content-Type: " + ct + "\r\n"; else if (sim::rnd(3) == 0) { ct = "text/x-none"; p.wire += "Content-Length: 0\r\nContent-Type: " + ct + "\r\n"; } p.wire += "\r\n" + body; p.body = body; p.ctype = ct;
  p.code = 200; p.reason = "OK"; switch (sim::rnd(5)) { case 4: p.rhead["Location"] = "/moved"; p.status = "301  Moved Permanently"; p.code = 301; p.reason = "Moved Permanently"; break; case 0: p.status = "404 Not Found"; p.code = 404; p.reason = "Not Found"; break; case 1: p.rhead["Location"] = "/elsewhere"; p.code = 302; p.reason = "Found"; break; default: break; }
  if (sim::coin()) p.rhead["X-Reply"] = sim::fmt("r%d", id); if (sim::coin()) p.rhead["Content-Type"] = "image/png"; p.out = raw(nc::some_size() % 9001); return p;
}
struct Handler : pfi::network::cgi::cgi, pfi::network::cgi::cloner<Handler> {
  int inside; Handler() : inside(0) { } Handler(const Handler &o) : pfi::network::cgi::clonable(), pfi::network::cgi::cgi(o), pfi::network::cgi::cloner<Handler>(), inside(0) { sim::Atomic a; handlers++; }
  void run(std::ostream &out) {
    { sim::Atomic a; inside++; SIM_CHECK(inside == 1, "shared-handler", "two requests are handled by the same handler object at the same time"); }
    Plan *p = 0; { sim::Atomic a; std::string id = query.count("id") ? query["id"] : ""; for (size_t i = 0; i < plans->size(); i++) if (id == sim::fmt("%d", (*plans)[i].id)) p = &(*plans)[i];
      if (p) { p->runs++; SIM_CHECK(p->runs == 1, "handled-twice", "request %d is handled %d times", p->id, p->runs); SIM_CHECK(p->open || p->hostile, "handled-early", "request %d is handled before it was sent", p->id); } }
    if (!p) { sim::Atomic a; inside--; bool h = false; for (size_t i = 0; i < plans->size(); i++) h |= (*plans)[i].hostile; SIM_CHECK(h, "wrong-data", "the handler runs for a request nobody sent"); out << "?"; return; }
    if (!p->hostile) { sim::Atomic a;
      SIM_CHECK(method == (p->kind == GET ? "GET" : "POST"), "wrong-data", "request %d: method '%s'", p->id, method.c_str()); SIM_CHECK(query == p->query, "wrong-data", "request %d: the parameters differ (%zu instead of %zu)%s", p->id, query.size(), p->query.size(), diff(p->query, query).c_str()); SIM_CHECK(multi_query == p->multi, "wrong-data", "request %d: the repeated parameters differ", p->id); SIM_CHECK(file == p->file, "wrong-data", "request %d: the uploaded files differ%s", p->id, diff(p->file, file).c_str());
      SIM_CHECK(file_info.size() == p->file.size(), "wrong-data", "request %d: %zu file descriptions", p->id, file_info.size());
      for (SM::iterator i = p->info.begin(); i != p->info.end(); ++i) SIM_CHECK(file_info.count(i->first) && file_info[i->first]["Content-Type"] == i->second, "wrong-data", "request %d: the file '%s' was sent as '%s' and is described otherwise", p->id, nc::show(i->first).c_str(), i->second.c_str());
      SIM_CHECK(env["SCRIPT_NAME"] == p->path && env["QUERY_STRING"] == p->qs && env["REQUEST_URI"] == p->path + (p->qs.empty() ? "" : "?" + p->qs), "wrong-env", "request %d: path '%s' query '%s'", p->id, env["SCRIPT_NAME"].c_str(), env["QUERY_STRING"].c_str());
      SIM_CHECK(env["CONTENT_TYPE"] == p->ctype && (p->kind == GET || env["CONTENT_LENGTH"] == sim::fmt("%zu", p->body.size())), "wrong-env", "request %d: a body of %zu bytes is described as '%s', %s bytes", p->id, p->body.size(), env["CONTENT_TYPE"].c_str(), env["CONTENT_LENGTH"].c_str());
      for (SM::iterator i = p->head.begin(); i != p->head.end(); ++i) { std::string k = "HTTP_" + i->first; for (size_t j = 0; j < k.size(); j++) k[j] = toupper(k[j]); SIM_CHECK(env.count(k) && env[k] == i->second, "wrong-env", "request %d: %s is '%s', sent '%s'", p->id, k.c_str(), env[k].c_str(), i->second.c_str()); }
      SIM_CHECK(p->head.count("Foo") || !env.count("HTTP_FOO"), "wrong-env", "request %d: a header of another request", p->id); SIM_CHECK(env["REMOTE_ADDR"] == "127.0.0.1" && env["SERVER_PORT"] == "8080", "wrong-env", "request %d: REMOTE_ADDR %s SERVER_PORT %s", p->id, env["REMOTE_ADDR"].c_str(), env["SERVER_PORT"].c_str()); SIM_CHECK(!p->port || env["REMOTE_PORT"] == sim::fmt("%d", p->port), "wrong-env", "request %d: REMOTE_PORT %s, sent from %d", p->id, env["REMOTE_PORT"].c_str(), p->port);
    }
    SIM_CHECK(!head.has_key("X-Reply"), "wrong-data", "request %d starts with the reply headers of another one", p->id);
    if (p->work) sim::sleep_ns(p->work);
    bool boom; { sim::Atomic a; boom = p->boom; if (!p->status.empty()) head["Status"] = p->status; for (SM::iterator i = p->rhead.begin(); i != p->rhead.end(); ++i) head[i->first] = i->second; if (p->out.size() < 40 || p->id % 3) out.write(p->out.data(), p->out.size()); else { size_t h = p->out.size() / 2; for (size_t i = 0; i < h; i++) out.put(p->out[i]); out << p->out.substr(h); } inside--; }
    if (boom) throw std::runtime_error("boom");
  }
  static std::string diff(const SM &want, const SM &got) { for (SM::const_iterator i = want.begin(); i != want.end(); ++i) { SM::const_iterator j = got.find(i->first); if (j == got.end()) return ": '" + nc::show(i->first) + "' is missing"; if (j->second != i->second) { size_t k = 0; while (k < i->second.size() && k < j->second.size() && i->second[k] == j->second[k]) k++; return ": '" + nc::show(i->first) + "' differs at byte " + sim::fmt("%zu of %zu/%zu", k, i->second.size(), j->second.size()); } } return ": extra entries"; }
};
}
#endif
