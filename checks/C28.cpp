// C28: XHTML pages built by handlers: each page is its own request's page, well formed, whatever happened before or happens beside it.
#include "netcommon.h"
#include <sstream>
#include <iostream>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include "network/cgi.h"
#include "network/cgi/server.h"
#include "network/cgi/xhtml_cgi.h"
using namespace pfi::network; typedef std::string Str; typedef std::map<Str, Str> SM;
namespace {
struct Node { Str name, text; SM attr; std::vector<Node> kid; bool raw, boom; Node() : raw(false), boom(false) { } };      // no name: text
struct Page_ { int id; std::vector<Node> top; Str echo; bool boom, no_dtd, no_xml, other_type, status, plain; int runs; Str compact; };
std::vector<Page_> *pages; int copies; int budget;
Str rtext() { static const char *t[] = {"", "a", "x < y && z > \"w\" 'q'", "&amp;", "<b>", "]]>", "\xe3\x81\x82\xe3\x81\x84", "line\nline\n", "  spaces  ", "&", "<", ">", "\"", "'", "&lt;"}; Str s = t[sim::rnd(15)]; if (sim::rnd(6) == 0) { s += nc::bytes(sim::rnd(nc::volume == 2 ? 5000 : 100), sim::rnd(1000), sim::rnd(3)); for (size_t i = 0; i < s.size(); i++) if (!s[i]) s[i] = '0'; } return s; }
Node rnode(int depth) {
  Node n; budget--; static const char *t[] = {"div", "p", "a", "table", "h1"}; if (depth <= 0 || budget <= 0 || (depth < 6 && sim::rnd(3) == 0)) { if (sim::rnd(5) == 0) { n.raw = true; n.name = "hr"; } else n.text = rtext(); return n; }
  n.name = t[sim::rnd(5)]; static const char *a[] = {"id", "class", "href", "checked", "title"}; int na = sim::rnd(3); for (int i = 0; i < na; i++) { Str k = a[sim::rnd(5)]; n.attr[k] = k == "checked" ? "" : rtext(); } int nk = sim::rnd(4); if (depth > 5) nk = 1; for (int i = 0; i < nk; i++) n.kid.push_back(rnode(depth - 1)); return n;
}
bool put_boom(std::vector<Node> &v, int depth) { if (v.empty()) return false; Node &n = v[sim::rnd(v.size())]; if (!n.name.empty() && !n.raw && depth > 0 && sim::coin() && put_boom(n.kid, depth - 1)) return true; n.boom = true; return true; }
struct Page : cgi::xhtml_cgi, cgi::cloner<Page> {
  Page() { } Page(const Page &o) : pfi::network::cgi::clonable(), pfi::network::cgi::xhtml_cgi(o), pfi::network::cgi::cloner<Page>() { sim::Atomic a; copies++; }
  void build(const Node &n) {
    if (n.boom) throw std::runtime_error("boom"); if (n.raw) { prim__("<hr />"); return; } if (n.name.empty()) { text__(n.text); return; }
    tag__(n.name) { for (SM::const_iterator i = n.attr.begin(); i != n.attr.end(); ++i) attr__(i->first) = i->second; for (size_t i = 0; i < n.kid.size(); i++) build(n.kid[i]); }
  }
  void run() {
    Page_ *p = 0; { sim::Atomic a; for (size_t i = 0; i < pages->size(); i++) if (query["id"] == sim::fmt("%d", (*pages)[i].id)) p = &(*pages)[i]; SIM_CHECK(p, "wrong-data", "a handler runs for a request nobody sent"); p->runs++; SIM_CHECK(p->runs == 1, "twice", "page %d is built twice", p->id); SIM_CHECK(query["echo"] == p->echo, "wrong-data", "page %d is built from the data of another request", p->id); SIM_CHECK(!dtd.empty() && !xmltag.empty(), "stale", "page %d starts with the document type another request chose", p->id); SIM_CHECK(!head.has_key("Status"), "stale", "page %d starts with the status of another one", p->id); }
    if (p->no_dtd) dtd = ""; if (p->no_xml) xmltag = ""; if (p->other_type) head["Content-Type"] = "application/xhtml+xml"; if (p->status) head["Status"] = "404 Not Found";
    html__ { id__ = sim::fmt("%d", p->id); for (size_t i = 0; i < p->top.size(); i++) build(p->top[i]); p__ { text__(query["echo"]); } }
    if (p->plain) { std::ostringstream o; std::vector<pfi::network::cgi::xhtml_builder::elem_type> &rs = builder.get(); for (size_t i = 0; i < rs.size(); i++) rs[i]->render(o); p->compact = o.str(); }      // the same page without indentation
    if (sim::coin()) text__("");
  }
};
// an independent reader of the generated text
struct Reader {
  const Str &s; size_t at; int page; Reader(const Str &s, int page) : s(s), at(0), page(page) { }
  void bad(const char *w) { sim::fail("malformed", "page %d is not well formed at byte %zu: %s [%s]", page, at, w, nc::show(s.substr(at > 20 ? at - 20 : 0, 60), 80).c_str()); }
  bool see(const char *t) { return s.compare(at, strlen(t), t) == 0; } void ws() { while (at < s.size() && isspace((unsigned char)s[at])) at++; }
  Str name() { Str r; while (at < s.size() && (isalnum((unsigned char)s[at]) || strchr("-_:", s[at])) && s[at]) r += s[at++]; if (r.empty()) bad("no name"); return r; }
  Str chars(const char *stop) { Str r; while (at < s.size() && !strchr(stop, s[at])) { if (s[at] == '&') { static const char *e[] = {"&amp;", "&", "&quot;", "\"", "&#039;", "'", "&#39;", "'", "&apos;", "'", "&lt;", "<", "&gt;", ">", 0}; int k = 0; while (e[k] && !see(e[k])) k += 2; if (!e[k]) bad("a bare &"); r += e[k + 1]; at += strlen(e[k]); } else r += s[at++]; } return r; }
  void kids(std::vector<Node> &v) { for (;;) { Str t = chars("<"); if (!t.empty()) { Node n; n.text = t; v.push_back(n); } if (at >= s.size() || see("</")) return; v.push_back(elem()); } }
  Node elem() {
    Node n; if (!see("<")) bad("no element"); at++; n.name = name(); for (;;) { size_t b = at; ws(); if (see("/>")) { at += 2; return n; } if (see(">")) { at++; break; } if (b == at) bad("no space before an attribute"); Str k = name(); if (n.attr.count(k)) bad("an attribute twice"); if (see("=\"")) { at += 2; n.attr[k] = chars("\"<"); if (!see("\"")) bad("an attribute value without end"); at++; } else n.attr[k] = ""; }
    kids(n.kid); if (!see("</")) bad("an element without end"); at += 2; if (name() != n.name) bad("another element ends here"); ws(); if (!see(">")) bad("an end tag without end"); at++; return n;
  }
};
void norm(std::vector<Node> &v) { std::vector<Node> r; for (size_t i = 0; i < v.size(); i++) { if (v[i].name.empty()) { if (v[i].text.empty()) continue; if (!r.empty() && r.back().name.empty()) { r.back().text += v[i].text; continue; } } r.push_back(v[i]); norm(r.back().kid); } v.swap(r); }
Str diff(const std::vector<Node> &a, const std::vector<Node> &b, const Str &where) { for (size_t i = 0; i < a.size() || i < b.size(); i++) { if (i >= a.size()) return where + ": additional " + (b[i].name.empty() ? "text" : b[i].name); if (i >= b.size()) return where + ": " + (a[i].name.empty() ? "text" : a[i].name) + " is missing"; if (a[i].name != b[i].name) return where + ": " + b[i].name + " instead of " + a[i].name; if (a[i].text != b[i].text) return where + ": text '" + nc::show(b[i].text) + "' instead of '" + nc::show(a[i].text) + "'"; if (a[i].attr != b[i].attr) return where + "/" + a[i].name + ": the attributes differ"; Str d = diff(a[i].kid, b[i].kid, where + "/" + a[i].name); if (!d.empty()) return d; } return ""; }
void judge(Page_ &p, const Str &got) {
  sim::Atomic a; SIM_CHECK(p.runs == 1, "not-handled", "page %d was not built", p.id); if (p.boom) { SIM_CHECK(got.empty() || got.compare(0, 12, "HTTP/1.1 500") == 0, "half-page", "page %d is sent although its handler threw", p.id); return; }
  size_t e = got.find("\r\n\r\n"); SIM_CHECK(e != Str::npos, "reply", "page %d: the reply is malformed", p.id); SIM_CHECK(got.compare(0, 12, p.status ? "HTTP/1.1 404" : "HTTP/1.1 200") == 0, "reply", "page %d: '%s'", p.id, nc::show(got, 20).c_str()); Str h = got.substr(0, e + 2), body = got.substr(e + 4); SIM_CHECK(h.find(p.other_type ? "\r\nContent-Type: application/xhtml+xml\r\n" : "\r\nContent-Type: text/html; charset=utf-8\r\n") != Str::npos, "reply", "page %d has another content type", p.id);
  Reader r(body, p.id); r.ws(); SIM_CHECK(r.see("<?xml ") == !p.no_xml, "prolog", "page %d: the XML declaration", p.id); if (!p.no_xml) { r.at = body.find("?>"); if (r.at == Str::npos) r.bad("XML declaration"); r.at += 2; r.ws(); } SIM_CHECK(r.see("<!DOCTYPE ") == !p.no_dtd, "prolog", "page %d: the document type", p.id); if (!p.no_dtd) { r.at = body.find(">", r.at); if (r.at == Str::npos) r.bad("document type"); r.at++; r.ws(); }
  std::vector<Node> got_(1, r.elem()), want(1); r.ws(); if (r.at != body.size()) r.bad("something after the page"); Node &w = want[0]; w.name = "html"; w.attr["id"] = sim::fmt("%d", p.id); w.kid = p.top; Node echo, t; echo.name = "p"; t.text = p.echo; echo.kid.push_back(t); w.kid.push_back(echo); norm(want); norm(got_); Str d = diff(want, got_, ""); SIM_CHECK(d.empty(), "wrong-page", "page %d: %s", p.id, d.c_str());
  if (p.plain) { Reader c(p.compact, p.id); std::vector<Node> g(1, c.elem()); if (c.at != p.compact.size()) c.bad("something after the page"); norm(g); d = diff(want, g, ""); SIM_CHECK(d.empty(), "wrong-page", "page %d without indentation: %s", p.id, d.c_str()); }
}
Str pct(const Str &s) { Str r; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (isalnum(c)) r += c; else r += sim::fmt("%%%02X", c); } return r; }
std::stringbuf sink;
SCENARIO(C28, pages, 1) {
  nc::swarm(); std::cout.rdbuf(&sink); std::cerr.rdbuf(&sink); int nth = 1 + sim::rnd(3), ncl = 1 + sim::rnd(4), per = 1 + sim::rnd(3); std::vector<Page_> ps;
  for (int i = 0; i < ncl * per + 1; i++) { Page_ p; p.id = 100 + i; p.echo = rtext().substr(0, 150); budget = 12; int n = sim::rnd(4); for (int k = 0; k < n; k++) p.top.push_back(rnode(sim::rnd(5) ? 4 : 11)); p.boom = i < ncl * per && sim::rnd(4) == 0 && put_boom(p.top, 4); p.no_dtd = sim::rnd(4) == 0; p.no_xml = sim::rnd(4) == 0; p.other_type = sim::rnd(4) == 0; p.status = sim::rnd(4) == 0; p.plain = sim::rnd(4) == 0; p.runs = 0; ps.push_back(p); }
  pages = &ps; copies = 0; Page h; cgi::run_server *srv = new cgi::run_server(h, 8080, nth, 0); srv->run(false); sim::set_hang_id("no-progress", "a page is not sent:");
  auto fetch = [&](Page_ &p) { int fd = sim::net::raw_connect(8080); SIM_CHECK(fd >= 0, "setup", "connect"); sim::net::raw_send(fd, sim::fmt("GET /?id=%d&echo=", p.id) + pct(p.echo) + " HTTP/1.1\r\nHost: h\r\n\r\n"); judge(p, sim::net::raw_recv_all(fd)); sim::net::raw_close(fd); };
  for (int c = 0; c < ncl; c++) sim::go([&, c] { for (int i = 0; i < per; i++) fetch(ps[c * per + i]); });
  sim::join_all(); fetch(ps.back()); int booms = 0; for (size_t i = 0; i < ps.size(); i++) booms += ps[i].boom; sim::cover(nth * 100 + ncl * 10 + std::min(booms, 5)); sim::done();
}
}
