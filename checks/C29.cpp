#include <sys/mman.h>
#include <unistd.h>
#include <list>
// C29: CSV tables and configuration texts read from streams: any segmentation, cut or damage.
#include "netcommon.h"
#include <sstream>
#include <iostream>
#include <memory>
#include "network/iostream.h"
#include "text/csv.h"
#include "data/config_file.h"
#include "lang/exception.h"
using namespace pfi::network; typedef std::string Str; typedef std::vector<Str> Row; typedef std::vector<Row> Table; using pfi::text::csv_parser; using pfi::text::csv_iterator;
namespace {
Str field() { static const unsigned n[] = {0, 1, 2, 5, 9, 40, 500, 511, 1000, 1021, 1022, 1023, 1024, 1025, 2047, 2048, 5000}; unsigned m = n[sim::rnd(sim::rnd(5) ? 6 : nc::volume == 2 ? 17 : 14)]; Str s; if (m > 40) { Str u = sim::rnd(3) ? "abcdefg" : "a\"b,\r\n"; while (s.size() < m) s += u; s.resize(m); return s; } static const char *t[] = {"a", "\"", ",", "\n", "\r", "\r\n", " ", "\xff", "\xe3\x81\x82", "\"\"", "'", ";", "0"}; for (unsigned i = 0; i < m; i++) s += t[sim::rnd(sim::coin() ? 13 : 1)]; return s; }
Table table() { Table t(1 + sim::rnd(5)); unsigned c = 1 + sim::rnd(5); for (auto &r : t) { if (sim::rnd(5) == 0) c = 1 + sim::rnd(5); for (unsigned i = 0; i < c; i++) r.push_back(field()); } return t; }
struct Text { Str s; std::vector<size_t> row_end; std::vector<std::vector<size_t> > field_end, field_begin; };
Text put(const Table &t, bool last_end) { Text o; Str eol = sim::coin() ? "\n" : "\r\n"; for (size_t i = 0; i < t.size(); i++) { o.field_end.push_back(std::vector<size_t>()); o.field_begin.push_back(std::vector<size_t>()); for (size_t k = 0; k < t[i].size(); k++) { if (k) o.s += ','; o.field_begin.back().push_back(o.s.size()); const Str &f = t[i][k]; bool q = f.find_first_of("\",\r\n") != Str::npos || sim::rnd(4) == 0; if (q) { o.s += '"'; for (char c : f) { if (c == '"') o.s += '"'; o.s += c; } o.s += '"'; } else o.s += f; o.field_end.back().push_back(o.s.size()); } if (i + 1 < t.size() || last_end || (t[i].size() == 1 && t[i][0].empty())) o.s += eol; o.row_end.push_back(o.s.size()); } return o; }
Row row(const std::vector<const char *> &v) { return Row(v.begin(), v.end()); }
Str what(const Row &want, const Row &got) { if (want.size() != got.size()) return sim::fmt("%zu fields instead of %zu", got.size(), want.size()); for (size_t i = 0; i < want.size(); i++) if (want[i] != got[i]) return sim::fmt("field %zu is '%s' instead of '%s'", i, nc::show(got[i]).c_str(), nc::show(want[i]).c_str()); return "same"; }
void sender(const Str &s, const std::vector<size_t> *ends, unsigned *done, bool step, int last) {    // last: 0 close, 1 reset
  sim::go([=] { sim::net::Outside o; int fd = sim::net::raw_connect(4300); size_t at = 0; if (step) for (size_t i = 0; i < ends->size(); i++) { sim::net::raw_send(fd, s.substr(at, (*ends)[i] - at)); at = (*ends)[i]; if (i + 1 < ends->size()) while (*done <= i) sim::sleep_ns(2000000); } else while (at < s.size()) { size_t n = sim::coin() ? s.size() - at : 1 + sim::rnd(std::min<size_t>(s.size() - at, 40)); sim::net::raw_send(fd, s.substr(at, n)); at += n; if (sim::rnd(4) == 0) sim::sleep_ns(1000000); } if (last) sim::net::raw_reset(fd); else sim::net::raw_close(fd); });
}
SCENARIO(C29, rows, 5) {
  nc::swarm(); Table t = table(); Text x = put(t, sim::coin()); bool step = sim::coin(); int how = sim::rnd(4); unsigned done = 0; server_socket srv; SIM_CHECK(srv.create(4300), "setup", "create"); sim::set_hang_id("row-hang", "a row that arrived completely is not returned:"); sender(x.s, &x.row_end, &done, step, 0);
  { pfi::lang::shared_ptr<stream_socket> c(srv.accept()); SIM_CHECK(!!c, "accept", "accept"); socketstream s(c); csv_parser p(s); size_t n = 0; Row prev;
    if (how == 0) { while (p.next()) { SIM_CHECK(n < t.size(), "rows", "more than %zu rows", t.size()); SIM_CHECK(row(p.get()) == t[n], "wrong-row", "row %zu: %s", n, what(t[n], row(p.get())).c_str()); n++; done = n; } SIM_CHECK(p.end(), "rows", "end() is false after the last row"); }
    else if (how == 1) { for (csv_iterator i(p), e; i != e; ++i) { SIM_CHECK(n < t.size(), "rows", "more than %zu rows", t.size()); SIM_CHECK(row(*i) == t[n], "wrong-row", "row %zu: %s", n, what(t[n], row(*i)).c_str()); n++; done = n; } }
    else { std::list<std::pair<csv_iterator, size_t>> old; csv_iterator slot; size_t slot_n = 0; bool has = false; auto same = [&](const csv_iterator &k, size_t m, const char *w) { SIM_CHECK(row(*k) == t[m] && k->size() == t[m].size(), "wrong-row", "row %zu of %s: %s", m, w, what(t[m], row(*k)).c_str()); };
      for (csv_iterator i(p), e; i != e;) { SIM_CHECK(n < t.size(), "rows", "more than %zu rows", t.size()); done = n + 1; csv_iterator before(i); bool post = sim::coin(); csv_iterator o = post ? i++ : before; if (!post) ++i; same(o, n, "a copied iterator"); same(before, n, "an iterator copied before the advance");
        switch (sim::rnd(4)) { case 0: old.push_back(std::make_pair(o, n)); break; case 1: slot = before; slot_n = n; has = true; break; case 2: if (!old.empty()) { old.back() = std::make_pair(o, n); slot = old.back().first; slot_n = n; has = true; } break; default: break; } n++;
        if (how == 3) { for (auto &k : old) { csv_iterator again(k.first); same(k.first, k.second, "an older iterator"); same(again, k.second, "a copy of an older iterator"); } if (has) same(slot, slot_n, "an assigned iterator"); } }
      for (auto &k : old) { csv_iterator again(k.first); same(again, k.second, "a copy of an older iterator"); } if (has) same(slot, slot_n, "an assigned iterator"); csv_iterator e1, e2(e1); slot = e1; SIM_CHECK(slot == e1 && e2 == e1, "rows", "copies of the end are not the end"); }
    SIM_CHECK(n == t.size(), "rows", "%zu of %zu rows are returned", n, t.size()); sim::cover(how * 8 + step); }
  sim::join_all();
}
SCENARIO(C29, cut, 4) {
  nc::swarm(); Table t = table(); Text x = put(t, sim::coin()); size_t cut = sim::rnd(x.s.size() + 1); bool net = sim::coin(), reset = net && sim::rnd(3) == 0; Str s = x.s.substr(0, cut); Table got; sim::set_hang_id("cut-hang", "reading does not end although the data does:"); uint64_t used = sim::heap_peak();
  auto take = [&](csv_parser &p) { while (p.next()) { got.push_back(row(p.get())); SIM_CHECK(got.size() <= t.size(), "invented", "more rows than were written"); } };
  if (net) { server_socket srv; SIM_CHECK(srv.create(4300), "setup", "create"); sender(s, 0, 0, false, reset); pfi::lang::shared_ptr<stream_socket> c(srv.accept()); if (!c) { SIM_CHECK(reset, "accept", "accept"); return; } socketstream st(c); csv_parser p(st); take(p); }
  else if (sim::coin()) { csv_parser p(s); take(p); } else { std::unique_ptr<char[]> m(new char[s.size()]); std::copy(s.begin(), s.end(), m.get()); csv_parser p(m.get(), m.get() + s.size()); take(p); }
  (void)used; sim::join_all(); size_t whole = 0; while (whole < t.size() && x.row_end[whole] <= cut) whole++;
  if (!reset) SIM_CHECK(got.size() >= whole, "lost", "%zu of the %zu complete rows are returned", got.size(), whole);
  for (size_t i = 0; i < got.size(); i++) {
    if (i < whole && (!reset || i + 1 < got.size())) { SIM_CHECK(got[i] == t[i], "wrong-row", "row %zu, complete before the cut: %s", i, what(t[i], got[i]).c_str()); continue; }
    SIM_CHECK(got[i].size() <= t[i].size(), "invented", "the row that is cut has %zu fields, %zu were written", got[i].size(), t[i].size()); if (reset) continue;
    for (size_t k = 0; k < got[i].size(); k++) { if (x.field_end[i][k] < cut) SIM_CHECK(got[i][k] == t[i][k], "wrong-row", "field %zu of the row that is cut is '%s' instead of '%s'", k, nc::show(got[i][k]).c_str(), nc::show(t[i][k]).c_str()); else SIM_CHECK(t[i][k].compare(0, got[i][k].size(), got[i][k]) == 0 || x.s[x.field_begin[i][k]] != '"', "invented", "the field that is cut contains '%s', which was not written", nc::show(got[i][k]).c_str()); }
  }
  sim::cover(100 + net * 4 + reset * 2 + (cut == 0));
}
// damaged tables: the same rows whichever way they are read, and in proportion
SCENARIO(C29, damaged, 3) {
  nc::volume = 1; Table t = table(); Str s = put(t, sim::coin()).s; int flips = 1 + sim::rnd(4); for (int i = 0; i < flips && !s.empty(); i++) { static const char c[] = "\"\",\r\n a\xff"; size_t p = sim::rnd(s.size()); switch (sim::rnd(4)) { case 0: s[p] = c[sim::rnd(8)]; break; case 1: s.erase(p, 1 + sim::rnd(4)); break; case 2: s.insert(p, 1 + sim::rnd(2), c[sim::rnd(8)]); break; default: s[p] ^= 1 << sim::rnd(8); } }
  for (auto &c : s) if (!c) c = '0'; sim::set_hang_id("damage-hang", "reading a damaged table does not end:"); Table a, b, d; uint64_t u0 = sim::heap_peak();
  pfi::text::parse_csv(s, a); uint64_t u1 = sim::heap_peak() - u0; SIM_CHECK(u1 < 200000 + 200 * s.size(), "out-of-proportion", "%llu bytes of memory for a table of %zu bytes", (unsigned long long)u1, s.size());
  { std::istringstream is(s); csv_parser p(is); while (p.next()) b.push_back(row(p.get())); } { std::unique_ptr<char[]> m(new char[s.size()]); std::copy(s.begin(), s.end(), m.get()); csv_parser p(m.get(), m.get() + s.size()); while (p.next()) d.push_back(row(p.get())); }
  SIM_CHECK(a == b && a == d, "differs", "a damaged table reads differently from a string, a stream and memory"); sim::cover(200 + std::min<size_t>(a.size(), 9));
}
// configuration texts
typedef std::map<Str, std::map<Str, Str> > Conf;
Str word(bool value) { static const char *t[] = {"a", "key", "x.y", "\xe3\x81\x82", "a b", "1", "k-1", "C:\\x", "#no", "a;b", "=", "a=b", "\"q", "q\"", "]", "[x]"}; return t[sim::rnd(value ? 16 : 9)]; }
Str blank() { static const char *t[] = {"", "", " ", "\t", "  \t"}; return t[sim::rnd(5)]; }
SCENARIO(C29, config, 3) {
  nc::swarm(); Conf want; std::vector<size_t> ends; std::vector<Conf> upto; Str s, cur; int n = sim::rnd(9), bad_at = sim::rnd(4) ? -1 : (int)sim::rnd(n + 1), bad_line = 0; bool crlf = sim::rnd(3) == 0; upto.push_back(want); ends.push_back(0);
  for (int i = 0; i <= n; i++) {
    if (i == bad_at) { static const char *b[] = {"[open", "no assignment", "[a] x", "]"}; s += blank() + b[sim::rnd(4)]; bad_line = i + 1; }
    else switch (sim::rnd(6)) { case 0: cur = sim::rnd(4) ? word(false) : sim::coin() ? "a rather long section name" : "sect[1"; s += blank() + "[" + cur + "]" + blank(); want[cur]; break; case 1: s += blank() + ";" + word(true); break; case 2: s += blank(); break;
      default: { Str k = word(false), v = word(true); int q = sim::rnd(4); Str w = v; if (q == 0) { v = blank() + v + blank(); w = v; v = "\"" + v + "\""; } else if (q == 1) { w = ""; v = sim::coin() ? "" : "\"\""; } if (!(q == 0) && v.size() >= 2 && v[0] == '"' && v[v.size() - 1] == '"') w = v.substr(1, v.size() - 2); s += blank() + k + blank() + "=" + blank() + v + blank(); want[cur][k] = w; } }
    s += crlf ? "\r\n" : "\n"; if (i == n && sim::coin()) s.resize(s.size() - (crlf ? 2 : 1)); ends.push_back(s.size()); upto.push_back(want);
  }
  bool cutting = sim::rnd(3) == 0; size_t cut = cutting ? sim::rnd(s.size() + 1) : s.size(); size_t whole = 0; while (whole + 1 < ends.size() && ends[whole + 1] <= cut) whole++;
  server_socket srv; SIM_CHECK(srv.create(4300), "setup", "create"); sim::set_hang_id("config-hang", "reading does not end although the data does:"); bool by_name = sim::rnd(4) == 0; int fd = -1; Str path;
  if (by_name) { fd = memfd_create("config", 0); Str t = s.substr(0, cut); SIM_CHECK(fd >= 0 && write(fd, t.data(), t.size()) == (ssize_t)t.size(), "setup", "memory file"); path = sim::fmt("/proc/self/fd/%d", fd); } else sender(s.substr(0, cut), 0, 0, false, 0);
  { pfi::lang::shared_ptr<stream_socket> c; if (!by_name) { c.reset(srv.accept()); SIM_CHECK(!!c, "accept", "accept"); } socketstream st; if (c) st.setsock(c);
    try { pfi::data::config_file f = by_name ? pfi::data::config_file(path) : pfi::data::config_file(st); SIM_CHECK(!bad_line || ends[bad_line] > cut, "no-error", "a wrong line %d is accepted", bad_line); Conf got; for (auto i = f.begin(); i != f.end(); ++i) { got[i->first]; for (auto j = i->second.begin(); j != i->second.end(); ++j) got[i->first][j->first] = j->second; }
      if (!cutting) SIM_CHECK(got == want, "config", "a configuration of %zu sections is read differently", want.size()); else { Conf &u = upto[whole]; int extra = 0; for (auto &x : u) { SIM_CHECK(got.count(x.first), "config", "section '%s', complete before the cut, is missing", x.first.c_str()); for (auto &y : x.second) { if (!got[x.first].count(y.first)) sim::fail("config", "an entry before the cut is missing"); if (got[x.first][y.first] != y.second) extra++; } for (auto &y : got[x.first]) if (!x.second.count(y.first)) extra++; } for (auto &x : got) if (!u.count(x.first)) extra += x.second.size() ? 1 : 1; SIM_CHECK(extra <= 1, "config", "%d entries differ although only one line is cut", extra); }
      const pfi::data::config_file &cf = f; SIM_CHECK(cf["no such section"]["x"] == "" && cf.find("no such section") == cf.end(), "config", "a section nobody wrote"); }
    catch (const pfi::lang::parse_error &e) { if (!cutting) SIM_CHECK(bad_line && e.lineno() == bad_line, "located", "an error in line %d is reported for line %d", bad_line, e.lineno()); else SIM_CHECK((bad_line && e.lineno() == bad_line) || e.lineno() == (int)whole + 1, "located", "an error in line %zu is reported for line %d", whole + 1, e.lineno()); } }
  if (fd >= 0) close(fd);
  sim::join_all(); sim::cover(300 + cutting * 2 + !!bad_line);
}
}
