// C26: JSON texts over connections: any segmentation, cut or damage.
#include "jsoncommon.h"
namespace {
// one connection, any number of texts; the reader gets each text as soon as it is complete
SCENARIO(C26, stream, 6) {
  nc::swarm(); unsigned n = 1 + sim::rnd(5); std::vector<J> v; for (unsigned i = 0; i < n; i++) v.push_back(top()); int how = sim::rnd(4), rd = sim::rnd(3); bool step = sim::coin(); unsigned done = 0, sent = 0; std::vector<Str> txt(n); for (unsigned i = 0; i < n; i++) { ws(txt[i]); put(txt[i], v[i]); if (rd == 1 || how) { if (sim::coin() || !tells_end(v[i])) txt[i] += '\n'; } else { if (!tells_end(v[i])) txt[i] += " \n,"[sim::rnd(2)]; ws(txt[i]); } }
  server_socket srv; SIM_CHECK(srv.create(4200), "setup", "create"); sim::set_hang_id("text-hang", "a JSON text sent completely is not returned:");
  sim::go([&] {
    if (how == 0) { sim::net::Outside o; int fd = sim::net::raw_connect(4200); for (unsigned i = 0; i < n; i++) { sim::net::raw_send(fd, txt[i]); sent = i + 1; if (step) { while (done <= i) sim::sleep_ns(2000000); } } sim::net::raw_close(fd); return; }
    socketstream s("127.0.0.1", 4200); SIM_CHECK(!!s, "connect", "connect");
    for (unsigned i = 0; i < n; i++) { js::json j = build(v[i]); if (how == 1) s << j; else if (how == 2) s << js::pretty(j); else s << js::without_escape(j); if (!tells_end(v[i])) s << '\n'; s.flush(); SIM_CHECK(s.good(), "write", "writing to a healthy socket stream fails"); sent = i + 1; if (step) while (done <= i) sim::sleep_ns(2000000); }
  });
  sim::go([&] {
    pfi::lang::shared_ptr<stream_socket> c(srv.accept()); SIM_CHECK(!!c, "accept", "accept"); socketstream s(c); js::json_parser p(s);
    for (unsigned i = 0; i < n; i++) {
      if (rd == 0) { js::json j = p.parse(); SIM_CHECK(same(v[i], j), "wrong-value", "text %u is parsed as something else", i); }
      else if (rd == 1) { js::json j; s >> j; SIM_CHECK(same(v[i], j), "wrong-value", "text %u is read as something else", i); }
      else { CB cb; p.parse_stream(cb); if (how == 0) SIM_CHECK(cb.done && cb.st.empty() && eq(v[i], cb.root), "callbacks", "the events of text %u describe something else", i); else SIM_CHECK(cb.done && cb.st.empty() && cb.root.k == (v[i].k == 3 && cb.root.k == 2 ? 2 : v[i].k), "callbacks", "the events of text %u describe something else", i); }
      SIM_CHECK(sent >= i || !step, "early", "text %u was returned before it was sent", i); done = i + 1;
    }
    bool over = false; try { if (rd == 1) { js::json j; s >> j; } else p.parse(); } catch (const pfi::lang::end_of_data &) { over = true; } catch (const pfi::lang::parse_error &) { } SIM_CHECK(over, "no-end", "the end of the connection is not reported as the end of the data");
  });
  sim::join_all(); sim::cover(how * 16 + rd * 4 + step);
}
// the connection ends or breaks somewhere
SCENARIO(C26, broken, 3) {
  nc::swarm(); unsigned n = 1 + sim::rnd(3); std::vector<J> v; Str all; std::vector<size_t> end; for (unsigned i = 0; i < n; i++) { v.push_back(top()); put(all, v[i]); end.push_back(all.size()); all += '\n'; } size_t cut = sim::rnd(all.size()); bool reset = sim::rnd(3) == 0; server_socket srv; SIM_CHECK(srv.create(4200), "setup", "create"); sim::set_hang_id("cut-hang", "parsing does not end although the connection did:");
  sim::go([&] { sim::net::Outside o; int fd = sim::net::raw_connect(4200); sim::net::raw_send(fd, all.substr(0, cut)); if (reset) sim::net::raw_reset(fd); else sim::net::raw_close(fd); });
  { pfi::lang::shared_ptr<stream_socket> c(srv.accept()); SIM_CHECK(!!c || reset, "accept", "accept"); if (!c) return; socketstream s(c); js::json_parser p(s); unsigned i = 0; bool over = false;
    // a cut inside a character or number may be reported as a bad character or number
    try { for (;; i++) { js::json j = p.parse(); SIM_CHECK(i < n && (end[i] <= cut || !tells_end(v[i])), "invented", "text %u is returned although it was cut", i); if (end[i] <= cut) SIM_CHECK(same(v[i], j), "wrong-value", "text %u before the cut is parsed as something else", i); } } catch (const pfi::lang::end_of_data &) { over = true; } catch (const pfi::lang::parse_error &e) { over = i < n && end[i] > cut; if (!over) sim::fail("cut-as-error", "a text that is cut is reported as wrong: %s [%s]", e.what(), nc::show(all.substr(cut > 60 ? cut - 60 : 0, std::min<size_t>(cut, 60)), 100).c_str()); } catch (const std::exception &e) { sim::fail("exception", "%s", e.what()); }
    SIM_CHECK(over, "no-end", "the end is not reported"); if (!reset) SIM_CHECK(i == n || end[i] > cut || (i < n && end[i] <= cut && !tells_end(v[i]) && end[i] == cut), "lost", "text %u, which came completely, is not returned", i); sim::cover(100 + reset * 4 + (i == 0) * 2); }
  sim::join_all();
}
// damaged texts and failing allocations
SCENARIO(C26, damaged, 4) {
  nc::volume = sim::rnd(6) ? 1 : 2; J v = top(); Str t; put(t, v); bool oom = sim::rnd(3) == 0; int flips = oom ? 0 : 1 + sim::rnd(3); for (int i = 0; i < flips && !t.empty(); i++) { static const char c[] = "{}[],:\"\\u0129-+.eEtfn \n\xff\xc0\xe3\xf4\x80"; size_t p = sim::rnd(t.size()); switch (sim::rnd(5)) { case 4: { static const char *l[] = {"false", "true", "null", "\\u", "\\"}; const char *w = l[sim::rnd(5)]; size_t q = t.find(w); if (q != Str::npos) { size_t k = sim::rnd(strlen(w)); if (sim::coin()) t.erase(q + k, 1); else t[q + k] = sim::coin() ? t[q + k] ^ 32 : 'a' + sim::rnd(26); } break; } case 0: t[p] = c[sim::rnd(sizeof c)]; break; case 1: t.erase(p, 1 + sim::rnd(4)); break; case 2: t.insert(p, 1, c[sim::rnd(sizeof c)]); break; default: t[p] ^= 1 << sim::rnd(8); } }
  J rv; int good = oom ? -1 : Ref(t).verdict(rv); long lines = std::count(t.begin(), t.end(), '\n'); uint64_t before = sim::live_blocks(); bool ok = false; if (sim::coin()) errno = ERANGE;
  { std::istringstream is(t); uint64_t mid = sim::live_blocks(); (void)mid; if (oom) { sim::enable(sim::K_ALLOCFAIL, 1); sim::fail_allocs(true); }
    try { js::json j = js::json_parser(is).parse(); sim::fail_allocs(false); ok = true; if (oom) SIM_CHECK(same(v, j), "wrong-value", "an allocation failed, and the text is parsed as something else"); else { SIM_CHECK(good != 0, "accepted", "a text that is no JSON value is accepted: '%s'", nc::show(t, 100).c_str()); SIM_CHECK(good < 0 || same(rv, j), "wrong-value", "a text is parsed as something else: '%s'", nc::show(t, 100).c_str()); std::ostringstream a, b; a << j; std::istringstream i2(a.str()); js::json k = js::json_parser(i2).parse(); b << k; SIM_CHECK(j.type() == k.type() || j.type() == js::json::Float, "reprint", "what was parsed does not survive printing and parsing"); } }
    catch (const pfi::lang::parse_error &e) { sim::fail_allocs(false); SIM_CHECK(!oom && good < 1, "wrong-error", "a good text is called wrong: %s '%s'", e.what(), nc::show(t, 100).c_str()); SIM_CHECK(e.lineno() >= 1 && e.lineno() <= lines + 1, "located", "an error in a text of %ld lines is reported for line %d", lines + 1, e.lineno()); } catch (const pfi::lang::end_of_data &) { sim::fail_allocs(false); SIM_CHECK(!oom && good < 1, "wrong-error", "a good text is called incomplete"); } catch (const std::bad_alloc &) { sim::fail_allocs(false); SIM_CHECK(oom, "wrong-error", "bad_alloc"); } catch (const std::exception &e) { sim::fail_allocs(false); SIM_CHECK(!oom, "wrong-error", "%s", e.what()); } }
  SIM_CHECK(sim::live_blocks() <= before, "leak", "%llu blocks are left after parsing", (unsigned long long)(sim::live_blocks() - before)); sim::cover(200 + oom * 2 + ok);
}
// values shared by threads
SCENARIO(C26, shared, 2) {
  J v = top(); js::json j = build(v); std::ostringstream ref; ref << j; int n = 2 + sim::rnd(2); uint64_t before = 0;
  { for (int t = 0; t < n; t++) sim::go([&, t] { for (int i = 0; i < 2; i++) { js::json mine = i ? j.clone() : j; std::ostringstream o; o << mine; SIM_CHECK(o.str().size() == ref.str().size() && (i || o.str() == ref.str()), "shared", "a value read by several threads prints differently"); std::istringstream is(o.str()); js::json k; is >> k; SIM_CHECK(same(v, k), "shared", "texts parsed by several threads get mixed up"); } }); sim::join_all(); }
  (void)before; SIM_CHECK(same(v, j), "shared", "the shared value changed"); sim::cover(300 + n);
}
}
