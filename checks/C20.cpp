// C20: the caching resolver: right answers, bounded age, bounded size, least recently used out first, thread safe.
#include "netcommon.h"
#include <map>
#include <set>
#include <memory>
#include "network/dns.h"
#include "network/socket.h"
using namespace pfi::network;
namespace {
const int64_t SEC = 1000000000LL;
typedef std::vector<ipv4_address> IPs;
struct Host { std::string name; std::vector<std::pair<int64_t, std::vector<std::string> > > hist; };
std::vector<std::string> ips_of(int h, int ver) { std::vector<std::string> v; int n = 1 + (h + ver) % 3; for (int i = 0; i < n; i++) v.push_back(sim::fmt("10.%d.%d.%d", h, ver % 250, i + 1)); return v; }
void change(Host &h, int idx) { sim::Atomic a; int ver = h.hist.size(); h.hist.push_back(std::make_pair(sim::now(), ips_of(idx, ver))); sim::net::host(h.name, h.hist.back().second); }
std::string show(const IPs &v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i].to_string(); return "[" + s + "]"; }
bool same(const IPs &a, const std::vector<std::string> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].to_string() != b[i]) return false; return true; }
// was this answer the host's at some moment of [from, to]?
bool valid(const Host &h, const IPs &a, int64_t from, int64_t to) { for (size_t i = 0; i < h.hist.size(); i++) { int64_t b = h.hist[i].first, e = i + 1 < h.hist.size() ? h.hist[i + 1].first : INT64_MAX; if (b <= to && e >= from && same(a, h.hist[i].second)) return true; } return false; }

// one thread, every access in its own second: exact model
SCENARIO(C20, model, 5) {
  int size = sim::rnd(5), ttl = sim::rnd(3) == 0 ? 1 + sim::rnd(4) : 5 + sim::rnd(60), nh = 1 + sim::rnd(6), np = 1 + sim::rnd(2), ops = 5 + sim::rnd(30); bool dnsfail = sim::rnd(4) == 0; int64_t delay = sim::rnd(3) ? 0 : (int64_t)sim::rnd(3) * SEC;
  std::vector<Host> h(nh); for (int i = 0; i < nh; i++) { h[i].name = sim::fmt("host%d.example", i); change(h[i], i + 1); }
  sim::net::lookup_delay(delay); cached_dns_resolver r(size, ttl); if (dnsfail) sim::enable(sim::K_DNSFAIL, 1);
  struct E { int64_t resolved, used; IPs ips; }; std::map<std::pair<int, int>, E> m; std::map<std::pair<int, int>, int64_t> last;
  for (int o = 0; o < ops; o++) {
    sim::sleep_ns(SEC + (int64_t)sim::rnd(1000) * 1000000 + (sim::rnd(6) == 0 ? (int64_t)sim::rnd(ttl + 3) * SEC : 0));
    int k = sim::rnd(12), hi = sim::rnd(nh), p = 80 + sim::rnd(np); std::pair<int, int> key(hi, p);
    if (k == 0) { change(h[hi], hi + 1); continue; }
    if (k == 1) { r.delete_cache(h[hi].name, p); m.erase(key); last.erase(key); continue; }
    if (k == 2) { r.clear_cache(); m.clear(); last.clear(); continue; }
    int64_t t0 = sim::now(); uint64_t l0 = sim::net::lookups(h[hi].name), f0 = sim::fault_count(sim::K_DNSFAIL); IPs a = r.resolve(h[hi].name, p); bool asked = sim::net::lookups(h[hi].name) > l0, failed = sim::fault_count(sim::K_DNSFAIL) > f0; int64_t t1 = sim::now();
    std::map<std::pair<int, int>, E>::iterator it = m.find(key); double age = it == m.end() ? -1 : (t0 - it->second.resolved) / 1e9;
    if (failed) { SIM_CHECK(a.empty(), "wrong-answer", "a failed lookup yields %s", show(a).c_str()); }
    else SIM_CHECK(a.empty() ? dnsfail : valid(h[hi], a, t0 - (int64_t)(ttl + 1) * SEC, t1), "wrong-answer", "resolving %s gives %s, which was not its address in the last %d s", h[hi].name.c_str(), show(a).c_str(), ttl);
    if (asked && !failed) SIM_CHECK(valid(h[hi], a, t0, t1), "wrong-answer", "a lookup of %s gives %s instead of the current address", h[hi].name.c_str(), show(a).c_str());
    // failed lookups are forgotten after the same time
    if (!last.count(key) || (t0 - last[key]) / 1e9 > ttl + 0.01) SIM_CHECK(asked, "not-expired", "no lookup for %s, last looked up %.2f s ago, entries are kept for at most %d s", h[hi].name.c_str(), last.count(key) ? (t0 - last[key]) / 1e9 : -1.0, ttl);
    if (asked) last[key] = t0;
    if (!dnsfail) {
      if (it == m.end()) SIM_CHECK(asked, size ? "not-evicted" : "size-exceeded", "no lookup for %s, although it cannot be in a cache of %d entries", h[hi].name.c_str(), size);
      else if (age > ttl + 0.01) SIM_CHECK(asked, "not-expired", "an answer %.2f s old is used, entries are kept for at most %d s", age, ttl);
      else if (age < ttl - 1.01) { SIM_CHECK(!asked, "not-cached", "a lookup for %s although it is cached (%.2f s old, kept for %d s, cache of %d)", h[hi].name.c_str(), age, ttl, size); std::vector<std::string> e; for (size_t i = 0; i < it->second.ips.size(); i++) e.push_back(it->second.ips[i].to_string()); SIM_CHECK(same(a, e), "wrong-answer", "the cached answer changed"); }
    }
    if (asked) { E e; e.resolved = t0; e.used = t0; e.ips = a; m.erase(key); while (size && (int)m.size() >= size) { std::map<std::pair<int, int>, E>::iterator old = m.begin(), x = m.begin(); for (; x != m.end(); ++x) if (x->second.used < old->second.used) old = x; m.erase(old); } if (size) m[key] = e; }
    else { it = m.find(key); if (it != m.end()) it->second.used = t0; }
    sim::cover(size * 100 + m.size() * 10 + asked);
  }
  SIM_CHECK(sim::net::addr_lists() == 0, "leak", "%d results of lookups were not given back", sim::net::addr_lists());
}
// many threads
SCENARIO(C20, threads, 5) {
  int size = sim::rnd(4), ttl = 1 + sim::rnd(20), nh = 1 + sim::rnd(4), nt = 2 + sim::rnd(4), ops = 2 + sim::rnd(6); int64_t delay = sim::rnd(3) ? (int64_t)sim::rnd(4000) * 1000000 : 0; bool dnsfail = sim::rnd(4) == 0; sim::enable(sim::K_STALL, sim::rnd(3) == 0);
  std::vector<Host> h(nh); for (int i = 0; i < nh; i++) { h[i].name = sim::fmt("h%d", i); change(h[i], i + 1); }
  sim::net::lookup_delay(delay); std::unique_ptr<cached_dns_resolver> r(new cached_dns_resolver(size, ttl)); if (dnsfail) sim::enable(sim::K_DNSFAIL, 1); sim::set_hang_id("hang", "resolving never returns:");
  for (int t = 0; t < nt; t++) sim::go([&, t] {
    for (int o = 0; o < ops; o++) {
      int hi = sim::rnd(nh), k = sim::rnd(14), p = 80 + sim::rnd(2); if (sim::rnd(3) == 0) sim::sleep_ns((int64_t)sim::rnd(3000) * 1000000);
      if (k == 0) { change(h[hi], hi + 1); continue; } if (k == 1) { r->delete_cache(h[hi].name, p); continue; } if (k == 2) { r->clear_cache(); continue; }
      int64_t t0 = sim::now(); IPs a = r->resolve(h[hi].name, p); int64_t t1 = sim::now(); sim::Atomic at;
      // a resolve that stalls between two steps of its own may hand over an answer that got older meanwhile
      SIM_CHECK(a.empty() ? dnsfail : valid(h[hi], a, t0 - (int64_t)(ttl + 1) * SEC - delay - sim::stall_total(), t1), "wrong-answer", "resolving %s gives %s, which was not its address in the last %d s", h[hi].name.c_str(), show(a).c_str(), ttl);
    }
  });
  sim::join_all(); sim::faults_off();
  // afterwards it works as a cache of that size
  sim::net::lookup_delay(0); r->clear_cache(); uint64_t l = 0; int n = std::min(size, nh);
  for (int round = 0; round < 3; round++) for (int i = 0; i < n; i++) { sim::sleep_ns(ttl >= 15 ? SEC : 1); l = sim::net::lookups(h[i].name); IPs a = r->resolve(h[i].name, 99); bool asked = sim::net::lookups(h[i].name) > l; SIM_CHECK(same(a, h[i].hist.back().second), "wrong-answer", "resolving %s gives %s", h[i].name.c_str(), show(a).c_str()); if (ttl > 14 || (ttl > 1 && round == 0)) SIM_CHECK(asked == (round == 0), "not-cached", "round %d: host %d %s looked up, cache of %d entries", round, i, asked ? "is" : "is not", size); }
  r.reset(); SIM_CHECK(sim::net::addr_lists() == 0, "leak", "%d results of lookups were not given back", sim::net::addr_lists()); sim::cover(size * 1000 + nt * 10 + nh);
}
// what is cached is given without waiting for lookups of others
SCENARIO(C20, nowait, 1) {
  int nh = 2 + sim::rnd(3), nt = 2 + sim::rnd(3); std::vector<Host> h(nh); for (int i = 0; i < nh; i++) { h[i].name = sim::fmt("n%d", i); change(h[i], i + 1); }
  cached_dns_resolver r(8, 1000); r.resolve("n0", 80); sim::net::lookup_delay((int64_t)(5 + sim::rnd(20)) * SEC); sim::set_hang_id("hang", "resolving never returns:");
  for (int i = 1; i < nh; i++) sim::go([&, i] { IPs a = r.resolve(h[i].name, 80); SIM_CHECK(same(a, h[i].hist[0].second), "wrong-answer", "resolving %s gives %s", h[i].name.c_str(), show(a).c_str()); });
  for (int t = 0; t < nt; t++) sim::go([&] { for (int o = 0; o < 3; o++) { sim::sleep_ns((int64_t)sim::rnd(2000) * 1000000); int64_t t0 = sim::now(); IPs a = r.resolve("n0", 80); SIM_CHECK(sim::now() - t0 < SEC, "blocked", "a cached name took %.2f s while another one was being looked up", (sim::now() - t0) / 1e9); SIM_CHECK(same(a, h[0].hist[0].second), "wrong-answer", "resolving gives %s", show(a).c_str()); } });
  sim::join_all(); SIM_CHECK(sim::net::addr_lists() == 0, "leak", "%d results of lookups were not given back", sim::net::addr_lists()); sim::cover(nh * 10 + nt);
}
// the plain resolver, and sockets that use a resolver
SCENARIO(C20, sockets, 2) {
  int n = 1 + sim::rnd(3), ttl = 30; Host h; h.name = "srv.example"; std::vector<std::string> ips; for (int i = 0; i < n; i++) ips.push_back(sim::fmt("10.0.0.%d", i + 1)); sim::net::host(h.name, ips); sim::net::latency(false);
  bool cached = sim::coin(); stream_socket::set_dns_resolver(cached ? pfi::lang::shared_ptr<dns_resolver>(new cached_dns_resolver(4, ttl)) : pfi::lang::shared_ptr<dns_resolver>(new normal_dns_resolver()));
  int l = sim::net::raw_listen(4200), nt = 1 + sim::rnd(3); sim::set_hang_id("hang", "connecting never returns:");
  for (int i = 0; i < nt; i++) sim::go([&] { for (int k = 0; k < 2; k++) { stream_socket s; bool ok = s.connect(h.name, 4200); SIM_CHECK(ok, "connect", "connecting by name failed"); SIM_CHECK(s.remote_addr().to_string() == ips[0], "wrong-answer", "connected to %s instead of %s", s.remote_addr().to_string().c_str(), ips[0].c_str()); } });
  sim::join_all(); uint64_t q = sim::net::lookups(h.name); if (cached) SIM_CHECK(q >= 1 && q <= (uint64_t)nt, "not-cached", "%d threads made %llu lookups", nt, (unsigned long long)q); else SIM_CHECK(q == 2u * nt, "lookups", "%d connects made %llu lookups", 2 * nt, (unsigned long long)q);
  stream_socket::set_dns_resolver(pfi::lang::shared_ptr<dns_resolver>()); { stream_socket s; SIM_CHECK(s.connect(h.name, 4200), "connect", "without a resolver connecting fails"); } sim::net::raw_close(l);
  { normal_dns_resolver nr; IPs a = nr.resolve("no.such.host", 1); SIM_CHECK(a.empty(), "wrong-answer", "an unknown host resolves to %s", show(a).c_str()); sim::enable(sim::K_DNSFAIL, 5); uint64_t f0 = sim::fault_count(sim::K_DNSFAIL); IPs b = nr.resolve(h.name, 1); SIM_CHECK(sim::fault_count(sim::K_DNSFAIL) > f0 ? b.empty() : same(b, ips), "wrong-answer", "resolving gives %s", show(b).c_str()); }
}
}
