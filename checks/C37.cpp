// C37: codecs, digests, searches, transforms and generators used by several threads at once, from the first use on.
#include "../sim/sim.h"
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstring>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "data/digest/md5.h"
#include "data/encoding/base64.h"
#include "data/fenwick_tree.h"
#include "data/string/aho_corasick.h"
#include "data/string/algorithm.h"
#include "data/string/kmp.h"
#include "data/string/ustring.h"
#include "data/string/utility.h"
#include "lang/cast.h"
#include "lang/demangle.h"
#include "math/fft.h"
#include "math/random.h"
#include "network/ipv4.h"
#include "network/uri.h"
namespace {
typedef std::string S; namespace ps = pfi::data::string;
#define REF __attribute__((no_sanitize("thread"), noinline))
REF S bytes(int max) { S s; int n = sim::rnd(max + 1), k = sim::rnd(3); for (int i = 0; i < n; i++) s += k == 0 ? (char)sim::rnd(256) : k == 1 ? (char)('a' + sim::rnd(2)) : " +%-_.~/AZaz09=&\xff\x80\0"[sim::rnd(20)]; return s; }
REF S letters(int max) { S s; int n = sim::rnd(max + 1); for (int i = 0; i < n; i++) s += (char)('a' + sim::rnd(3)); return s; }
REF S b64(const S &s) { static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; S r; unsigned acc = 0; int bits = 0; for (size_t i = 0; i < s.size(); i++) { acc = acc << 8 | (unsigned char)s[i]; bits += 8; while (bits >= 6) { bits -= 6; r += t[acc >> bits & 63]; } } if (bits) r += t[acc << (6 - bits) & 63]; while (r.size() % 4) r += '='; return r; }
REF S md5(const S &in) {
  static const int sh[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}}; uint32_t h[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u}; S m = in; m += (char)0x80; while (m.size() % 64 != 56) m += '\0'; uint64_t bits = (uint64_t)in.size() * 8; for (int i = 0; i < 8; i++) m += (char)(bits >> (8 * i));
  for (size_t o = 0; o < m.size(); o += 64) { uint32_t w[16]; for (int i = 0; i < 16; i++) w[i] = (unsigned char)m[o + i * 4] | (unsigned char)m[o + i * 4 + 1] << 8 | (unsigned char)m[o + i * 4 + 2] << 16 | (uint32_t)(unsigned char)m[o + i * 4 + 3] << 24; uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; i++) { uint32_t f; int g, r = i / 16; if (r == 0) { f = (b & c) | (~b & d); g = i; } else if (r == 1) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (r == 2) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = 7 * i % 16; } uint32_t k = (uint32_t)(uint64_t)floor(fabs(sin(i + 1.0)) * 4294967296.0), t = a + f + k + w[g]; int s = sh[r][i % 4]; a = d; d = c; c = b; b = b + (t << s | t >> (32 - s)); }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; }
  S r; for (int i = 0; i < 16; i++) r += sim::fmt("%02x", h[i / 4] >> (8 * (i % 4)) & 255); return r;
}
REF S pct(const S &s) { S r; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if ((c < 128 && isalnum(c)) || strchr("-_.~", c ? c : 1)) r += (char)c; else if (c == ' ') r += '+'; else r += sim::fmt("%%%02X", c); } return r; }
REF S utf8(const std::vector<unsigned> &v) { S r; for (unsigned c : v) { if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } } return r; }
typedef std::vector<std::pair<int, int> > Hits;
REF Hits naive(const std::vector<S> &w, const S &t) { Hits h; for (size_t e = 1; e <= t.size(); e++) for (size_t i = 0; i < w.size(); i++) if (w[i].size() <= e && !t.compare(e - w[i].size(), w[i].size(), w[i])) h.push_back(std::make_pair((int)i, (int)e)); std::sort(h.begin(), h.end()); return h; }
REF int dist(const S &a, const S &b) { std::vector<int> p(b.size() + 1), c; for (size_t j = 0; j <= b.size(); j++) p[j] = j; for (size_t i = 1; i <= a.size(); i++) { c.assign(1, i); for (size_t j = 1; j <= b.size(); j++) c.push_back(std::min(std::min(p[j], c[j - 1]) + 1, p[j - 1] + (a[i - 1] != b[j - 1]))); p = c; } return p[b.size()]; }
REF int lcs(const S &a, const S &b) { std::vector<int> p(b.size() + 1), c; for (size_t i = 1; i <= a.size(); i++) { c.assign(1, 0); for (size_t j = 1; j <= b.size(); j++) c.push_back(a[i - 1] == b[j - 1] ? p[j - 1] + 1 : std::max(p[j], c[j - 1])); p = c; } return p[b.size()]; }
REF std::vector<S> pieces(const S &s, const S &sep) { std::vector<S> r; size_t p = 0, q; while ((q = s.find(sep, p)) != S::npos) { r.push_back(s.substr(p, q - p)); p = q + sep.size(); } r.push_back(s.substr(p)); return r; }
REF S glue(const std::vector<S> &v, const S &sep) { S r; for (size_t i = 0; i < v.size(); i++) r += (i ? sep : S()) + v[i]; return r; }
typedef std::complex<double> Cx;
REF std::vector<Cx> dft(const std::vector<Cx> &x, int dir) { size_t n = x.size(); std::vector<Cx> r(n); for (size_t k = 0; k < n; k++) for (size_t j = 0; j < n; j++) { double t = dir * 2 * M_PI * (double)(k * j % n) / n; r[k] += Cx(x[j].real() * cos(t) - x[j].imag() * sin(t), x[j].real() * sin(t) + x[j].imag() * cos(t)); } return r; }
REF bool close(const std::vector<Cx> &a, const std::vector<Cx> &b) { for (size_t i = 0; i < a.size(); i++) if (fabs(a[i].real() - b[i].real()) > 1e-6 || fabs(a[i].imag() - b[i].imag()) > 1e-6) return false; return a.size() == b.size(); }
template <class T> struct Own { T v; };
// things several threads may look at together
struct Shared { std::vector<S> words; std::unique_ptr<ps::aho_corasick> ac; S pat; std::unique_ptr<ps::kmp<S> > kmp; };
#define SAME(c, ...) SIM_CHECK(c, "disturbed", __VA_ARGS__)
enum { JOBS = 15 };
// one call with arguments of its own, and the result these determine; false: failing memory was reported
template <class F> bool call(F f, bool mem) { if (!mem) { f(); return true; } uint64_t n = sim::fault_count(sim::K_ALLOCFAIL); sim::fail_allocs(true); bool ok = true; try { f(); } catch (const std::bad_alloc &) { ok = false; } sim::fail_allocs(false); SIM_CHECK(ok || sim::fault_count(sim::K_ALLOCFAIL) > n, "wrong-error", "out of memory without a reason"); return ok; }
void job(const Shared &sh, int what, bool mem) {
  switch (what) {
    case 0: { S s = bytes(40), w = b64(s), g, d; if (!call([&] { g = pfi::data::encoding::base64_encode(s); d = pfi::data::encoding::base64_decode(w); }, mem)) break; SAME(g == w && d == s, "%zu bytes become %s in Base64, and back %zu bytes", s.size(), g.c_str(), d.size());
      if (w.empty() || sim::coin()) break; S x = w; int how = sim::rnd(3); if (how == 0) x.resize(x.size() - 1 - sim::rnd(3)); else { size_t q = x.find('='); x[sim::rnd(q == S::npos ? x.size() : q)] = how == 1 ? "-_ .,:@[`{\x80\xff"[sim::rnd(12)] : '\n'; } if (how == 2 && sim::coin()) { x = w; x[sim::rnd(2)] = '='; } bool bad = false; if (!call([&] { bad = false; try { pfi::data::encoding::base64_decode(x); } catch (const std::invalid_argument &) { bad = true; } }, mem)) break; SAME(bad, "%s is taken for Base64", x.c_str()); break; }
    case 1: { S s = bytes(sim::coin() ? 60 : 140), w = md5(s); pfi::data::digest::md5sum m; std::istringstream is(s); bool st = sim::coin(); if (!call([&] { m = st ? pfi::data::digest::md5sum(is) : pfi::data::digest::md5sum(s); }, mem)) break; std::ostringstream os; os << m; SAME(os.str() == w, "the MD5 digest of %zu bytes is %s instead of %s", s.size(), os.str().c_str(), w.c_str()); break; }
    case 2: { S s = bytes(30), w = pct(s), g, d; if (!call([&] { g = pfi::network::uri_encode(s); d = pfi::network::uri_decode(w); }, mem)) break; SAME(g == w && d == s, "%zu bytes become %s in a URI instead of %s", s.size(), g.c_str(), w.c_str()); break; }
    case 3: { S host = sim::coin() ? "h" + letters(5) : sim::fmt("10.%d.%d.1", sim::rnd(256), sim::rnd(256)), port = sim::coin() ? "" : sim::fmt("%d", 1 + sim::rnd(65000)), user = sim::rnd(3) ? "" : "u" + letters(3), path = sim::coin() ? "/" + letters(6) + "/x" : "", q = sim::coin() ? "" : "a=" + letters(4), f = sim::coin() ? "" : "f" + letters(3), sc = sim::coin() ? "http" : "svn+ssh";
      S u = sc + "://" + (user.empty() ? "" : user + "@") + host + (port.empty() ? "" : ":" + port) + path + (q.empty() ? "" : "?" + q) + (f.empty() ? "" : "#" + f); std::unique_ptr<pfi::network::uri> p; if (!call([&] { p.reset(new pfi::network::uri(u)); }, mem)) break;
      SAME(p->scheme() == sc && p->host() == host && p->port() == port && p->userinfo() == user && p->path() == path && p->query() == q && p->fragment() == f, "%s is taken apart wrongly", u.c_str()); if (mem) break; std::ostringstream os; os << *p; S want = u; if (path.empty()) want.insert(sc.size() + 3 + p->authority().size(), "/"); SAME(os.str() == want, "%s is put together as %s", u.c_str(), os.str().c_str()); break; }
    case 4: { std::vector<unsigned> v; int n = sim::rnd(12); static const unsigned cs[] = {1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0x10000, 0x10ffff, 'a', 0x3042, 0x30ab, 0x4e00, 0xff76, 0xff9e}; for (int i = 0; i < n; i++) v.push_back(cs[sim::rnd(16)]); S s = utf8(v), b; ps::ustring us; bool ok = false; if (!call([&] { us = ps::string_to_ustring(s); b = ps::ustring_to_string(us); ok = ps::check_utf8(s); }, mem)) break;
      SAME(us.size() == v.size() && std::equal(v.begin(), v.end(), us.begin()) && b == s && ok, "a UTF-8 text of %zu characters comes back as %zu", v.size(), us.size()); bool cut = false; if (!s.empty() && ((unsigned char)s[s.size() - 1] & 0x80)) { S c = s.substr(0, s.size() - 1); if (!call([&] { cut = ps::check_utf8(c); }, mem)) break; SAME(!cut, "a text cut within a character is taken for sound"); }
      static const char *const un[] = {"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x9f\xbf", "\xf0\x8f\xbf\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff", "\xc3" "a", "\xe3\x81" "a"}; if (sim::coin()) { size_t at = sim::rnd(v.size() + 1); S m = utf8(std::vector<unsigned>(v.begin(), v.begin() + at)) + un[sim::rnd(14)] + utf8(std::vector<unsigned>(v.begin() + at, v.end())); bool good = false; if (!call([&] { good = ps::check_utf8(m); }, mem)) break; SAME(!good, "a damaged text of %zu bytes is taken for UTF-8", m.size()); }
      if (sim::coin()) { static const unsigned ok[] = {'a', '~', 0x3a9, 0x3042, 0x4e00, 0x20000}; std::vector<unsigned> c; ps::ustring half, full; int n = sim::rnd(8); for (int i = 0; i < n; i++) { c.push_back(ok[sim::rnd(6)]); switch (sim::rnd(4)) { case 0: half += (ps::uchar)0xff76; full += (ps::uchar)0x30ab; break; case 1: half += (ps::uchar)0xff76; half += (ps::uchar)0xff9e; full += (ps::uchar)0x30ac; break; case 2: half += (ps::uchar)0xff8a; half += (ps::uchar)0xff9f; full += (ps::uchar)0x30d1; break; default: half += (ps::uchar)'x'; full += (ps::uchar)'x'; } } S t = utf8(c), in, g; for (unsigned x : c) { if (sim::rnd(3) == 0) in += "\xff"; in += utf8(std::vector<unsigned>(1, x)); } ps::ustring z; if (!call([&] { g = ps::sanitize_utf8(in); z = ps::hankaku_to_zenkaku(half); }, mem)) break; SAME(g == t && z == full, "a text of %zu characters is cleaned to %zu bytes, or widened wrongly", c.size(), g.size()); } break; }
    case 5: { S t = letters(40); Hits h; if (!call([&] { sh.ac->search(t, h); }, mem)) break; std::sort(h.begin(), h.end()); SAME(h == naive(sh.words, t), "a search in %s finds %zu instead of %zu occurrences", t.c_str(), h.size(), naive(sh.words, t).size()); break; }
    case 6: { std::vector<S> w; int n = 1 + sim::rnd(4); for (int i = 0; i < n; i++) { S x = "a" + letters(4); if (std::find(w.begin(), w.end(), x) == w.end()) w.push_back(x); } S t = letters(30); Hits h; if (!call([&] { ps::aho_corasick a(w); a.search(t, h); }, mem)) break; std::sort(h.begin(), h.end()); SAME(h == naive(w, t), "a search in %s finds %zu instead of %zu occurrences", t.c_str(), h.size(), naive(w, t).size()); break; }
    case 7: { S t = letters(40); int o = sim::rnd(t.size() + 1); size_t g = 0; if (!call([&] { g = sh.kmp->find(t, o); }, mem)) break; SAME(g == t.find(sh.pat, o), "%s is found at %zd instead of %zd in %s", sh.pat.c_str(), (ssize_t)g, (ssize_t)t.find(sh.pat, o), t.c_str()); break; }
    case 8: { S a = letters(12), b = letters(12); int d = -1, l = -1, i = -1; if (!call([&] { d = ps::edit_distance(a, b); l = ps::longest_common_subsequence(a, b); i = ps::longest_increasing_subsequence(a); }, mem)) break; std::vector<int> best(a.size()); int bi = 0; for (size_t x = 0; x < a.size(); x++) { best[x] = 1; for (size_t y = 0; y < x; y++) if (a[y] < a[x]) best[x] = std::max(best[x], best[y] + 1); bi = std::max(bi, best[x]); } SAME(d == dist(a, b) && l == lcs(a, b) && i == bi, "%s and %s: distance %d, common %d, increasing %d", a.c_str(), b.c_str(), d, l, i); break; }
    case 9: { S s = letters(30), sep = sim::coin() ? "a" : "bc", to = letters(3), pad(sim::rnd(3), ' '), pr = letters(2), str, rep, j; std::vector<S> p1, want = pieces(s, sep); S in = pad + "x" + s + "x" + pad; bool sw = false, ew = false; if (!call([&] { p1 = ps::split(s, sep); rep = ps::replace(s, sep, to); j = ps::join(want, sep); str = ps::strip(in); sw = ps::starts_with(s, pr); ew = ps::ends_with(s, pr); }, mem)) break;
      SAME(p1 == want && rep == glue(want, to) && j == s && str == "x" + s + "x" && sw == !s.compare(0, pr.size(), pr) && ew == (s.size() >= pr.size() && !s.compare(s.size() - pr.size(), pr.size(), pr)), "the pieces of %s are wrong", s.c_str()); break; }
    case 10: { int n = 1 << sim::rnd(5); std::vector<Cx> x; for (int i = 0; i < n; i++) x.push_back(Cx((int)sim::rnd(200) - 100, (int)sim::rnd(200) - 100)); std::vector<Cx> y = x; if (!call([&] { pfi::math::fft(y.begin(), y.end()); }, mem)) break; SAME(close(y, dft(x, 1)), "a transform of %d values is wrong", n); if (!call([&] { pfi::math::ifft(y.begin(), y.end()); }, mem)) break; for (auto &c : y) c /= n; SAME(close(y, x), "a transform of %d values does not invert", n); break; }
    case 11: { uint32_t seed = sim::coin() ? sim::rnd(5) : sim::rnd(4000000000u); std::unique_ptr<pfi::math::random::mtrand> r; if (!call([&] { r.reset(new pfi::math::random::mtrand(seed)); }, mem)) break; std::mt19937 m(seed); int n = 1 + sim::rnd(20); for (int i = 0; i < n; i++) { uint32_t a = r->next_int(), b = m(); SAME(a == b, "number %d of the generator with seed %u is %u instead of %u", i, seed, a, b); } uint32_t hi = m() >> 5, lo = m() >> 6; double want = (hi * 67108864.0 + lo) / 9007199254740992.0, d = r->next_double(); SAME(d == want, "a random fraction is %.17g instead of %.17g", d, want); uint32_t k = (*r)(10, 20); SAME(k >= 10 && k < 20, "a random number of 10 to 20 is %u", k); break; }
    case 12: { int v = (int)sim::rnd(4000000000u), got = 0; S s, w = sim::fmt("%d", v); double d = 0; bool bad = false; if (!call([&] { try { s = pfi::lang::lexical_cast<S>(v); } catch (const std::bad_cast &) { if (mem) throw std::bad_alloc(); throw; } }, mem)) break; SAME(s == w, "%d becomes %s as text", v, s.c_str()); if (mem) break; got = pfi::lang::lexical_cast<int>(w); d = pfi::lang::lexical_cast<double>(S("0.5")); try { pfi::lang::lexical_cast<int>(S("x")); } catch (const std::bad_cast &) { bad = true; } SAME(got == v && d == 0.5 && bad, "%s becomes %d as a number", w.c_str(), got); break; }
    case 13: { S n; if (!call([&] { n = pfi::lang::get_typename<std::pair<int, char> >(); }, mem)) break; SAME(n == "std::pair<int, char>" || (mem && n == typeid(std::pair<int, char>).name()), "a type is called %s", n.c_str()); int a = sim::rnd(256), b = sim::rnd(256), c = sim::rnd(256), d = sim::rnd(256); S w = sim::fmt("%d.%d.%d.%d", a, b, c, d), g; pfi::network::ipv4_address x(a, b, c, d); bool eq = false; if (!call([&] { g = x.to_string(); eq = pfi::network::ipv4_address(w) == x; }, mem)) break; SAME(g == w && eq, "the address %s becomes %s", w.c_str(), g.c_str()); break; }
    default: { int n = 1 + sim::rnd(20); std::vector<int> v(n); std::unique_ptr<pfi::data::fenwick_tree<int> > t; if (!call([&] { t.reset(new pfi::data::fenwick_tree<int>(n)); }, mem)) break; for (int i = 0; i < 10; i++) { int k = sim::rnd(n), x = sim::rnd(100); v[k] += x; t->increase(k, x); int a = sim::rnd(n), b = a + sim::rnd(n - a), s = 0; for (int j = a; j <= b; j++) s += v[j]; int g = t->query(a, b); SAME(g == s, "the sum of %d to %d is %d instead of %d", a, b, g, s); } }
  }
}
void common(Shared &sh) { int n = 1 + sim::rnd(4); for (int i = 0; i < n; i++) { S x = (sim::coin() ? "a" : "b") + letters(3); if (std::find(sh.words.begin(), sh.words.end(), x) == sh.words.end()) sh.words.push_back(x); } sh.ac.reset(new ps::aho_corasick(sh.words)); sh.pat = "a" + letters(4); sh.kmp.reset(new ps::kmp<S>(sh.pat)); }
SCENARIO(C37, together, 4) {
  Shared sh; common(sh); int nt = 2 + sim::rnd(3), one = sim::coin() ? (int)sim::rnd(JOBS) : -1; sim::enable(sim::K_STALL, sim::rnd(3) == 0);
  for (int t = 0; t < nt; t++) sim::go([&] { int n = 1 + sim::rnd(4); for (int i = 0; i < n; i++) { int w = one >= 0 ? one : sim::rnd(JOBS); job(sh, w, false); sim::cover(w); } }); sim::join_all();
}
SCENARIO(C37, memory, 1) {
  Shared sh; common(sh); sim::enable(sim::K_ALLOCFAIL, 1); for (int i = 0; i < 3; i++) { int w = sim::rnd(JOBS); for (int k = 0; k < 3; k++) job(sh, w, false); uint64_t b = sim::live_blocks(); for (int k = 0; k < 3; k++) job(sh, w, true);
    // something kept for good at first use is no leak: it does not grow again
    if (sim::live_blocks() > b) { b = sim::live_blocks(); for (int k = 0; k < 300 && sim::live_blocks() <= b; k++) job(sh, w, true); }
    SIM_CHECK(sim::live_blocks() <= b, "leak", "%lld blocks are left behind (job %d)", (long long)(sim::live_blocks() - b), w); job(sh, w, false); sim::cover(100 + w); }
}
}
