// JSON reference values, writer and reader, independent of the library (C26, C34)
#pragma once
#include "netcommon.h"
#include <sstream>
#include <iostream>
#include <memory>
#include <math.h>
#include <stdlib.h>
#include <limits.h>
#include <errno.h>
#include <string.h>
#include <ctype.h>
#include <algorithm>
#include "network/iostream.h"
#include "text/json.h"
#include "lang/exception.h"
using namespace pfi::network; namespace js = pfi::text::json; typedef std::string Str;
namespace {
// reference values: independent of the library
struct J { int k; int64_t i; double d; Str s; std::vector<J> v; std::vector<Str> key; J() : k(0), i(0), d(0) { } };   // 0 null 1 bool 2 int 3 float 4 string 5 array 6 object
void utf8(Str &o, unsigned c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
unsigned cp() { static const unsigned t[] = {'a', 'z', ' ', '0', '"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 0, 1, 0x1f, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, '{', '}', '[', ']', ',', ':'}; return t[sim::rnd(32)]; }
Str rstr() { static const unsigned n[] = {0, 1, 2, 5, 20, 246, 247, 248, 249, 250, 255, 256, 600, 9000}; unsigned m = n[sim::rnd(nc::volume == 2 ? 14 : sim::rnd(8) ? 5 : 13)]; Str s; if (m > 20) { unsigned a = cp(), b = cp(); while (s.size() < m) { utf8(s, s.size() % 7 ? a : b); } } else for (unsigned i = 0; i < m; i++) utf8(s, cp()); return s; }
int budget;
J rval(int depth) {
  J j; budget--; j.k = sim::rnd(depth <= 0 || budget <= 0 ? 5 : 7); if (depth > 0 && budget > 0 && sim::coin()) j.k = 5 + sim::rnd(2);
  switch (j.k) {
    case 1: j.i = sim::coin(); break;
    case 2: { static const int64_t t[] = {0, 1, -1, 9, 10, 255, -128, 2147483647, -2147483648ll, LLONG_MAX, LLONG_MIN, 1234567890123ll}; j.i = t[sim::rnd(12)]; break; }
    case 3: { static const double t[] = {0.5, -0.25, 1e300, 1e-300, 3.14159265359, 100.125, -2e5, 6.02e23}; j.d = t[sim::rnd(8)]; break; }
    case 4: j.s = rstr(); break;
    case 5: { unsigned n = sim::rnd(7) ? sim::rnd(5) : 4 + sim::rnd(8); for (unsigned i = 0; i < n; i++) j.v.push_back(rval(depth - 1)); break; }
    case 6: { unsigned n = sim::rnd(7) ? sim::rnd(4) : 3 + sim::rnd(8); for (unsigned i = 0; i < n; i++) { Str k = (sim::coin() ? rstr() : Str("k")) + sim::fmt("%u", i); j.key.push_back(k); j.v.push_back(rval(depth - 1)); } break; }
  }
  return j;
}
J deep(int n) { J j; for (int i = 0; i < n; i++) { J o; o.k = sim::coin() ? 5 : 6; if (o.k == 6) o.key.push_back("x"); o.v.push_back(j); j = o; } return j; }
J wide() { J o; o.k = 5 + sim::rnd(2); unsigned n = 1 + sim::rnd(20); for (unsigned i = 0; i < n; i++) { if (o.k == 6) o.key.push_back(sim::fmt("m%u", i * 37 % 101)); o.v.push_back(rval(i % 5 == 2 ? 1 : 0)); } return o; }
J top() { budget = 25; unsigned k = sim::rnd(14); if (k == 3 && sim::rnd(3) == 0) { J j; j.k = 4; unsigned b = sim::rnd(10); if (nc::volume < 2) b %= 5; j.s = Str((256u << b) - 20 + sim::rnd(b > 7 ? 300 : 40), 'a' + sim::rnd(26)); utf8(j.s, cp()); return j; } return k == 0 ? deep(1 + sim::rnd(60)) : k == 1 ? wide() : k == 2 ? rval(7) : rval(sim::rnd(4)); }
void ws(Str &o) { while (sim::rnd(5) == 0) o += " \t\n\r"[sim::rnd(4)]; }
void put_str(Str &o, const Str &s) { o += '"'; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; unsigned u = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7; for (int k = 1; k < n; k++) u = u << 6 | (s[i + k] & 63); const char *sh = 0; switch (u) { case '"': sh = "\\\""; break; case '\\': sh = "\\\\"; break; case '\b': sh = "\\b"; break; case '\f': sh = "\\f"; break; case '\n': sh = "\\n"; break; case '\r': sh = "\\r"; break; case '\t': sh = "\\t"; break; case '/': if (i & 1) sh = "\\/"; break; }
    if (sh && s.size() % 3) o += sh; else if (u < 0x20 || u == '"' || u == '\\' || (i + s.size()) % 5 == 0) { if (u < 0x10000) o += sim::fmt(i & 1 ? "\\u%04x" : "\\u%04X", u); else o += sim::fmt("\\u%04X\\u%04x", 0xd800 + ((u - 0x10000) >> 10), 0xdc00 + ((u - 0x10000) & 0x3ff)); } else o.append(s, i, n); i += n; } o += '"'; }
void put(Str &o, const J &j) {
  switch (j.k) {
    case 0: o += "null"; break; case 1: o += j.i ? "true" : "false"; break; case 2: o += sim::fmt("%lld", (long long)j.i); break;
    case 3: { static const char *f[] = {"%.12g", "%.12e", "%.12E"}; Str s = sim::fmt(f[sim::rnd(3)], j.d); if (s.find_first_of(".eE") == Str::npos) s += ".0"; o += s; break; }
    case 4: put_str(o, j.s); break;
    case 5: o += '['; for (size_t i = 0; i < j.v.size(); i++) { if (i) o += ','; ws(o); put(o, j.v[i]); ws(o); } ws(o); o += ']'; break;
    case 6: o += '{'; for (size_t i = 0; i < j.v.size(); i++) { if (i) o += ','; ws(o); put_str(o, j.key[i]); ws(o); o += ':'; ws(o); put(o, j.v[i]); ws(o); } ws(o); o += '}'; break;
  }
}
bool same(const J &a, const js::json &b) {
  switch (a.k) {
    case 0: return b.type() == js::json::Null; case 1: return b.type() == js::json::Bool && js::json_cast<bool>(b) == !!a.i; case 2: return b.type() == js::json::Integer && js::json_cast<int64_t>(b) == a.i;
    case 3: return (b.type() == js::json::Float || b.type() == js::json::Integer) && fabs(js::json_cast<double>(b) - a.d) <= fabs(a.d) * 1e-11; case 4: return b.type() == js::json::String && js::json_cast<Str>(b) == a.s;
    case 5: if (b.type() != js::json::Array || b.size() != a.v.size()) return false; for (size_t i = 0; i < a.v.size(); i++) if (!same(a.v[i], b[i])) return false; return true;
    default: if (b.type() != js::json::Object || b.size() != a.v.size()) return false; for (size_t i = 0; i < a.v.size(); i++) if (!b.count(a.key[i]) || !same(a.v[i], b[a.key[i]])) return false; return true;
  }
}
js::json build(const J &a) {
  switch (a.k) { case 0: return js::json(); case 1: return js::json(new js::json_bool(a.i)); case 2: return js::json(new js::json_integer(a.i)); case 3: return js::json(new js::json_float(a.d)); case 4: return js::json(new js::json_string(a.s));
    case 5: { js::json j(new js::json_array()); for (auto &x : a.v) j.add(build(x)); return j; } default: { js::json j(new js::json_object()); for (size_t i = 0; i < a.v.size(); i++) if (i & 1) j.add(a.key[i], build(a.v[i])); else j[a.key[i]] = build(a.v[i]); return j; } }
}
// the callback interface, turned back into a reference value
struct CB : js::json_parser::callback { std::vector<J> st; std::vector<Str> keys; bool done; J root; CB() : done(false) { }
  void add(const J &j) { if (st.empty()) { SIM_CHECK(!done, "callbacks", "more than one value for one text"); done = true; root = j; return; } J &t = st.back(); if (t.k == 6) { SIM_CHECK(!keys.empty() && t.key.size() == t.v.size() + 1, "callbacks", "a member value without a key"); } t.v.push_back(j); }
  void null() { add(J()); } void boolean(bool b) { J j; j.k = 1; j.i = b; add(j); } void integer(int64_t i) { J j; j.k = 2; j.i = i; add(j); } void number(double d) { J j; j.k = 3; j.d = d; add(j); } void string(const char *p, size_t n) { J j; j.k = 4; j.s.assign(p, n); add(j); }
  void start_object() { J j; j.k = 6; st.push_back(j); } void object_key(const char *p, size_t n) { SIM_CHECK(!st.empty() && st.back().k == 6, "callbacks", "a key outside an object"); st.back().key.push_back(Str(p, n)); keys.push_back(Str(p, n)); } void end_object() { pop(6); } void start_array() { J j; j.k = 5; st.push_back(j); } void end_array() { pop(5); }
  void pop(int k) { SIM_CHECK(!st.empty() && st.back().k == k, "callbacks", "an end without a start"); J j = st.back(); st.pop_back(); add(j); } };
bool eq(const J &a, const J &b) { if (a.k == 3) return (b.k == 3 || b.k == 2) && fabs((b.k == 3 ? b.d : b.i) - a.d) <= fabs(a.d) * 1e-11; if (a.k != b.k || a.i != b.i || a.s != b.s || a.v.size() != b.v.size() || a.key != b.key) return false; for (size_t i = 0; i < a.v.size(); i++) if (!eq(a.v[i], b.v[i])) return false; return true; }
// an independent reader of the grammar: 1 the text begins with this value, 0 it does not begin with a value, -1 either is fine (numbers out of range or of unusual form, a comma before the end, repeated keys, bytes that are no UTF-8)
struct Ref { const Str &s; size_t at; bool unsure; Ref(const Str &s) : s(s), at(0), unsure(false) { }
  int c() { return at < s.size() ? (unsigned char)s[at] : -1; } void sp() { while (c() >= 0 && strchr(" \t\n\r\v\f", c()) && c()) { if (c() == '\v' || c() == '\f') unsure = true; at++; } }
  int lit(const char *t) { for (; *t; t++, at++) if (c() != (unsigned char)*t) return 0; return 1; }
  int hex4(unsigned &u) { u = 0; for (int i = 0; i < 4; i++, at++) { int h = c(); if (h < 0 || !isxdigit(h)) return 0; u = u * 16 + (isdigit(h) ? h - '0' : tolower(h) - 'a' + 10); } return 1; }
  int str(Str &o) { if (c() != '"') return 0; at++; for (;;) { int k = c(); if (k < 0x20) return 0; at++; if (k == '"') return 1; if (k == '\\') { int e = c(); at++; static const char f[] = "\"\\/bfnrt", t[] = "\"\\/\b\f\n\r\t"; const char *p = e > 0 ? strchr(f, e) : 0; if (p) o += t[p - f]; else if (e == 'u') { unsigned u, l; if (!hex4(u) || (u >= 0xdc00 && u <= 0xdfff)) return 0; if (u >= 0xd800 && u <= 0xdbff) { if (!lit("\\u") || !hex4(l) || l < 0xdc00 || l > 0xdfff) return 0; u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); } utf8(o, u); } else return 0; continue; }
      if (k >= 0x80) { int n = k >= 0xc2 && k < 0xe0 ? 1 : k >= 0xe0 && k < 0xf0 ? 2 : k >= 0xf0 && k < 0xf5 ? 3 : 0; unsigned u = n == 1 ? k & 31 : n == 2 ? k & 15 : k & 7; size_t b = at - 1; for (int i = 0; i < n; i++, at++) { if (c() < 0x80 || c() >= 0xc0) { unsure = true; return 1; } u = u << 6 | (c() & 63); } if (!n || (n == 2 && (u < 0x800 || (u >= 0xd800 && u <= 0xdfff))) || (n == 3 && (u < 0x10000 || u > 0x10ffff))) { unsure = true; return 1; } o.append(s, b, n + 1); continue; } o += (char)k; } }
  int num(J &j) { size_t b = at; bool fl = false, odd = false; if (c() == '-') at++; size_t d = at; while (isdigit(c())) at++; if (at == d || (at > d + 1 && s[d] == '0')) odd = true; if (c() == '.') { fl = true; at++; d = at; while (isdigit(c())) at++; if (at == d) odd = true; } if (c() == 'e' || c() == 'E') { fl = true; at++; if (c() == '+' || c() == '-') at++; d = at; while (isdigit(c())) at++; if (at == d) odd = true; } if (odd || at - b > 18 + fl * 30 || (c() >= 0 && strchr("0123456789.eE+-", c()) && c())) { unsure = true; return 1; } Str t = s.substr(b, at - b); if (fl) { j.k = 3; j.d = strtod(t.c_str(), 0); if (!(fabs(j.d) < 1e307 && (fabs(j.d) > 1e-300 || (j.d == 0 && t.find_first_of("eE") == Str::npos)))) unsure = true; } else { j.k = 2; j.i = strtoll(t.c_str(), 0, 10); } return 1; }
  int val(J &j) { sp(); int k = c(); switch (k) { case 'n': return lit("null"); case 't': j.k = 1; j.i = 1; return lit("true"); case 'f': j.k = 1; return lit("false"); case '"': j.k = 4; return str(j.s);
    case '[': j.k = 5; at++; for (int i = 0;; i++) { sp(); if (c() == ']') { at++; return 1; } if (i) { if (c() != ',') return 0; at++; sp(); if (c() == ']') { unsure = true; return 1; } } j.v.push_back(J()); if (!val(j.v.back())) return 0; if (unsure) return 1; }
    case '{': j.k = 6; at++; for (int i = 0;; i++) { sp(); if (c() == '}') { at++; return 1; } if (i) { if (c() != ',') return 0; at++; sp(); if (c() == '}') { unsure = true; return 1; } } Str key; if (!str(key)) return 0; if (unsure) return 1; for (auto &x : j.key) if (x == key) { unsure = true; return 1; } sp(); if (c() != ':') return 0; at++; j.key.push_back(key); j.v.push_back(J()); if (!val(j.v.back())) return 0; if (unsure) return 1; }
    default: if (k == '-' || (k >= '0' && k <= '9')) return num(j); if (k >= 0x80) unsure = true; return 0; } }
  int verdict(J &j) { int r = val(j); return unsure ? -1 : r; } };
bool tells_end(const J &j) { return j.k != 2 && j.k != 3; }     // the text itself shows where it ends
}
