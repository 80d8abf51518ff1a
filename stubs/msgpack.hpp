// A small stand-in for the msgpack C++ library (0.5 interface) that the MessagePack RPC needs and
// that is not installed here.  Real MessagePack encoding; only what src/network/mprpc and its users use.
#ifndef VERIF_STUB_MSGPACK_HPP
#define VERIF_STUB_MSGPACK_HPP
#include <stdint.h>
#include <string.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <utility>
#include <typeinfo>
#include <stdexcept>
#include <ostream>
#include <unistd.h>
#include <arpa/inet.h>
namespace msgpack {
struct type_error : std::bad_cast { };
struct unpack_error : std::runtime_error { unpack_error(const std::string &s) : std::runtime_error(s) { } };
namespace type { enum object_type { NIL, BOOLEAN, POSITIVE_INTEGER, NEGATIVE_INTEGER, DOUBLE, RAW, ARRAY, MAP }; struct nil { }; }
class zone {
  std::vector<char *> v; zone(const zone &); void operator=(const zone &);
public:
  zone() { } ~zone() { for (size_t i = 0; i < v.size(); i++) delete[] v[i]; }
  char *allocate(size_t n) { v.reserve(v.size() + 1); char *p = new char[n ? n : 1]; v.push_back(p); return p; }
};
struct object {
  struct kv; struct arr { uint32_t size; object *ptr; }; struct mp { uint32_t size; kv *ptr; }; struct rw { uint32_t size; const char *ptr; };
  type::object_type type; union { bool boolean; uint64_t u64; int64_t i64; double dec; arr array; mp map; rw raw; } via;
  object() : type(msgpack::type::NIL) { via.u64 = 0; }
  bool is_nil() const { return type == msgpack::type::NIL; }
  template <class T> void convert(T *t) const;
  template <class T> T as() const { T t; convert(&t); return t; }
};
struct object::kv { object key, val; };
inline std::ostream &operator<<(std::ostream &o, const object &x) {
  switch (x.type) {
    case type::NIL: return o << "nil"; case type::BOOLEAN: return o << (x.via.boolean ? "true" : "false"); case type::POSITIVE_INTEGER: return o << x.via.u64; case type::NEGATIVE_INTEGER: return o << x.via.i64; case type::DOUBLE: return o << x.via.dec;
    case type::RAW: return (o << '"').write(x.via.raw.ptr, x.via.raw.size) << '"';
    case type::ARRAY: o << "["; for (uint32_t i = 0; i < x.via.array.size; i++) o << (i ? ", " : "") << x.via.array.ptr[i]; return o << "]";
    default: o << "{"; for (uint32_t i = 0; i < x.via.map.size; i++) o << (i ? ", " : "") << x.via.map.ptr[i].key << "=>" << x.via.map.ptr[i].val; return o << "}";
  }
}
// --- reading values out of objects
namespace impl {
template <class T> struct conv { static void get(const object &o, T &t) { t.msgpack_unpack(o); } };
template <class T> struct conv_int { static void get(const object &o, T &t) { if (o.type == type::POSITIVE_INTEGER) { T x = (T)o.via.u64; if (x < 0 || (uint64_t)x != o.via.u64) throw type_error(); t = x; } else if (o.type == type::NEGATIVE_INTEGER) { T x = (T)o.via.i64; if (!(x < 0) || (int64_t)x != o.via.i64) throw type_error(); t = x; } else throw type_error(); } };
#define VERIF_MP_INT(T) template <> struct conv<T> : conv_int<T> { };
VERIF_MP_INT(signed char) VERIF_MP_INT(unsigned char) VERIF_MP_INT(short) VERIF_MP_INT(unsigned short) VERIF_MP_INT(int) VERIF_MP_INT(unsigned int) VERIF_MP_INT(long) VERIF_MP_INT(unsigned long) VERIF_MP_INT(long long) VERIF_MP_INT(unsigned long long)
#undef VERIF_MP_INT
template <> struct conv<bool> { static void get(const object &o, bool &t) { if (o.type != type::BOOLEAN) throw type_error(); t = o.via.boolean; } };
template <> struct conv<double> { static void get(const object &o, double &t) { if (o.type != type::DOUBLE) throw type_error(); t = o.via.dec; } };
template <> struct conv<float> { static void get(const object &o, float &t) { if (o.type != type::DOUBLE) throw type_error(); t = (float)o.via.dec; } };
template <> struct conv<std::string> { static void get(const object &o, std::string &t) { if (o.type != type::RAW) throw type_error(); t.assign(o.via.raw.ptr, o.via.raw.size); } };
template <> struct conv<object> { static void get(const object &o, object &t) { t = o; } };
template <> struct conv<type::nil> { static void get(const object &o, type::nil &) { if (o.type != type::NIL) throw type_error(); } };
template <class T> struct conv<std::vector<T> > { static void get(const object &o, std::vector<T> &t) { if (o.type != type::ARRAY) throw type_error(); t.resize(o.via.array.size); for (uint32_t i = 0; i < o.via.array.size; i++) conv<T>::get(o.via.array.ptr[i], t[i]); } };
template <class T> struct conv<std::set<T> > { static void get(const object &o, std::set<T> &t) { if (o.type != type::ARRAY) throw type_error(); t.clear(); for (uint32_t i = 0; i < o.via.array.size; i++) { T x; conv<T>::get(o.via.array.ptr[i], x); t.insert(x); } } };
template <class A, class B> struct conv<std::pair<A, B> > { static void get(const object &o, std::pair<A, B> &t) { if (o.type != type::ARRAY || o.via.array.size != 2) throw type_error(); conv<A>::get(o.via.array.ptr[0], t.first); conv<B>::get(o.via.array.ptr[1], t.second); } };
template <class K, class V> struct conv<std::map<K, V> > { static void get(const object &o, std::map<K, V> &t) { if (o.type != type::MAP) throw type_error(); t.clear(); for (uint32_t i = 0; i < o.via.map.size; i++) { K k; conv<K>::get(o.via.map.ptr[i].key, k); conv<V>::get(o.via.map.ptr[i].val, t[k]); } } };
}
template <class T> void object::convert(T *t) const { impl::conv<T>::get(*this, *t); }
// --- writing values
class sbuffer { std::string s; public: const char *data() const { return s.data(); } size_t size() const { return s.size(); } void write(const char *p, size_t n) { s.append(p, n); } };
namespace impl { template <class T> struct put { template <class P> static void to(P &p, const T &t) { t.msgpack_pack(p); } }; }
template <class B> class packer {
  B &b; template <class N> void big(char tag, N n) { char t[9]; t[0] = tag; for (size_t i = 0; i < sizeof(N); i++) t[1 + i] = (char)(n >> 8 * (sizeof(N) - 1 - i)); b.write(t, 1 + sizeof(N)); } void byte(uint8_t c) { b.write((char *)&c, 1); }
public:
  packer(B &b) : b(b) { }
  packer &pack_nil() { byte(0xc0); return *this; } packer &pack_true() { byte(0xc3); return *this; } packer &pack_false() { byte(0xc2); return *this; }
  packer &pack_u(uint64_t x) { if (x < 128) byte(x); else if (x < 256) big((char)0xcc, (uint8_t)x); else if (x < 65536) big((char)0xcd, (uint16_t)x); else if (x >> 32 == 0) big((char)0xce, (uint32_t)x); else big((char)0xcf, x); return *this; }
  packer &pack_i(int64_t x) { if (x >= 0) return pack_u(x); if (x >= -32) byte((uint8_t)x); else if (x >= -128) big((char)0xd0, (uint8_t)x); else if (x >= -32768) big((char)0xd1, (uint16_t)x); else if (x >= -2147483648LL) big((char)0xd2, (uint32_t)x); else big((char)0xd3, (uint64_t)x); return *this; }
  packer &pack_double(double d) { uint64_t u; memcpy(&u, &d, 8); big((char)0xcb, u); return *this; }
  packer &pack_raw(uint32_t n) { if (n < 32) byte(0xa0 | n); else if (n < 65536) big((char)0xda, (uint16_t)n); else big((char)0xdb, n); return *this; } packer &pack_raw_body(const char *p, size_t n) { b.write(p, n); return *this; }
  packer &pack_array(uint32_t n) { if (n < 16) byte(0x90 | n); else if (n < 65536) big((char)0xdc, (uint16_t)n); else big((char)0xdd, n); return *this; }
  packer &pack_map(uint32_t n) { if (n < 16) byte(0x80 | n); else if (n < 65536) big((char)0xde, (uint16_t)n); else big((char)0xdf, n); return *this; }
  template <class T> packer &pack(const T &t) { impl::put<T>::to(*this, t); return *this; }
};
namespace impl {
#define VERIF_MP_INT(T, f) template <> struct put<T> { template <class P> static void to(P &p, const T &t) { p.f(t); } };
VERIF_MP_INT(signed char, pack_i) VERIF_MP_INT(short, pack_i) VERIF_MP_INT(int, pack_i) VERIF_MP_INT(long, pack_i) VERIF_MP_INT(long long, pack_i) VERIF_MP_INT(unsigned char, pack_u) VERIF_MP_INT(unsigned short, pack_u) VERIF_MP_INT(unsigned int, pack_u) VERIF_MP_INT(unsigned long, pack_u) VERIF_MP_INT(unsigned long long, pack_u) VERIF_MP_INT(double, pack_double) VERIF_MP_INT(float, pack_double)
#undef VERIF_MP_INT
template <> struct put<bool> { template <class P> static void to(P &p, bool t) { if (t) p.pack_true(); else p.pack_false(); } };
template <> struct put<type::nil> { template <class P> static void to(P &p, const type::nil &) { p.pack_nil(); } };
template <> struct put<std::string> { template <class P> static void to(P &p, const std::string &t) { p.pack_raw(t.size()).pack_raw_body(t.data(), t.size()); } };
template <class T> struct put<std::vector<T> > { template <class P> static void to(P &p, const std::vector<T> &t) { p.pack_array(t.size()); for (size_t i = 0; i < t.size(); i++) p.pack(t[i]); } };
template <class T> struct put<std::set<T> > { template <class P> static void to(P &p, const std::set<T> &t) { p.pack_array(t.size()); for (typename std::set<T>::const_iterator i = t.begin(); i != t.end(); ++i) p.pack(*i); } };
template <class A, class B> struct put<std::pair<A, B> > { template <class P> static void to(P &p, const std::pair<A, B> &t) { p.pack_array(2); p.pack(t.first); p.pack(t.second); } };
template <class K, class V> struct put<std::map<K, V> > { template <class P> static void to(P &p, const std::map<K, V> &t) { p.pack_map(t.size()); for (typename std::map<K, V>::const_iterator i = t.begin(); i != t.end(); ++i) { p.pack(i->first); p.pack(i->second); } } };
}
template <class B, class T> void pack(B &b, const T &t) { packer<B> p(b); p.pack(t); }
// --- the four-element tuple of a message
namespace type {
template <class A0, class A1, class A2, class A3> struct tuple {
  A0 a0; A1 a1; A2 a2; A3 a3; tuple() : a0(), a1(), a2(), a3() { } tuple(const A0 &a, const A1 &b, const A2 &c, const A3 &d) : a0(a), a1(b), a2(c), a3(d) { }
  template <class P> void msgpack_pack(P &p) const { p.pack_array(4); p.pack(a0); p.pack(a1); p.pack(a2); p.pack(a3); }
  void msgpack_unpack(const object &o) { if (o.type != ARRAY || o.via.array.size < 4) throw type_error(); o.via.array.ptr[0].convert(&a0); o.via.array.ptr[1].convert(&a1); o.via.array.ptr[2].convert(&a2); o.via.array.ptr[3].convert(&a3); }
};
template <class A0, class A1, class A2, class A3> struct tuple<A0, A1, const A2 &, const A3 &> {
  A0 a0; A1 a1; const A2 &a2; const A3 &a3; tuple(const A0 &a, const A1 &b, const A2 &c, const A3 &d) : a0(a), a1(b), a2(c), a3(d) { }
  template <class P> void msgpack_pack(P &p) const { p.pack_array(4); p.pack(a0); p.pack(a1); p.pack(a2); p.pack(a3); }
};
}
// --- incremental reader
class unpacker {
  std::vector<char> buf; size_t used, off; zone *z; object obj; unpacker(const unpacker &); void operator=(const unpacker &);
  struct more { };
  struct cur { const unsigned char *p, *e; uint64_t num(int n) { if (e - p < n) throw more(); uint64_t x = 0; while (n--) x = x << 8 | *p++; return x; } };
  void raw(cur &c, object &o, uint32_t n) { if ((size_t)(c.e - c.p) < n) throw more(); char *q = z->allocate(n); memcpy(q, c.p, n); c.p += n; o.type = type::RAW; o.via.raw.size = n; o.via.raw.ptr = q; }
  void arr(cur &c, object &o, uint32_t n, int d) { if (n > 1000000 || d > 100) throw unpack_error("parse error"); object *q = (object *)z->allocate(n * sizeof(object)); for (uint32_t i = 0; i < n; i++) { new (q + i) object(); get(c, q[i], d + 1); } o.type = type::ARRAY; o.via.array.size = n; o.via.array.ptr = q; }
  void map(cur &c, object &o, uint32_t n, int d) { if (n > 1000000 || d > 100) throw unpack_error("parse error"); object::kv *q = (object::kv *)z->allocate(n * sizeof(object::kv)); for (uint32_t i = 0; i < n; i++) { new (q + i) object::kv(); get(c, q[i].key, d + 1); get(c, q[i].val, d + 1); } o.type = type::MAP; o.via.map.size = n; o.via.map.ptr = q; }
  void pos(object &o, uint64_t x) { o.type = type::POSITIVE_INTEGER; o.via.u64 = x; } void sig(object &o, int64_t x) { if (x >= 0) pos(o, x); else { o.type = type::NEGATIVE_INTEGER; o.via.i64 = x; } }
  void get(cur &c, object &o, int d) {
    unsigned t = (unsigned)c.num(1); uint64_t u;
    if (t < 0x80) pos(o, t); else if (t < 0x90) map(c, o, t & 15, d); else if (t < 0xa0) arr(c, o, t & 15, d); else if (t < 0xc0) raw(c, o, t & 31); else if (t >= 0xe0) sig(o, (int8_t)t);
    else switch (t) {
      case 0xc0: o.type = type::NIL; break; case 0xc2: case 0xc3: o.type = type::BOOLEAN; o.via.boolean = t & 1; break;
      case 0xca: { u = c.num(4); uint32_t w = (uint32_t)u; float f; memcpy(&f, &w, 4); o.type = type::DOUBLE; o.via.dec = f; break; } case 0xcb: u = c.num(8); o.type = type::DOUBLE; memcpy(&o.via.dec, &u, 8); break;
      case 0xcc: pos(o, c.num(1)); break; case 0xcd: pos(o, c.num(2)); break; case 0xce: pos(o, c.num(4)); break; case 0xcf: pos(o, c.num(8)); break;
      case 0xd0: sig(o, (int8_t)c.num(1)); break; case 0xd1: sig(o, (int16_t)c.num(2)); break; case 0xd2: sig(o, (int32_t)c.num(4)); break; case 0xd3: sig(o, (int64_t)c.num(8)); break;
      case 0xda: raw(c, o, c.num(2)); break; case 0xdb: raw(c, o, c.num(4)); break; case 0xdc: arr(c, o, c.num(2), d); break; case 0xdd: arr(c, o, c.num(4), d); break; case 0xde: map(c, o, c.num(2), d); break; case 0xdf: map(c, o, c.num(4), d); break;
      default: throw unpack_error("parse error");
    }
  }
public:
  unpacker() : used(0), off(0), z(0) { } ~unpacker() { delete z; }
  bool execute() {
    if (off == used) return false; delete z; z = 0; z = new zone; object o; cur c = {(const unsigned char *)&buf[0] + off, (const unsigned char *)&buf[0] + used};
    try { get(c, o, 0); } catch (more &) { delete z; z = 0; return false; } obj = o; off = (const char *)c.p - &buf[0]; return true;
  }
  object data() { return obj; } zone *release_zone() { zone *r = z; z = 0; return r; } void reset() { obj = object(); delete z; z = 0; }
  void reserve_buffer(size_t n) { if (off) { buf.erase(buf.begin(), buf.begin() + off); used -= off; off = 0; } if (buf.size() - used < n) buf.resize(used + n); }
  char *buffer() { return &buf[used]; } size_t buffer_capacity() const { return buf.size() - used; } void buffer_consumed(size_t n) { used += n; }
};
}
#endif
