// Shared pieces of the network harnesses.
#ifndef VERIF_NETCOMMON_H
#define VERIF_NETCOMMON_H
#include "../sim/sim.h"
#include "../sim/net.h"
#include <string>
namespace nc {
// deterministic bytes; flavour decides the alphabet
inline std::string bytes(size_t n, uint32_t seed, int flavour) {
  std::string s(n, 0); uint32_t x = seed * 2654435761u + 12345;
  for (size_t i = 0; i < n; i++) {
    x = x * 1664525u + 1013904223u; uint32_t r = x >> 16;
    switch (flavour) {
      case 0: s[i] = (char)r; break;                                        // any byte, incl. 0xff and 0
      case 1: { static const char t[] = "\n\r\nab\r\xff\x00"; s[i] = t[r % 8]; break; }
      case 2: s[i] = r % 23 == 0 ? '\n' : r % 29 == 0 ? '\r' : 'a' + r % 26; break;
      default: s[i] = (char)0xff; break;
    }
  }
  return s;
}
// how much data moves in this run: 0 tiny, 1 medium, 2 beyond the 8 KiB buffers
extern int volume;
static int bigs = 0;
inline size_t some_size() {
  static const size_t t[] = {0, 1, 2, 3, 7, 40, 100, 600, 1500, 4095, 8191, 8192, 8193, 9000, 16383, 16384, 16385, 20000};
  static const size_t big[] = {32767, 32768, 65535, 65536, 65537, 66000, 100001}; if (volume == 2 && bigs > 0 && sim::rnd(bigs == 2 ? 3 : 30) == 0) { int n = bigs == 2 ? 6 : 7; bigs = 0; return big[sim::rnd(n)]; }      // at most one in a run
  return t[sim::rnd(volume == 0 ? 6 : volume == 1 ? 9 : 18)];
}
inline void swarm() {          bigs = 1; // harmless disturbances: segmentation, delay, EINTR
  sim::enable(sim::K_EINTR, sim::coin() ? 1 : 0);
  sim::enable(sim::K_STALL, sim::rnd(3) == 0 ? 1 : 0);
  static const int vol[] = {0, 0, 0, 1, 1, 2}; volume = vol[sim::rnd(6)];
  static const size_t caps[] = {65536, 65536, 1, 7, 100}, capm[] = {65536, 100, 1000, 4096}, capb[] = {65536, 4096, 8192, 8193, 3000};
  sim::net::buffer_limit(volume == 0 ? caps[sim::rnd(5)] : volume == 1 ? capm[sim::rnd(4)] : capb[sim::rnd(5)]);
  sim::net::latency(sim::coin());
}
inline std::string show(const std::string &s, size_t max = 24) {
  std::string r; for (size_t i = 0; i < s.size() && i < max; i++) r += sim::fmt(s[i] >= 32 && s[i] < 127 ? "%c" : "\\x%02x", (unsigned char)s[i]);
  if (s.size() > max) r += sim::fmt("...(%zu)", s.size()); return r;
}
int volume __attribute__((weak)) = 0;
}
#endif
