// C33: system statistics are those of the kernel's tables, however these are read.
#include "../sim/sim.h"
#include "../sim/file.h"
#include <math.h>
#include <sstream>
#include <algorithm>
#include "system/sysstat.h"
namespace fs = sim::fs; using pfi::system::sysstat::sysstat_ret;
namespace {
typedef std::string S;
struct Want { S load; double avg; uint64_t total, free, cached; };
uint64_t kib() { switch (sim::rnd(5)) { case 0: return 0; case 1: return 1 + sim::rnd(1000); case 2: return 2097151 + sim::rnd(10); case 3: return 2147480000ull + sim::rnd(9000); default: return (uint64_t)sim::rnd(4000000000u) * (1 + sim::rnd(8)); } }
Want tables() {
  Want w; unsigned c = sim::rnd(3) == 0 ? sim::rnd(200000) : sim::rnd(3000); w.load = sim::fmt("%u.%02u", c / 100, c % 100); w.avg = c / 100.0; w.total = kib(); w.free = kib(); w.cached = kib();
  fs::put("/proc/loadavg", sim::coin() ? sim::fmt("%s %u.%02u %u.%02u %u/%u %u\n", w.load.c_str(), sim::rnd(90), sim::rnd(100), sim::rnd(90), sim::rnd(100), 1 + sim::rnd(9), 100 + sim::rnd(900), sim::rnd(40000)) : w.load + " 7.77 8.88 1/123 4567\n");
  std::vector<S> l; auto line = [&](const S &n, uint64_t v, bool kb) { S k = n + ":"; size_t pad = sim::coin() ? 1 : k.size() < 16 ? 16 - k.size() : 1; return k + S(pad, ' ') + sim::fmt("%llu", (unsigned long long)v) + (kb ? " kB" : "") + "\n"; };
  S head = line("MemTotal", w.total, true) + line("MemFree", w.free, true); static const char *before[] = {"MemAvailable", "Buffers", "MemShared", "LowTotal", "HighFree"}, *after[] = {"SwapCached", "Active", "Inactive", "SwapTotal", "SwapFree", "Dirty", "AnonPages", "Mapped", "Slab", "KernelStack", "VmallocTotal", "HardwareCorrupted", "DirectMap4k"};
  S body; for (const char *n : before) if (sim::coin()) body += line(n, kib(), true); body += line("Cached", w.cached, true); for (const char *n : after) if (sim::coin()) body += line(n, kib(), true); if (sim::coin()) body += line("HugePages_Total", sim::rnd(50), false); if (sim::coin()) body += line("HugePages_Free", sim::rnd(50), false);
  fs::put("/proc/meminfo", head + body); return w;
}
SCENARIO(C33, read, 1) {
  bool bad = sim::rnd(3) == 0; sim::enable(sim::K_SEG, sim::coin()); sim::enable(sim::K_EINTR, sim::coin()); if (bad) { sim::enable(sim::K_IOFAIL, 1 + 4 * sim::rnd(2)); sim::enable(sim::K_OPENFAIL, sim::coin()); } int n = 1 + sim::rnd(3), nt = 1 + sim::rnd(3);
  for (int i = 0; i < n; i++) { Want w = tables(); if (bad && sim::rnd(8) == 0) { const char *p = sim::coin() ? "/proc/loadavg" : "/proc/meminfo"; fs::put(p, ""); if (p[6] == 'l') w.avg = 0; else w.total = w.free = w.cached = 0; }
    for (int t = 0; t < nt; t++) sim::go([&] { uint64_t f = fs::failed(), e = sim::fault_count(sim::K_EINTR); sysstat_ret s; s.loadavg = -1; s.total_memory = s.free_memory = 77; int r = pfi::system::sysstat::get_sysstat(s); bool ok = fs::failed() == f, exact = ok && sim::fault_count(sim::K_EINTR) == e;
      SIM_CHECK(r == 0, "result", "get_sysstat returned %d", r); uint64_t tot = w.total * 1000, fr = w.free * 1000, ca = w.cached * 1000;
      if (exact) { SIM_CHECK(fabs(s.loadavg - w.avg) < 1e-9, "load", "the load average is %f instead of %f", s.loadavg, w.avg); SIM_CHECK(s.total_memory == tot, "total", "%llu bytes of memory instead of %llu", (unsigned long long)s.total_memory, (unsigned long long)tot); SIM_CHECK(s.free_memory == fr + ca, "free", "%llu bytes free instead of %llu", (unsigned long long)s.free_memory, (unsigned long long)(fr + ca)); }
      else SIM_CHECK(s.loadavg >= 0 && s.loadavg <= w.avg + 1e-9 && s.total_memory <= tot && s.free_memory <= fr + ca, "invented", "with a failing read more is reported than there is: load %f of %f, %llu of %llu bytes, %llu of %llu free", s.loadavg, w.avg, (unsigned long long)s.total_memory, (unsigned long long)tot, (unsigned long long)s.free_memory, (unsigned long long)(fr + ca));
      sim::cover(exact * 2 + ok); });
    sim::join_all(); SIM_CHECK(fs::open_fds() == 0, "fd-leak", "%d descriptors are left open", fs::open_fds()); }
}
}
