// C31: the clock and calendar times: exact for every thread, zone and clock jump.
#include "../sim/sim.h"
#include <new>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include "system/time_util.h"
using pfi::system::time::clock_time; using pfi::system::time::calendar_time;
namespace {
typedef int64_t I;
// independent calendar: days since 1970-01-01 <-> date, and zones given by rule
I days(I y, int m, int d) { y -= m <= 2; I era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (I)doe - 719468; }
void date(I z, I &y, int &m, int &d) { z += 719468; I era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = (I)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2; }
struct Zone { const char *tz; I off; bool dst; int m1, w1, m2, w2; };      // daylight saving from week w1 of month m1, 02:00, to week w2 of month m2, 02:00 standard + 1 h
const Zone zones[] = {{"UTC0", 0, false, 0, 0, 0, 0}, {"JST-9", 9 * 3600, false, 0, 0, 0, 0}, {"NPT-5:45", 20700, false, 0, 0, 0, 0}, {"XST11", -11 * 3600, false, 0, 0, 0, 0}, {"EST5EDT,M3.2.0,M11.1.0", -5 * 3600, true, 3, 2, 11, 1}, {"CET-1CEST,M3.5.0,M10.5.0", 3600, true, 3, 5, 10, 5}, {"AEST-10AEDT,M10.1.0,M4.1.0", 36000, true, 10, 1, 4, 1}};
I sunday(I y, int m, int w) { I f = days(y, m, 1); int wd = (int)(((f + 4) % 7 + 7) % 7); int d = 1 + (7 - wd) % 7 + 7 * (w - 1); I next = m == 12 ? days(y + 1, 1, 1) : days(y, m + 1, 1); I r = days(y, m, d); while (r >= next) r -= 7; return r; }
bool dst_at(const Zone &z, I t) { if (!z.dst) return false; I y; int m, d; I l = t + z.off; date(l >= 0 ? l / 86400 : -((-l + 86399) / 86400), y, m, d); I on = sunday(y, z.m1, z.w1) * 86400 + 7200 - z.off, offt = sunday(y, z.m2, z.w2) * 86400 + 7200 - z.off - 3600; return on < offt ? t >= on && t < offt : t >= on || t < offt; }
struct Cal { I y; int m, d, h, mi, s, wd, yd; bool dst; };
Cal cal(const Zone &z, I t) { Cal c; c.dst = dst_at(z, t); I l = t + z.off + (c.dst ? 3600 : 0); I dd = l >= 0 ? l / 86400 : -((-l + 86399) / 86400); int r = (int)(l - dd * 86400); date(dd, c.y, c.m, c.d); c.h = r / 3600; c.mi = r / 60 % 60; c.s = r % 60; c.wd = (int)(((dd + 4) % 7 + 7) % 7); c.yd = (int)(dd - days(c.y, 1, 1)); return c; }
void same(const calendar_time &g, const Cal &w, int usec, I t, const char *how) {
  SIM_CHECK(g.year == w.y && g.mon == w.m && g.mday == w.d && g.hour == w.h && g.min == w.mi && g.sec == w.s && g.usec == usec, "calendar", "%s: %lld.%06d is %d-%d-%d %d:%d:%d.%06d instead of %lld-%d-%d %d:%d:%d", how, (long long)t, usec, g.year, g.mon, g.mday, g.hour, g.min, g.sec, g.usec, (long long)w.y, w.m, w.d, w.h, w.mi, w.s);
  SIM_CHECK(g.wday == w.wd && g.yday == w.yd && g.isdst == w.dst, "calendar", "%s: %lld: weekday %d, day of year %d, daylight %d instead of %d, %d, %d", how, (long long)t, g.wday, g.yday, g.isdst, w.wd, w.yd, w.dst);
}
I moment(const Zone &z) {
  I y = 1970 + sim::rnd(sim::coin() ? 130 : 60);
  switch (sim::rnd(5)) { case 0: if (z.dst) { I on = sunday(y, z.m1, z.w1) * 86400 + 7200 - z.off, of = sunday(y, z.m2, z.w2) * 86400 + 7200 - z.off - 3600; I t = (sim::coin() ? on : of) + (I)sim::rnd(14400) - 7200; return t < 0 ? 0 : t; } /* fall through */
    case 1: { I t = days(y, 1, 1) * 86400 + (I)sim::rnd(172800) - 86400; return t < 0 ? 0 : t; }        // around new year
    case 2: { I t = days(y, 3, 1) * 86400 + (I)sim::rnd(172800) - 86400; return t < 0 ? 0 : t; }        // around the end of February
    default: return (I)sim::rnd(86400) + 86400 * (I)sim::rnd(47000); }
}
int micro() { return sim::rnd(4) == 0 ? (sim::coin() ? 0 : 999999) : (int)sim::rnd(1000000); }
typedef __int128 W;
W total(const clock_time &c) { return (W)(I)c.sec * 1000000 + c.usec; }
void arith() {
  I a = sim::rnd(2000000000), b = sim::coin() ? (I)sim::rnd(2000000000) : a + (I)sim::rnd(3) - 1; int au = micro(), bu = sim::rnd(4) == 0 ? au : micro(); if (b < 0) b = 0; if (sim::rnd(5) == 0) bu = 1000000 - au; if (sim::rnd(5) == 0) b = 0; if (sim::rnd(6) == 0) bu = (int)sim::rnd(2000000000) * (sim::coin() ? 1 : -1);
  clock_time x(a, au), y(b, bu); const clock_time x0 = x; clock_time p = x + y, m = x - y; 
  SIM_CHECK(total(p) == total(x) + total(y) && p.usec >= 0 && p.usec < 1000000, "sum", "%lld.%06d + %lld.%d is %llu.%d", (long long)a, au, (long long)b, bu, (unsigned long long)p.sec, p.usec);
  SIM_CHECK(total(m) == total(x) - total(y) && m.usec >= 0 && m.usec < 1000000, "difference", "%lld.%06d - %lld.%d is %llu.%d", (long long)a, au, (long long)b, bu, (unsigned long long)m.sec, m.usec);
  clock_time q = x; q += y; SIM_CHECK(total(q) == total(p), "sum", "+= differs from +"); clock_time r = x; r -= y; SIM_CHECK(total(r) == total(m), "difference", "-= differs from -"); SIM_CHECK(total(x) == total(x0), "operand", "an operand was changed"); r = q; r -= y; SIM_CHECK(total(r) == total(x) && r.usec == au && (I)r.sec == a, "difference", "a + b - b is not a");
  q = x; q += q; SIM_CHECK(total(q) == 2 * total(x), "sum", "a += a is not 2 a"); q -= q; SIM_CHECK(q.sec == 0 && q.usec == 0, "difference", "a -= a is not 0");
  if (bu >= 0 && bu < 1000000) { bool lt = total(x) < total(y), gt = total(y) < total(x); SIM_CHECK((x < y) == lt && (y < x) == gt && !(x < x0), "order", "%lld.%06d < %lld.%06d is wrong", (long long)a, au, (long long)b, bu); double dd = (double)x; SIM_CHECK(dd > a + au * 1e-6 - 1e-6 && dd < a + au * 1e-6 + 1e-6, "seconds", "%lld.%06d as a number is %f", (long long)a, au, dd); }
}
I raw() { struct timeval tv; gettimeofday(&tv, 0); return (I)tv.tv_sec * 1000000 + tv.tv_usec; }
SCENARIO(C31, threads, 4) {
  const Zone &z = zones[sim::rnd(sizeof zones / sizeof *zones)]; setenv("TZ", z.tz, 1); tzset(); sim::enable(sim::K_STALL, sim::rnd(3) == 0); int nt = 1 + sim::rnd(4); std::vector<std::pair<I, I> > jumps; bool jump = sim::coin(); sim::enable(sim::K_CLOCKJUMP, jump);
  for (int i = 0; i < nt; i++) sim::go([&, i] { int n = 2 + sim::rnd(6);
    for (int k = 0; k < n; k++) switch (sim::rnd(7)) {
      case 0: case 1: { I t = moment(z); int u = micro(); calendar_time c((clock_time(t, u))); same(c, cal(z, t), u, t, "clock to calendar"); clock_time b(c); SIM_CHECK((I)b.sec == t && b.usec == u, "round-trip", "%lld.%06d comes back as %llu.%06d", (long long)t, u, (unsigned long long)b.sec, b.usec); sim::cover(cal(z, t).dst); break; }
      case 2: { I t = moment(z); Cal w = cal(z, t); int u = micro(); calendar_time c; c.year = (int)w.y; c.mon = w.m; c.mday = w.d; c.hour = w.h; c.min = w.mi; c.sec = w.s; c.usec = u; c.isdst = w.dst; clock_time b(c); SIM_CHECK((I)b.sec == t && b.usec == u, "to-clock", "%lld-%d-%d %d:%d:%d is %llu.%06d instead of %lld.%06d", (long long)w.y, w.m, w.d, w.h, w.mi, w.s, (unsigned long long)b.sec, b.usec, (long long)t, u); break; }
      case 3: { I t = moment(z); Cal w = cal(z, t); int u = micro(); calendar_time c((int)w.y, w.m, w.d, w.h, w.mi, w.s, u); clock_time b(c); I g = b.sec; Cal v = cal(z, g); bool again = z.dst && g != t && (g == t + 3600 || g == t - 3600) && v.h == w.h && v.mi == w.mi && v.s == w.s && v.d == w.d;     // the hour that happens twice
        SIM_CHECK(g == t || again, "from-fields", "%lld-%d-%d %d:%d:%d is taken for %lld instead of %lld", (long long)w.y, w.m, w.d, w.h, w.mi, w.s, (long long)g, (long long)t); same(c, again ? v : w, u, g, "calendar from fields"); break; }
      case 4: { I t = moment(z); Cal w = cal(z, t); bool over = sim::coin(); int d = over ? w.d + 31 : w.d, h = over ? w.h : 0; (void)h; if (!over) { calendar_time c((int)w.y, w.m, w.d); same(c, cal(z, (I)clock_time(c).sec), 0, (I)clock_time(c).sec, "calendar from a date"); SIM_CHECK(c.year == w.y && c.mon == w.m && c.mday == w.d && c.hour == 0 && c.min == 0 && c.sec == 0, "from-fields", "%lld-%d-%d is taken for %d-%d-%d %d:%d", (long long)w.y, w.m, w.d, c.year, c.mon, c.mday, c.hour, c.min); }
        else { I y; int m, dd; date(days(w.y, w.m, 1) + d - 1, y, m, dd); calendar_time c((int)w.y, w.m, d, 12); SIM_CHECK(c.year == y && c.mon == m && c.mday == dd && c.hour == 12, "from-fields", "%lld-%d-%d is taken for %d-%d-%d %d:%d", (long long)w.y, w.m, d, c.year, c.mon, c.mday, c.hour, c.min); } break; }
      case 5: { I a, b; size_t j; { sim::Atomic q; a = raw(); j = jumps.size(); } clock_time c = pfi::system::time::get_clock_time(); size_t e; { sim::Atomic q; b = raw(); e = jumps.size(); } bool in = false; I lo = a; for (size_t x = j; x <= e; x++) { I hi = x < e ? jumps[x].first : b; in |= total(c) >= lo && total(c) <= hi; if (x < e) lo = jumps[x].second; }
        SIM_CHECK(in && c.usec >= 0 && c.usec < 1000000, "clock", "the clock reads %llu.%06d between %lld and %lld microseconds (%zu jumps)", (unsigned long long)c.sec, c.usec, (long long)a, (long long)b, e - j); if (jump && sim::chance(sim::K_CLOCKJUMP, 0.5)) { sim::Atomic q; I f = raw(); sim::clock_jump(((I)sim::rnd(7200) - 3600) * 1000000007LL); jumps.push_back(std::make_pair(f, raw())); } else if (sim::coin()) sim::sleep_ns(sim::rnd(3000000000u)); break; }
      default: arith(); } });
  sim::join_all(); alignas(calendar_time) static unsigned char mem[sizeof(calendar_time)]; memset(mem, 0xa5, sizeof mem); calendar_time &e = *new (mem) calendar_time; SIM_CHECK(!e.year && !e.mon && !e.mday && !e.hour && !e.min && !e.sec && !e.usec && !e.yday && !e.wday && !e.isdst, "calendar", "an empty calendar time is not all zero"); sim::cover(100 + (&z - zones));
}
}
