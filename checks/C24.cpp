// C24: mapped files, file streams and temporary streams, with failing system calls.
#include "../sim/sim.h"
#include "../sim/file.h"
#include <memory>
#include <sstream>
#include <string.h>
#include "system/mmapper.h"
#include "system/file.h"
#include "data/serialization.h"
#include "data/serialization/iostream.h"
typedef std::string Str; typedef pfi::system::mmapper::mmapper MM;
namespace fs = sim::fs;
namespace {
__attribute__((no_sanitize("thread"))) Str bytes(size_t n, unsigned salt) { Str s(n, '\0'); for (size_t i = 0; i < n; i++) s[i] = (char)(i * 7 + (i >> 8) * 13 + salt * 31); return s; }
struct Model { int file; Str *data; Model() : file(-1), data(0) { } };
void same(const MM &m, const Model &w, const char *when) {
  SIM_CHECK(m.is_open() == (w.file >= 0), "open-state", "%s: is_open() is %d", when, m.is_open());
  size_t n = w.file >= 0 ? w.data->size() : 0; SIM_CHECK(m.size() == n && (size_t)(m.end() - m.begin()) == n && (size_t)(m.cend() - m.cbegin()) == n, "size", "%s: size() is %zu, the file has %zu bytes", when, m.size(), n);
  for (size_t i = 0; i < n; i += 1 + (i > 64 && i + 64 < n ? 61 : 0)) SIM_CHECK(m[i] == (*w.data)[i], "content", "%s: byte %zu is not the file's", when, i);
}
SCENARIO(C24, mapped, 6) {
  static const size_t sizes[] = {0, 1, 10, 4095, 4096, 4097, 12000}; int nf = 1 + sim::rnd(3), no = 1 + sim::rnd(3), steps = 3 + sim::rnd(14); std::vector<Str> disk(nf); for (int i = 0; i < nf; i++) { disk[i] = bytes(sizes[sim::rnd(7)], i); fs::put(sim::fmt("/sim/f%d", i), disk[i]); }
  bool faults = sim::rnd(4) != 0; if (faults) { sim::enable(sim::K_OPENFAIL, sim::coin()); sim::enable(sim::K_STATFAIL, sim::coin()); sim::enable(sim::K_MMAPFAIL, sim::coin()); sim::enable(sim::K_EINTR, sim::rnd(3)); }
  {
    std::vector<std::unique_ptr<MM> > o; std::vector<Model> w(no); for (int i = 0; i < no; i++) o.emplace_back(new MM);
    for (int s = 0; s < steps; s++) { int i = sim::rnd(no), j = sim::rnd(no);
      switch (sim::rnd(10)) {
        case 0: case 1: case 2: { int f = sim::rnd(nf + 1); uint64_t bad = fs::failed(); int r = o[i]->open(sim::fmt("/sim/f%d", f)); bool can = f < nf && !disk[f].empty() && fs::failed() == bad;
          SIM_CHECK(r == (can ? 0 : -1), "open-result", "open() of %s returned %d", f == nf ? "a missing file" : disk[f].empty() ? "an empty file" : can ? "a file" : "a file, with a system call failing,", r); if (can) { w[i].file = f; w[i].data = &disk[f]; } sim::cover(can * 2 + (w[i].file >= 0)); break; }
        case 3: { int r = o[i]->close(); SIM_CHECK(r == 0, "close-result", "close() returned %d", r); w[i] = Model(); break; }
        case 4: { std::unique_ptr<MM> n(new MM(std::move(*o[i]))); same(*o[i], Model(), "moved-from object"); o[i].swap(n); break; }
        case 5: if (i != j) { *o[i] = std::move(*o[j]); w[i] = w[j]; w[j] = Model(); same(*o[j], w[j], "moved-from object"); } break;
        case 6: if (sim::coin()) o[i]->swap(*o[j]); else std::swap(*o[i], *o[j]); std::swap(w[i], w[j]); break;
        case 7: if (w[i].file >= 0) { size_t n = w[i].data->size(), p = sim::rnd(n); char c = 'A' + sim::rnd(26); if (sim::coin()) (*o[i])[p] = c; else *(o[i]->begin() + p) = c; (*w[i].data)[p] = c; } break;
        case 8: o[i].reset(new MM); w[i] = Model(); break;
        default: { MM t; t.swap(*o[i]); w[i] = Model(); } break;
      }
      int opened = 0; for (int k = 0; k < no; k++) { same(*o[k], w[k], "after an operation"); opened += w[k].file >= 0; }
      SIM_CHECK(fs::open_fds() <= opened, "fd-leak", "%d descriptors are open for %d mapped files", fs::open_fds(), opened); SIM_CHECK(fs::mappings() == opened, "mapping-leak", "%d mappings for %d mapped files", fs::mappings(), opened);
    }
  }
  SIM_CHECK(fs::open_fds() == 0 && fs::mappings() == 0, "fd-leak", "%d descriptors and %d mappings are left", fs::open_fds(), fs::mappings());
  for (int i = 0; i < nf; i++) SIM_CHECK(fs::get(sim::fmt("/sim/f%d", i)) == disk[i], "lost-write", "a change made through the mapping is not in file %d", i);
}
// writing, seeking and reading through a file stream
void drive(std::iostream &s, const Str &path, Str disk) {
  uint64_t bad = fs::failed(); int steps = 1 + sim::rnd(10); size_t pos = 0; bool reading = true; bool fail = false;
  for (int i = 0; i < steps && !fail; i++) { int op = sim::rnd(6);
    if (op < 2) { if (reading) { pos = sim::rnd(disk.size() + 1); s.seekp(pos); reading = false; } static const size_t ns[] = {1, 5, 100, 8191, 8192, 20000}; Str d = bytes(ns[sim::rnd(6)], i); s.write(d.data(), d.size()); if (disk.size() < pos + d.size()) disk.resize(pos + d.size()); disk.replace(pos, d.size(), d); pos += d.size(); }
    else if (op == 2) s.flush();
    else if (op == 3) { pos = sim::rnd(disk.size() + 1); s.seekg(pos); reading = true; }
    else { if (!reading) { pos = sim::rnd(disk.size() + 1); s.seekg(pos); reading = true; } Str b(1 + sim::rnd(5000), '\0'); s.read(&b[0], b.size()); size_t got = s.gcount(), left = disk.size() - pos;
      SIM_CHECK(got <= left && !disk.compare(pos, got, b, 0, got), "read-content", "reading %zu bytes at %zu gave %zu bytes that are not those written", b.size(), pos, got); if (fs::failed() == bad) SIM_CHECK(got == std::min(left, b.size()), "short-read", "reading %zu bytes at %zu of %zu gave %zu", b.size(), pos, disk.size(), got); pos += got; if (s.eof() && !s.bad()) { s.clear(); reading = true; } }
    fail = !s.good();
  }
  s.flush(); fail |= !s.good(); if (fs::failed() == bad) SIM_CHECK(!fail, "spurious-error", "the stream failed although nothing went wrong"); if (!fail) SIM_CHECK(fs::get(path) == disk, "lost-write", "the stream reports success, but the file holds something else"); sim::cover(100 + fail);
}
void disk_faults() { sim::enable(sim::K_EINTR, sim::rnd(3)); sim::enable(sim::K_SEG, sim::coin()); sim::enable(sim::K_IOFAIL, sim::rnd(3) == 0); if (sim::rnd(3) == 0) fs::quota(sim::rnd(30000)); }
SCENARIO(C24, streams, 4) {
  disk_faults(); sim::enable(sim::K_TMPFAIL, sim::rnd(3) == 0); int n = 1 + sim::rnd(3);
  for (int i = 0; i < n; i++) {
    if (sim::coin()) { Str c = bytes(sim::rnd(10000), i), p = sim::fmt("/sim/s%d", i); fs::put(p, c); { pfi::system::file::fd_stream s(fs::open(p)); drive(s, p, c); } ssize_t z = pfi::system::file::get_file_size(p); SIM_CHECK(z == (ssize_t)fs::get(p).size(), "file-size", "get_file_size() is %zd", z); }
    else { Str t = sim::rnd(5) ? "/sim/tmpXXXXXX" : sim::coin() ? "/sim/X" : "X", o = t; uint64_t bad = fs::failed(); size_t nf = fs::list().size(); std::unique_ptr<std::iostream> s(pfi::system::file::tmpstream(t)); bool can = o == "/sim/tmpXXXXXX" && fs::failed() == bad; SIM_CHECK(!!s == can, "tmp-result", "tmpstream() %s", s ? "gives a stream although the file could not be made" : "fails although the file was made"); if (!s) { SIM_CHECK(fs::list().size() == nf, "tmp-result", "a file is left behind"); continue; } SIM_CHECK(t != o && t.size() == o.size() && fs::exists(t) && t.compare(0, 8, "/sim/tmp") == 0, "tmp-name", "tmpstream() does not give the name of its file but '%s'", t.c_str()); drive(*s, t, ""); }
    SIM_CHECK(fs::open_fds() == 0, "fd-leak", "%d descriptors are open after the stream's end", fs::open_fds());
  }
  SIM_CHECK(pfi::system::file::get_file_size("/sim/none") == -1, "file-size", "the size of a missing file");
}
// streams as values in archives: spooled through temporary files, which always disappear
struct Dir { const char *operator()() const { return "/sim/spool"; } };
typedef pfi::data::serialization::stream<Dir> SS;
SCENARIO(C24, spool, 4) {
  disk_faults(); sim::enable(sim::K_TMPFAIL, sim::rnd(3) == 0); int n = 1 + sim::rnd(3);
  for (int i = 0; i < n; i++) { Str c = bytes(sim::rnd(9000), i), wire; if (sim::coin()) for (int k = 0; k < 30 && !c.empty(); k++) c[sim::rnd(c.size())] = sim::coin() ? '\xff' : '\0'; uint64_t bad = fs::failed();
    try {
      bool wrote; { std::stringstream src(c), out; if (sim::coin()) { SS s(src); pfi::data::serialization::binary_oarchive a(out); a << s; wrote = !!a; } else { SS s; SIM_CHECK(fs::exists(s.name()), "tmp-name", "no file '%s'", s.name().c_str()); s.get().write(c.data(), c.size()); s.get().seekg(0); wrote = s.get().good(); pfi::data::serialization::binary_oarchive a(out); a << s; wrote &= !!a && s.get().good(); } wire = out.str(); }
      if (fs::failed() == bad) SIM_CHECK(wrote, "spurious-error", "storing a stream fails although nothing went wrong"); if (!wrote || fs::failed() != bad) continue; bool cut = sim::rnd(3) == 0; Str w = wire; if (cut) w.resize(sim::rnd(w.size())); int tail = sim::rnd(1000); if (!cut) w.append((char *)&tail, 4);
      std::stringstream in(w); pfi::data::serialization::binary_iarchive a(in); SS s; a >> s; bool ok = !!a, file_ok = s.get().good(); std::stringstream got; if (file_ok) { std::istreambuf_iterator<char> p(s.get()), e; Str g(p, e); Str name = s.name(); 
        if (cut) SIM_CHECK(!ok, "cut-accepted", "a stream cut after %zu of %zu bytes is read as complete", w.size(), wire.size()); else if (fs::failed() == bad) SIM_CHECK(ok && g == c, "content", "a stream of %zu bytes comes back as %zu bytes (%s)", c.size(), g.size(), ok ? "archive good" : "archive failed");
        else if (ok) SIM_CHECK(g == c || !s.get().good(), "lost-write", "the disk failed, but archive and stream report success with %zu of %zu bytes", g.size(), c.size());
        if (fs::failed() == bad) SIM_CHECK(c.compare(0, g.size(), g) == 0 || !cut, "content", "what came back before the cut was not sent"); }
      if (!cut && fs::failed() == bad) { int t = -1; a >> t; SIM_CHECK(a && t == tail, "position", "the value after a stream is read as %d, not %d", t, tail); }
    } catch (const std::exception &e) { SIM_CHECK(fs::failed() != bad, "spurious-error", "an exception although nothing went wrong: %s", e.what()); }
    SIM_CHECK(fs::list().empty(), "file-left", "the temporary file '%s' was not removed", fs::list()[0].c_str()); SIM_CHECK(fs::open_fds() == 0, "fd-leak", "%d descriptors left", fs::open_fds());
  }
}
}
