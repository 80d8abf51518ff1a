// C36: matrices and coded numbers kept in files: complete or refused, whatever fails and wherever the writer dies.
#include "../sim/sim.h"
#include "../sim/file.h"
#include <algorithm>
#include <fstream>
#include <map>
#include <sstream>
#include <stdarg.h>
#include <stdio.h>
#include <vector>
#include "data/code/code.h"
#include "data/sparse_matrix/sparse_matrix.h"
#include <dlfcn.h>
namespace fs = sim::fs; namespace sm = pfi::data::sparse_matrix; namespace code = pfi::data::code;
// the library talks to stderr; nobody listens
extern "C" {
int fprintf(FILE *f, const char *fmt, ...) { if (f == stderr) return 0; va_list a; va_start(a, fmt); int r = vfprintf(f, fmt, a); va_end(a); return r; }
int __fprintf_chk(FILE *f, int, const char *fmt, ...) { if (f == stderr) return 0; va_list a; va_start(a, fmt); int r = vfprintf(f, fmt, a); va_end(a); return r; }
int fputs(const char *s, FILE *f) { if (f == stderr) return 0; typedef int (*F)(const char *, FILE *); static F real = (F)dlsym(RTLD_NEXT, "fputs"); return real(s, f); }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { if (f == stderr) return n; typedef size_t (*F)(const void *, size_t, size_t, FILE *); static F real = (F)dlsym(RTLD_NEXT, "fwrite"); return real(p, s, n, f); }
}
namespace {
typedef std::string Str; typedef std::map<int, unsigned char> Row; typedef std::vector<Row> Mat; typedef std::vector<std::pair<int, unsigned char> > Vec;
uint64_t bad() { return fs::failed() + sim::fault_count(sim::K_EINTR); }
void faults(int level) {
  sim::enable(sim::K_SEG, sim::coin()); sim::enable(sim::K_EINTR, level && sim::rnd(3) == 0 ? 0.3 : 0); if (!level) return;
  sim::enable(sim::K_IOFAIL, sim::rnd(3) == 0 ? 1 + sim::rnd(3) : 0); sim::enable(sim::K_OPENFAIL, sim::rnd(3) == 0 ? 0.5 : 0); sim::enable(sim::K_STATFAIL, sim::rnd(3) == 0 ? 0.5 : 0); sim::enable(sim::K_CRASH, sim::rnd(3) == 0 ? 1 + 3 * sim::rnd(3) : 0); if (sim::rnd(4) == 0) fs::quota(sim::rnd(sim::coin() ? 40 : 400));
}
void memory() { static const int kb[] = {0, 1, 2, 100, 8000000}; fs::put("/proc/loadavg", "0.10 0.20 0.30 1/100 1234\n"); int k = kb[sim::rnd(5)]; fs::put("/proc/meminfo", sim::fmt("MemTotal: 16000000 kB\nMemFree: %d kB\nBuffers: 5 kB\nCached: %d kB\n", k, sim::rnd(3) ? 0 : sim::rnd(3))); }
Row row(int shape, bool wide) {
  Row r; int n = shape == 0 ? sim::rnd(4) : shape == 1 ? 5 + sim::rnd(15) : sim::rnd(3); static const int far[] = {126, 127, 128, 129, 254, 255, 256, 300};
  for (int i = 0; i < n; i++) r[wide && sim::rnd(4) == 0 ? far[sim::rnd(8)] : sim::rnd(shape == 1 ? 25 : 6)] = 1 + sim::rnd(sim::coin() ? 255 : 5); return r;
}
Mat matrix() { int shape = sim::rnd(3), n = sim::rnd(6) == 0 ? 0 : 1 + sim::rnd(shape == 1 ? 10 : 5); bool wide = sim::rnd(3) == 0; Mat m; for (int i = 0; i < n; i++) m.push_back(row(shape, wide)); if (sim::rnd(60) == 0) for (int i = 0; i < 3; i++) { Row r; for (int c = 0; c < 5000; c++) r[c * 2 + i] = 1 + (c + i) % 255; m.push_back(r); } return m; }
Mat turned(const Mat &m) { Mat t; for (size_t r = 0; r < m.size(); r++) for (auto &x : m[r]) { if ((int)t.size() <= x.first) t.resize(x.first + 1); t[x.first][r] = x.second; } return t; }
Str show(const Mat &m) { size_t n = 0; for (auto &r : m) n += r.size(); return sim::fmt("%zu rows, %zu values", m.size(), n); }
// rows that are not there: a reader that is not open has none, an open one has as many as it says
void nothing(sm::sparse_matrix_reader &r, int row, const char *what) { Vec v; Row m; pfi::data::unordered_map<int, unsigned char> u; r.get_row(row, v); r.get_row(row, m); r.get_row(row, u); SIM_CHECK(v.empty() && m.empty() && u.empty() && r.get_row_size(row) <= 0 && r.get_row_nonzero_value_num(row) <= 0, "row-of-nothing", "%s gives %zu values for row %d", what, std::max(v.size(), std::max(m.size(), u.size())), row); }
// what a reader gives: refused, or exactly one of these
void read(sm::sparse_matrix_reader &r, const Str &path, const std::vector<Mat> &may, bool must, const char *what) {
  uint64_t b = bad(); int ok = r.open(path); SIM_CHECK(ok == 0 || ok == -1, "result", "open returned %d", ok); SIM_CHECK(ok == 0 || !must || bad() > b, "refused", "%s is refused, although nothing failed", what);
  if (ok) { SIM_CHECK(r.row_num() == 0, "refused-rows", "a reader that could not open has %d rows", r.row_num()); nothing(r, sim::rnd(2), "a reader that could not open"); sim::cover(1); return; }
  int n = r.row_num(); std::vector<const Mat *> left; for (auto &m : may) if ((int)m.size() == n) left.push_back(&m); SIM_CHECK(!left.empty(), "wrong-rows", "%s has %d rows%s", what, n, may.empty() ? ", but was never written completely" : sim::fmt(" instead of %zu", may.back().size()).c_str());
  std::vector<int> order; for (int i = 0; i < n; i++) order.push_back(i); for (int i = 0; i + 1 < n && i < 6; i++) std::swap(order[i], order[i + sim::rnd(n - i)]); if (n && sim::coin()) order.push_back(sim::rnd(n));
  for (int i : order) {
    Row got; size_t cnt = 0; int how = sim::rnd(3); if (how == 0) { Vec v; if (sim::coin()) v.resize(3); r.get_row(i, v); cnt = v.size(); for (size_t k = 0; k < v.size(); k++) { SIM_CHECK(!k || v[k - 1].first < v[k].first, "wrong-row", "%s: the columns of row %d are out of order", what, i); got[v[k].first] = v[k].second; } } else if (how == 1) { r.get_row(i, got); cnt = got.size(); } else { pfi::data::unordered_map<int, unsigned char> u; r.get_row(i, u); got.insert(u.begin(), u.end()); cnt = u.size(); }
    SIM_CHECK(r.get_row_size(i) == (int)cnt && r.get_row_nonzero_value_num(i) == (int)cnt, "wrong-row", "row %d has %zu values and says %d", i, cnt, r.get_row_size(i));
    std::vector<const Mat *> l; for (auto *m : left) if ((*m)[i] == got) l.push_back(m); SIM_CHECK(!l.empty(), "wrong-row", "%s: row %d of %d comes back with %zu values%s", what, i, n, got.size(), (*left[0])[i].size() == got.size() ? ", others than those written" : sim::fmt(" instead of %zu", (*left[0])[i].size()).c_str()); left = l;
  }
  sim::cover(2 + (must ? 1 : 0)); if (sim::coin()) nothing(r, n + sim::rnd(2), "a reader"); if (sim::coin()) { r.close(); SIM_CHECK(r.row_num() == 0, "refused-rows", "a closed reader has %d rows", r.row_num()); nothing(r, 0, "a closed reader"); }
}
SCENARIO(C36, matrix, 5) {
  int level = sim::rnd(4); faults(level); memory(); int rounds = 1 + sim::rnd(3);
  { sm::sparse_matrix_writer kept; sm::sparse_matrix_reader reader; const Str path = "/sim/m"; std::vector<Mat> may;      // the complete matrices the files may hold
    for (int k = 0; k < rounds; k++) {
      Mat m = matrix(); uint64_t b = bad(); bool fresh = sim::coin(); sm::sparse_matrix_writer own; sm::sparse_matrix_writer &w = fresh ? own : kept; sim::log("T: writing %s", show(m).c_str());
      uint64_t of = sim::fault_count(sim::K_OPENFAIL); int ok = w.open(path); SIM_CHECK(ok == 0 || bad() > b, "spurious-error", "the matrix cannot be opened for writing, although nothing failed"); SIM_CHECK(ok != 0 || sim::fault_count(sim::K_OPENFAIL) == of, "error-lost", "a file of the matrix cannot be opened, and nothing is reported");
      if (ok == 0) { for (size_t i = 0; i < m.size(); i++) { if (sim::coin()) w.append_row(m[i]); else w.append_row(Vec(m[i].begin(), m[i].end())); if (bad() == b) SIM_CHECK(w.row_num() == (int)i + 1, "row-num", "the writer counts %d rows of %zu", w.row_num(), i + 1); } w.close(); }
      bool good = bad() == b; if (good) may.clear(); may.push_back(m); if (fs::crashed()) { fs::restart(); sim::enable(sim::K_CRASH, 0); }
      if (sim::coin()) { sm::sparse_matrix_reader r; read(r, path, may, good, "the matrix"); } else read(reader, path, may, good, "the matrix");
    }
    // turned: rows become columns, in as many pieces as the free memory asks for
    bool big = false; for (auto &m : may) for (auto &r : m) big |= r.size() > 1000; if (sim::rnd(3) && !big) {
      int rounds = 1 + sim::rnd(2); std::vector<Mat> turn; for (auto &m : may) turn.push_back(turned(m)); std::vector<Mat> all; bool intact = may.size() == 1 && bad() == 0;
      for (int k = 0; k < rounds; k++) { uint64_t b = bad(); Str to = "/sim/t"; memory(); int r = sm::matrix_transpose(path, to); SIM_CHECK(r == 0 || !intact || bad() > b, "spurious-error", "a matrix is not turned, although nothing failed"); bool good = r == 0 && bad() == b && intact; if (fs::crashed()) { fs::restart(); sim::enable(sim::K_CRASH, 0); } sm::sparse_matrix_reader x; read(x, to, turn, good, "the turned matrix"); }
    }
    if (sim::rnd(4) == 0) { Mat none; sm::sparse_matrix_reader x; int r = x.open("/sim/nothing"); SIM_CHECK(r == -1 && x.row_num() == 0, "missing", "a matrix that does not exist opens"); if (sim::coin()) { fs::put("/sim/only.offset", fs::get("/sim/m.offset")); SIM_CHECK(x.open("/sim/only") == -1 && x.row_num() == 0, "missing", "a matrix of which only the row table exists opens"); } }
  }
  SIM_CHECK(fs::open_fds() == 0, "fd-leak", "%d descriptors are left open", fs::open_fds());
}
// coded numbers
struct Num { int kind; unsigned v, k; };
unsigned number(bool zero) { switch (sim::rnd(6)) { case 0: return zero ? 0 : 1; case 1: return 1 + sim::rnd(10); case 2: return 1u << sim::rnd(32); case 3: return (1u << sim::rnd(32)) + sim::rnd(3); case 4: { unsigned v = 0xffffffffu >> sim::rnd(32); return v; } default: return 1 + sim::rnd(4000000000u); } }
SCENARIO(C36, codes, 3) {
  faults(sim::rnd(3)); const Str path = "/sim/c"; int rounds = 1 + sim::rnd(2);
  { code::encoder kept; code::decoder dkept; for (int k = 0; k < rounds; k++) {
    code::encoder own; code::encoder &e = sim::coin() ? own : kept; std::vector<Num> v; int n = sim::rnd(40) == 0 ? 2000 : sim::rnd(30);
    for (int i = 0; i < n; i++) {
      Num x; x.kind = sim::rnd(6); x.k = 0; x.v = number(x.kind == 3 || x.kind == 5); if (!x.v && x.kind != 3 && x.kind != 5) x.v = 1;
      switch (x.kind) { case 0: x.v &= 255; e.byte(x.v); break; case 1: x.k = 1 + sim::rnd(32); if (x.k < 32) x.v &= (1u << x.k) - 1; e.word_with_length(x.v, x.k); break; case 2: e.gamma(x.v); break; case 3: x.k = 1 + sim::rnd(20); e.rice(x.v, x.k); break; case 4: e.delta(x.v); break; default: e.prefix_code(x.v); } v.push_back(x);
    }
    uint64_t b = bad(); int r; bool stored;
    if (sim::coin()) { r = e.flush(path); stored = r >= 0; SIM_CHECK(stored || bad() > b, "spurious-error", "storing fails, although nothing failed"); }
    else { std::ofstream f(path.c_str()); r = e.flush(f); SIM_CHECK(r >= 0 || bad() > b, "spurious-error", "storing fails, although nothing failed"); bool open = f.is_open(); f.close(); stored = r >= 0 && open && f; SIM_CHECK(open || r < 0, "error-lost", "writing to a file that could not be opened reports success"); }
    SIM_CHECK(e.get_bytes().empty(), "kept", "bytes are kept after they were stored"); if (fs::crashed()) { fs::restart(); sim::enable(sim::K_CRASH, 0); }
    code::decoder down; code::decoder &d = sim::coin() ? down : dkept; uint64_t b2 = bad(); int a; if (sim::coin()) a = d.attach(path); else { std::ifstream f(path.c_str()); Str all = fs::get(path); a = f ? d.attach(f, all.size()) : -1; }
    SIM_CHECK(a == 0 || !stored || bad() > b2, "spurious-error", "the file is refused, although nothing failed"); if (a) { sim::cover(20); continue; } SIM_CHECK(d.is_open(), "not-open", "attached, but not open"); if (!stored) { sim::cover(21); d.detach(); continue; } if (sim::rnd(4) == 0) { d.byte(); d.seek(0); }
    for (int i = 0; i < n; i++) { const Num &x = v[i]; unsigned g; switch (x.kind) { case 0: g = d.byte(); break; case 1: g = d.word_with_length(x.k); break; case 2: g = d.gamma(); break; case 3: g = d.rice(x.k); break; case 4: g = d.delta(); break; default: g = d.prefix_code(); } SIM_CHECK(g == x.v, "wrong-number", "number %d of %d (code %d) comes back as %u instead of %u", i, n, x.kind, g, x.v); }
    sim::cover(22 + n % 3); if (sim::coin()) d.detach();
  } }
  SIM_CHECK(fs::open_fds() == 0, "fd-leak", "%d descriptors are left open", fs::open_fds());
}
}
