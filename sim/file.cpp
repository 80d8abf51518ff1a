// Simulated files below /sim/. A file is a memfd; opening it gives a real
// descriptor of its own, so that stdio and mmap work on it; the system calls
// go through here, which decides about failures and short transfers.
#include "rt.h"
#include "file.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <map>
#include <memory>
using namespace rt;
namespace rt { long raw_syscall(long, long, long, long, long, long, long); }
namespace {
struct File { int mem; std::string path; };
typedef std::shared_ptr<File> FP;
struct Map { size_t len; FP f; };
struct FS { std::map<std::string, FP> files; std::map<int, FP> fds; std::map<uintptr_t, Map> maps; int64_t quota; uint64_t failed; bool dead; FS() : quota(-1), failed(0), dead(false) { } };
FS *S() { static FS *s; if (!s) { RtScope r; s = new FS; } return s; }
long sys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { long r = raw_syscall(n, a, b, c, d, e, f); if (r < 0) { errno = -r; return -1; } return r; }
bool simpath(const char *p) { return p && (!strncmp(p, "/sim/", 5) || (!strncmp(p, "/proc/", 6) && S()->files.count(p))); }
bool simfd(int fd) { return S()->fds.count(fd) > 0; }
int err(int e, const char *what) { S()->failed++; trace("%s: %s", what, strerror(e)); errno = e; return -1; }
bool intr(const char *what) { if (!sim::chance(sim::K_EINTR, 0.1)) return false; trace("%s: interrupted", what); errno = EINTR; return true; }
bool dies(const char *what) { if (!S()->dead && sim::chance(sim::K_CRASH, 0.03)) { trace("%s: the process dies here", what); S()->dead = true; } return S()->dead; }
FP make(const std::string &path) { FP f(new File); f->path = path; f->mem = sys(SYS_memfd_create, (long)"sim", 0); S()->files[path] = f; return f; }
int reopen(const FP &f, int flags) { char b[64]; snprintf(b, sizeof b, "/proc/self/fd/%d", f->mem); long r = sys(SYS_openat, AT_FDCWD, (long)b, flags & ~(O_CREAT | O_EXCL), 0); if (r >= 0) S()->fds[r] = f; return r; }
int do_open(const char *path, int flags) {
  spoint("open"); if (intr("open")) return -1;
  if (sim::chance(sim::K_OPENFAIL, 0.25)) { static const int es[] = {EACCES, EMFILE, ENFILE, EIO}; return err(es[sim::choose(sim::K_CLOSERACE, 4)], "open"); }
  if ((flags & O_ACCMODE) != O_RDONLY && dies("open")) return err(EIO, "open");
  auto it = S()->files.find(path); FP f;
  if (it == S()->files.end()) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } f = make(path); }
  else { if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; } f = it->second; }
  int fd = reopen(f, flags); trace("open(%s) = %d", path, fd); return fd;
}
off_t size_of(const FP &f) { struct stat st; memset(&st, 0, sizeof st); raw_syscall(SYS_fstat, f->mem, (long)&st, 0, 0, 0, 0); return st.st_size; }
}
namespace sim { namespace fs {
void put(const std::string &path, const std::string &c) { RtScope r; FP f = make(path); size_t o = 0; while (o < c.size()) { long n = raw_syscall(SYS_pwrite64, f->mem, (long)c.data() + o, c.size() - o, o, 0, 0); if (n <= 0) break; o += n; } }
std::string get(const std::string &path) { RtScope r; auto it = S()->files.find(path); if (it == S()->files.end()) return ""; std::string s(size_of(it->second), '\0'); size_t o = 0; while (o < s.size()) { long n = raw_syscall(SYS_pread64, it->second->mem, (long)&s[0] + o, s.size() - o, o, 0, 0); if (n <= 0) break; o += n; } return s; }
void link(const std::string &a, const std::string &b) { RtScope r; auto it = S()->files.find(a); if (it != S()->files.end()) S()->files[b] = it->second; }
bool exists(const std::string &p) { return S()->files.count(p) > 0; }
void remove(const std::string &p) { RtScope r; S()->files.erase(p); }
std::vector<std::string> list() { std::vector<std::string> v; for (auto &x : S()->files) v.push_back(x.first); return v; }
void quota(int64_t b) { S()->quota = b; }
int open_fds() { return S()->fds.size(); }
int mappings() { return S()->maps.size(); }
size_t mapped_bytes() { size_t n = 0; for (auto &x : S()->maps) n += x.second.len; return n; }
uint64_t failed() { return S()->failed; }
bool crashed() { return S()->dead; }
void restart() { S()->dead = false; }
int open(const std::string &p) { RtScope r; auto it = S()->files.find(p); FP f = it == S()->files.end() ? make(p) : it->second; return reopen(f, O_RDWR); }
} }
extern "C" {
int open(const char *path, int flags, ...) { mode_t m = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } if (!active() || !simpath(path)) return sys(SYS_openat, AT_FDCWD, (long)path, flags, m); RtScope r; return do_open(path, flags); }
int open64(const char *path, int flags, ...) { mode_t m = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } if (!active() || !simpath(path)) return sys(SYS_openat, AT_FDCWD, (long)path, flags, m); RtScope r; return do_open(path, flags); }
static int do_mkstemp(char *t) {
  size_t n = strlen(t); if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { errno = EINVAL; return -1; } RtScope r; spoint("mkstemp");
  if (sim::chance(sim::K_TMPFAIL, 0.25)) { static const int es[] = {EACCES, EMFILE, ENOSPC, ENOENT}; return err(es[sim::choose(sim::K_CLOSERACE, 4)], "mkstemp"); }
  static int k; do { char b[16]; snprintf(b, sizeof b, "%06d", ++k); memcpy(t + n - 6, b, 6); } while (S()->files.count(t)); int fd = reopen(make(t), O_RDWR); trace("mkstemp(%s) = %d", t, fd); return fd;
}
int mkstemp(char *t) { if (!active() || !simpath(t)) { typedef int (*F)(char *); static F f = (F)dlsym(RTLD_NEXT, "mkstemp"); return f(t); } return do_mkstemp(t); }
int mkstemp64(char *t) { return mkstemp(t); }
int unlink(const char *p) { if (!active() || !simpath(p)) return sys(SYS_unlink, (long)p); RtScope r; spoint("unlink"); if (dies("unlink")) return err(EIO, "unlink"); trace("unlink(%s)", p); if (!S()->files.erase(p)) { errno = ENOENT; return -1; } return 0; }
int stat(const char *p, struct stat *st) { if (!active() || !simpath(p)) return sys(SYS_stat, (long)p, (long)st); RtScope r; spoint("stat"); if (sim::chance(sim::K_STATFAIL, 0.25)) return err(EIO, "stat"); auto it = S()->files.find(p); if (it == S()->files.end()) { errno = ENOENT; return -1; } return sys(SYS_fstat, it->second->mem, (long)st); }
int fstat(int fd, struct stat *st) { if (!active() || !simfd(fd)) return sys(SYS_fstat, fd, (long)st); RtScope r; spoint("fstat"); if (intr("fstat")) return -1; if (sim::chance(sim::K_STATFAIL, 0.25)) return err(EIO, "fstat"); return sys(SYS_fstat, fd, (long)st); }
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (!active() || (flags & MAP_ANONYMOUS) || !simfd(fd)) { return (void *)sys(SYS_mmap, (long)a, n, prot, flags, fd, off); }
  RtScope r; spoint("mmap"); if (sim::chance(sim::K_MMAPFAIL, 0.25)) { err(ENOMEM, "mmap"); return MAP_FAILED; }
  void *p = (void *)sys(SYS_mmap, (long)a, n, prot, flags, fd, off); if (p == MAP_FAILED) return p; Map m; m.len = n; m.f = S()->fds[fd]; S()->maps[(uintptr_t)p] = m; trace("mmap(%zu bytes of %s)", n, m.f->path.c_str()); return p;
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off_t off) { return mmap(a, n, prot, flags, fd, off); }
int munmap(void *a, size_t n) {
  if (!active()) return sys(SYS_munmap, (long)a, n);
  RtScope r; spoint("munmap"); auto it = S()->maps.find((uintptr_t)a); if (it == S()->maps.end()) { if (sim::fs::open_fds() >= 0 && !S()->maps.empty()) { } sim::fail("munmap-unknown", "munmap of a region that is not a mapping (released twice?)"); }
  size_t pg = 4096; if ((n + pg - 1) / pg != (it->second.len + pg - 1) / pg) sim::fail("munmap-length", "munmap of %zu bytes for a mapping of %zu", n, it->second.len);
  S()->maps.erase(it); trace("munmap(%zu)", n); return sys(SYS_munmap, (long)a, n);
}
static void gone(int fd) { auto it = S()->fds.find(fd); if (it != S()->fds.end()) { trace("close(%d)", fd); S()->fds.erase(it); } }
int close(int fd) {
  if (!active()) return sys(SYS_close, fd);
  RtScope r; spoint("close"); if (!simfd(fd)) sim::fail("close-of-closed-fd", "close(%d) on a descriptor that is not open: somebody else's descriptor could be hit", fd); gone(fd); return sys(SYS_close, fd);
}
int fclose(FILE *f) { typedef int (*F)(FILE *); static F real = (F)dlsym(RTLD_NEXT, "fclose"); if (cur) { RtScope r; gone(fileno(f)); return real(f); } return real(f); }
ssize_t read(int fd, void *b, size_t n) {
  if (!active() || !simfd(fd)) return sys(SYS_read, fd, (long)b, n);
  RtScope r; spoint("read"); if (intr("read")) return -1; if (n && sim::chance(sim::K_IOFAIL, 0.05)) return err(EIO, "read");
  if (n > 1 && sim::chance(sim::K_SEG, 0.4)) n = 1 + sim::choose(sim::K_SEG, n < 200 ? n : 200); return sys(SYS_read, fd, (long)b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!active() || !simfd(fd)) return sys(SYS_write, fd, (long)b, n);
  RtScope r; spoint("write"); if (intr("write")) return -1; if (n && sim::chance(sim::K_IOFAIL, 0.05)) return err(EIO, "write");
  if (n > 1 && sim::chance(sim::K_SEG, 0.4)) n = 1 + sim::choose(sim::K_SEG, n < 200 ? n : 200);
  bool was = S()->dead; if (n && dies("write")) { if (was) return err(EIO, "write"); n = sim::choose(sim::K_SEG, n); S()->failed++; trace("write: %zu bytes reach the disk", n); if (!n) { errno = EIO; return -1; } }
  int64_t q = S()->quota; if (q >= 0) { long pos = sys(SYS_lseek, fd, 0, SEEK_CUR), sz = size_of(S()->fds[fd]); int64_t grow = pos + (int64_t)n - sz; if (grow > q) { int64_t fit = (int64_t)n - (grow - q); if (fit <= 0) return err(ENOSPC, "write"); n = fit; grow = q; S()->failed++; trace("write: only %zu bytes fit", n); } if (grow > 0) S()->quota -= grow; }
  return sys(SYS_write, fd, (long)b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (!active() || !simfd(fd)) return sys(SYS_writev, fd, (long)v, n);
  std::string s; { RtScope rs; for (int i = 0; i < n; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); } return write(fd, s.data(), s.size());
}
static int mode_flags(const char *m) { bool p = strchr(m, '+'); return *m == 'r' ? (p ? O_RDWR : O_RDONLY) : *m == 'w' ? (p ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC : (p ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; }
FILE *fopen(const char *path, const char *m) {
  if (active() && simpath(path)) { RtScope r; int fd = do_open(path, mode_flags(m)); if (fd < 0) return 0; FILE *f = fdopen(fd, m); if (!f) { gone(fd); sys(SYS_close, fd); } return f; }
  typedef FILE *(*F)(const char *, const char *); static F f = (F)dlsym(RTLD_NEXT, "fopen"); return f(path, m);
}
FILE *fopen64(const char *path, const char *m) { return fopen(path, m); }
void perror(const char *s) { if (!active()) fprintf(stderr, "%s: %s\n", s, strerror(errno)); }
}
