// Worker: runs seeds, detects violations, gates, minimises and replays them.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_set>
#include <fstream>
#include <sstream>

using namespace rt;
namespace rt { long raw_syscall(long, long, long, long, long, long, long); }

static double wall() { struct timespec ts; raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0); return ts.tv_sec + ts.tv_nsec * 1e-9; }

static void on_cpu(int) { finish(ST_VIOL, "cpu-hang", "the run burns CPU without reaching any scheduling point"); }

// the kernel frees the memory of ended processes late: wait when too much of it is pending
static void ease() {
  static unsigned n = 0; if (++n % 128) return;
  for (int i = 0; i < 100; i++) {
    int fd = raw_syscall(SYS_open, (long)"/proc/meminfo", O_RDONLY, 0, 0, 0, 0); if (fd < 0) return;
    char l[512]; long n = raw_syscall(SYS_read, fd, (long)l, sizeof l - 1, 0, 0, 0), total = 0, avail = -1; raw_syscall(SYS_close, fd, 0, 0, 0, 0, 0); if (n <= 0) return;
    l[n] = 0; const char *t = strstr(l, "MemTotal:"), *a = strstr(l, "MemAvailable:"); if (t) total = atol(t + 9); if (a) avail = atol(a + 13);
    if (avail < 0 || avail > std::min(total / 3, 6000000L)) return;
    struct timespec ts = {0, 20000000}; raw_syscall(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
  }
}
// runs one simulated execution in a child process; result in *g_res
static void execute(const RunSpec &sp) {
  size_t head = offsetof(Result, dec);
  memset(g_res, 0, head);
  g_res->status = ST_ERR; snprintf(g_res->id, sizeof g_res->id, "no-result"); g_res->hash = 1469598103934665603ULL; g_res->ihash = g_res->hash;
  g_res->log[0] = 0;
  fflush(NULL); ease();
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    raw_syscall(SYS_prctl, 78 /* PR_FUTEX_HASH */, 1, 0, 0, 0, 0);   // no futex table per process: the kernel is slow to free those of thousands of short-lived processes
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 45;
    signal(SIGPROF, on_cpu); setitimer(ITIMER_PROF, &it, NULL);
    it.it_value.tv_sec = 200; setitimer(ITIMER_REAL, &it, NULL);   // SIGALRM kills: counted as an error of the simulator
    child_run(sp);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!g_res->finished) {
    g_res->status = ST_ERR;
    if (WIFSIGNALED(st)) {
      int s = WTERMSIG(st);
      if (s == SIGALRM) snprintf(g_res->id, sizeof g_res->id, "sim-stuck");
      else { snprintf(g_res->id, sizeof g_res->id, "killed-%d", s); g_res->status = ST_VIOL; snprintf(g_res->msg, sizeof g_res->msg, "the simulated process died from signal %d", s); }
    } else { g_res->status = ST_VIOL; snprintf(g_res->id, sizeof g_res->id, "process-exit"); snprintf(g_res->msg, sizeof g_res->msg, "the process called exit (%d) in the middle of the run", WEXITSTATUS(st)); }
  }
}

static std::string esc(const std::string &s) { std::string o; char b[8]; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

struct Agg {
  uint64_t runs, viol, err, nontrivial, steps, calls, switches, preempts, vtime_ms, threads, maxthreads, det_checked, det_bad, unrepro, hiccup;
  uint64_t faults[sim::K_MAX], fault_runs[sim::K_MAX];
  std::unordered_set<uint64_t> ih, cov;
  std::map<std::string, uint64_t> per;
};

static const sim::Scenario *pick(const std::vector<const sim::Scenario *> &v, uint64_t seed) {
  int tot = 0; for (auto s : v) tot += s->weight;
  uint64_t x = seed * 0x9E3779B97F4A7C15ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32;
  int r = x % tot; for (auto s : v) { if (r < s->weight) return s; r -= s->weight; }
  return v[0];
}

static bool same_failure(const std::string &id) { return g_res->status == ST_VIOL && id == g_res->id; }

static void describe(FILE *f, const std::vector<Decision> &d) {
  for (auto &x : d) {
    fprintf(f, "D %u %u %u %u   # T%u ", x.tid, x.kind, x.ctr, x.val, x.tid);
    if (x.kind == sim::K_PRE) fprintf(f, "preempted at step %u, T%u runs\n", x.ctr, x.val - 1);
    else fprintf(f, "%s #%u -> %u\n", sim::kind_name[x.kind], x.ctr, x.val);
  }
}

static std::vector<Decision> minimise(const sim::Scenario *sc, uint64_t seed, std::vector<Decision> d, const std::string &id, double budget, uint64_t *tried) {
  double t0 = wall(); uint64_t n = 0;
  auto test = [&](const std::vector<Decision> &c) { RunSpec sp = {sc, seed, true, c.data(), c.size(), false}; execute(sp); n++; return same_failure(id); };
  size_t chunk = std::max<size_t>(1, d.size() / 2);
  bool again = true;
  while (again && wall() - t0 < budget) {
    again = false;
    for (chunk = std::max<size_t>(1, d.size() / 2);; chunk /= 2) {
      for (size_t i = 0; i < d.size() && wall() - t0 < budget;) {
        std::vector<Decision> c; c.insert(c.end(), d.begin(), d.begin() + i);
        size_t e = std::min(d.size(), i + chunk); c.insert(c.end(), d.begin() + e, d.end());
        if (test(c)) { d = c; again = true; } else i += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < d.size() && wall() - t0 < budget; i++) {
      if (d[i].kind == sim::K_PRE) continue;
      while (d[i].val > 1 && wall() - t0 < budget) {
        std::vector<Decision> c = d; c[i].val = d[i].val / 2;
        if (test(c)) { d = c; again = true; continue; }
        c = d; c[i].val = d[i].val - 1;
        if (test(c)) { d = c; again = true; continue; }
        break;
      }
    }
  }
  *tried = n;
  return d;
}

static int do_replay(const char *file, bool verbose) {
  std::ifstream f(file); if (!f) { fprintf(stderr, "cannot open %s\n", file); return 2; }
  std::string line, prop, scen, id, mode; uint64_t seed = 0, hash = 0; std::vector<Decision> d;
  while (std::getline(f, line)) {
    std::istringstream is(line); std::string k; is >> k;
    if (k == "property") is >> prop; else if (k == "scenario") is >> scen; else if (k == "seed") is >> seed;
    else if (k == "violation") is >> id; else if (k == "mode") is >> mode; else if (k == "hash") is >> std::hex >> hash;
    else if (k == "D") { unsigned a, b, c, e; is >> a >> b >> c >> e; Decision x; x.tid = a; x.kind = b; x.ctr = c; x.val = e; d.push_back(x); }
    else if (k == "log") break;
  }
  const sim::Scenario *sc = NULL;
  for (auto &s : scenarios()) if (prop == s.prop && scen == s.name) sc = &s;
  if (!sc) { fprintf(stderr, "no scenario %s/%s\n", prop.c_str(), scen.c_str()); return 2; }
  RunSpec sp = {sc, seed, mode == "decisions", d.data(), d.size(), true};
  execute(sp);
  if (verbose) fputs(g_res->log, stdout);
  printf("replay: %s: %s (hash %016llx, recorded %016llx)\n", g_res->id, g_res->msg, (unsigned long long)g_res->hash, (unsigned long long)hash);
  if (same_failure(id) && g_res->hash == hash) { printf("replay: reproduced exactly\n"); return 1; }
  if (g_res->status == ST_VIOL) { printf("replay: a violation, but not the recorded one\n"); return 4; }
  printf("replay: not reproduced\n"); return 0;
}

static void setup_process(int cpu) {
  cpu_set_t all; CPU_ZERO(&all);
  if (sched_getaffinity(0, sizeof all, &all) == 0) {
    std::vector<int> c; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &all)) c.push_back(i);
    if (!c.empty()) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(c[cpu % c.size()], &one); sched_setaffinity(0, sizeof one, &one); }
  }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}

int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  g_res = (Result *)mmap(NULL, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::map<std::string, std::string> o; std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.compare(0, 2, "--") == 0) { size_t e = a.find('='); if (e == std::string::npos) o[a.substr(2)] = "1"; else o[a.substr(2, e - 2)] = a.substr(e + 1); } else pos.push_back(a); }
  setup_process(atoi(o["cpu"].c_str()));
  if (o.count("list")) { for (auto &s : scenarios()) printf("%s %s %d\n", s.prop, s.name, s.weight); return 0; }
  if (o.count("replay")) return do_replay(o["replay"].c_str(), o.count("v"));

  std::string prop = o["prop"];
  std::vector<const sim::Scenario *> sel;
  for (auto &s : scenarios()) if (prop == s.prop && (!o.count("scenario") || o["scenario"] == s.name)) sel.push_back(&s);
  if (sel.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 3; }
  uint64_t base = strtoull(o["seed"].c_str(), NULL, 10);
  if (o.count("one")) {
    RunSpec sp = {pick(sel, base), base, false, NULL, 0, true}; execute(sp);
    fputs(g_res->log, stdout);
    printf("%s/%s seed %llu: status %d %s: %s\n hash %016llx steps %llu calls %llu switches %llu preempts %llu vtime %.3f ms decisions %u threads %u\n", sp.sc->prop, sp.sc->name, (unsigned long long)base, g_res->status, g_res->id, g_res->msg,
           (unsigned long long)g_res->hash, (unsigned long long)g_res->steps, (unsigned long long)g_res->calls, (unsigned long long)g_res->switches, (unsigned long long)g_res->preempts, g_res->vtime / 1e6, g_res->ndec, g_res->nthreads);
    for (int k = 0; k < sim::K_MAX; k++) if (g_res->faults[k]) printf(" fault %s %llu\n", sim::kind_name[k], (unsigned long long)g_res->faults[k]);
    return g_res->status;
  }
  uint64_t count = strtoull(o["count"].c_str(), NULL, 10), stride = o.count("stride") ? strtoull(o["stride"].c_str(), NULL, 10) : 1;
  double maxwall = atof(o["wall"].c_str());
  std::string out = o["out"], stopfile = o["stop"], rdir = o["rdir"];
  uint64_t detevery = o.count("det") ? strtoull(o["det"].c_str(), NULL, 10) : 64;
  bool keep = o.count("keep-going");
  Agg *ag = new Agg(); Agg &A = *ag;
  A.runs = A.viol = A.err = A.nontrivial = A.steps = A.calls = A.switches = A.preempts = A.vtime_ms = A.threads = A.maxthreads = A.det_checked = A.det_bad = A.unrepro = A.hiccup = 0;
  memset(A.faults, 0, sizeof A.faults); memset(A.fault_runs, 0, sizeof A.fault_runs);
  double t0 = wall();
  std::string vfile, vid, vmsg, vscen, errtext; uint64_t vseed = 0; size_t vmin = 0, vorig = 0; uint64_t vtried = 0;
  std::vector<std::string> samples; std::map<std::string, uint64_t> vids;
  double maxrun = 0; uint64_t maxsteps = 0, maxcalls = 0;
  for (uint64_t i = 0; i < count; i++) {
    double tn = wall();
    if (tn - t0 > maxwall) break;
    if ((i & 15) == 0 && !stopfile.empty() && access(stopfile.c_str(), F_OK) == 0) break;
    uint64_t seed = base + i * stride;
    const sim::Scenario *sc = pick(sel, seed);
    RunSpec sp = {sc, seed, false, NULL, 0, false};
    double r0 = wall();
    execute(sp);
    double rd = wall() - r0; if (rd > maxrun) maxrun = rd; if (rd > 3 && o.count("slow")) fprintf(stderr, "slow run %s seed %llu: %.1f s at %.1f, %llu steps\n", sc->name, (unsigned long long)seed, rd, wall() - t0, (unsigned long long)g_res->steps);
    A.runs++; A.per[sc->name]++;
    A.steps += g_res->steps; A.calls += g_res->calls; A.switches += g_res->switches; A.preempts += g_res->preempts; A.vtime_ms += g_res->vtime / 1000000; A.threads += g_res->nthreads;
    if (g_res->steps > maxsteps) maxsteps = g_res->steps;
    if (g_res->calls > maxcalls) maxcalls = g_res->calls;
    if (g_res->nthreads > A.maxthreads) A.maxthreads = g_res->nthreads;
    bool flt = false;
    for (int k = 0; k < sim::K_MAX; k++) { A.faults[k] += g_res->faults[k]; if (g_res->faults[k]) { A.fault_runs[k]++; flt = true; } }
    if (g_res->switches > 2 || flt) { A.nontrivial++; if (A.ih.size() < 400000) A.ih.insert(g_res->ihash ^ sim::hash_str(sc->name)); }
    for (uint32_t c = 0; c < g_res->ncov; c++) if (A.cov.size() < 400000) A.cov.insert(g_res->cov[c]);
    // the machine itself can fail a run (no memory, stalled for minutes): only what repeats counts
    for (int again = 0; again < 2 && g_res->status == ST_ERR; again++) { A.hiccup++; execute(sp); }
    uint64_t h = g_res->hash; int st = g_res->status; std::string id = g_res->id, msg = g_res->msg;
    if (st == ST_OK) {
      if (samples.size() < 2 && (flt || g_res->switches > 2)) {
        std::ostringstream os; os << "scenario " << sc->name << " seed " << seed << ": " << g_res->nthreads << " threads, " << g_res->calls << " intercepted calls, " << g_res->switches << " switches (" << g_res->preempts << " preemptions), " << g_res->vtime / 1e6 << " ms simulated, faults:";
        for (int k = 0; k < sim::K_MAX; k++) if (g_res->faults[k] && k != sim::K_PRE) os << " " << sim::kind_name[k] << "=" << g_res->faults[k];
        os << ", hash " << std::hex << h; samples.push_back(os.str());
      }
      if (detevery && i % detevery == 0) { execute(sp); A.det_checked++; if (g_res->hash != h) { A.det_bad++; if (o.count("slow")) fprintf(stderr, "not deterministic: %s seed %llu\n", sc->name, (unsigned long long)seed); } }
      continue;
    }
    if (st == ST_ERR) { A.err++; errtext = std::string(sc->name) + " seed " + std::to_string(seed) + ": " + id + ": " + msg; continue; }
    // ---- a violation: gate it
    if (keep) { A.viol++; if (!vids[id + " [" + sc->name + "] seed " + std::to_string(seed) + " " + msg.substr(0, 300)]++) {} continue; }
    std::vector<Decision> d(g_res->dec, g_res->dec + g_res->ndec); bool ovf = g_res->dec_overflow;
    execute(sp);
    if (!same_failure(id) || g_res->hash != h) { A.unrepro++; errtext = std::string("not reproducible from its seed: ") + sc->name + " seed " + std::to_string(seed) + ": " + id + ": " + msg; continue; }
    std::string mode = "decisions"; std::vector<Decision> m = d;
    RunSpec rp = {sc, seed, true, d.data(), d.size(), false};
    execute(rp);
    if (ovf || !same_failure(id) || g_res->hash != h) { mode = "seed"; m.clear(); }
    else {
      if (!stopfile.empty()) { FILE *f = fopen(stopfile.c_str(), "w"); if (f) fclose(f); }
      m = minimise(sc, seed, d, id, o.count("minwall") ? atof(o["minwall"].c_str()) : 15, &vtried);
    }
    A.viol++;
    RunSpec fp = {sc, seed, mode == "decisions", m.data(), m.size(), true};
    execute(fp);
    vid = g_res->id; vmsg = g_res->msg; vscen = sc->name; vseed = seed; vmin = m.size(); vorig = d.size();
    vfile = rdir + "/" + prop + "-" + std::to_string(seed) + ".replay";
    FILE *f = fopen(vfile.c_str(), "w");
    if (!f) { perror(vfile.c_str()); return 3; }
    fprintf(f, "verif-replay 1\nproperty %s\nscenario %s\nseed %llu\nviolation %s\nmessage %s\nmode %s\nhash %016llx\n# %zu decisions (from %zu) differ from the defaults; T<n> is the n-th thread created\n", prop.c_str(), sc->name, (unsigned long long)seed, vid.c_str(), vmsg.c_str(), mode.c_str(), (unsigned long long)g_res->hash, m.size(), d.size());
    describe(f, m);
    fprintf(f, "log\n"); fputs(g_res->log, f); fclose(f);
    break;
  }
  if (!stopfile.empty() && A.viol && !keep) { FILE *f = fopen(stopfile.c_str(), "w"); if (f) fclose(f); }
  double el = wall() - t0;
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!f) { perror(out.c_str()); return 3; }
  fprintf(f, "{\"runs\":%llu,\"violations\":%llu,\"errors\":%llu,\"unreproducible\":%llu,\"hiccups\":%llu,\"error_text\":\"%s\",\"nontrivial\":%llu,\"distinct_interleavings\":%zu,\"states\":%zu,\"steps\":%llu,\"calls\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"sim_ms\":%llu,\"threads\":%llu,\"max_threads\":%llu,\"det_checked\":%llu,\"det_bad\":%llu,\"wall\":%.3f,\"max_run_s\":%.3f,\"max_steps\":%llu,\"max_calls\":%llu",
    (unsigned long long)A.runs, (unsigned long long)A.viol, (unsigned long long)A.err, (unsigned long long)A.unrepro, (unsigned long long)A.hiccup, esc(errtext).c_str(), (unsigned long long)A.nontrivial, A.ih.size(), A.cov.size(), (unsigned long long)A.steps, (unsigned long long)A.calls, (unsigned long long)A.switches, (unsigned long long)A.preempts, (unsigned long long)A.vtime_ms, (unsigned long long)A.threads, (unsigned long long)A.maxthreads, (unsigned long long)A.det_checked, (unsigned long long)A.det_bad, el, maxrun, (unsigned long long)maxsteps, (unsigned long long)maxcalls);
  fprintf(f, ",\"faults\":{"); bool first = true;
  for (int k = 0; k < sim::K_MAX; k++) if (A.faults[k]) { fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", sim::kind_name[k], (unsigned long long)A.faults[k], (unsigned long long)A.fault_runs[k]); first = false; }
  fprintf(f, "},\"scenarios\":{"); first = true;
  for (auto &x : A.per) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", x.first.c_str(), (unsigned long long)x.second); first = false; }
  fprintf(f, "},\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
  fprintf(f, "],\"all\":["); first = true; for (auto &x : vids) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(x.first).c_str()); first = false; }
  fprintf(f, "]");
  if (!vfile.empty()) fprintf(f, ",\"violation\":{\"id\":\"%s\",\"msg\":\"%s\",\"scenario\":\"%s\",\"seed\":%llu,\"replay\":\"%s\",\"decisions\":%zu,\"original\":%zu,\"min_runs\":%llu}", esc(vid).c_str(), esc(vmsg).c_str(), esc(vscen).c_str(), (unsigned long long)vseed, esc(vfile).c_str(), vmin, vorig, (unsigned long long)vtried);
  fprintf(f, "}\n");
  if (f != stdout) fclose(f);
  if (!out.empty()) {
    FILE *g = fopen((out + ".set").c_str(), "wb");
    if (g) { for (auto x : A.ih) { fwrite(&x, 8, 1, g); } uint64_t z = 0; fwrite(&z, 8, 1, g); for (auto x : A.cov) fwrite(&x, 8, 1, g); fclose(g); }
  }
  return 0;
}
