// Run control shared between core.cpp and main.cpp
#ifndef VERIF_CORE_H
#define VERIF_CORE_H
#include "rt.h"
namespace rt {
struct Decision { uint16_t tid; uint16_t kind; uint32_t ctr; uint32_t val; };
enum { MAX_DEC = 300000, MAX_COV = 4096, LOG_SZ = 1 << 20 };
struct Result {
  int status;
  char id[96];
  char msg[1600];
  uint64_t hash;        // everything observable
  uint64_t ihash;       // interleaving: order of intercepted calls over threads
  uint64_t steps, calls, switches, preempts;
  int64_t vtime;
  uint64_t faults[sim::K_MAX];
  uint32_t nthreads;
  uint32_t ndec; bool dec_overflow;
  uint32_t ncov;
  uint64_t cov[MAX_COV];
  uint32_t log_len;
  bool finished;
  Decision dec[MAX_DEC];
  char log[LOG_SZ];
};
struct RunSpec {
  const sim::Scenario *sc;
  uint64_t seed;
  bool replay;
  const Decision *dec; size_t ndec;
  bool log;
};
extern Result *g_res;
[[noreturn]] void child_run(const RunSpec &spec);
std::vector<sim::Scenario> &scenarios();
}
#endif
