/* Internal interface of the simulator core (used by the runner and the property modules). */
#ifndef CORE_H
#define CORE_H
#include "sim.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

static inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline uint64_t mix2(uint64_t a, uint64_t b) { return mix64(a ^ mix64(b)); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long lo, long hi) { return lo + (long) below((uint64_t)(hi - lo + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  /* log-uniform integer in [lo,hi] */
  long logrange(long lo, long hi);
};

enum FaultKind {
  F_NONE = 0,
  F_EIO, F_ENOSPC, F_EINTR, F_SHORT, F_EMFILE, F_EACCES, F_ENOMEM, F_CLOSEFAIL,
  F_STALL, F_CLOCK, F_SIGNAL, F_KILL, F_KILLMID, F_KILLAFTER, F_ENOSYS, F_EXIST,
  F_MAX
};
extern const char *fault_name[F_MAX];

enum SysClass {
  S_OPEN, S_READ, S_WRITE, S_CLOSE, S_SEEK, S_STAT, S_UNLINK, S_MKDIR, S_RENAME, S_MMAP,
  S_MALLOC, S_ENTROPY, S_TIME, S_SLEEP, S_PROC, S_MISC, S_LOCK, S_MAX
};

/* fault configuration of generated runs: probability per class and kind */
struct FaultCfg {
  double p[S_MAX][F_MAX] = {};
  long budget = 0;          /* total number of error faults */
  double p_stall = 0; long stall_max_ms = 0;
  double p_clock = 0;
  double p_kill = 0;        /* hazard per system call of a killable process */
  double p_signal = 0;
  int kill_budget = 0, signal_budget = 0;
  long short_max = 0;       /* short transfers move 1..short_max bytes; 0: any length */
  std::string only_path;    /* restrict storage faults to paths containing this */
  std::string eintr_path;   /* restrict interruptions to paths containing this (stdio transfers are never interrupted) */
  uint32_t kill_nodes = ~0u;
};

struct StratCfg {
  double p_mem = 0, p_conf = 0, p_sync = 0, p_sys = 0, p_wake = 0;
};

struct Dev { uint32_t uid; uint64_t pt; uint32_t target; };
struct FDev { uint32_t uid; uint64_t sys; int kind; long arg; };

struct PhaseCfg { bool faults = true; bool kills = true; bool sched = true; int restarts = 0; bool env = false; };

struct Scenario {
  int prop = 0;
  long index = 0;           /* of the run, for the generator */
  uint64_t seed = 0;
  std::vector<long> cfg;
  std::vector<SimOp> ops;
  std::vector<PhaseCfg> phases;
  FaultCfg fc;
  StratCfg sc;
  uint64_t cap = 60000000;    /* step bound of a run */
  long add(int phase, int node, int thr, int kind, std::initializer_list<long> a = {});
  int nphases() const { return (int) phases.size(); }
};

struct Event {
  int type;                 /* 0 inv, 1 ret, 2 note, 3 exit, 4 kill */
  uint32_t uid; int node, thr, life, phase;
  int op; int kind;
  long status, value;
  std::string data;
  uint64_t seq; uint64_t t;
  long faults;              /* faults injected into the process so far */
};

struct Inode {
  int type = 0;             /* 0 file 1 dir 2 fifo 3 urandom 4 null 5 terminal */
  std::string data;
  int mode = 0600, nlink = 1;
  long mtime = 0;
  int id = 0;
  int bad = 0;              /* sticky I/O error until the phase ends */
  int maps = 0;
  int lock_ex = 0, lock_sh = 0;
};

struct ProcExit { int node, life, phase; bool killed; int code; int signo; std::string err; std::string out; };

struct RunStats {
  uint64_t faults[F_MAX] = {};
  uint64_t kills = 0, switches = 0, preempts = 0, syscalls = 0, points = 0, procs = 0;
  uint64_t sim_ns = 0, events = 0;
};

struct RunResult {
  bool violation = false;
  bool harness_error = false;
  std::string cls, msg;
  uint64_t hash = 0, shash = 0;   /* whole-run hash; hash of schedule and faults only */
  RunStats st;
  std::vector<Dev> devs;
  std::vector<FDev> fdevs;
  std::vector<std::string> probes;
};

struct PropDef {
  int num;                      /* 10 for C10 */
  const char *id;
  const char *actor;
  void (*gen)(Scenario &, Rng &);        /* generate a scenario */
  void (*init)(const Scenario &);        /* initial file system of a run */
  void (*env)(const Scenario &, const SimOp &);   /* environment operation between phases */
  void (*phase_end)(const Scenario &, int phase);
  void (*oracle)(const Scenario &);      /* end of run */
  const char *rule;             /* for the evidence */
};
const PropDef *find_prop(int num);
extern std::vector<const PropDef *> g_props;
struct RegProp { RegProp(const PropDef *p) { g_props.push_back(p); } };

/* world access for property modules */
RunResult run_scenario(const Scenario &sc, bool generate, const std::vector<Dev> &devs,
  const std::vector<FDev> &fdevs, bool trace);
extern std::vector<Event> *w_history;
extern std::vector<ProcExit> *w_exits;
/* what somebody at the terminal of a process types, one line per prompt: characters, TY_SIG + signal, TY_EIO, TY_EOF, TY_WAIT + milliseconds */
struct Tty { std::vector<std::vector<int>> lines; std::vector<int> always, now; size_t line = 0, at = 0; bool asked = false, raw = false; std::string screen; };
extern Tty *w_tty;                            /* of each node */
extern unsigned long *w_fault_classes;        /* bit set of the classes that had a fault */
extern std::vector<std::string> *w_planted;   /* files of strangers, "belongs to somebody else <n>" */
Inode *fs_find(const std::string &path);
Inode *fs_put(const std::string &path, const std::string &data, int type = 0);
bool fs_remove(const std::string &path);
std::vector<std::string> fs_list(const std::string &prefix);
void fs_mkdirs(const std::string &path);
void world_env(const char *name, const std::string &value);
void violation(const char *cls, const std::string &msg);  /* from oracles (scheduler context) or fibers */
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char *name);          /* count that a rare condition was reached */
extern std::map<std::string, uint64_t> g_probes;
std::string data_for(uint64_t seed, unsigned long tag, long n);
bool world_failed();
uint64_t world_now();
std::string symbolize(void *pc);
#endif
