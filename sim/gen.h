/* Helpers shared by scenario generators and oracles. */
#ifndef GEN_H
#define GEN_H
#include "core.h"
#include <algorithm>

/* scheduling strategy of a run: each run uses one of several very different ones */
inline void gen_strategy(Scenario &s, Rng &g, double sys_bias = 0.2) {
  StratCfg &c = s.sc;
  double u = g.unit();
  static const double mem[] = {0.2, 0.08, 0.03, 0.01, 0.003, 0.001, 0.0003, 0.0001};
  static const double conf[] = {0.01, 0.03, 0.1, 0.3};
  static const double sy[] = {0.02, 0.1, 0.3, 0.6};
  if (u < 0.03) return;                              /* one thread after the other */
  if (u < 0.35) { c.p_mem = mem[g.below(8)]; c.p_sync = sy[g.below(3)]; c.p_sys = sy[g.below(3)]; }
  else if (u < 0.65) { c.p_conf = conf[g.below(4)]; c.p_sync = g.chance(0.5) ? sy[g.below(3)] : 0; c.p_sys = c.p_sync; }
  else if (u < 0.65 + sys_bias) { c.p_sync = sy[g.below(4)]; c.p_sys = sy[g.below(4)]; }
  else { c.p_mem = mem[2 + g.below(6)]; c.p_conf = conf[g.below(3)]; c.p_sync = sy[g.below(3)]; c.p_sys = sy[g.below(3)]; }
}

/* storage and allocation faults: each kind joins a run with probability 1/2 */
struct FaultGen {
  Scenario &s; Rng &g; double q;
  FaultGen(Scenario &s, Rng &g) : s(s), g(g) { q = g.pick(std::vector<double>{0.003, 0.01, 0.03, 0.1}); }
  void add(int c, int k, double f = 1) { if (g.chance(0.5)) s.fc.p[c][k] = q * f; }
  void errors() {
    add(S_OPEN, F_EMFILE); add(S_OPEN, F_EACCES); add(S_OPEN, F_ENOSPC); add(S_OPEN, F_EIO); add(S_READ, F_EIO);
    add(S_WRITE, F_EIO); add(S_WRITE, F_ENOSPC); add(S_CLOSE, F_CLOSEFAIL); add(S_SEEK, F_EIO); add(S_UNLINK, F_EIO);
    add(S_STAT, F_EIO); add(S_LOCK, F_EIO); add(S_MKDIR, F_EIO); add(S_MMAP, F_ENOMEM); add(S_RENAME, F_EIO);
  }
  void memory() { add(S_MALLOC, F_ENOMEM, 0.3); }
  void splits() { add(S_READ, F_SHORT, 10); add(S_WRITE, F_SHORT, 10); s.fc.short_max = g.chance(0.5) ? 0 : (long) g.logrange(1, 64); }
  void interrupts(const char *path) { add(S_READ, F_EINTR, 3); add(S_WRITE, F_EINTR, 3); add(S_LOCK, F_EINTR, 3); s.fc.eintr_path = path; }
};
/* exact linearizability check (Wing and Gong with memoisation) of a short complete history */
struct LinOp { const Event *inv, *ret; };
template <class State> struct Lin {
  std::vector<LinOp> ops;
  bool (*apply)(State &, const LinOp &, const Scenario &);      /* false: result impossible in this state */
  const Scenario *sc;
  std::set<std::pair<uint64_t, uint64_t>> seen;
  uint64_t steps = 0;
  bool rec(uint64_t done, const State &s) {
    if (++steps > 400000) return true;                       /* give up: do not claim a violation */
    size_t n = ops.size();
    if (done == (n == 64 ? ~0UL : (1UL << n) - 1)) return true;
    if (!seen.insert({done, s.hash()}).second) return false;
    uint64_t minret = ~0UL;
    for (size_t i = 0; i < n; i++) if (!(done >> i & 1) && ops[i].ret && ops[i].ret->seq < minret) minret = ops[i].ret->seq;
    for (size_t i = 0; i < n; i++) {
      if (done >> i & 1) continue;
      if (ops[i].inv->seq > minret) continue;
      State t = s;
      if (!apply(t, ops[i], *sc)) continue;
      if (rec(done | 1UL << i, t)) return true;
    }
    return false;
  }
};
inline std::vector<LinOp> collect_ops(int node, int phase) {
  std::vector<LinOp> v; std::map<int, size_t> at;
  for (auto &e : *w_history) {
    if ((node >= 0 && e.node != node) || (phase >= 0 && e.phase != phase)) continue;
    if (e.type == 0) { at[e.op] = v.size(); v.push_back({&e, nullptr}); }
    else if (e.type == 1) { auto it = at.find(e.op); if (it != at.end()) v[it->second].ret = &e; }
  }
  return v;
}
/* a process that ended although the program was not over and nobody killed it */
inline void check_exits(bool allow_fatal_after_fault) {
  for (auto &x : *w_exits) if (!x.killed && x.code != 0) {
    bool ok = false;
    if (allow_fatal_after_fault) for (auto &e : *w_history) if (e.type == 3 && e.node == x.node && e.life == x.life && e.phase == x.phase && e.faults > 0) ok = true;
    if (!ok) { violation("exit", strf("process %d ended with status %d: %s", x.node, x.code, x.err.substr(0, 300).c_str())); return; }
  }
}
inline const SimOp *op_by_id(const Scenario &s, int id) { for (auto &o : s.ops) if (o.id == id) return &o; return nullptr; }
#endif
