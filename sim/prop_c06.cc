#include "gen.h"
#include "c06.h"

static void gen(Scenario &s, Rng &g) {
  int nodes = (int) g.range(1, 4), files = (int) g.range(1, 2);
  if (g.chance(0.8)) files = 1;
  gen_strategy(s, g, 0.3);
  FaultCfg &f = s.fc;
  if (g.chance(0.45)) {
    double q = g.pick(std::vector<double>{0.01, 0.04, 0.12});
    auto add = [&](int c, int k) { if (g.chance(0.5)) f.p[c][k] = q; };
    add(S_OPEN, F_EMFILE); add(S_OPEN, F_EACCES); add(S_OPEN, F_ENOSPC); add(S_READ, F_EIO); add(S_READ, F_SHORT); add(S_READ, F_EINTR);
    add(S_WRITE, F_EIO); add(S_WRITE, F_ENOSPC); add(S_WRITE, F_SHORT); add(S_WRITE, F_EINTR); add(S_CLOSE, F_CLOSEFAIL);
    add(S_UNLINK, F_EIO); add(S_STAT, F_EIO); add(S_LOCK, F_EINTR); add(S_LOCK, F_EIO); add(S_MKDIR, F_EIO); add(S_SLEEP, F_EINTR); add(S_PROC, F_EACCES);
    f.budget = g.range(1, 4);
    f.only_path = ".wizard";
  }
  if (g.chance(0.5)) { f.p_kill = g.pick(std::vector<double>{0.005, 0.02, 0.06}); f.kill_budget = (int) g.range(1, 4); }
  if (g.chance(0.3)) { f.p_stall = g.pick(std::vector<double>{0.005, 0.03}); f.stall_max_ms = g.pick(std::vector<long>{50, 3000, 15000, 40000}); }
  if (g.chance(0.2)) f.p_clock = 0.01;
  int ph = (int) g.range(1, 3);
  bool nest = g.chance(0.15);
  for (int p = 0; p < ph; p++) {
    for (int n = 0; n < nodes; n++) {
      int thr = g.chance(0.3) ? (int) g.range(2, 3) : 1;
      for (int t = 0; t < thr; t++) for (int k = 0, m = (int) g.range(1, 3); k < m; k++)
        s.add(p, n, t, nest && g.chance(0.3) ? K_NEST : K_HOLD, {(long) g.below(files), g.chance(0.85), (long) g.below(6), g.chance(0.2) ? (long) g.logrange(1, 3000) : 0, g.chance(0.8) ? 1 : 2, g.chance(0.3)});
    }
    s.phases[p].restarts = (int) g.range(0, 2);
  }
  /* faults are over: whoever retries gets the lock */
  for (int n = 0; n < nodes; n++) for (int k = 0; k < files; k++) s.add(ph, n, 0, K_FINAL, {k, 1, 0, 0, 3, 0});
  s.phases[ph].faults = s.phases[ph].kills = false;
  s.cap = 40000000;
}
static void init(const Scenario &s) {
  if (s.seed % 3) fs_put("/home/u/.wizard/one.xdm", "x");
  if (s.seed % 5 == 1) fs_put("/home/u/.wizard/two.xdm", "x");
}
static void oracle(const Scenario &s) {
  check_exits(true);
  if (world_failed()) return;
  /* who holds which lock */
  std::map<long, std::pair<uint32_t, int>> holder;
  for (auto &e : *w_history) {
    if (e.type == 2 && e.kind == 1 && e.value == 1) {
      auto it = holder.find(e.status);
      if (it != holder.end()) {
        violation("two-holders", strf("process %d thread %d obtained the lock of file %ld while process %d thread %d still held it", e.node, e.thr, e.status, it->second.second, (int) (it->second.first >> 2 & 15)));
        return;
      }
      holder[e.status] = {e.uid, e.node};
    } else if (e.type == 2 && e.kind == 1) holder.erase(e.status);
    else if (e.type == 3 || e.type == 4) { for (auto it = holder.begin(); it != holder.end();) if (it->second.second == e.node) it = holder.erase(it); else ++it; }
  }
  for (auto &l : collect_ops(-1, s.nphases() - 1)) {
    if (!l.ret || !l.ret->status) { violation("locked-out", strf("process %d: lock not obtained in 3 attempts after all faults were over", l.inv->node)); return; }
  }
  for (auto &p : fs_list("/home/u/.wizard/")) if (p.find(".lck") != std::string::npos) { violation("lock-left", "lock file " + p + " remains although nobody holds the lock"); return; }
}
static PropDef pd = {6, "C06", "c06", gen, init, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations, faults and kill points; non-trivial runs have at least one preemption, fault or kill"};
static RegProp reg(&pd);
