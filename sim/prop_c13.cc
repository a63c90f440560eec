#include "gen.h"
#include "res.h"

static void gen(Scenario &s, Rng &g) {
  s.cfg.assign(16, 0);
  for (int t = 0; t < 3; t++) s.cfg[t] = -1;
  s.cfg[3] = g.chance(0.7) ? -1 : (long) g.range(0, 4);
  s.cfg[5] = g.chance(0.3) ? (long) g.range(1, 3) : 0;
  s.cfg[6] = g.chance(0.5);
  s.cfg[15] = g.chance(0.3) ? (long) g.below(4) : 0;
  int nodes = g.chance(0.4) ? (int) g.range(2, 3) : 1, ph = (int) g.range(1, 2);
  gen_strategy(s, g, 0.3);
  FaultCfg &f = s.fc;
  bool sig = g.chance(0.35);
  if (sig) { f.p_signal = g.pick(std::vector<double>{0.003, 0.01, 0.03}); f.signal_budget = (int) g.range(1, 2); }
  if (g.chance(0.3)) { f.p_kill = g.pick(std::vector<double>{0.003, 0.01, 0.03}); f.kill_budget = (int) g.range(1, 3); }
  if (g.chance(0.6)) {
    FaultGen q(s, g);
    q.q = g.pick(std::vector<double>{0.02, 0.06, 0.2});
    q.add(S_OPEN, F_EMFILE); q.add(S_OPEN, F_EACCES); q.add(S_OPEN, F_ENOSPC); q.add(S_OPEN, F_EXIST, 2);
    q.add(S_MISC, F_EIO); q.add(S_CLOSE, F_CLOSEFAIL); q.add(S_STAT, F_EIO); q.add(S_ENTROPY, F_ENOSYS, 3); q.add(S_READ, F_EIO); q.add(S_READ, F_SHORT);
    if (!sig) q.add(S_UNLINK, F_EIO);
    f.budget = g.range(1, 6);
  }
  bool single = g.chance(0.3);
  const bool fresh = g.chance(0.1);         /* the first use of a process, by several threads at a time */
  if (fresh) { s.cfg[6] = single = 0; s.cfg[3] = -1; f = FaultCfg(); f.p_signal = sig ? 0.01 : 0; f.signal_budget = sig; }
  if (single && !sig && g.chance(0.5)) { f.p[S_MALLOC][F_ENOMEM] = 0.02; if (f.budget < 2) f.budget = 2; }
  for (int p = 0; p < ph; p++) for (int n = 0; n < nodes; n++) {
    int thr = single ? 1 : (int) g.range(fresh ? 2 : 1, 4);
    for (int t = 0; t < thr; t++) for (int k = 0, m = (int) (fresh ? g.range(1, 2) : g.range(2, 9)); k < m; k++) {
      long sl = (long) g.below(g.chance(0.5) ? 2 : R_SLOTS);
      double u = g.unit();
      if (fresh && !k) s.add(p, n, t, R_TACQ, {sl, g.chance(0.6) ? 0 : (long) g.below(4), g.chance(0.3)});
      else if (u < 0.5) s.add(p, n, t, R_TACQ, {sl, g.chance(0.6) ? 0 : (long) g.below(4), g.chance(0.3)});
      else if (u < 0.7) s.add(p, n, t, R_TCHECK, {sl});
      else if (u < 0.95) s.add(p, n, t, R_TREL, {sl, g.chance(0.85)});
      else s.add(p, n, t, R_VACQ, {sl, g.range(1, 3000), 1});
    }
    s.phases[p].restarts = (int) g.range(0, 2);
  }
}
static void init(const Scenario &) { fs_mkdirs("/w/d"); }

static std::string full(const std::string &n) { return n[0] == '/' ? n : "/w/" + n; }      /* without a directory to put it into, a file is made where the process is */
static void oracle(const Scenario &) {
  for (auto &x : *w_exits) if (!x.killed && x.code != 0) {
    bool bysig = false, faulty = false;
    for (auto &e : *w_history) if (e.node == x.node && e.life == x.life && e.phase == x.phase) { if (e.type == 2 && e.kind == 99 && e.status == x.code) bysig = true; if (e.faults > 0) faulty = true; }
    if (!bysig && !faulty) { violation("exit", strf("process %d ended with status %d: %s", x.node, x.code, x.err.substr(0, 200).c_str())); return; }
    if (bysig) probe("ended by a signal");
  }
  if (!w_planted->empty()) probe("name already taken");
  for (size_t i = 0; i < w_planted->size(); i++) {
    Inode *f = fs_find((*w_planted)[i]);
    if (!f) { violation("stranger", "a file of somebody else was removed: " + (*w_planted)[i]); return; }
    if (f->data != strf("belongs to somebody else %zu", i + 1)) { violation("stranger", "a file of somebody else was overwritten: " + (*w_planted)[i]); return; }
  }
  /* who owns which name from when to when */
  struct Own { int node, life, phase; };
  std::map<std::string, Own> own;
  std::set<std::string> kept;
  std::map<uint32_t, std::string> giving;           /* being removed right now */
  auto drop = [&](int node) { for (auto it = own.begin(); it != own.end();) if (it->second.node == node) { it = own.erase(it); } else ++it; for (auto it = giving.begin(); it != giving.end();) if ((int) (it->first & 3) == node) it = giving.erase(it); else ++it; };
  std::map<int, std::set<std::string>> signalled;   /* handed out when the signal came */
  std::map<int, bool> insig;
  for (auto &e : *w_history) {
    if (e.type == 2 && e.kind == N_OUT) {
      auto it = own.find(full(e.data));
      if (it != own.end()) { violation("shared", strf("%s was handed out to process %d while process %d owned it", e.data.c_str(), e.node, it->second.node)); return; }
      if (kept.count(full(e.data))) { violation("shared", e.data + " was handed out although it exists"); return; }
      own[full(e.data)] = {e.node, e.life, e.phase};
    } else if (e.type == 2 && e.kind == N_BACK) { own.erase(full(e.data)); if (e.value) giving[e.uid] = full(e.data); }
    else if (e.type == 1 && e.kind == R_TREL) giving.erase(e.uid);
    else if (e.type == 2 && e.kind == N_KEPT) kept.insert(full(e.data));
    else if (e.type == 2 && e.kind == 99 && !insig[e.node]) { insig[e.node] = true; for (auto &o : own) if (o.second.node == e.node) signalled[e.node].insert(o.first); for (auto &o : giving) if ((int) (o.first & 3) == e.node) { signalled[e.node].insert(o.second); probe("signal while a file is given back"); } }
    else if (e.type == 3 && insig[e.node] && e.status != 0) {
      insig[e.node] = false;
      for (auto &n : signalled[e.node]) if (fs_find(n) && !kept.count(n)) { violation("remains", "temporary file " + n + " remains after the process was ended by a signal"); return; }
      signalled[e.node].clear(); drop(e.node);
    } else if (e.type == 3 || e.type == 4) { insig[e.node] = false; signalled[e.node].clear(); drop(e.node); }
  }
  /* every process ended in order and could remove what it wanted to: nothing but what was kept is left */
  for (auto &x : *w_exits) if (x.killed || x.code != 0) return;
  for (auto &e : *w_history) if (e.type == 4 || (e.type == 2 && e.kind == 99)) return;
  if (*w_fault_classes >> S_UNLINK & 1) return;
  probe("orderly end");
  for (auto &n : kept) if (!fs_find(n)) { violation("kept-lost", n + " was to be kept but is gone at the end"); return; }
  for (const char *d : {"/tmp/", "/w/"}) for (auto &n : fs_list(d))
    if (!kept.count(n) && std::find(w_planted->begin(), w_planted->end(), n) == w_planted->end()) { violation("remains", n + " remains although every process ended in order"); return; }
}
/* files left by processes that ended in order (crashed processes excepted) */
static PropDef pd = {13, "C13", "c13", gen, init, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations, faults, signals and kill points; non-trivial runs have at least one of them"};
static RegProp reg(&pd);
