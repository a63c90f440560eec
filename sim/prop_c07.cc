#include "gen.h"
#include "c07.h"
#include <unordered_set>

static void gen(Scenario &s, Rng &g) {
  int nodes = (int) g.range(1, 3);
  const bool single = g.chance(0.5);
  s.cfg.assign(16, 0);
  s.cfg[0] = g.chance(0.5) ? 0 : (long) g.below(5);
  s.cfg[1] = g.chance(0.2);
  if (g.chance(0.4)) s.cfg[15] |= 1;
  const bool replica = g.chance(0.3);        /* one process after the other, indistinguishable but for the entropy */
  if (replica) { s.cfg[15] = 3; nodes = 1; }
  gen_strategy(s, g, 0.3);
  FaultCfg &f = s.fc;
  FaultGen fg(s, g);
  f.only_path = ".wizard";
  if (g.chance(0.4)) {
    fg.errors(); if (single && g.chance(0.3)) fg.memory();
    f.budget = g.range(1, 5);
  }
  if (g.chance(0.3)) { fg.splits(); fg.interrupts(""); f.budget += 20; f.only_path = ""; for (int c : {S_READ, S_WRITE, S_OPEN, S_CLOSE, S_SEEK}) for (int k : {F_EIO, F_EMFILE, F_EACCES, F_ENOSPC, F_CLOSEFAIL}) f.p[c][k] = 0; }
  if (g.chance(0.35)) { f.p[S_ENTROPY][g.chance(0.5) ? F_ENOSYS : F_EIO] = g.chance(0.5) ? 1.0 : 0.4; f.budget += 40; }
  if (g.chance(0.4)) { f.p_kill = g.pick(std::vector<double>{0.002, 0.008, 0.02}); f.kill_budget = (int) g.range(1, 4); }
  if (!replica && g.chance(0.15)) { f.p_stall = g.pick(std::vector<double>{0.005, 0.03}); f.stall_max_ms = g.pick(std::vector<long>{50, 3000, 15000}); }
  if (g.chance(0.2)) f.p_clock = 0.03;
  int ph = 0, rounds = (int) g.range(1, replica ? 4 : 3);
  if (g.chance(0.4)) { s.add(ph, 0, 0, K7_ENV, {(long) g.below(7), (long) g.below(1 << 30)}); s.phases[ph++].env = true; }
  for (int r = 0; r < rounds; r++) {
    for (int n = 0; n < nodes; n++) {
      int thr = single ? 1 : (int) g.range(1, 3);
      for (int t = 0; t < thr; t++) for (int k = 0, m = (int) g.range(1, 5); k < m; k++) {
        double u = g.unit();
        s.add(ph, n, t, u < 0.2 ? K7_NEW : u < 0.25 ? K7_DROP : u < 0.88 ? K7_KEY : u < 0.96 ? K7_VALUE : K7_PSEUDO, {g.chance(0.4), g.chance(0.6) ? (long) g.range(8, 70) : g.chance(0.008) ? (long) g.range(4000, 16000) : (long) g.logrange(1, 300)});
      }
      s.add(ph, n, 0, K7_KEY, {0, 32});
    }
    s.phases[ph++].restarts = (int) g.range(0, 2);
    if (r + 1 < rounds && g.chance(0.5)) { s.add(ph, 0, 0, K7_ENV, {(long) g.below(8), (long) g.below(1 << 30)}); s.phases[ph++].env = true; }
  }
  s.cap = 60000000;
}
static std::string snapshot;
static void init(const Scenario &) { snapshot.clear(); }
static void phase_end(const Scenario &, int) { if (snapshot.empty()) if (Inode *i = fs_find(K7_RESERVOIR)) snapshot = i->data; }
static void env(const Scenario &s, const SimOp &o) {
  Inode *i = fs_find(K7_RESERVOIR);
  std::string d = i ? i->data : "";
  Rng g(mix2(s.seed, (uint64_t) o.a[1]));
  switch (o.a[0]) {
    case 0: fs_remove(K7_RESERVOIR); break;
    case 1: fs_put(K7_RESERVOIR, ""); break;
    case 2: fs_put(K7_RESERVOIR, d.substr(0, g.below(d.size() + 1))); break;                         /* torn */
    case 3: if (!d.empty()) d[g.below(d.size())] ^= (char) (1 << g.below(8)); fs_put(K7_RESERVOIR, d); break;
    case 4: fs_put(K7_RESERVOIR, data_for(s.seed, 77, (long) g.below(200))); break;                  /* somebody else's file */
    case 5: if (d.size() > 80) for (int k = 76; k < 80; k++) d[k] = (char) g.below(256); fs_put(K7_RESERVOIR, d); break;   /* the length field */
    case 6: if (!d.empty()) for (size_t k = 64 + g.below(12), n = 0; k < d.size() && n < 8; k++, n++) d[k] = (char) g.below(256); fs_put(K7_RESERVOIR, d); break;
    case 7: if (!snapshot.empty()) fs_put(K7_RESERVOIR, snapshot); break;                            /* restored backup */
  }
}
static void oracle(const Scenario &s) {
  check_exits(true);
  if (world_failed()) return;
  std::unordered_map<uint64_t, const Event *> seen;
  for (auto &e : *w_history) {
    if (e.type != 1 || e.kind != K7_KEY) continue;
    for (size_t i = 0; i + 8 <= e.data.size(); i++) {
      uint64_t v; memcpy(&v, e.data.data() + i, 8);
      auto r = seen.emplace(v, &e);
      if (!r.second) {
        const Event *p = r.first->second;
        violation("repeat", strf("process %d (start %d, phase %d) thread %d repeats bytes that process %d (start %d, phase %d) thread %d obtained before", e.node, e.life, e.phase, e.thr, p->node, p->life, p->phase, p->thr));
        return;
      }
    }
  }
  std::map<double, int> values;
  for (auto &e : *w_history) if (e.type == 1 && (e.kind == K7_VALUE || e.kind == K7_PSEUDO)) for (size_t i = 0; i + 8 <= e.data.size(); i += 8) {
    double v; memcpy(&v, e.data.data() + i, 8);
    if (values[v]++) { violation("repeat-value", strf("process %d (start %d, phase %d) thread %d obtains a random number that was drawn before", e.node, e.life, e.phase, e.thr)); return; }
  }
  /* neighbouring keys of one generator do not overlap: one thread's draws, matched bytes added up */
  for (size_t k = 1; k < 8; k++) {
    std::map<std::pair<int, int>, const Event *> last;
    long met = 0, tried = 0;
    for (auto &e : *w_history) {
      if (e.type != 1) continue;
      const SimOp *o = op_by_id(s, e.op);
      bool alone = true;
      for (auto &q : s.ops) if (o && q.phase == o->phase && q.node == o->node && q.thr != o->thr) alone = false;
      const auto key = std::make_pair(e.node * 64 + e.life, o ? (int) o->a[0] : 0);
      if (!o || !alone || e.kind != K7_KEY) { if (o && (e.kind != K7_PSEUDO || !alone)) last.clear(); continue; }
      auto &l = last[key];
      if (l && l->data.size() >= k && e.data.size() >= k) { tried++; met += !e.data.compare(0, k, l->data, l->data.size() - k, k); }
      l = &e;
    }
    if (met == tried && met * (long) k >= 6) { violation("overlap", strf("each key starts with the last %d bytes of the key before", (int) k)); return; }
  }
  if (seen.size() > 64) probe("compared random bytes");
}
static PropDef pd = {7, "C07", "c07", gen, init, env, phase_end, oracle,
  "a run is counted as distinct by the hash of its schedule deviations, faults and kill points; non-trivial runs have at least one preemption, fault or kill"};
static RegProp reg(&pd);
