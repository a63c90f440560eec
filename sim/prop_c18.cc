#include "gen.h"
#include "res.h"

static void gen(Scenario &s, Rng &g) {
  s.cfg.assign(16, 0);
  for (int t = 0; t < R_TYPES; t++) s.cfg[t] = g.chance(0.5) ? -1 : t == 3 ? g.pick(std::vector<long>{0, 1, 2, 8}) : g.pick(std::vector<long>{0, 1, 1000, 5000, 20000, 100000});
  s.cfg[4] = g.chance(0.3);
  int thr = g.chance(0.4) ? 1 : (int) g.range(2, 4);
  gen_strategy(s, g);
  if (g.chance(0.75)) {
    FaultGen f(s, g);
    f.q = g.pick(std::vector<double>{0.02, 0.06, 0.2});
    f.add(S_OPEN, F_EMFILE); f.add(S_OPEN, F_EACCES); f.add(S_OPEN, F_ENOSPC); f.add(S_OPEN, F_EXIST); f.add(S_WRITE, F_ENOSPC); f.add(S_WRITE, F_EIO); f.add(S_WRITE, F_EINTR);
    f.add(S_SEEK, F_EIO); f.add(S_UNLINK, F_EIO); f.add(S_MMAP, F_ENOMEM, 3); f.add(S_STAT, F_EIO);
    if (thr == 1) f.add(S_MALLOC, F_ENOMEM, 2);
    s.fc.budget = g.range(1, 8);
  }
  for (int t = 0; t < thr; t++) for (int k = 0, m = (int) g.range(2, thr == 1 ? 20 : 9); k < m; k++) {
    long sl = (long) g.below(R_SLOTS), c, q;
    double u = g.unit();
    c = g.chance(0.1) ? (long) g.below(3) : g.logrange(1, g.chance(0.05) ? 200000 : 9000); q = g.pick(std::vector<long>{1, 1, 1, 2, 3, 8, 64});
    if (g.chance(0.06)) { c = g.pick(std::vector<long>{(long) (1UL << 63), (1L << 33) + 1, -1L, 1L << 40, (1L << 62) + 8}); q = g.pick(std::vector<long>{4, 1L << 32, (1L << 31) - 1, 2, 16}); }
    if (g.chance(0.02)) q = 0;
    if (u < 0.5) s.add(0, 0, t, R_MACQ, {sl, g.pick(std::vector<long>{0, 1, 2, 3, 3, 3}), c, q});
    else if (u < 0.68) s.add(0, 0, t, R_MRES, {sl, (long) g.below(2), c, q});
    else if (u < 0.85) s.add(0, 0, t, R_MREL, {sl});
    else s.add(0, 0, t, R_MCHECK, {sl});
  }
}
static void init(const Scenario &) { fs_mkdirs("/w/d"); }
static void oracle(const Scenario &s) {
  check_exits(true);
  if (world_failed()) return;
  for (auto &l : collect_ops(0, -1)) {
    if (!l.ret || l.ret->status) continue;
    const SimOp *o = op_by_id(s, l.inv->op);
    unsigned long n;
    /* without any fault, a request of ordinary size that is not limited succeeds */
    if ((o->kind == R_MACQ || o->kind == R_MRES) && l.ret->faults == 0 && o->a[2] > 0 && o->a[3] > 0 && !__builtin_mul_overflow((unsigned long) o->a[2], (unsigned long) o->a[3], &n) && n < 16000000) {
      violation("refused", strf("a request for %lu bytes failed although nothing was wrong", n)); return;
    }
  }
  bool ended = false;
  for (auto &x : *w_exits) if (x.killed || x.code) ended = true;
  long un = 0;
  if (s.fc.p[S_UNLINK][F_EIO] > 0) un = 1;
  if (!ended && !un) for (auto &p : fs_list("/tmp/")) if (p.find("/tmp/wizard-") == 0 && std::find(w_planted->begin(), w_planted->end(), p) == w_planted->end()) { violation("leak", "file " + p + " left behind"); return; }
}
static PropDef pd = {18, "C18", "c18", gen, init, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations and faults; non-trivial runs have at least one preemption or fault"};
static RegProp reg(&pd);
