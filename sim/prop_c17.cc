#include "gen.h"
#include "c17.h"
#include <cmath>

static void gen(Scenario &s, Rng &g) {
  s.cfg.assign(16, 0);
  s.cfg[15] = g.chance(0.05);
  gen_strategy(s, g, 0.3);
  FaultCfg &f = s.fc;
  if (g.chance(0.7)) { f.p_clock = g.pick(std::vector<double>{0.02, 0.1, 0.4}); f.budget = 50; }
  if (g.chance(0.5)) { f.p_stall = g.pick(std::vector<double>{0.02, 0.1}); f.stall_max_ms = g.pick(std::vector<long>{20, 1000, 3600000}); f.budget = 50; }
  if (g.chance(0.2)) { f.p[S_SLEEP][F_EINTR] = 0.2; f.budget = 50; }
  int thr = (int) g.range(1, 3);
  double unit = g.pick(std::vector<double>{50, 2000, 400000, 50000000});
  for (int t = 0; t < thr; t++) for (int k = 0, m = (int) g.range(4, 24); k < m; k++) {
    long w = g.chance(0.7) ? 0 : 1;
    double u = g.unit();
    if (u < 0.14) s.add(0, 0, t, K17_START, {w, g.chance(0.5)});
    else if (u < 0.34) s.add(0, 0, t, K17_ELAPSED, {w});
    else if (u < 0.44) s.add(0, 0, t, K17_USER, {w});
    else if (u < 0.58) s.add(0, 0, t, K17_CONTINUE, {w});
    else if (u < 0.65) s.add(0, 0, t, K17_RESET, {w});
    else if (u < 0.85) s.add(0, 0, t, K17_DELAY, {0, (long) (g.unit() * unit)});
    else s.add(0, 0, t, K17_WORK, {0, g.range(1, 3000)});
  }
}
/* values are known up to the moment within a call at which the clock was read */
struct Iv { double lo = 0, hi = 0; };
static Iv operator+(Iv a, Iv b) { return {a.lo + b.lo, a.hi + b.hi}; }
static Iv operator-(Iv a, Iv b) { return {a.lo - b.hi, a.hi - b.lo}; }
struct Watch { bool on = false, run = false; Iv base[2], start[2], total[2]; };   /* 0 real time, 1 processor time */
static void oracle(const Scenario &s) {
  check_exits(false);
  if (world_failed()) return;
  std::map<std::pair<int, long>, Watch> w;
  for (auto &l : collect_ops(0, -1)) {
    if (!l.ret) continue;
    const SimOp *o = op_by_id(s, l.inv->op);
    T17 r; memcpy(&r, l.ret->data.data(), sizeof r);
    auto tick = [](unsigned long n) { return std::floor((double) n / 1e7) / 100; };
    Iv now[2] = {{tick(r.m0), tick(r.m1)}, {tick(r.c0), tick(r.c1)}};
    Watch &x = w[{l.inv->thr, o->a[0]}];
    auto stop = [&]() { if (x.run) for (int i = 0; i < 2; i++) { Iv d = now[i] - x.start[i]; if (d.lo < 0) d.lo = 0; x.total[i] = x.base[i] + d; } x.run = false; };
    if (o->kind == K17_DELAY) {
      if (l.ret->t - l.inv->t < (uint64_t) o->a[1] * 1000000 && l.ret->faults == l.inv->faults && s.fc.p[S_SLEEP][F_EINTR] == 0 && !s.cfg[15]) { violation("delay", strf("a delay of %ld ms took %lu ns", o->a[1], (unsigned long) (l.ret->t - l.inv->t))); return; }
      continue;
    }
    if (o->kind == K17_WORK) continue;
    if (l.ret->status == 2) { x.on = x.run = true; for (int i = 0; i < 2; i++) { x.base[i] = {}; x.start[i] = now[i]; } continue; }
    switch (o->kind) {
      case K17_START:
        for (int i = 0; i < 2; i++) { if (o->a[1]) { x.base[i] = {}; x.start[i] = now[i]; } else if (!x.run) { x.base[i] = x.total[i]; x.start[i] = now[i]; } }
        x.run = true; break;
      case K17_CONTINUE: x.run = true; if (l.ret->status != 1) { violation("refused", "continuing a stopwatch was refused"); return; } break;
      case K17_RESET: for (int i = 0; i < 2; i++) { x.base[i] = x.total[i] = {}; x.start[i] = now[i]; } x.run = false; break;
      case K17_ELAPSED: case K17_USER: {
        int i = o->kind == K17_USER;
        stop();
        if (!(r.v >= x.total[i].lo - 1e-6 && r.v <= x.total[i].hi + 1e-6)) { violation(i ? "user" : "elapsed", strf("the stopwatch shows %.6f s, %s time is between %.6f s and %.6f s", r.v, i ? "processor" : "real", x.total[i].lo, x.total[i].hi)); return; }
        probe(i ? "processor time" : "real time");
        break;
      }
    }
  }
}
static PropDef pd = {17, "C17", "c17", gen, nullptr, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations and faults; non-trivial runs have at least one preemption or fault"};
static RegProp reg(&pd);
