#include "gen.h"
#include "c19.h"

static void gen(Scenario &s, Rng &g) {
  int nodes = (int) g.range(1, 3);
  s.cfg = {g.chance(0.3)};
  const bool single = g.chance(0.7);
  gen_strategy(s, g, 0.35);
  FaultCfg &f = s.fc;
  FaultGen fg(s, g);
  const double u = g.unit();
  if (u < 0.4) {
    fg.errors(); if (single && g.chance(0.3)) fg.memory();
    f.budget = g.range(1, 4);
    if (g.chance(0.6)) f.only_path = g.chance(0.5) ? (s.cfg[0] ? "ring" : ".wizard") : "phrase";
  } else if (u < 0.6) { fg.splits(); fg.interrupts(""); f.budget += 20; }
  if (g.chance(0.4)) { f.p_kill = g.pick(std::vector<double>{0.001, 0.004, 0.01}); f.kill_budget = (int) g.range(1, 4); }
  if (g.chance(0.1)) { f.p_stall = 0.005; f.stall_max_ms = g.pick(std::vector<long>{50, 3000, 15000}); }
  if (g.chance(0.1)) f.p_clock = 0.01;
  int ph = (int) g.range(1, 2);
  std::vector<SimOp> gens;
  long hash = g.chance(0.6) ? 0 : (long) g.below(4);
  const bool objects = g.chance(0.5);
  auto reuse = [&]() { return objects ? (long) g.below(4) | (long) g.below(4) : 0L; };
  const double fronts = g.chance(0.5) ? 0.5 : 0;
  auto front = [&]() { return (long) g.chance(fronts); };
  for (int p = 0; p < ph; p++) {
    for (int n = 0; n < nodes; n++) {
      int thr = single ? 1 : 2;
      for (int t = 0; t < thr; t++) for (int k = 0, m = (int) g.range(1, 2); k < m; k++) {
        if (gens.empty() || g.chance(0.6)) {
          s.add(p, n, t, K19_GEN, {(long) g.below(K19_PHRASES), g.chance(0.7) ? 256 : g.pick(std::vector<long>{128, 512, 1024, 2048}), hash, 1, reuse(), front()});
          gens.push_back(s.ops.back());
        } else {
          SimOp o = g.pick(gens);
          s.add(p, n, t, K19_UNLOCK, {o.id, g.chance(0.5) ? o.a[0] : (long) g.below(K19_PHRASES), hash, 1, reuse(), front()});
        }
      }
    }
    s.phases[p].restarts = (int) g.range(0, 2);
  }
  for (auto &o : gens) {
    s.add(ph, (int) g.below(nodes), 0, K19_UNLOCK, {o.id, o.a[0], hash, 3, reuse(), front()});
    if (g.chance(0.6)) s.add(ph, (int) g.below(nodes), 0, K19_UNLOCK, {o.id, (long) g.below(K19_PHRASES), hash, 1, reuse(), front()});
  }
  s.phases[ph].faults = s.phases[ph].kills = false;
  s.cap = 120000000;
}
static std::string phrase(const Scenario &s, long k) {
  std::string b = data_for(s.seed, 500, 200);
  for (char &c : b) c = (char) ('!' + (unsigned char) c % 90);
  switch (k) {
    case 0: return b.substr(0, 1);
    case 1: return b.substr(0, 12);
    case 2: return b.substr(0, 12) + "\n";
    case 3: { std::string r = b.substr(0, 12); r[11] ^= 1; return r; }
    case 4: return b.substr(0, 32);
    case 5: return b.substr(0, 33);
    case 6: return b.substr(0, 150);
    default: { std::string r = b.substr(0, 150); r[149] ^= 2; return r; }
  }
}
static void init(const Scenario &s) {
  fs_mkdirs("/ids");
  for (long k = 0; k < K19_PHRASES; k++) fs_put(strf(K19_PHRASE, k), phrase(s, k));
}
static void oracle(const Scenario &s) {
  check_exits(true);
  if (world_failed()) return;
  const bool clean = s.fc.budget == 0 && s.fc.p_stall == 0;
  const int last = s.nphases() - 1;
  auto ops = collect_ops(-1, -1);
  std::map<long, const LinOp *> made;
  std::set<std::string> keys, ids;
  for (auto &l : ops) {
    const SimOp *o = op_by_id(s, l.inv->op);
    if (o->kind != K19_GEN || !l.ret) continue;
    if (!l.ret->status) { if (clean) { violation("refused", "a key could not be generated although nothing failed"); return; } continue; }
    made[o->id] = &l;
    if (l.ret->value != o->a[1] / 8) { violation("wrong-key", strf("a generated key has %ld instead of %ld bytes", l.ret->value, o->a[1] / 8)); return; }
    if (!keys.insert(l.ret->data.substr(0, l.ret->value)).second) { violation("repeat", "two generations yield the same key"); return; }
    if (!ids.insert(l.ret->data.substr(l.ret->value)).second) { violation("repeat", "two generations yield the same identifier"); return; }
  }
  for (auto &l : ops) {
    const SimOp *o = op_by_id(s, l.inv->op);
    if (o->kind != K19_UNLOCK || !l.ret || l.ret->status < 0) continue;
    auto m = made.find(o->a[0]);
    if (m == made.end()) continue;
    const SimOp *go = op_by_id(s, (int) o->a[0]);
    const LinOp &gm = *m->second;
    if (o->a[1] != go->a[0]) {
      if (l.ret->status) { violation("unlocked", strf("passphrase %ld unlocks a key generated under passphrase %ld", o->a[1], go->a[0])); return; }
      probe("wrong passphrase refused");
      continue;
    }
    if (l.ret->status) {
      if (l.ret->data != gm.ret->data || l.ret->value != gm.ret->value) { violation("wrong-key", "unlocking yields another key than the generated one"); return; }
      probe("right passphrase accepted");
    } else if (gm.ret->seq < l.inv->seq && (clean || l.inv->phase == last)) { violation("locked", "the right passphrase does not unlock a key that was reported as stored"); return; }
  }
}
static PropDef pd = {19, "C19", "c19", gen, init, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations, faults and kill points; non-trivial runs have at least one preemption, fault or kill"};
static RegProp reg(&pd);
