#include "gen.h"
#include "gencmd.h"

static void gen(Scenario &s, Rng &g) {
  const int nodes = (int) g.range(1, 4);
  s.cfg = {(long) g.below(4)};
  gen_strategy(s, g, 0.35);
  FaultCfg &f = s.fc;
  FaultGen fg(s, g);
  if (g.chance(0.5)) { fg.splits(); f.budget = (long) g.logrange(5, 400); if (g.chance(0.4)) fg.interrupts(g.chance(0.5) ? ".wizard" : "phrase"); }
  uint32_t victims = 0;
  for (int n = 1; n < nodes; n++) if (g.chance(0.3)) victims |= 1u << n;
  if (victims) { f.p_kill = g.pick(std::vector<double>{0.001, 0.004, 0.01}); f.kill_budget = (int) g.range(1, 3); f.kill_nodes = victims; }
  const long phrase = (long) g.below(4);
  for (int n = 0; n < nodes; n++) {
    long fl = 0;
    const long x = gen_cipher(g);
    if (g.chance(0.25)) fl |= CF_RING;
    if (g.chance(0.15)) fl |= CF_PROPS;
    if (g.chance(0.2)) fl |= CF_PLAIN;
    if (g.chance(0.1)) fl |= CF_VERBOSE;
    long c = gen_chunk(g), len = gen_length(g, c);
    if (n == 0 && g.chance(0.004)) len = gen_large(g, x, c);
    const long ph = g.chance(0.7) ? phrase : (long) g.below(4);
    const int gz = g.chance(0.12) && !(fl & CF_PLAIN) ? 1 + (int) g.below(2) : 0;
    s.cfg.push_back(len);
    s.add(0, n, 0, KC_ENC, {n, 10 + n, x, c, ph, fl | gen_typed(g, ph, 0.15) | (gz == 1 ? CF_GZOUT : gz == 2 ? CF_BZOUT : 0), fl & CF_PLAIN && g.chance(0.3) ? 4 + (long) g.below(2) : gen_style(g), (victims >> n & 1)});
    if (!(victims >> n & 1)) s.add(1, (int) g.below(nodes), 0, KC_DEC, {10 + n, 20 + n, x, c, ph, fl | gen_typed(g, ph, 0.15) | (gz == 1 ? CF_GZIN : gz == 2 ? CF_BZIN : 0), n});
  }
  /* one command per process: spread the deciphering over phases if a node has several */
  std::map<int, int> used;
  int last = 1;
  for (auto &o : s.ops) if (o.kind == KC_DEC) { o.phase = 1 + used[o.node]++; last = std::max(last, o.phase); }
  while (s.nphases() <= last) s.phases.push_back(PhaseCfg());
  for (int p = 1; p <= last; p++) s.phases[p].kills = false;
  s.cap = 400000000;
}
static void init(const Scenario &s) {
  cmd_phrases(s);
  for (auto &o : s.ops) if (o.kind == KC_ENC) fs_put(strf(CMD_FILE, o.a[0], ""), cmd_content(s, o.a[0], s.cfg[1 + o.a[0]], o.a[6]));
}
static void oracle(const Scenario &s) {
  check_exits(false);
  if (world_failed()) return;
  auto ops = collect_ops(-1, -1);
  for (auto &o : s.ops) {
    if (o.kind == KC_ENC && o.a[7]) continue;
    if (o.kind == KC_DEC && !enc_of(s, o.a[6])) continue;
    const LinOp *l = find_op(ops, o.id);
    if (!l || !l->ret) { violation("no-result", strf("%s did not finish", cmd_name(o).c_str())); return; }
    if (l->ret->status != 0) { violation("refused", strf("%s: %s failed with status %ld", cmd_error(*l).c_str(), cmd_name(o).c_str(), l->ret->status)); return; }
    if (o.kind != KC_DEC) continue;
    const SimOp *e = enc_of(s, o.a[6]);
    Inode *i = fs_find(strf(CMD_FILE, o.a[1], ""));
    const std::string want = cmd_content(s, o.a[6], s.cfg[1 + o.a[6]], e->a[6]);
    if (!i || i->data != want) { violation("wrong-bytes", strf("%ld bytes differ from the %lu original ones after %s", i ? (long) i->data.size() : -1L, (unsigned long) want.size(), cmd_name(*e).c_str())); return; }
    probe("round trip");
  }
}
static PropDef pd = {1, "C01", "c01", gen, init, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations, faults and kill points; non-trivial runs have at least one preemption, fault or kill"};
static RegProp reg(&pd);
