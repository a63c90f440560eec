#include "gen.h"
#include "c05.h"

static void gen(Scenario &s, Rng &g) {
  int nodes = (int) g.range(1, 4);
  s.cfg = {g.chance(0.4), g.chance(0.7) ? 16 : (long) g.range(1, 40)};
  const bool single = g.chance(0.6);
  gen_strategy(s, g, 0.35);
  FaultCfg &f = s.fc;
  FaultGen fg(s, g);
  if (g.chance(0.45)) {
    fg.errors(); if (single && g.chance(0.3)) fg.memory();   /* a fatal error in one thread takes the library away from the others */
    f.budget = g.range(1, 4);
    f.only_path = s.cfg[0] ? "keys" : ".wizard";
  }
  if (g.chance(0.3)) { fg.splits(); fg.interrupts(s.cfg[0] ? "keys" : ".wizard"); f.budget += 20; }
  if (g.chance(0.6)) { f.p_kill = g.pick(std::vector<double>{0.002, 0.008, 0.02}); f.kill_budget = (int) g.range(1, 5); }
  if (g.chance(0.15)) { f.p_stall = g.pick(std::vector<double>{0.005, 0.03}); f.stall_max_ms = g.pick(std::vector<long>{50, 3000, 15000}); }
  if (g.chance(0.1)) f.p_clock = 0.01;
  int ids = (int) g.range(1, K5_IDS), ph = (int) g.range(1, 3), tag = 0;
  for (int p = 0; p < ph; p++) {
    for (int n = 0; n < nodes; n++) {
      int thr = !single && g.chance(0.5) ? 2 : 1;
      for (int t = 0; t < thr; t++) for (int k = 0, m = (int) g.range(1, 4); k < m; k++) {
        double u = g.unit();
        int kind = u < 0.6 ? K5_STORE : u < 0.95 ? K5_LOOKUP : K5_LIST;
        long kl = g.chance(0.8) ? 32 : (long) g.range(1, 300), nl = g.chance(0.8) ? 32 : (long) g.range(1, 200);
        s.add(p, n, t, kind, {(long) g.below(ids), ++tag, kl, nl, g.chance(0.7) ? 1 : 2});
      }
    }
    s.phases[p].restarts = (int) g.range(0, 3);
  }
  for (int k = 0; k < K5_IDS; k++) s.add(ph, (int) g.below(nodes), 0, K5_LOOKUP, {k, 0, 1, 1, 3});
  s.add(ph, 0, 0, K5_LIST, {0, 0, 1, 1, 1});
  if (g.chance(0.5)) {   /* the keyring still accepts keys */
    s.add(ph + 1, 0, 0, K5_STORE, {K5_IDS, 999, 32, 32, 3});
    for (int k = 0; k <= K5_IDS; k++) s.add(ph + 2, 0, 0, K5_LOOKUP, {k, 0, 1, 1, 3});
  }
  for (int p = ph; p < s.nphases(); p++) s.phases[p].faults = s.phases[p].kills = false;
  s.cap = 60000000;
  s.cfg.push_back(f.budget == 0 && f.p_stall == 0);
}
static std::string id_of(const Scenario &s, long k) { std::string r = data_for(s.seed, 1000 + (unsigned long) k, s.cfg[1]); r[0] = (char) k; return r; }
static std::string hex(const std::string &b) { std::string r; for (unsigned char c : b) r += strf("%02x", c); return r; }
static std::string value_of(const Scenario &s, const SimOp &o) {
  return data_for(s.seed, 2000 + (unsigned long) o.a[1], o.a[2]) + data_for(s.seed, 3000 + (unsigned long) o.a[1], o.a[3]);
}
static void oracle(const Scenario &s) {
  check_exits(true);
  if (world_failed()) return;
  const bool clean = s.cfg[2];
  auto ops = collect_ops(-1, -1);
  int ph = 0; while (ph < s.nphases() && s.phases[ph].faults) ph++;
  auto desc = [&](const SimOp *o) { return strf("identifier %ld", o->a[0]); };
  std::map<long, const LinOp *> acked;
  for (auto &l : ops) {
    const SimOp *o = op_by_id(s, l.inv->op);
    if (o->kind == K5_STORE && l.ret && l.ret->status) {
      if (acked.count(o->a[0])) { violation("stored-twice", "two different keys were accepted under " + desc(o)); return; }
      acked[o->a[0]] = &l;
    }
    if (o->kind == K5_STORE && l.ret && !l.ret->status && l.inv->phase >= ph && o->a[0] == K5_IDS) { violation("store-refused", "a new key is refused after all faults were over"); return; }
  }
  for (auto &l : ops) {
    const SimOp *o = op_by_id(s, l.inv->op);
    if (o->kind != K5_LOOKUP || !l.ret) continue;
    auto a = acked.find(o->a[0]);
    const LinOp *st = a == acked.end() ? nullptr : a->second;
    const bool must = st && st->ret->seq < l.inv->seq;
    if (l.ret->status) {
      if (must) {
        const SimOp *so = op_by_id(s, st->inv->op);
        if (l.ret->value != so->a[2] || l.ret->data != value_of(s, *so)) { violation("wrong-key", "lookup of " + desc(o) + " returned other bytes than the acknowledged ones"); return; }
      } else {
        bool ok = false;
        for (auto &m : ops) { const SimOp *so = op_by_id(s, m.inv->op); if (so->kind == K5_STORE && so->a[0] == o->a[0] && m.inv->seq < l.ret->seq && l.ret->value == so->a[2] && l.ret->data == value_of(s, *so)) ok = true; }
        if (!ok) { violation("wrong-key", "lookup of " + desc(o) + " returned bytes that nobody stored under it"); return; }
      }
    } else if (must && (clean || l.inv->phase >= ph)) {
      violation("lost-key", "lookup of " + desc(o) + " fails although storing it was acknowledged"); return;
    }
  }
  /* the listing */
  for (auto &l : ops) {
    const SimOp *o = op_by_id(s, l.inv->op);
    if (o->kind != K5_LIST || l.inv->phase < ph || !l.ret) continue;
    Inode *f = fs_find(strf(K5_LISTING, o->id));
    std::string t = f ? f->data : "";
    for (char &c : t) c = (char) tolower(c);
    size_t n = 0;
    for (int k = 0; k < K5_IDS; k++) {
      std::string h = "about=\"" + hex(id_of(s, k)) + "\"";
      auto a = acked.find(k);
      size_t at = t.find(h);
      if (at != std::string::npos && t.find(h, at + 1) != std::string::npos) { violation("listing", strf("identifier %d is listed twice", k)); return; }
      if (a != acked.end() && a->second->inv->phase < l.inv->phase) {
        const SimOp *so = op_by_id(s, a->second->inv->op);
        std::string nn = hex(data_for(s.seed, 3000 + so->a[1], so->a[3]));
        n++;
        if (at == std::string::npos) { violation("listing", strf("the listing lacks acknowledged identifier %d", k)); return; }
        if (t.find("<keyring:nonce>" + nn + "<", at) == std::string::npos) { violation("listing", strf("the listing shows another nonce for identifier %d", k)); return; }
      }
    }
    if (n) probe("listed acknowledged keys");
  }
}
static PropDef pd = {5, "C05", "c05", gen, nullptr, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations, faults and kill points; non-trivial runs have at least one preemption, fault or kill"};
static RegProp reg(&pd);
