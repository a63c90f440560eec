#include "gen.h"
#include "c11.h"
struct TState {
  std::map<long, long> m; uint64_t h = 5;
  static uint64_t e(long k, long v) { return mix64(mix64((uint64_t) k) ^ (uint64_t) v); }
  void put(long k, long v) { auto it = m.find(k); if (it != m.end()) { h -= e(k, it->second); it->second = v; } else m[k] = v; h += e(k, v); }
  void del(std::map<long, long>::iterator it) { h -= e(it->first, it->second); m.erase(it); }
  uint64_t hash() const { return h; }
  std::map<long, long>::iterator by_value(long v) { for (auto it = m.begin(); it != m.end(); ++it) if (it->second == v) return it; return m.end(); }
};
static const Event *final_e;
static bool same(const std::string &d, const TState &s) {
  if (d.size() != s.m.size() * 16) return false;
  const long *p = (const long *) d.data();
  for (auto &kv : s.m) { if (p[0] != kv.first || p[1] != kv.second) return false; p += 2; }
  return true;
}
static bool apply(TState &s, const LinOp &o, const Scenario &sc) {
  if (o.inv == final_e) return same(final_e->data, s);
  const SimOp *q = op_by_id(sc, o.inv->op);
  long st = o.ret->status, val = o.ret->value;
  auto it = s.m.find(q->a[0]);
  switch (q->kind) {
    case T_ADD: if (st) { s.put(q->a[0], q->a[1]); return true; } return o.ret->faults > 0;
    case T_GET: return val == (it == s.m.end() ? 0 : it->second);
    case T_DELETE: if (st != (it != s.m.end())) return false; if (st) s.del(it); return true;
    case T_REMOVE: if (val != (it == s.m.end() ? 0 : it->second)) return false; if (it != s.m.end()) s.del(it); return true;
    case T_DELETEV: { auto b = s.by_value(q->a[1]); if (st != (b != s.m.end())) return false; if (st) s.del(b); return true; }
    case T_REMOVEV: { auto b = s.by_value(q->a[1]); if (st != (b == s.m.end() ? -1 : b->first)) return false; if (b != s.m.end()) s.del(b); return true; }
    case T_COUNT: return st == (long) s.m.size();
    case T_RESET: s.m.clear(); s.h = 5; return true;
    case T_ITRESET: return true;
    case T_NEXTK: return st == -1 || s.m.count(st);
    case T_NEXTV: return val == 0 || s.by_value(val) != s.m.end();
    case T_CLONE: /* a copy made while memory ran out may be partial */ return o.ret->faults > o.inv->faults || st == (long) s.m.size() && same(o.ret->data, s);
  }
  return true;
}
static void gen(Scenario &s, Rng &g) {
  int nthr = (int) g.range(2, 4);
  if (g.chance(0.06)) nthr = 1;
  long pre = g.chance(0.3) ? 0 : g.range(1, 4);
  if (g.chance(0.08)) pre = g.range(10, 60);
  if (g.chance(0.015)) pre = g.range(1050, 1400);       /* deep enough to force rebalancing */
  s.cfg = {(long) g.below(3), pre, (long) g.below(4), (long) g.below(2)};
  bool walkers = g.chance(0.3);
  std::vector<int> all{T_ADD, T_ADD, T_GET, T_GET, T_DELETE, T_REMOVE, T_DELETEV, T_REMOVEV, T_COUNT, T_RESET, T_CLONE};
  if (walkers) { all.push_back(T_ITRESET); all.push_back(T_NEXTK); all.push_back(T_NEXTV); all.push_back(T_NEXTK); all.push_back(T_NEXTV); }
  std::vector<int> kinds; kinds.push_back(g.chance(0.5) ? T_ADD : T_DELETE);
  int nk = (int) g.range(2, 6); for (int i = 1; i < nk; i++) kinds.push_back(g.pick(all));
  long nkeys = g.range(1, 6); long base = pre > 100 ? (g.chance(0.5) ? 0 : 2 * pre - 4) : pre > 6 ? 8 : 0; long id = 1;
  int nops = (int) g.range(4, 14);
  if (pre > 6 && pre < 100 && g.chance(0.5)) {                          /* many changes all over a tree of moderate depth */
    base = 0; nkeys = 2 * pre + 2; nops = (int) g.range(10, 40);
    nthr = (int) g.range(1, 2);
  }
  std::vector<long> used;
  if (pre > 6) for (long i = 0; i < 8; i++) used.push_back(C11_PREV((long) g.below((uint64_t) pre)));
  else for (long i = 0; i < pre; i++) used.push_back(C11_PREV(i));
  for (int i = 0; i < nops; i++) {
    int k = g.pick(kinds); int t = (int) g.below(nthr);
    long a0 = base + (long) g.below(nkeys), a1 = 0;
    if (k == T_ADD) { a1 = (id++) << 4; used.push_back(a1); }
    if (k == T_DELETEV || k == T_REMOVEV) a1 = used.empty() ? 77 << 4 : g.pick(used);
    s.add(0, 0, t, k, {a0, a1});
  }
  gen_strategy(s, g, 0.1);
  s.phases[0].kills = false;
  if (g.chance(0.08)) { s.fc.p[S_MALLOC][F_ENOMEM] = 0.02 + 0.2 * g.unit(); s.fc.budget = g.range(1, 3); }
}
static void oracle(const Scenario &sc) {
  bool fatal = false;
  for (auto &x : *w_exits) if (!x.killed && x.code) fatal = true;
  check_exits(true);
  if (world_failed() || fatal) return;
  auto ops = collect_ops(0, 0);
  for (auto &o : ops) if (!o.ret) { violation("lost-operation", "an operation never returned"); return; }
  const Event *fin = nullptr, *vf = nullptr;
  for (auto &e : *w_history) { if (e.type == 2 && e.kind == 1) fin = &e; if (e.type == 2 && e.kind == 2) vf = &e; }
  if (!fin || !vf) { violation("lost-operation", "no final walk"); return; }
  if (fin->status != fin->value) { violation("size", strf("size is reported as %ld but the walk visits %ld", fin->status, fin->value)); return; }
  const long *p = (const long *) fin->data.data();
  for (size_t i = 0; i + 3 < fin->data.size() / 8; i += 2) if (p[i] >= p[i + 2]) { violation("order", "the walk is not in order"); return; }
  bool concurrent = false;
  for (size_t i = 1; i < ops.size(); i++) if (ops[i].inv->seq < ops[i - 1].ret->seq) concurrent = true;
  if (concurrent) probe("overlapping operations");
  if (sc.cfg[1] > 1000) probe("deep tree");
  final_e = fin;
  Lin<TState> L; L.sc = &sc; L.apply = apply; L.ops = ops; L.ops.push_back({fin, fin});
  TState init; for (long i = 0; i < sc.cfg[1]; i++) init.put(C11_PREK(i), C11_PREV(i));
  if (!L.rec(0, init)) { violation("not-linearizable", "no order of the tree operations explains the results"); return; }
  /* every stored value is given back once, unless it was handed out by a removal */
  if (sc.cfg[2] & 2) {
    const int *fr = (const int *) vf->data.data();
    std::set<long> out;
    for (auto &o : ops) { const SimOp *q = op_by_id(sc, o.inv->op); if (q->kind == T_REMOVE && o.ret->value) out.insert(o.ret->value >> 4); }
    std::set<long> in;
    for (long i = 0; i < sc.cfg[1]; i++) in.insert(C11_PREV(i) >> 4);
    for (auto &o : ops) { const SimOp *q = op_by_id(sc, o.inv->op); if (q->kind == T_ADD && o.ret->status) in.insert(q->a[1] >> 4); }
    bool clone = false; for (auto &o : ops) if (op_by_id(sc, o.inv->op)->kind == T_CLONE) clone = true;
    if (!clone) for (long v = 0; v < C11_MAXV; v++) { int want = in.count(v) && !out.count(v); if (fr[v] != want) { violation("lost-or-duplicated", strf("value %ld given back %d times instead of %d", v, fr[v], want)); return; } }
  }
}
static PropDef pd = {11, "C11", "c11", gen, nullptr, nullptr, nullptr, oracle,
  "one evaluation is one simulated run: a random program of 2-4 threads on one tree map, executed under one seeded schedule and fault sequence, its complete history (with the final ordered walk) checked for linearizability against a sequential sorted map; distinct_nontrivial counts distinct sequences of preemptions and faults"};
static RegProp reg(&pd);
