#include "gen.h"
#include "c10.h"
#include <deque>

struct ListState {
  std::vector<long> v;
  uint64_t hash() const { uint64_t h = 99; for (long x : v) h = mix64(h ^ (uint64_t) x) + 1; return h; }
};
static bool apply_list(ListState &s, const LinOp &o, const Scenario &sc) {
  const SimOp *q = op_by_id(sc, o.inv->op);
  long cap = sc.cfg[1] ? sc.cfg[1] : 1L << 40;
  long n = (long) s.v.size();
  long st = o.ret->status, val = o.ret->value;
  auto get = [&](long i) { return i < n ? s.v[(size_t) i] : 0L; };
  switch (q->kind) {
    case L_APPEND: if (st) { if (n >= cap) return false; s.v.push_back(q->a[1]); return true; } return n >= cap || o.ret->faults > 0;
    case L_INSERT: if (st) { if (n >= cap || q->a[0] > n) return false; s.v.insert(s.v.begin() + q->a[0], q->a[1]); return true; } return n >= cap || q->a[0] > n || o.ret->faults > 0;
    case L_SORTED: {
      if (!st) return n >= cap || o.ret->faults > 0;
      /* replacing an entry of a full list may be refused or done */
      long i = 0; bool rep = false;
      for (; i < n; i++) { long a = C10_KEY(q->a[1]), b = C10_KEY(s.v[(size_t) i]); if (a < b) break; if (a == b && q->a[0]) { rep = true; break; } }
      if (rep) { if (val != s.v[(size_t) i]) return false; s.v[(size_t) i] = q->a[1]; return true; }
      if (n >= cap || val != 0) return false;
      s.v.insert(s.v.begin() + i, q->a[1]); return true;
    }
    case L_GET: return val == get(q->a[0]);
    case L_LAST: return val == (n ? s.v.back() : 0);
    case L_REMOVE: if (val != get(q->a[0])) return false; if (val) s.v.erase(s.v.begin() + q->a[0]); return true;
    case L_REMOVEV: { auto it = std::find(s.v.begin(), s.v.end(), q->a[1]); if (it == s.v.end()) return val == 0; if (val != q->a[1]) return false; s.v.erase(it); return true; }
    case L_REMOVELAST: if (val != (n ? s.v.back() : 0)) return false; if (n) s.v.pop_back(); return true;
    case L_COUNT: return st == n;
    case L_EMPTY: return st == (n == 0);
    case L_CLEAR: s.v.clear(); return true;
    case L_TOARRAY: return o.ret->data.size() == s.v.size() * sizeof(long) && (s.v.empty() || memcmp(o.ret->data.data(), s.v.data(), o.ret->data.size()) == 0);
    case L_RESET: return true;
    case L_NEXT: return val == 0 || std::find(s.v.begin(), s.v.end(), val) != s.v.end();
  }
  return true;
}
struct MapState {
  std::map<long, long> m;
  uint64_t hash() const { uint64_t h = 98; for (auto &kv : m) h = mix64(h ^ (uint64_t) kv.first ^ mix64((uint64_t) kv.second)) + 1; return h; }
};
static bool apply_map(MapState &s, const LinOp &o, const Scenario &sc) {
  const SimOp *q = op_by_id(sc, o.inv->op);
  long st = o.ret->status, val = o.ret->value;
  auto it = s.m.find(q->a[0]);
  switch (q->kind) {
    case H_PUT: if (st) { s.m[q->a[0]] = q->a[1]; return true; } return o.ret->faults > 0;
    case H_GET: return val == (it == s.m.end() ? 0 : it->second);
    case H_REMOVE: if (val != (it == s.m.end() ? 0 : it->second)) return false; if (it != s.m.end()) s.m.erase(it); return true;
    case H_COUNT: return st == (long) s.m.size();
    case H_EMPTY: return st == s.m.empty();
    case H_RESET: return true;
    case H_NEXTK: return st == -1 || s.m.count(st);
    case H_NEXTV: if (val == 0) return true; for (auto &kv : s.m) if (kv.second == val) return true; return false;
  }
  return true;
}

static void gen(Scenario &s, Rng &g) {
  int mode = (int) g.below(20); mode = mode < 8 ? 0 : mode < 12 ? 1 : 2;
  int nthr = (int) g.range(2, 4);
  if (g.chance(0.06)) nthr = 1;
  long cap = 0, pre = 0, hash = 0, flag = (long) g.below(2);
  if (mode < 2) { if (g.chance(0.4)) cap = g.range(1, 5); pre = g.below(4) ? g.range(0, 4) : 0; if (cap && pre > cap) pre = cap; }
  else { hash = (long) g.below(6); static const long caps[] = {2, 3, 3, 17, 31}; cap = caps[g.below(5)]; pre = g.range(0, 3); if (g.chance(0.15)) pre = g.range(8, 40); }
  s.cfg = {mode, cap, pre, hash, flag};
  int nops = (int) g.range(4, nthr == 1 ? 16 : 14);
  long id = 1;
  /* a few operation kinds per run */
  std::vector<int> kinds;
  std::vector<int> all = mode == 0 ? std::vector<int>{L_APPEND, L_APPEND, L_INSERT, L_GET, L_LAST, L_REMOVE, L_REMOVEV, L_REMOVELAST, L_COUNT, L_EMPTY, L_CLEAR, L_TOARRAY, L_RESET, L_NEXT}
    : mode == 1 ? std::vector<int>{L_SORTED, L_SORTED, L_SORTED, L_GET, L_LAST, L_REMOVE, L_REMOVEV, L_REMOVELAST, L_COUNT, L_TOARRAY, L_NEXT, L_RESET}
    : std::vector<int>{H_PUT, H_PUT, H_PUT, H_GET, H_REMOVE, H_REMOVE, H_COUNT, H_EMPTY, H_RESET, H_NEXTK, H_NEXTV};
  int nk = (int) g.range(2, 6);
  kinds.push_back(all[0]);
  for (int i = 1; i < nk; i++) kinds.push_back(g.pick(all));
  long nkeys = mode == 2 && pre > 6 ? 50 : g.range(1, 5);
  std::vector<long> used; for (long i = 0; i < pre; i++) used.push_back(C10_PRE(i));
  for (int i = 0; i < nops; i++) {
    int k = g.pick(kinds); int t = (int) g.below(nthr);
    long a0 = 0, a1 = 0;
    switch (k) {
      case L_INSERT: a0 = g.range(0, 4); a1 = C10_VAL(g.below(12), id++); used.push_back(a1); break;
      case L_APPEND: a1 = C10_VAL(g.below(12), id++); used.push_back(a1); break;
      case L_SORTED: a0 = (long) g.below(2); a1 = C10_VAL(g.range(1, 7), id++); used.push_back(a1); break;
      case L_GET: case L_REMOVE: a0 = g.chance(0.4) ? 0 : g.range(0, 4); break;
      case L_REMOVEV: a1 = used.empty() ? C10_VAL(1, 999) : g.pick(used); break;
      case H_PUT: a0 = (long) g.below(nkeys); a1 = C10_VAL(g.below(12), id++); break;
      case H_GET: case H_REMOVE: a0 = (long) g.below(nkeys); break;
    }
    s.add(0, 0, t, k, {a0, a1});
  }
  gen_strategy(s, g, 0.1);
  s.phases[0].kills = false;
  if (g.chance(0.12)) { s.fc.p[S_MALLOC][F_ENOMEM] = 0.02 + 0.2 * g.unit(); s.fc.budget = g.range(1, 3); }
}

static void oracle(const Scenario &sc) {
  bool fatal = false;
  for (auto &x : *w_exits) if (!x.killed && x.code) fatal = true;
  check_exits(true);
  if (world_failed()) return;
  if (fatal) return;                /* the process reported an out-of-memory error and ended */
  auto ops = collect_ops(0, 0);
  for (auto &o : ops) if (!o.ret) { violation("lost-operation", "an operation never returned"); return; }
  const Event *fin = nullptr;
  for (auto &e : *w_history) if (e.type == 2 && (e.kind == 1 || e.kind == 2)) fin = &e;
  if (!fin) { violation("lost-operation", "no final walk"); return; }
  const Event *fink = nullptr;
  for (auto &e : *w_history) if (e.type == 2 && e.kind == 3) fink = &e;
  if (fin->status != fin->value) { violation("size", strf("size is reported as %ld but the walk visits %ld", fin->status, fin->value)); return; }
  bool concurrent = false;
  for (size_t i = 1; i < ops.size(); i++) if (ops[i].inv->seq < ops[i - 1].ret->seq) concurrent = true;
  if (concurrent) probe("overlapping operations");
  static thread_local const Event *final_e; final_e = fin;
  /* final walk as a last operation */
  if (sc.cfg[0] < 2) {
    struct S2 : ListState { };
    Lin<ListState> L; L.sc = &sc; L.apply = [](ListState &s, const LinOp &o, const Scenario &c) {
      if (o.inv == final_e) return final_e->data.size() == s.v.size() * sizeof(long) && (s.v.empty() || !memcmp(final_e->data.data(), s.v.data(), final_e->data.size()));
      return apply_list(s, o, c); };
    L.ops = ops; L.ops.push_back({fin, fin});
    ListState init;
    for (long i = 0; i < sc.cfg[2]; i++) init.v.push_back(C10_PRE(i));
    if (!L.rec(0, init)) violation("not-linearizable", "no order of the list operations explains the results");
  } else {
    if (fink->data.size() != fin->data.size()) { violation("walk", "walks over keys and values differ"); return; }
    std::map<long, long> f; const long *k = (const long *) fink->data.data(), *v = (const long *) fin->data.data();
    for (size_t i = 0; i < fin->data.size() / sizeof(long); i++) { if (f.count(k[i])) { violation("duplicate-key", strf("key %ld is present twice", k[i])); return; } f[k[i]] = v[i]; }
    static thread_local std::map<long, long> *fm; fm = &f;
    Lin<MapState> L; L.sc = &sc; L.apply = [](MapState &s, const LinOp &o, const Scenario &c) {
      if (o.inv == final_e) return s.m == *fm;
      return apply_map(s, o, c); };
    L.ops = ops; L.ops.push_back({fin, fin});
    MapState init;
    for (long i = 0; i < sc.cfg[2]; i++) init.m[i] = C10_PRE(i);
    if (!L.rec(0, init)) violation("not-linearizable", "no order of the map operations explains the results");
  }
}
static PropDef pd = {10, "C10", "c10", gen, nullptr, nullptr, nullptr, oracle,
  "one evaluation is one simulated run: a random program of 2-4 threads on one list or map, executed under one seeded schedule and fault sequence, its complete history (with the final walk) checked for linearizability against a sequential list or map; distinct_nontrivial counts distinct sequences of preemptions and faults"};
static RegProp reg(&pd);
