#include "gen.h"
#include "c14.h"

/* numbers of the severities used by the actor, in its order */
static const long sevno[] = {305, 390, 405, 490, 450, 705, 795, 300, 400, 700};
static long sev_of(long i);

static void gen(Scenario &s, Rng &g) {
  s.cfg.assign(16, 0);
  int mode = g.chance(0.8) ? 0 : 1;                 /* 1: records inherit from each other */
  s.cfg[0] = mode;
  int thr = g.chance(0.08) ? 1 : (int) g.range(2, 4), total = 0, recs = g.chance(0.7) ? 1 : 2;
  if (mode == 1) recs = 2;
  gen_strategy(s, g, 0);
  if (thr == 1) { s.fc.p[S_MALLOC][F_ENOMEM] = 0.05; s.fc.budget = g.range(1, 2); }
  long id = 1;
  int distinct = mode == 1 || g.chance(0.7);   /* otherwise reports repeat and the record keeps neighbours that are equal once */
  for (int t = 0; t < thr; t++) for (int k = 0, m = (int) g.range(1, 6); k < m && total < 14; k++, total++) {
    long r = (long) g.below(recs), me = distinct ? id++ : (long) g.range(1, 2);
    double u = g.unit();
    if (u < 0.5) s.add(0, 0, t, K14_THROW, {r, g.chance(0.8) ? (long) g.below(5) : (long) g.below(10), me, (long) g.below(3)});
    else if (mode == 1) { if (u < 0.9) s.add(0, 0, t, K14_CROSS, {r, g.chance(0.1) ? r : 1 - r}); else s.add(0, 0, t, K14_SEV, {r}); }
    else if (u < 0.64) s.add(0, 0, t, K14_CATCH, {r});
    else if (u < 0.72) s.add(0, 0, t, K14_CLEAR, {r});
    else if (u < 0.8) s.add(0, 0, t, K14_SEV, {r});
    else if (u < 0.9) s.add(0, 0, t, K14_SNAP, {r});
    else { long n = g.range(1, 3); s.add(0, 0, t, K14_BATCH, {r, (long) g.below(5), id, n}); id += n; total += (int) n - 1; }
  }
}
static long sev_of(long i) { return sevno[i]; }
struct Entry { long sev; std::string text; bool operator==(const Entry &o) const { return sev == o.sev && text == o.text; } };
static Entry entry(long s, long id, long form) {
  if (form == 2) return {sev_of(s), strf("formatted %ld @ mod.c/fun/7|(none)", id)};
  return {sev_of(s), form == 1 ? strf("reason %ld|(none)", id) : strf("reason %ld|description %ld", id, id * 7)};
}
struct Recs {
  std::vector<Entry> l[2]; std::map<int, int> part;
  uint64_t hash() const { uint64_t h = 5; for (int i = 0; i < 2; i++) { h = mix2(h, 77); for (auto &e : l[i]) { h = mix2(h, (uint64_t) e.sev); for (char c : e.text) h = h * 131 + (unsigned char) c; } } for (auto &p : part) h = mix2(h, (uint64_t) p.first * 8 + (uint64_t) p.second); return h; }
};
static std::map<int, std::vector<Entry>> delivered;      /* operation -> what its handlers were given */
static bool apply(Recs &r, const LinOp &l, const Scenario &s) {
  if (l.inv->type == 2) {           /* final delivery */
    long i = l.inv->status;
    if (l.inv->value != (r.l[i].empty() ? 0 : r.l[i].back().sev)) return false;
    return delivered[-2 - (int) i] == r.l[i];
  }
  const SimOp *o = op_by_id(s, l.inv->op);
  std::vector<Entry> &v = r.l[o->a[0]];
  auto add = [&](Entry e) { if (v.empty() || !(v.back() == e)) v.push_back(e); };
  switch (o->kind) {
    case K14_THROW: add(entry(o->a[1], o->a[2], o->a[3])); return true;
    case K14_CATCH: if (!(delivered[o->id] == v)) return false; v.clear(); return true;
    case K14_CLEAR: v.clear(); return true;
    case K14_SEV: return l.ret->value == (v.empty() ? 0 : v.back().sev);
    case K14_SNAP: return delivered[o->id] == v;
    case K14_BATCH: {
      int &p = r.part[o->id];
      if (p != (int) l.inv->value) return false;
      add(entry((o->a[1] + p) % 7, o->a[2] + p, 0)); p++; return true;
    }
  }
  return false;
}
static void oracle(const Scenario &s) {
  check_exits(true);
  if (world_failed()) return;
  delivered.clear();
  std::vector<Event> extra; extra.reserve(64);
  int fin = -1;
  std::vector<const Event *> finals;
  for (auto &e : *w_history) if (e.type == 2) {
    if (e.kind == K14_FINAL) { fin = -2 - (int) e.status; finals.push_back(&e); continue; }
    int how = e.status < 400 ? 1 : e.status < 700 ? 2 : 3;
    if (e.kind != how) { violation("wrong-handler", strf("an entry of severity %ld was delivered to the %s handler", e.status, e.kind == 1 ? "warning" : e.kind == 2 ? "error" : "fatal error")); return; }
    delivered[e.op >= 0 ? e.op : fin].push_back({e.status, e.data});
  }
  if (finals.size() < 2) return;
  std::vector<LinOp> ops = collect_ops(0, -1), all;
  for (auto &l : ops) if (!l.ret) return;
  if (s.cfg[0] == 1) {
    /* nothing is ever removed: each record ends with all of its direct reports in the order of each thread */
    for (int i = 0; i < 2; i++) {
      std::map<int, size_t> at;
      for (auto &l : ops) {
        const SimOp *o = op_by_id(s, l.inv->op);
        if (o->kind != K14_THROW || o->a[0] != i) continue;
        Entry e = entry(o->a[1], o->a[2], o->a[3]);
        auto &v = delivered[-2 - i]; size_t &p = at[l.inv->thr];
        size_t q = p; while (q < v.size() && !(v[q] == e)) q++;
        /* a repetition of the last entry is not kept again */
        if (q == v.size()) { bool dup = p > 0 && v[p - 1] == e; if (dup) continue; violation("lost", strf("\"%s\" is missing or out of order in record %d", e.text.c_str(), i)); return; }
        p = q + 1;
      }
      for (auto &e : delivered[-2 - i]) { bool known = false; for (auto &l : ops) { const SimOp *o = op_by_id(s, l.inv->op); if (o->kind == K14_THROW && entry(o->a[1], o->a[2], o->a[3]) == e) known = true; } if (!known) { violation("invented", "record holds \"" + e.text + "\" that nobody reported"); return; } }
    }
    return;
  }
  for (auto &l : ops) {
    const SimOp *o = op_by_id(s, l.inv->op);
    if (o->kind != K14_BATCH) { all.push_back(l); continue; }
    for (long i = 0; i < o->a[3]; i++) { extra.push_back(*l.inv); extra.back().value = i; all.push_back({&extra.back(), l.ret}); }
  }
  for (auto f : finals) all.push_back({f, f});
  Lin<Recs> lin; lin.apply = apply; lin.sc = &s; lin.ops = all;
  if (!lin.rec(0, Recs())) {
    std::string h;
    static const char *nm[] = {"", "report", "deliver", "clear", "severity", "copy", "batch"};
    for (auto &l : ops) { const SimOp *o = op_by_id(s, l.inv->op); h += strf(" %d:%s(%ld,%ld,%ld)", l.inv->thr, nm[o->kind], o->a[0], o->a[1], o->a[2]); if (delivered.count(o->id)) { h += "->"; for (auto &e : delivered[o->id]) h += e.text + ";"; } }
    for (int i = 0; i < 2; i++) { h += strf(" finally %d:", i); for (auto &e : delivered[-2 - i]) h += e.text + ";"; }
    violation("entries", "no order of the calls explains what was delivered:" + h);
  }
}
static PropDef pd = {14, "C14", "c14", gen, nullptr, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations and faults; non-trivial runs have at least one preemption or fault"};
static RegProp reg(&pd);
