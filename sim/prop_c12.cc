#include "gen.h"
#include "res.h"

static const char *rname[] = {"memory", "address space", "disk", "files"};

static void gen(Scenario &s, Rng &g) {
  int mode = (int) g.below(3);
  s.cfg.assign(16, 0);
  s.cfg[7] = mode;
  if (mode == 0) {
    /* grants and releases by several threads: linearizable counters */
    int thr = (int) g.range(2, 4), total = 0;
    gen_strategy(s, g, 0);
    int one = g.chance(0.6) ? (int) g.below(R_TYPES) : -1;
    for (int t = 0; t < R_TYPES; t++) s.cfg[t] = g.chance(0.2) ? -1 : g.pick(std::vector<long>{0, 1, 5, 10, 20, 100, 1L << 40, 1L << 62});
    for (int t = 0; t < thr; t++) for (int k = 0, m = (int) g.range(1, 6); k < m && total < 16; k++, total++) {
      long ty = one >= 0 ? one : (long) g.below(R_TYPES);
      double u = g.unit();
      if (u < 0.45) {
        long z = g.chance(0.8) ? g.range(0, 12) : g.pick(std::vector<long>{0, 100, 1L << 40, (1L << 62) - 3, 1L << 62, (long) (~0UL >> 1), (long) (1UL << 63), -1, -5});
        s.add(0, 0, t, R_ACQ, {ty, z});
      }
      else if (u < 0.7) s.add(0, 0, t, R_REL, {(long) g.below(8)});
      else if (u < 0.88) s.add(0, 0, t, R_GET, {ty});
      else if (u < 0.95) s.add(0, 0, t, R_LIM, {ty, g.chance(0.15) ? -1 : g.pick(std::vector<long>{0, 1, 5, 10, 20, 100, 1L << 40})});
      else s.add(0, 0, t, R_GETLIM, {ty});
    }
    return;
  }
  /* virtual memory and temporary files: mode 1 one thread with faults, mode 2 several threads */
  for (int t = 0; t < R_TYPES; t++) s.cfg[t] = g.chance(0.3) ? -1 : t == 3 ? g.pick(std::vector<long>{0, 1, 2, 3, 8}) : g.pick(std::vector<long>{0, 1, 1000, 5000, 20000, 100000});
  int thr = mode == 1 ? 1 : (int) g.range(2, 4);
  if (mode == 2) gen_strategy(s, g);
  if (g.chance(mode == 1 ? 0.9 : 0.6)) {
    FaultGen f(s, g);
    f.q = g.pick(std::vector<double>{0.02, 0.06, 0.2});
    f.add(S_OPEN, F_EMFILE); f.add(S_OPEN, F_EACCES); f.add(S_OPEN, F_ENOSPC); f.add(S_OPEN, F_EXIST); f.add(S_WRITE, F_ENOSPC); f.add(S_WRITE, F_EIO); f.add(S_WRITE, F_EINTR);
    f.add(S_SEEK, F_EIO); f.add(S_UNLINK, F_EIO); f.add(S_MMAP, F_ENOMEM, 3); f.add(S_CLOSE, F_CLOSEFAIL); f.add(S_STAT, F_EIO);
    if (mode == 1) f.add(S_MALLOC, F_ENOMEM, 1);
    s.fc.budget = g.range(1, 6);
  }
  for (int t = 0; t < thr; t++) for (int k = 0, m = (int) g.range(2, mode == 1 ? 16 : 7); k < m; k++) {
    long sl = (long) g.below(R_SLOTS);
    double u = g.unit();
    if (u < 0.4) s.add(0, 0, t, R_VACQ, {sl, g.logrange(1, 9000), g.pick(std::vector<long>{1, 1, 2, 8})});
    else if (u < 0.65) s.add(0, 0, t, R_VREL, {sl});
    else if (u < 0.8) s.add(0, 0, t, R_TACQ, {sl, (long) g.below(3), (long) g.below(2)});
    else if (u < 0.92) s.add(0, 0, t, R_TREL, {sl, g.chance(0.8)});
    else s.add(0, 0, t, R_GET, {(long) g.below(R_TYPES)});
  }
}
static void init(const Scenario &) { fs_mkdirs("/w/d"); }

struct Acc {
  unsigned __int128 used[R_TYPES] = {}; uint64_t lim[R_TYPES] = {};
  uint64_t hash() const { uint64_t h = 1; for (int i = 0; i < R_TYPES; i++) h = mix2(h, (uint64_t) used[i] ^ mix64(lim[i])); return h; }
};
static bool apply(Acc &a, const LinOp &l, const Scenario &s) {
  const SimOp *o = op_by_id(s, l.inv->op);
  long t = o->a[0];
  switch (o->kind) {
    case R_ACQ: {
      uint64_t z = (uint64_t) o->a[1];
      unsigned __int128 n = a.used[t] + z;
      if (l.ret->status) { if (a.lim[t] != R_INF && n > a.lim[t]) return false; a.used[t] = n; return true; }
      /* refused: there was a limit and the request would reach it (or what is in use cannot be counted) */
      return n >> 63 || (a.lim[t] != R_INF && n >= a.lim[t]);
    }
    case R_REL: {
      if (l.ret->data.size() != 2 * sizeof(long)) return false;
      long v[2]; memcpy(v, l.ret->data.data(), sizeof v);
      if (a.used[v[0]] < (uint64_t) v[1]) return false;
      a.used[v[0]] -= (uint64_t) v[1]; return true;
    }
    case R_GET: return (uint64_t) l.ret->value == (uint64_t) a.used[t];
    case R_LIM: a.lim[t] = (uint64_t) o->a[1]; return true;
    case R_GETLIM: return (uint64_t) l.ret->value == a.lim[t];
  }
  return false;
}
static void oracle(const Scenario &s) {
  check_exits(true);
  if (world_failed()) return;
  std::vector<LinOp> ops = collect_ops(0, -1);
  if (s.cfg[7] == 0) {
    for (auto &l : ops) if (!l.ret) return;
    Lin<Acc> lin; lin.apply = apply; lin.sc = &s; lin.ops = ops;
    Acc a; for (int i = 0; i < R_TYPES; i++) a.lim[i] = (uint64_t) s.cfg[i];
    if (!lin.rec(0, a)) {
      std::string h;
      for (auto &l : ops) { const SimOp *o = op_by_id(s, l.inv->op);
        h += strf(" %d:%s(%s,%lu)=%ld/%lu", l.inv->thr, o->kind == R_ACQ ? "acquire" : o->kind == R_REL ? "release" : o->kind == R_GET ? "get" : o->kind == R_LIM ? "limit" : "getlimit", o->kind == R_REL ? "" : rname[o->a[0]], (unsigned long) o->a[1], l.ret->status, (unsigned long) l.ret->value); }
      violation("accounting", "no order of the calls explains their results:" + h);
    }
    return;
  }
  for (auto &l : ops) {
    if (!l.ret) continue;
    const SimOp *o = op_by_id(s, l.inv->op);
    if (o->kind == R_GET) {
      uint64_t v = (uint64_t) l.ret->value, lim = (uint64_t) s.cfg[o->a[0]];
      if (v >> 63) { violation("negative", strf("%s in use is reported as %ld", rname[o->a[0]], (long) v)); return; }
      if (lim != R_INF && v > lim) { violation("above-limit", strf("%lu units of %s in use, limit %lu", v, rname[o->a[0]], lim)); return; }
    }
    if (s.cfg[7] != 1 || l.ret->data.size() != 8 * sizeof(long)) continue;
    /* one thread: what changed is what this call took or gave back */
    long u[8], d[4]; memcpy(u, l.ret->data.data(), sizeof u);
    for (int i = 0; i < 4; i++) {
      d[i] = u[4 + i] - u[i];
      if (s.cfg[i] != -1 && u[4 + i] > s.cfg[i]) { violation("above-limit", strf("%ld units of %s in use, limit %ld", u[4 + i], rname[i], s.cfg[i])); return; }
    }
    long n = 0; bool ok = false; std::string what;
    auto is = [&](long a, long b, long c, long e) { return d[0] == a && d[1] == b && d[2] == c && d[3] == e; };
    if (o->kind == R_VACQ) {
      n = o->a[1] * o->a[2];
      ok = is(0, 0, 0, 0) || (l.ret->status && (is(n, 0, 0, 0) || is(0, n, 0, 0) || is(0, n, n, 1)));
      if (ok && is(0, n, n, 1)) probe("disk-backed memory");
      if (ok && is(0, n, 0, 0)) probe("anonymous mapping");
      if (ok && is(n, 0, 0, 0)) probe("aligned heap memory");
      if (ok && l.ret->status && is(0, 0, 0, 0)) probe("plain heap memory");
      what = strf("acquiring %ld bytes of virtual memory (%s)", n, l.ret->status ? "granted" : "refused");
    } else if (o->kind == R_VREL) {
      /* must take back what the acquisition of this slot took */
      for (auto &m : ops) if (m.ret && m.inv->seq < l.inv->seq && m.ret->value == l.ret->value && m.inv->kind == R_VACQ && m.ret->status) {
        long w[8]; memcpy(w, m.ret->data.data(), sizeof w);
        ok = true; for (int i = 0; i < 4; i++) if (w[4 + i] - w[i] != -d[i]) ok = false;
      }
      what = "giving back virtual memory";
    } else if (o->kind == R_TACQ) { ok = l.ret->status ? is(0, 0, 0, 1) : is(0, 0, 0, 0); what = strf("acquiring a temporary file (%s)", l.ret->status ? "granted" : "refused"); }
    else if (o->kind == R_TREL) { ok = is(0, 0, 0, -1); what = "giving back a temporary file"; }
    else continue;
    if (!ok) { violation("accounting", strf("%s changed what is in use by memory %ld, address space %ld, disk %ld, files %ld", what.c_str(), d[0], d[1], d[2], d[3])); return; }
  }
}
static PropDef pd = {12, "C12", "c12", gen, init, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations and faults; non-trivial runs have at least one preemption or fault"};
static RegProp reg(&pd);
