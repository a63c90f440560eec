#include "gen.h"
#include "gencmd.h"

enum { NFILES = 8 };
static const long names[NFILES] = {0, 1, 2, 3, 4, 5, CMD_ODD1, CMD_ODD2};

static long gen_len(Rng &g) {
  double u = g.unit();
  if (u < 0.05) return 0;
  if (u < 0.5) {                                      /* around the block boundaries */
    static const long b[] = {56, 64, 112, 128, 136, 104, 72, 144};
    return std::max(0L, b[g.below(8)] * (long) g.range(1, 4) + (long) g.range(-10, 10));
  }
  if (u < 0.7) return (long) g.range(0, 600);
  if (u < 0.8) return 8192 * (long) g.range(1, 2) + (long) g.range(-2, 2);
  if (u < 0.85) return (long) g.range(8000, 20000);
  return (long) g.logrange(1, 4000);
}
/* one message longer than 2^32 bits */
static void gen_long(Scenario &s, Rng &g, long hash) {
  s.cfg.assign(16, 0);
  s.cfg[0] = 65536 + (long) g.range(0, 64);
  s.add(0, 0, 0, KC_HASH, {0, 0, hash, 0, 0, (1L << 29) / s.cfg[0] + (long) g.range(0, 2)});
  s.cap = 4000000000000L;
}
static void gen(Scenario &s, Rng &g) {
  static const long counted[] = {2, 3, 5, 0};          /* those that count the bits in two words */
  if (s.index % 200 == 97 && s.index < 800) { gen_long(s, g, counted[s.index / 200]); return; }
  const int nodes = (int) g.range(1, 3), nf = (int) g.range(1, NFILES);
  s.cfg.assign(16, 0);
  for (int k = 0; k < NFILES; k++) s.cfg[k] = gen_len(g);
  s.cfg[14] = g.chance(0.15) ? 6 + (long) g.below(4) : gen_style(g);
  gen_strategy(s, g, 0.35);
  FaultGen fg(s, g);
  if (g.chance(0.6)) { fg.splits(); s.fc.budget = (long) g.logrange(5, 400); }
  const bool odd = g.chance(0.25);
  for (int n = 0; n < nodes; n++) {
    if (g.chance(0.35)) {                              /* the library, message in pieces */
      long k = names[g.below(odd ? NFILES : 6)];
      s.add(0, n, 0, KC_HASH, {k, 0, (long) g.below(CMD_NHASH - 1), g.chance(0.5) ? (g.chance(0.5) ? 0 : -(long) g.range(1, 9000)) : g.chance(0.5) ? (long) g.range(1, 140) : (long) g.pick(std::vector<long>{1, 3, 55, 56, 63, 64, 65, 127, 128, 129, 8192}), g.chance(0.4) ? (long) g.range(1, 3) : 0});
      continue;
    }
    long set = 0;
    for (int k = 0; k < nf; k++) { long x = names[g.below(odd ? NFILES : 6)]; set |= 1L << x; }
    const int gz = g.chance(0.1) ? 1 + (int) g.below(2) : 0;
    s.add(0, n, 0, KC_DIGEST, {set, 10 + n, (long) g.below(CMD_NHASH - 1), 0, 0, gz == 1 ? CF_GZOUT : gz == 2 ? CF_BZOUT : 0});
  }
  bool restore = g.chance(0.3);
  const int rounds = restore ? 2 : 1;
  for (int r = 0; r < rounds; r++) {
    int changes = r == 1 ? NFILES : (int) g.below(4);
    for (int c = 0; c < changes; c++) {
      long f = r == 1 ? c : (long) g.below(nf < 6 ? 6 : NFILES);
      s.add(1 + 2 * r, 0, 0, KC_ENV, {names[f], r == 1 ? 9 : g.chance(0.03) ? 8 : (long) g.below(7), g.chance(0.2) ? 0 : g.chance(0.3) ? -1 : (long) g.below(1 << 20), (long) g.below(1 << 16)});
    }
    for (int n = 0; n < nodes; n++) {
      const SimOp *d = nullptr;
      for (auto &o : s.ops) if (o.kind == KC_DIGEST && o.node == n) d = &o;
      if (!d) continue;
      if (!(d->a[5] & (CF_GZOUT | CF_BZOUT)) && g.chance(0.15)) {   /* the record itself is changed */
        long k;
        do k = names[g.below(NFILES)]; while (!(d->a[0] >> k & 1));
        s.add(1 + 2 * r, 0, 0, KC_ENV, {10 + n, 7, k, g.chance(0.3) ? -1 : (long) g.below(1 << 16), 1 + (long) g.below(15)});
        for (auto &o : s.ops) if (o.kind == KC_DIGEST && o.node == n) d = &o;
      }
      const long fl = d->a[5] & CF_GZOUT ? CF_GZIN : d->a[5] & CF_BZOUT ? CF_BZIN : 0;
      s.add(2 + 2 * r, (n + 1) % nodes, 0, KC_AUTH, {10 + n, 20 + n + 10 * r, 0, 0, 0, fl, n});
    }
  }
  while (s.nphases() < 1 + 2 * rounds) s.phases.push_back(PhaseCfg());
  for (int r = 0; r < rounds; r++) s.phases[1 + 2 * r].env = true;
  s.cap = 200000000;
}
static int index_of(long file) { for (int k = 0; k < NFILES; k++) if (names[k] == file) return k; return -1; }
static std::string original(const Scenario &s, long file) { return cmd_content(s, file, s.cfg[index_of(file)], s.cfg[14] >= 6 ? 2 + (s.cfg[14] + file) % 4 : (s.cfg[14] + file) % 4); }
static void init(const Scenario &s) { for (int k = 0; k < NFILES; k++) fs_put(cmd_path(names[k]), original(s, names[k])); }
static std::string changed(const Scenario &s, std::string d, const SimOp &o) {
  const long n = (long) d.size(), at = n == 0 ? 0 : o.a[2] < 0 ? n - 1 : o.a[2] % n;
  switch (o.a[1]) {
    case 0: if (n) d[at] = (char) (d[at] ^ 1 << o.a[3] % 8); break;
    case 1: d += data_for(s.seed, 9000 + (unsigned long) o.id, 1 + o.a[3] % 70); break;
    case 2: d.resize(at); break;
    case 3: d = data_for(s.seed, 9100 + (unsigned long) o.id, n); break;
    case 4: for (long i = at; i < n && i < at + 1 + o.a[3] % 90; i++) d[i] = 0; break;
    case 5: break;                                     /* written again with the same bytes */
    case 6: if (n > 1) std::swap(d[at], d[o.a[3] % n]); break;
  }
  return d;
}
/* one hexadecimal digit of a digest becomes another one */
static std::string altered(std::string d, const SimOp &o) {
  static const char hex[] = "0123456789abcdef";
  char &c = d[o.a[3] < 0 ? d.size() - 1 : (size_t) o.a[3] % d.size()];
  c = hex[((c <= '9' ? c - '0' : (c | 32) - 'a' + 10) + o.a[4]) % 16];
  return d;
}
static const SimOp *list_of(const Scenario &s, long list) { for (auto &x : s.ops) if (x.kind == KC_DIGEST && x.a[1] == list) return &x; return nullptr; }
static void env_list(const Scenario &s, const SimOp &o) {
  const SimOp *d = list_of(s, o.a[0]);
  Inode *l = fs_find(cmd_path(o.a[0]));
  if (!d || !l) return;
  size_t at = 0;
  std::string v;
  for (long k = 0; k <= o.a[2]; k++) if (d->a[0] >> k & 1 && !between(l->data, at, "rdf:about=\"", "\">", v)) return;
  if (!between(l->data, at, "<digest:extent>", "<", v)) return;
  at += strlen("</digest:extent>");
  if (!between(l->data, at, "<digest:", "<", v)) return;
  const size_t q = v.find('>') + 1, from = l->data.find(v, at - v.size() - 1);
  if (from == std::string::npos || q == v.size()) return;
  l->data.replace(from, v.size(), v.substr(0, q) + altered(v.substr(q), o));
}
static std::string recorded(const Scenario &s, const SimOp &d, long file, int phase) {
  std::string r = ref(d.a[2], original(s, file));
  for (auto &o : s.ops) if (o.kind == KC_ENV && o.a[1] == 7 && o.a[0] == d.a[1] && o.a[2] == file && o.phase < phase) r = altered(r, o);
  return r;
}
static void env(const Scenario &s, const SimOp &o) {
  if (o.a[1] == 7) { env_list(s, o); return; }
  const std::string p = cmd_path(o.a[0]);
  if (o.a[1] == 8) { fs_remove(p); return; }
  if (o.a[1] == 9) { fs_remove(p); fs_put(p, original(s, o.a[0])); return; }
  Inode *i = fs_find(p);
  if (!i) return;
  i->data = changed(s, i->data, o);
  i->mtime += 5;
}
/* content of a file in a round of verification; false: removed */
static bool content_at(const Scenario &s, long file, int phase, std::string &d) {
  d = original(s, file);
  bool there = true;
  for (auto &o : s.ops) if (o.kind == KC_ENV && o.a[0] == file && o.phase < phase) {
    if (o.a[1] == 8) { there = false; continue; }
    if (o.a[1] == 9) { there = true; d = original(s, file); continue; }
    if (there) d = changed(s, d, o);
  }
  return there;
}
static void check_list(const Scenario &s, const SimOp &o) {
  std::string cls, msg;
  if (!digest_list_ok(o, [&](long k) { return original(s, k); }, cls, msg)) { violation(cls.c_str(), msg); return; }
  probe("digest list");
}
static void oracle(const Scenario &s) {
  auto ops = collect_ops(-1, -1);
  for (auto &o : s.ops) {
    if (o.kind == KC_ENV) continue;
    const LinOp *l = find_op(ops, o.id);
    if (!l || !l->ret) { violation("no-result", strf("%s did not finish", cmd_name(o).c_str())); return; }
    if (o.kind == KC_HASH) {
      const std::string m = original(s, o.a[0]);
      std::string all;
      for (long r = 0; r < o.a[5]; r++) all += m;
      const std::string want = ref(o.a[2], o.a[5] ? all : m);
      if (l->ret->data != want) { violation("wrong-digest", strf("%s of %ld bytes in pieces: %s instead of %s", cmd_name(o).c_str(), s.cfg[index_of(o.a[0])], l->ret->data.c_str(), want.c_str())); return; }
      probe(o.a[5] ? "message of 2^32 bits" : "message in pieces");
    }
    if (o.kind == KC_DIGEST) {
      if (l->ret->status != 0) { violation("refused", strf("%s: %s failed", cmd_error(*l).c_str(), cmd_name(o).c_str())); return; }
      bool touched = o.a[5] & (CF_GZOUT | CF_BZOUT);
      for (auto &x : s.ops) if (x.kind == KC_ENV && x.a[1] == 7 && x.a[0] == o.a[1]) touched = true;
      if (!touched) check_list(s, o);
      if (world_failed()) return;
    }
    if (o.kind == KC_AUTH) {
      const SimOp *d = list_of(s, o.a[0]);
      if (!d) continue;
      Inode *r = fs_find(cmd_path(o.a[1]));
      const std::string rep = r ? r->data : "";
      size_t at = 0;
      bool gone = false;
      for (long k = 0; k < 60; k++) if (d->a[0] >> k & 1) {
        std::string now, v, was = original(s, k);
        if (!content_at(s, k, o.phase, now)) { gone = true; continue; }
        const std::string rec = recorded(s, *d, k, o.phase);
        if (ref(d->a[2], now) == rec) continue;        /* CRC64 does not see leading zeros */
        size_t b = at;
        if (!between(rep, b, "Path: ", "\n", v) || v != cmd_path(k)) { violation("missed-change", strf("the change of %s (%lu to %lu bytes) was not reported by %s", cmd_path(k).c_str(), (unsigned long) was.size(), (unsigned long) now.size(), cmd_name(*d).c_str())); return; }
        size_t e = rep.find("Path: ", b);
        const std::string part = rep.substr(b, e == std::string::npos ? e : e - b);
        if (part.find(rec) == std::string::npos || part.find(ref(d->a[2], now)) == std::string::npos) { violation("wrong-digest", strf("the report about %s does not name the digests", cmd_path(k).c_str())); return; }
        at = b;
        probe("change reported");
      }
      if (rep.find("Path: ", at) != std::string::npos) { violation("false-alarm", strf("an unchanged file was reported: %s", rep.substr(rep.find("Path: ", at), 60).c_str())); return; }
      if (gone && l->ret->status == 0) { violation("missed-change", "a removed file was not reported"); return; }
      if (!gone && l->ret->status != 0) { violation("refused", strf("%s: %s failed", cmd_error(*l).c_str(), cmd_name(o).c_str())); return; }
      if (gone) probe("removed file reported");
    }
  }
}
static PropDef pd = {4, "C04", "c04", gen, init, env, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations and faults; non-trivial runs have at least one preemption or fault"};
static RegProp reg(&pd);
