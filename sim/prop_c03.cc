#include "gen.h"
#include "gencmd.h"

/* enciphering, damage, deciphering: a[0] file, a[1] action, a[2] place, a[3] extent, a[4] where, a[5] which file (1 properties) */
enum { D_FLIP, D_RANDOM, D_ZERO, D_CUT, D_APPEND, D_DROP, D_DOUBLE, D_SWAP, D_SWAPCHUNKS, D_DROPCHUNK, D_DOUBLECHUNK, D_KINDS };

static void gen(Scenario &s, Rng &g) {
  const int nodes = (int) g.range(1, 2);
  s.cfg = {(long) g.below(4)};
  gen_strategy(s, g, 0.35);
  FaultCfg &f = s.fc;
  FaultGen fg(s, g);
  if (g.chance(0.3)) { fg.splits(); f.budget = (long) g.logrange(3, 100); }
  if (g.chance(0.25)) { fg.errors(); f.budget = (long) g.range(1, 4); }
  const bool torn = g.chance(0.15), killdec = g.chance(0.15);
  if (torn || killdec) { f.p_kill = g.pick(std::vector<double>{0.002, 0.006, 0.02}); f.kill_budget = (int) g.range(1, 2); }
  for (int n = 0; n < nodes; n++) {
    long x, c = gen_chunk(g);
    do x = gen_cipher(g, true); while (CMD_F(x, 100, 100) == CMD_NHASH - 1);
    if (g.chance(0.5)) c = 16 * (long) g.range(1, 8);
    long len = gen_length(g, c);
    if (g.chance(0.6)) len = std::max(len, c * (long) g.range(1, 5) + (g.chance(0.5) ? 0 : (long) g.range(0, 40)));
    if (len > 3000) len = 3000;
    const long fl = g.chance(0.15) ? CF_PROPS : 0, ph = (long) g.below(4);
    s.cfg.push_back(len);
    s.add(0, n, 0, KC_ENC, {n, 10 + n, x, c, ph, fl, gen_style(g)});
    const int damages = g.chance(0.75) ? 1 : (int) g.range(0, 3);
    for (int d = 0; d < damages; d++) {
      double u = g.unit();
      s.add(1, 0, 0, KC_ENV, {n, u < 0.35 ? D_FLIP : u < 0.95 ? (long) g.below(D_SWAPCHUNKS) : (long) g.range(D_SWAPCHUNKS, D_KINDS - 1), (long) g.below(1 << 30), g.chance(0.6) ? (long) g.range(1, 4) : (long) g.logrange(1, 500), (long) g.below(10), fl && g.chance(0.3)});
    }
    long ph2 = ph;
    if (g.chance(0.1)) ph2 = (ph + 1 + (long) g.below(3)) % 4;
    s.add(2, n, 0, KC_DEC, {10 + n, 20 + n, x, c, ph2, fl, n});
  }
  while (s.nphases() < 3) s.phases.push_back(PhaseCfg());
  s.phases[0].kills = torn;
  s.phases[0].faults = g.chance(0.5);
  s.phases[1].env = true;
  s.phases[2].kills = killdec;
  s.cap = 200000000;
}
static void init(const Scenario &s) {
  cmd_phrases(s);
  for (auto &o : s.ops) if (o.kind == KC_ENC) fs_put(cmd_path(o.a[0]), cmd_content(s, o.a[0], s.cfg[1 + o.a[0]], o.a[6]));
}
static std::map<std::string, std::string> *before;    /* enciphered files before the damage */


static size_t block_of(const SimOp &e) { static const size_t bsize[] = {16, 64, 32, 16}; return bsize[CMD_F(e.a[2], 1, 10)]; }
/* ends of the chunks in the enciphered file; the last one includes padding blocks */
static std::vector<size_t> layout(const Scenario &s, const SimOp &e, const std::string &d, std::vector<size_t> *plain = nullptr) {
  static const long hsize[] = {32, 8, 16, 20, 32, 28, 48, 64, 36, 28, 32, 48, 64};
  const size_t c = e.a[3] ? (size_t) e.a[3] : 262144, h = (size_t) hsize[CMD_F(e.a[2], 100, 100)], ent = CMD_F(e.a[2], 10000, 10) ? 1 : 0;
  const size_t b = block_of(e), len = (size_t) s.cfg[1 + e.a[0]];
  const bool cfb = CMD_F(e.a[2], 10, 10) == 1;
  size_t at = 0;
  if (!(e.a[5] & CF_PROPS)) { at = d.find("<?cipherpacket?>\f\n"); at = at == std::string::npos ? d.size() : at + 18; }
  std::vector<size_t> v = {at};
  if (plain) *plain = {0};
  for (size_t p = 0; p < len; ) {
    size_t n = std::min(c, len - p);
    p += n;
    at += h + ent + (cfb ? n : (n + b - 1) / b * b);
    v.push_back(at);
    if (plain) plain->push_back(p);
  }
  return v;
}
static void env(const Scenario &s, const SimOp &o) {
  const SimOp *e = enc_of(s, o.a[0]);
  if (!e) return;
  Inode *i = fs_find(o.a[5] ? strf(CMD_FILE ".prop", e->a[1], "") : cmd_path(e->a[1]));
  if (!i) return;
  std::string &d = i->data;
  const std::string old = d;
  auto v = layout(s, *e, d);
  size_t n = d.size(), at = n ? (size_t) o.a[2] % n : 0, ext = (size_t) o.a[3];
  if (o.a[4] < 7 && !o.a[5] && v[0] < n) at = v[0] + (size_t) o.a[2] % (n - v[0]);      /* in the chunks */
  if (o.a[4] == 0 && v.size() > 1 && v[v.size() - 1] <= n) at = v[o.a[2] % v.size()] == n ? at : v[o.a[2] % v.size()];   /* at a boundary */
  if (o.a[4] == 1 && n) at = n - 1 - (size_t) o.a[2] % std::min(n, (size_t) 70);        /* near the end */
  ext = std::min(ext, n - std::min(n, at));
  const std::string r = data_for(s.seed, 9000 + (unsigned long) o.id, (long) o.a[3]);
  const size_t k = v.size() - 1;
  switch (o.a[1]) {
    case D_FLIP: if (n) d[at] = (char) (d[at] ^ 1 << o.a[3] % 8); break;
    case D_RANDOM: for (size_t x = 0; x < ext; x++) d[at + x] = r[x]; break;
    case D_ZERO: for (size_t x = 0; x < ext; x++) d[at + x] = 0; break;
    case D_CUT: d.resize(at); break;
    case D_APPEND: d += r; break;
    case D_DROP: d.erase(at, ext); break;
    case D_DOUBLE: d.insert(at, d.substr(at, ext)); break;
    case D_SWAP: if (n > 2 * ext + 1) { size_t b = (at + ext + (size_t) o.a[2] / 7) % (n - ext); for (size_t x = 0; x < ext; x++) std::swap(d[at + x], d[b + x]); } break;
    default:                                            /* whole chunks */
      if (o.a[5] || k < 2 || v[k] > n) break;
      size_t a = (size_t) o.a[2] % (k - 1);             /* never the last chunk: it may have no padding */
      std::string first = d.substr(v[a], v[a + 1] - v[a]);
      if (o.a[1] == D_DROPCHUNK) d.erase(v[a], first.size());
      if (o.a[1] == D_DOUBLECHUNK) d.insert(v[a], first);
      if (o.a[1] == D_SWAPCHUNKS && a + 2 <= k - 1) { d.erase(v[a], first.size()); d.insert(v[a] + v[a + 2] - v[a + 1], first); }
  }
  /* exactly one block behind a chunk passes for padding in one of 256 cases: the format holds nothing to tell it */
  if (o.a[5] || d == old) return;
  for (size_t x : v) if (d.size() == x + block_of(*e)) { d += '.'; return; }
}
/* the output consists of whole chunks of the original, rearranged; the last one may be cut off by a failure to write */
static bool rearranged(const SimOp &e, const std::string &out, const std::string &want) {
  const size_t c = e.a[3] ? (size_t) e.a[3] : 262144;
  std::vector<bool> at(out.size() + 1, false);
  at[0] = true;
  for (size_t i = 0; i < out.size(); i++) if (at[i])
    for (size_t p = 0; p < want.size(); p += c) { size_t n = std::min(std::min(c, want.size() - p), out.size() - i); if (out.compare(i, n, want, p, n) == 0) at[i + n] = true; }
  return at[out.size()];
}
/* the enciphered file consists of its whole chunks, rearranged */
static bool rearranged_file(const std::string &now, const std::string &was, const std::vector<size_t> &v) {
  if (now.size() < v[0] || now.compare(0, v[0], was, 0, v[0]) != 0) return false;
  std::vector<bool> at(now.size() + 1, false);
  at[v[0]] = true;
  for (size_t i = v[0]; i < now.size(); i++) if (at[i])
    for (size_t k = 0; k < v.size(); k++) {
      const size_t b = v[k], e = k + 1 < v.size() ? v[k + 1] : was.size();
      if (b < e && e <= was.size() && now.compare(i, e - b, was, b, e - b) == 0) at[i + e - b] = true;
      if (k + 2 == v.size() && b < was.size() && now.compare(i, was.size() - b, was, b, was.size() - b) == 0) at[i + was.size() - b] = true;
    }
  return at[now.size()];
}
static void phase_end(const Scenario &s, int phase) {
  if (phase == 0) {
    static std::map<std::string, std::string> m;
    m.clear();
    before = &m;
    for (auto &o : s.ops) if (o.kind == KC_ENC) for (auto &p : {cmd_path(o.a[1]), strf(CMD_FILE ".prop", o.a[1], "")}) { Inode *i = fs_find(p); if (i) m[p] = i->data; }
  }
}
static void oracle(const Scenario &s) {
  auto ops = collect_ops(-1, -1);
  for (auto &o : s.ops) {
    if (o.kind != KC_DEC) continue;
    const SimOp *e = enc_of(s, o.a[6]);
    if (!e) continue;
    const LinOp *l = find_op(ops, o.id), *le = find_op(ops, e->id);
    Inode *i = fs_find(cmd_path(o.a[1])), *ci = fs_find(cmd_path(e->a[1]));
    const std::string out = i ? i->data : "", want = cmd_content(s, o.a[6], s.cfg[1 + o.a[6]], e->a[6]);
    const std::string was = (*before)[cmd_path(e->a[1])], now = ci ? ci->data : "";
    bool killed = false;
    for (auto &x : *w_exits) if (x.killed && l && x.node == l->inv->node && x.phase == l->inv->phase) killed = true;
    if (l && !l->ret && !killed) { violation("no-result", strf("%s did not finish: %s", cmd_name(o).c_str(), cmd_error(*l).c_str())); return; }
    if (!le || !le->ret || le->ret->status != 0) probe("torn ciphertext");
    const bool ok = l && l->ret && l->ret->status == 0;
    int damages = 0, moves = 0;
    for (auto &x : s.ops) if (x.kind == KC_ENV && x.a[0] == e->a[0]) { damages++; if (x.a[1] >= D_DROP) moves++; }
    const bool moved = was != now && moves && rearranged(*e, out, want);
    if (out.size() > want.size() || want.compare(0, out.size(), out) != 0) {
      violation(moved ? "chunks-moved" : "altered", strf("%lu bytes of the output are not the beginning of the %lu original bytes (status %s) after %s", (unsigned long) out.size(), (unsigned long) want.size(), ok ? "success" : "failure", cmd_name(*e).c_str()));
      return;
    }
    if (o.a[4] != e->a[4]) {
      if (ok) { violation("wrong-passphrase", strf("deciphering with another passphrase succeeds after %s", cmd_name(*e).c_str())); return; }
      if (l && l->ret) probe("wrong passphrase refused");
      continue;
    }
    if (ok && out != want) {
      std::vector<size_t> plain, v = layout(s, *e, was, &plain);
      bool cut = false;
      for (size_t k = 0; k < v.size(); k++) if (now.size() == v[k] && was.compare(0, now.size(), now) == 0 && out.size() == plain[k]) cut = true;
      /* a torn file may end exactly one block behind a chunk, see env() */
      if (!le || !le->ret || le->ret->status != 0) for (size_t k = 0; k < v.size(); k++) if (now.size() == v[k] + block_of(*e) && out.size() == plain[k]) cut = true;
      const long faults = l->ret->faults;
      /* one of several changes may have hit bytes that do not matter */
      if (damages > 1) for (size_t k = 0; k < v.size(); k++) if (now.size() == v[k] && out.size() == plain[k]) cut = true;
      if (!cut && faults == 0) { violation((damages > 1 ? moved : rearranged_file(now, was, v)) ? "chunks-moved" : "unreported", strf("success although %lu of %lu bytes were recovered after %s", (unsigned long) out.size(), (unsigned long) want.size(), cmd_name(*e).c_str())); return; }
      probe("cut between chunks");
    }
    if (l && l->ret && !ok && was != now) probe("damage reported");
    if (ok && out == want) probe(was != now ? "harmless damage" : "undamaged");
  }
}
static PropDef pd = {3, "C03", "c03", gen, init, env, phase_end, oracle,
  "a run is counted as distinct by the hash of its schedule deviations, faults and kill points; non-trivial runs have at least one preemption, fault or kill"};
static RegProp reg(&pd);
