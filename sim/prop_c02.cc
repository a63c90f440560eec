#include "gen.h"
#include "gencmd.h"

/* phases: 0 preparation, 1 changes, 2 the commands under faults, 3 exported keyrings are put in place, 4 verification */
enum { T_ENC, T_DEC, T_DIGEST, T_AUTH, T_LIST, T_EXPORT, T_INFO, T_KINDS };
static void gen(Scenario &s, Rng &g) {
  const int nodes = (int) g.range(1, 2);
  s.cfg = {0};
  gen_strategy(s, g, 0.35);
  FaultGen fg(s, g);
  fg.errors();
  if (g.chance(0.3)) fg.memory();
  if (g.chance(0.3)) fg.splits();
  s.fc.budget = g.chance(0.5) ? 1 : (long) g.logrange(1, 12);
  if (g.chance(0.4)) s.fc.only_path = g.chance(0.7) ? "/w/" : ".wizard";
  int exported = 0;
  for (int n = 0; n < nodes; n++) {
    double u = g.unit();
    long t = u < 0.3 ? T_ENC : u < 0.5 ? T_DEC : (long) g.range(T_DIGEST, T_INFO);
    if (t == T_EXPORT && exported) t = T_ENC;
    if (t == T_EXPORT) exported = n + 1;
    const long x = gen_cipher(g), c = gen_chunk(g), ph = (long) g.below(4), gz = g.chance(0.2) ? 1 + (long) g.below(2) : 0;
    long len = gen_length(g, c), fl = g.chance(0.15) ? CF_PROPS : 0;
    if (g.chance(0.15) && (c == 0 || c > 200)) len = (long) g.range(8193, 20000);                     /* mapped while reading */
    if ((t == T_ENC || t == T_DEC) && g.chance(0.2)) fl |= CF_RING;
    const long fo = fl | (gz == 1 ? CF_GZOUT : gz == 2 ? CF_BZOUT : 0), fi = fl | (gz == 1 ? CF_GZIN : gz == 2 ? CF_BZIN : 0), style = gen_style(g);
    s.cfg.push_back(len);
    switch (t) {
      case T_ENC:
        s.add(2, n, 0, KC_ENC, {n, 10 + n, x, c, ph, fo | gen_typed(g, ph, 0.15), style});
        s.add(4, n, 0, KC_DEC, {10 + n, 20 + n, x, c, ph, fi, n});
        break;
      case T_DEC:
        s.add(0, n, 0, KC_ENC, {n, 10 + n, x, c, ph, fo, style});
        s.add(2, n, 0, KC_DEC, {10 + n, 20 + n, x, c, ph, fi | gen_typed(g, ph, 0.15), n});
        break;
      case T_DIGEST: case T_AUTH: {
        long set = 0;
        for (long k = (long) g.range(1, 4); k > 0; k--) set |= 1L << g.range(2, 9);
        s.add(t == T_AUTH ? 0 : 2, n, 0, KC_DIGEST, {set, 10 + n, (long) g.below(CMD_NHASH - 1), 0, 0, t == T_AUTH ? fo & ~CF_PROPS : 0});
        if (t == T_AUTH) {
          for (long k = (long) g.below(4); k > 0; k--) s.add(1, 0, 0, KC_ENV, {(long) g.range(2, 9)});
          s.add(2, n, 0, KC_AUTH, {10 + n, 20 + n, 0, 0, 0, fi & ~CF_PROPS, n});
        }
        break;
      }
      case T_LIST:
        s.add(0, n, 0, KC_ENC, {n, 10 + n, x, c, ph, 0, style});
        s.add(2, n, 0, KC_LIST, {0, 20 + n, 0, 0, 0, 0, n});
        break;
      case T_EXPORT:
        s.add(0, n, 0, KC_ENC, {n, 10 + n, x, c, ph, 0, style});
        s.add(2, n, 0, KC_EXPORT, {10 + n, 30, 0, 0, 0, 0, n});
        s.add(3, 0, 0, KC_ENV, {30});
        s.add(4, n, 0, KC_DEC, {10 + n, 20 + n, x, c, ph, CF_RING, n});
        break;
      case T_INFO:
        s.add(0, n, 0, KC_ENC, {n, 10 + n, x, c, ph, fo & ~CF_PROPS, style});
        s.add(2, n, 0, KC_INFO, {10 + n, 0, 0, 0, 0, fi & ~CF_PROPS, n});
        s.add(4, n, 0, KC_INFO, {10 + n, 0, 0, 0, 0, fi & ~CF_PROPS, n});
        break;
    }
  }
  if (exported) for (auto &o : s.ops) if (o.kind == KC_ENC || (o.kind == KC_DEC && o.phase == 2) || (o.kind == KC_DEC && o.a[6] != exported - 1)) o.a[5] &= ~CF_RING;
  while (s.nphases() < 5) s.phases.push_back(PhaseCfg());
  for (int p = 0; p < 5; p++) { s.phases[p].faults = p == 2; s.phases[p].kills = false; }
  s.phases[1].env = s.phases[3].env = true;
  s.cap = 400000000;
}
static std::string input(const Scenario &s, long k) { return cmd_content(s, 40 + k, (long) (mix2(s.seed, (uint64_t) k) % (k == 9 ? 12000 : 700)), k % 4); }
/* content of a file after the changes */
static std::string changed(const Scenario &s, long k) { std::string d = input(s, k); for (auto &o : s.ops) if (o.kind == KC_ENV && o.phase == 1 && o.a[0] == k) d += "changed"; return d; }
static void init(const Scenario &s) {
  cmd_phrases(s);
  for (long k = 2; k < 10; k++) fs_put(cmd_path(k), input(s, k));
  for (auto &o : s.ops) if (o.kind == KC_ENC) fs_put(cmd_path(o.a[0]), cmd_content(s, o.a[0], s.cfg[1 + o.a[0]], o.a[6]));
}
static void env(const Scenario &s, const SimOp &o) {
  (void) s;
  Inode *i = fs_find(cmd_path(o.a[0]));
  if (o.phase == 1) { if (i) i->data += "changed"; return; }
  fs_remove(CMD_RING);
  if (i) fs_put(CMD_RING, i->data);
}
static std::string key_id(const Scenario &s, long n) {
  const SimOp *e = enc_of(s, n);
  Inode *i = e ? fs_find(cmd_path(e->a[1])) : nullptr;
  std::string v;
  size_t at = 0;
  if (i) between(i->data, at, "<cipher:id>", "<", v);
  return v;
}
static std::string output_of(const LinOp &l) { for (auto &x : *w_exits) if (x.node == l.inv->node && x.life == l.inv->life && x.phase == l.inv->phase) return x.out; return ""; }
static void oracle(const Scenario &s) {
  auto ops = collect_ops(-1, -1);
  for (auto &o : s.ops) {
    if (o.kind == KC_ENV) continue;
    const LinOp *l = find_op(ops, o.id);
    if (!l) { violation("no-result", strf("%s did not start", cmd_name(o).c_str())); return; }
    int code = 0;
    for (auto &x : *w_exits) if (x.node == l->inv->node && x.life == l->inv->life && x.phase == l->inv->phase) code = x.signo ? -x.signo : x.code & 255;
    if (o.phase == 0 && (!l->ret || l->ret->status != 0)) { violation("refused", strf("%s: %s failed without a fault", cmd_error(*l).c_str(), cmd_name(o).c_str())); return; }
    if (!l->ret && code == 0) { violation("no-result", strf("%s: success before the work was over of %s", cmd_error(*l).c_str(), cmd_name(o).c_str())); return; }
    if (code < 0) { violation("exit", strf("%s: crash of %s", cmd_error(*l).c_str(), cmd_name(o).c_str())); return; }
    const bool ok = l->ret && l->ret->status == 0;
    if (o.phase == 2 && !ok) { probe("failure reported"); continue; }
    if (o.phase == 2 && l->ret->faults) probe("success despite a fault");
    switch (o.kind) {
      case KC_DEC: {
        const SimOp *e = enc_of(s, o.a[6]);
        if (!e) break;
        const SimOp *cause = e;
        for (auto &x : s.ops) if (x.kind == KC_EXPORT && x.a[0] == o.a[0]) cause = &x;
        if (o.phase == 4) { const LinOp *le = find_op(ops, cause->id); if (!le || !le->ret || le->ret->status != 0) break; }
        else cause = &o;
        if (!ok) { violation("not-usable", strf("%s: useless although success was reported by %s", cmd_error(*l).c_str(), cmd_name(*cause).c_str())); return; }
        Inode *i = fs_find(cmd_path(o.a[1]));
        const std::string want = cmd_content(s, o.a[6], s.cfg[1 + o.a[6]], e->a[6]);
        if (!i || i->data != want) { violation("incomplete", strf("%ld of %lu bytes are left after the success of %s", i ? (long) i->data.size() : -1L, (unsigned long) want.size(), cmd_name(*cause).c_str())); return; }
        break;
      }
      case KC_DIGEST: {
        std::string cls, msg;
        if (o.phase == 2 && !digest_list_ok(o, [&](long k) { return changed(s, k); }, cls, msg)) { violation("incomplete", strf("%s reported success: %s", cmd_name(o).c_str(), msg.c_str())); return; }
        break;
      }
      case KC_AUTH: {
        const SimOp *d = nullptr;
        for (auto &x : s.ops) if (x.kind == KC_DIGEST && x.a[1] == o.a[0]) d = &x;
        Inode *r = fs_find(cmd_path(o.a[1]));
        for (auto &x : s.ops) if (d && x.kind == KC_ENV && x.phase == 1 && d->a[0] >> x.a[0] & 1)
          if (!r || r->data.find("Path: " + cmd_path(x.a[0]) + "\n") == std::string::npos) { violation("incomplete", strf("%s reported success, but not the change of %s", cmd_name(o).c_str(), cmd_path(x.a[0]).c_str())); return; }
        for (long k = 0; k < 60 && d; k++) if (d->a[0] >> k & 1) {
          bool ch = false;
          for (auto &x : s.ops) if (x.kind == KC_ENV && x.phase == 1 && x.a[0] == k) ch = true;
          if (!ch && r && r->data.find("Path: " + cmd_path(k) + "\n") != std::string::npos) { violation("false-alarm", strf("%s reported a change of %s", cmd_name(o).c_str(), cmd_path(k).c_str())); return; }
        }
        break;
      }
      case KC_LIST: {
        Inode *r = fs_find(cmd_path(o.a[1]));
        for (auto &x : s.ops) if (x.kind == KC_ENC && x.phase == 0 && !(x.a[5] & (CF_RING | CF_PROPS | CF_GZOUT | CF_BZOUT))) {
          const std::string id = key_id(s, x.a[0]);
          if (!r || r->data.find("rdf:about=\"" + id + "\"") == std::string::npos) { violation("incomplete", strf("%ld bytes are the listing of the keyring, but the key %s is missing", r ? (long) r->data.size() : -1L, id.c_str())); return; }
        }
        if (!r || r->data.find("</rdf:RDF>") == std::string::npos) { violation("incomplete", "the listing of the keyring has no end"); return; }
        break;
      }
      case KC_INFO:
        if (o.phase == 4) {
          bool made = false;
          for (auto &x : s.ops) if (x.kind == KC_ENC && x.a[1] == o.a[0]) made = true;
          if (!made) break;
          if (!ok) { violation("refused", strf("cipher-info failed without a fault: %s", cmd_error(*l).c_str())); return; }
          for (auto &x : s.ops) if (x.kind == KC_INFO && x.phase == 2 && x.a[0] == o.a[0]) {
            const LinOp *lx = find_op(ops, x.id);
            if (lx && lx->ret && lx->ret->status == 0 && output_of(*lx) != output_of(*l)) { violation("incomplete", strf("cipher-info reported success with another output: %s", output_of(*lx).substr(0, 200).c_str())); return; }
          }
        }
        break;
    }
  }
}
static PropDef pd = {2, "C02", "c02", gen, init, env, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations and faults; non-trivial runs have at least one preemption or fault"};
static RegProp reg(&pd);
