#include "gen.h"
#include "gencmd.h"
#include <unordered_set>

/* pairs of commands with the same options run at the same time or one after the other, on the same or on different contents */
static void gen(Scenario &s, Rng &g) {
  const int nodes = (int) g.range(1, 3), phases = (int) g.range(1, 2);
  s.cfg = {0};
  gen_strategy(s, g, 0.35);
  FaultCfg &f = s.fc;
  FaultGen fg(s, g);
  if (g.chance(0.5)) { fg.errors(); f.budget = g.chance(0.5) ? 1 : (long) g.logrange(1, 12); if (g.chance(0.4)) f.only_path = g.chance(0.5) ? "/w/" : ".wizard"; }
  if (g.chance(0.2)) fg.memory();
  if (g.chance(0.3)) { fg.splits(); f.budget += 20; }
  if (g.chance(0.3)) { f.p_kill = g.pick(std::vector<double>{0.001, 0.004, 0.01}); f.kill_budget = (int) g.range(1, 2); }
  if (g.chance(0.1)) { f.p_signal = 0.003; f.signal_budget = 1; }
  if (g.chance(0.1)) { f.p_clock = 0.02; }
  s.cfg.assign(16, 0);
  const bool same = g.chance(0.7);
  long x = 0, c = 0, len = 0, fl = 0, ph = 0, n = 0;
  for (int p = 0; p < phases; p++) for (int d = 0; d < nodes; d++, n++) {
    if (!same || !n) {
      x = gen_cipher(g);
      /* the known weaknesses are looked at in few runs */
      if (CMD_F(x, 1, 10) == 2 && (CMD_F(x, 10, 10) == 2 || CMD_F(x, 10, 10) == 3) && g.chance(0.9)) x -= 1;
      if (g.chance(0.7)) x -= CMD_F(x, 10000, 10) * 10000;
      c = gen_chunk(g), ph = (long) g.below(4), fl = (g.chance(0.2) ? CF_RING : 0) | (g.chance(0.2) ? CF_PROPS : 0) | (g.chance(0.5) ? CF_PLAIN : 0) | (g.chance(0.2) ? CF_VERBOSE : 0);
      len = std::max(40L, gen_length(g, c));
      if (g.chance(0.06)) { c = 0; len = g.range(4200, 9000); if (g.chance(0.7)) x -= CMD_F(x, 1, 10) + (CMD_F(x, 10, 10) - 2) * 10 + CMD_F(x, 10000, 10) * 10000; }      /* more blocks than a byte can count */
    }
    s.add(p, d, 0, KC_ENC, {n, 10 + n, x, c, ph, fl | gen_typed(g, ph, 0.15), 0, g.chance(0.5) ? 0 : n});
    s.cfg[(size_t) n] = len;
  }
  while (s.nphases() < phases) s.phases.push_back(PhaseCfg());
  s.cfg[12] = g.chance(0.03);
  s.cap = 400000000;
}
static std::string plain(const Scenario &s, const SimOp &o) { return cmd_content(s, o.a[7], s.cfg[(size_t) o.a[0]], 0); }
static void init(const Scenario &s) {
  cmd_phrases(s);
  for (auto &o : s.ops) fs_put(cmd_path(o.a[0]), plain(s, o));
}
static uint64_t w8(const char *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static bool dull(const char *p) { unsigned m = 0; for (int i = 0; i < 8; i++) for (int j = 0; j < i; j++) m += p[i] == p[j]; return m > 4; }
typedef std::unordered_set<uint64_t> Windows;
static Windows windows(const std::string &x) { Windows w; for (size_t i = 0; i + 8 <= x.size(); i++) if (!dull(x.data() + i)) w.insert(w8(x.data() + i)); return w; }
static long hit(const Windows &w, const std::string &x) { if (!w.empty()) for (size_t i = 0; i + 8 <= x.size(); i++) if (w.count(w8(x.data() + i))) return (long) i; return -1; }
static std::string mask(const std::string &a, size_t i, const std::string &b, size_t j) { std::string r; for (; i < a.size() && j < b.size(); i++, j++) r += (char) (a[i] ^ b[j]); return r; }
static std::string body(const SimOp &o) {
  Inode *i = fs_find(cmd_path(o.a[1]));
  if (!i) return "";
  if (o.a[5] & CF_PROPS) return i->data;
  size_t p = i->data.find("<?cipherpacket?>\f\n");
  return p == std::string::npos ? "" : i->data.substr(p + 18);
}
static void oracle(const Scenario &s) {
  if (!s.fc.signal_budget) check_exits(true);
  if (world_failed()) return;
  /* nothing in the clear */
  std::set<std::string> own;
  std::map<long, Windows> clear;
  for (auto &o : s.ops) { own.insert(cmd_path(o.a[0])); if (!clear.count(o.a[7])) clear[o.a[7]] = windows(plain(s, o)); else { Windows w = windows(plain(s, o)); clear[o.a[7]].insert(w.begin(), w.end()); } }
  Windows phrase = windows(fs_find(strf(CMD_PHRASE, 3L))->data);                /* the others are parts of it */
  for (long k = 0; k < 4; k++) own.insert(strf(CMD_PHRASE, k));
  std::vector<std::pair<std::string, std::string>> texts;
  for (auto &n : fs_list("/")) if (!own.count(n)) if (Inode *i = fs_find(n)) if (!i->data.empty()) texts.push_back({n, i->data});
  for (auto &x : *w_exits) { texts.push_back({"standard output", x.out}); texts.push_back({"standard error", x.err}); }
  for (int k = 0; k < SIM_MAXNODE; k++) texts.push_back({"terminal", w_tty[k].screen});
  for (auto &t : texts) {
    long at;
    for (auto &o : s.ops) if ((at = hit(clear[o.a[7]], t.second)) >= 0) {
      const SimOp *e = &o;
      for (auto &q : s.ops) if (cmd_path(q.a[1]) == t.first) e = &q;
      violation("clear", strf("%s shows part of the content at %ld after %s", t.first.c_str(), at, cmd_name(*e).c_str()));
      return;
    }
    if ((at = hit(phrase, t.second)) >= 0) { violation("phrase", strf("%s shows part of the passphrase at %ld", t.first.c_str(), at)); return; }
  }
  probe("scanned");
  /* no two enciphered files share cipher data or key stream */
  for (size_t i = 0; i < s.ops.size(); i++) for (size_t j = i + 1; j < s.ops.size(); j++) {
    const SimOp &a = s.ops[i], &b = s.ops[j];
    std::string x = body(a), y = body(b);
    if (x.size() < 8 || y.size() < 8) continue;
    if (hit(windows(x), y) >= 0) { violation("same", strf("two files of %s show the same cipher data", cmd_name(a).c_str())); return; }
    if (a.a[7] == b.a[7] || CMD_F(a.a[2], 10000, 10)) continue;
    probe("streams compared");
    if (hit(windows(mask(plain(s, a), 0, plain(s, b), 0)), mask(x, 0, y, 0)) >= 0) { violation("stream", strf("two files are masked with the same key stream after %s", cmd_name(a).c_str())); return; }
  }
  /* nor do two keys of a keyring */
  std::map<std::string, std::string> seen;
  for (auto &t : texts) if (t.first.size() > 4 && t.first.substr(t.first.size() - 4) == ".xdm") {
    const std::string &d = t.second;
    size_t at = d.find(std::string("\xab\xad\xac\xab\0\0\0\0", 8));
    while (at != std::string::npos && at + 20 < d.size() && !d.compare(at, 4, "\xab\xad\xac\xab")) {
      std::string f[3];
      bool whole = true;
      at += 20;
      for (auto &v : f) {
        uint32_t n = 0;
        if (at + 4 <= d.size()) memcpy(&n, d.data() + at, 4);
        if (n > 4096 || at + 4 + n > d.size()) { whole = false; break; }
        v = d.substr(at + 4, n), at += 4 + n;
      }
      if (!whole) break;
      probe("keys compared");
      for (int k = 1; k < 3; k++) {
        auto r = seen.insert({strf("%d", k) + f[k], f[0]});
        if (!r.second && r.first->second != f[0]) { violation("ring-stream", k == 2 ? "two keys of a keyring are enciphered with the same nonce" : "two keys of a keyring show the same cipher data"); return; }
      }
    }
  }
  for (auto &o : s.ops) {
    std::string x = body(o), p = plain(s, o);
    const long ci = CMD_F(o.a[2], 1, 10), mo = CMD_F(o.a[2], 10, 10), ch = o.a[3] ? o.a[3] : 1L << 18;
    if (CMD_F(o.a[2], 10000, 10) || x.size() < 24) continue;
    if (s.cfg[12] || ci == 0 || ci == 3) {
      probe("blocks compared");
      for (long lag : {1, 8, 16, 32, 48, 64, 128, 256, 2048, 4096, 8192}) if (lag < ch && (long) p.size() > lag + 8 && hit(windows(mask(p, 0, p, (size_t) lag)), mask(x, 0, x, (size_t) lag)) >= 0) {
        violation("block-stream", strf("two blocks of a file are masked with the same key stream after %s", cmd_name(o).c_str()));
        return;
      }
    }
    if ((long) p.size() < ch + 16 || !(s.cfg[12] || ((ci == 0 || ci == 3) && (mo == 0 || mo == 3)))) continue;
    probe("chunks compared");
    Windows w = windows(mask(p, 0, p, (size_t) ch));
    for (long lag = ch; lag <= ch + 100; lag++) if (hit(w, mask(x, 0, x, (size_t) lag)) >= 0) { violation("chunk-stream", strf("two chunks of a file are masked with the same key stream after %s", cmd_name(o).c_str())); return; }
  }
}
static PropDef pd = {20, "C20", "c20", gen, init, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations, faults and kill points; non-trivial runs have at least one preemption, fault or kill"};
static RegProp reg(&pd);
