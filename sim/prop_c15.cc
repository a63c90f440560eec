#include "gen.h"
#include "c15.h"

static const char *domains[] = {"Trace", "Blob", "Exception", "Warning", "User", "Resource"};
static const unsigned masks[] = {0x3e, 0, 0x10, 0x11, 0x04, 0x0a};     /* bit i: type i passes */
static const char *masknames[] = {"All", "None", "User", "Trace,User", "Exception", "Warning,Blob"};
static const char *files[] = {"/w/log-%g.log", "/w/x.log", "/w/%n-%c-%v.log", "/w/%%%g-%z.log"};
static const char *formats[] = {"Z%eZ", "A%eA%eA", "B %d %m %f %l %p %n %c %% %q %e B\\n%e\\r|%t %r %u %v", "xml", "", "%t %r %u %v %d %c[%p]: %m/%f/%l/%d\\n  %e 5"};
static const char *outputs[] = {"file", "file,stdout", "stderr,file", "console,file"};

/* cfg: 0 initial mask, 1 initial format, 2 file name, 3 generations (-1 unlimited), 4 limit (-1 unlimited), 5 output, 6 old content of the first log */
static void gen(Scenario &s, Rng &g) {
  s.cfg.assign(16, 0);
  s.cfg[0] = g.chance(0.6) ? 0 : (long) g.below(6);
  s.cfg[1] = g.pick(std::vector<long>{0, 1, 2, 3, 5});
  s.cfg[2] = (long) g.below(4);
  s.cfg[3] = g.pick(std::vector<long>{0, 1, 2, 3, -1, -1, -1});
  s.cfg[4] = g.pick(std::vector<long>{0, 0, 1, 1, 2000, -1});
  s.cfg[5] = g.chance(0.6) ? 0 : (long) g.below(4);
  s.cfg[6] = g.chance(0.2) ? 1 : g.chance(0.25) ? 2 : 0;
  s.cfg[15] = 4 | (g.chance(0.2) ? (long) g.below(2) : 0);   /* a line reported as written may be in a file another thread fails to close */
  gen_strategy(s, g, 0.2);
  FaultCfg &f = s.fc;
  int ph = g.chance(0.3) ? 2 : 1;
  bool single = g.chance(0.1);
  if (g.chance(0.45)) {
    FaultGen q(s, g);
    q.q = g.pick(std::vector<double>{0.01, 0.05, 0.15});
    q.add(S_OPEN, F_EMFILE); q.add(S_OPEN, F_EACCES); q.add(S_OPEN, F_ENOSPC); q.add(S_WRITE, F_EIO); q.add(S_WRITE, F_ENOSPC); q.add(S_WRITE, F_SHORT, 3); q.add(S_CLOSE, F_CLOSEFAIL); q.add(S_STAT, F_EIO);
    f.budget = g.range(1, 5);
    f.only_path = ".log";
  }
  if (g.chance(0.25)) { f.p_kill = g.pick(std::vector<double>{0.003, 0.01, 0.03}); f.kill_budget = 1; }
  if (g.chance(0.15)) { f.p_clock = 0.1; f.p_stall = 0.05; f.stall_max_ms = 5000; }
  bool change = g.chance(0.6);
  for (int p = 0; p < ph; p++) {
    int thr = single ? 1 : (int) g.range(1, 4);
    for (int t = 0; t < thr; t++) for (int k = 0, m = (int) g.range(1, 7); k < m; k++) {
      double u = change ? g.unit() : g.unit() * 0.7;
      long n = g.chance(0.7) ? g.range(0, 30) : g.chance(0.5) ? g.range(0, 600) : g.range(3900, 4060);
      if (u < 0.58) s.add(p, 0, t, K15_LOG, {(long) g.below(6), n});
      else if (u < 0.67) s.add(p, 0, t, K15_THROW, {g.chance(0.6) ? 2L : 3L, n > 3000 ? 3000 : n});
      else if (u < 0.7) s.add(p, 0, t, K15_LIST, {});
      else if (u < 0.82) s.add(p, 0, t, K15_FORMAT, {(long) g.below(6)});
      else if (u < 0.9) s.add(p, 0, t, K15_MASK, {g.chance(0.5) ? 0 : (long) g.below(6)});
      else s.add(p, 0, t, K15_CLOSE, {});
    }
    s.phases[p].restarts = (int) g.range(0, 1);
  }
}
static std::string oldlog(const Scenario &s) { return s.cfg[6] == 0 ? "" : s.cfg[6] == 1 ? "<log>\n  <event>of old</event>\n" : std::string(1100000, 'o'); }
static void init(const Scenario &s) {
  std::string x = "<?xml version=\"1.0\"?>\n<logmap>\n";
  x += strf("  <log events=\"%s\" />\n  <log output=\"%s\" />\n  <log filename=\"%s\" />\n", masknames[s.cfg[0]], outputs[s.cfg[5]], files[s.cfg[2]]);
  x += s.cfg[3] < 0 ? std::string("  <log generations=\"unlimited\" />\n") : strf("  <log generations=\"%ld\" />\n", s.cfg[3]);
  x += s.cfg[4] < 0 ? std::string("  <log limit=\"unlimited\" />\n") : strf("  <log limit=\"%ld\" />\n", s.cfg[4]);
  x += strf("  <log format=\"%s\" />\n</logmap>\n", formats[s.cfg[1]]);
  fs_mkdirs("/etc/wizard");
  fs_put("/etc/wizard/log.xml", x);
  if (s.cfg[6] && (s.cfg[2] == 0 || s.cfg[2] == 1)) fs_put(s.cfg[2] ? "/w/x.log" : "/w/log-0.log", oldlog(s));
}
struct Who { long pid; std::string client, name; };
/* the part of an event's record that format k determines; mult: how often the event's text occurs in it */
static std::string record(long k, const SimOp *o, const Who &w, const char *pre, const char *post, int &mult) {
  std::string e = strf("[E%d.", o->id);
  for (long i = 0; i < o->a[1]; i++) e += (char) ('a' + (o->id + i) % 26);
  e += "]";
  const char *d = domains[o->a[0]];
  mult = 1;
  switch (k) {
    case 0: return pre + ("Z" + e + "Z") + post;
    case 1: mult = 2; return pre + ("A" + e + "A" + e + "A") + post;
    case 2: mult = 2; return pre + strf("B %s mod.c fun %d %ld %s %s %% %%q ", d, o->id, w.pid, w.name.c_str(), w.client.c_str()) + e + " B\n" + e + "\r|";
    case 3: return strf("  <module>dir/mod.c</module>\n  <function>fun</function>\n  <line>%d</line>\n  <domain>%s</domain>\n  <event>", o->id, d) + e + "</event>\n</entry>" + post;
    case 4: return pre + ("L" + std::string(5999, 'y') + e) + post;
    default: return strf(" %s %s[%ld]: mod.c/fun/%d/%s\n  ", d, w.client.c_str(), w.pid, o->id, d) + e + " 5" + post;
  }
}
static long count(const std::string &hay, const std::string &needle, size_t *first = nullptr) {
  long n = 0;
  for (size_t p = hay.find(needle); p != std::string::npos; p = hay.find(needle, p + 1)) { if (!n && first) *first = p; n++; }
  return n;
}
static void oracle(const Scenario &s) {
  check_exits(true);
  if (world_failed()) return;
  std::map<std::pair<int, int>, Who> who;             /* (phase, life) */
  for (auto &e : *w_history) if (e.type == 2 && e.kind == N15_WHO) { size_t b = e.data.find('|'); who[{e.phase, e.life}] = {e.status, e.data.substr(0, b), e.data.substr(b + 1)}; }
  std::map<std::string, std::string> logs;
  for (auto &n : fs_list("/w")) if (n.size() > 4 && n.substr(n.size() - 4) == ".log") logs[n] = fs_find(n)->data;
  if (s.cfg[6] && (s.cfg[2] == 0 || s.cfg[2] == 1)) {
    std::string n = s.cfg[2] ? "/w/x.log" : "/w/log-0.log", o = oldlog(s);
    if (logs[n].compare(0, o.size(), o) != 0) { violation("old-lost", "what an older process logged to " + n + " is gone"); return; }
  }
  if (logs.size() > 1) probe("several generations");
  std::map<std::pair<int, int>, std::string> out, err;
  std::set<std::pair<int, int>> ended;
  for (auto &x : *w_exits) { out[{x.phase, x.life}] = x.out; err[{x.phase, x.life}] = x.err; if (!x.killed && x.code == 0) ended.insert({x.phase, x.life}); }
  /* a process that was restarted repeats nothing: operations carry on after the interrupted one */
  std::vector<LinOp> ops = collect_ops(0, -1);
  struct Pos { std::string file; size_t at; };
  std::map<std::tuple<int, int, int>, std::vector<std::pair<int, Pos>>> order;
  for (auto &l : ops) {
    const SimOp *o = op_by_id(s, l.inv->op);
    if (o->kind != K15_LOG && o->kind != K15_THROW) continue;
    std::pair<int, int> pr(l.inv->phase, l.inv->life);
    if (!who.count(pr)) continue;
    uint64_t end = l.ret ? l.ret->seq : ~0UL;
    /* settings that may have been in force: those set in this process and not certainly replaced before the event */
    auto possible = [&](int kind, long first) {
      std::set<long> v; std::vector<const LinOp *> set;
      for (auto &m : ops) if (m.inv->phase == pr.first && m.inv->life == pr.second && m.inv->seq < end && op_by_id(s, m.inv->op)->kind == kind) set.push_back(&m);
      auto replaced = [&](uint64_t done) { for (auto m : set) if (m->ret && m->inv->seq > done && m->ret->seq < l.inv->seq) return true; return false; };
      if (!replaced(0)) v.insert(first);
      for (auto m : set) if (!m->ret || !replaced(m->ret->seq)) v.insert(op_by_id(s, m->inv->op)->a[0]);
      return v;
    };
    std::set<long> fm = possible(K15_FORMAT, s.cfg[1]), mk = possible(K15_MASK, s.cfg[0]);
    bool may = false, must = true;
    for (long m : mk) { if (masks[m] >> o->a[0] & 1) may = true; else must = false; }
    long whole = 0, parts = 0; int mult = 1;
    std::string mark = strf("[E%d.", o->id);
    for (auto &f : logs) {
      for (long k : fm) {
        int mu; size_t at = 0;
        std::string r = record(k, o, who[pr], "  <event>", "</event>\n", mu);
        long c = count(f.second, r, &at);
        if (c) { whole += c; mult = mu; order[{pr.first, pr.second, l.inv->thr}].push_back({o->id, {f.first, at}}); }
      }
      parts += count(f.second, mark);
    }
    bool hurt = !l.ret || l.ret->value > 0;
    /* an interrupted or disturbed event may be missing or broken */
    if (whole > 1) { violation("twice", strf("event %d was logged %ld times", o->id, whole)); return; }
    if (!may && parts) { violation("masked", strf("event %d of type %s was logged although the mask excludes it", o->id, domains[o->a[0]])); return; }
    if (hurt) continue;
    if (must && !whole) { violation(parts ? "broken" : "lost", strf("event %d (%ld bytes, type %s) is %s", o->id, o->a[1], domains[o->a[0]], parts ? "not whole in the log" : "missing from the log")); return; }
    if (whole && parts != mult) { violation("twice", strf("event %d occurs %ld times instead of %d", o->id, parts, mult)); return; }
    if (whole) probe("logged");
    if (must && fm.size() > 1) probe("format changing");
    if (s.cfg[5] && ended.count(pr)) {
      const std::string &t = s.cfg[5] == 1 ? out[pr] : err[pr];
      long w = 0;
      for (long k : fm) { int mu; w += count(t, record(k, o, who[pr], "", "\n", mu)); }
      if (w > 1 || (must && !w)) { violation("stream", strf("event %d was written %ld times to the output stream", o->id, w)); return; }
    }
  }
  for (auto &t : order) {
    for (size_t i = 1; i < t.second.size(); i++) {
      const Pos &a = t.second[i - 1].second, &b = t.second[i].second;
      if (a.file == b.file) { if (a.at > b.at) { violation("order", strf("event %d precedes event %d of the same thread in %s", t.second[i].first, t.second[i - 1].first, a.file.c_str())); return; } }
      else if (s.cfg[2] == 0 && s.cfg[3] < 0) {
        long x = atol(a.file.c_str() + 7), y = atol(b.file.c_str() + 7);
        if (x > y) { violation("order", strf("event %d is in an older log than event %d of the same thread", t.second[i].first, t.second[i - 1].first)); return; }
      }
    }
  }
}
static PropDef pd = {15, "C15", "c15", gen, init, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations and faults; non-trivial runs have at least one preemption or fault"};
static RegProp reg(&pd);
