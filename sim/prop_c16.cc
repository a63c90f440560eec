#include "gen.h"
#include "c16.h"

/* cfg: 0 earlier uses of the library in this process, 1 who starts it for the threads (0 main thread, 1 each thread, 2 nobody), 2 later uses,
   3 layout of the files (bit 0 options in two files, bit 1 messages by inclusion, bit 2 comments, bit 3 long included files), 4 faults, 5 bit mask of files left out */
static void gen(Scenario &s, Rng &g) {
  s.cfg.assign(16, 0);
  s.cfg[0] = g.chance(0.75) ? 0 : g.range(1, 2);
  s.cfg[1] = g.pick(std::vector<long>{0, 1, 1, 2});
  s.cfg[2] = g.chance(0.75) ? 0 : g.range(1, 2);
  s.cfg[3] = (long) g.below(8) + (g.chance(0.2) ? 8 : 0);
  s.cfg[5] = g.chance(0.85) ? 0 : (long) g.below(16);
  gen_strategy(s, g, 0.5);
  FaultCfg &f = s.fc;
  bool single = false;
  if (g.chance(0.25)) {
    FaultGen q(s, g);
    q.q = g.pick(std::vector<double>{0.05, 0.2, 0.5});
    q.add(S_OPEN, F_EMFILE); q.add(S_OPEN, F_EACCES); q.add(S_READ, F_EIO); q.add(S_READ, F_SHORT); q.add(S_STAT, F_EIO); q.add(S_SEEK, F_EIO); q.add(S_MMAP, F_ENOMEM); q.add(S_CLOSE, F_CLOSEFAIL);
    f.budget = g.range(1, 6);
    f.only_path = "/etc/wizard";
    s.cfg[4] = 1;
  } else if (g.chance(0.1)) {
    f.p[S_MALLOC][F_ENOMEM] = g.pick(std::vector<double>{0.003, 0.02, 0.1});
    f.budget = 1;
    single = true;
    s.cfg[4] = 2;
    s.cfg[5] |= 8;
  }
  if (s.cfg[4] != 2 && g.chance(0.15)) { f.p_stall = 0.05; f.stall_max_ms = 5000; f.p_clock = 0.02; }
  int thr = single ? 1 : (int) g.range(2, 4);
  long focus = g.chance(0.6) ? g.range(K16_CONF, K16_LOGLIST) : 0;
  for (int t = 0; t < thr; t++) {
    if (s.cfg[1] == 1) s.add(0, 0, t, K16_GENESIS, {});
    for (int k = 0, m = (int) g.range(1, 5); k < m; k++)
      s.add(0, 0, t, (int) (focus && g.chance(0.7) ? focus : g.range(K16_CONF, K16_LOGLIST)), {(long) g.below(N16_ENTRIES)});
  }
}
static void init(const Scenario &s) {
  const char *c = s.cfg[3] & 4 ? "  <!-- a comment -->\n" : "";
  std::string h = "<?xml version=\"1.0\"?>\n", a, b, pad = s.cfg[3] & 8 ? "  <!-- " + std::string(20000, 'c') + " -->\n" : "";
  fs_mkdirs("/etc/wizard");
  for (int i = 0; i < N16_ENTRIES; i++) ((s.cfg[3] & 1) && i >= 2 ? b : a) += strf("  <configure name=\"N%d\" value=\"V%d\" />\n", i, i);
  if (!(s.cfg[5] & 1)) {
    if (s.cfg[3] & 1) fs_put("/etc/wizard/more.xml", h + "<configuremap>\n" + pad + b + "</configuremap>\n");
    fs_put("/etc/wizard/configure.xml", h + "<configuremap>\n" + c + a + (s.cfg[3] & 1 ? "  <include file=\"more.xml\" />\n" : "") + "</configuremap>\n");
  }
  std::string m;
  for (int i = 0; i < N16_ENTRIES; i++) {
    m += strf("  <mime type=\"t/m%d\" description=\"d\" data-type=\"string\" offset=\"2\" magic=\"MAG%d\" priority=\"50\" />\n", N16_ENTRIES - 1 - i, N16_ENTRIES - 1 - i);
    m += strf("  <mime type=\"t/x%d\" description=\"d\" priority=\"100\" pattern=\"*.x%d\" />\n", i, i);
  }
  if (!(s.cfg[5] & 2)) fs_put("/etc/wizard/mime.xml", h + "<mimemap>\n" + c + m + "</mimemap>\n");
  std::string l;
  for (int i = 0; i < N16_ENTRIES; i++) l += strf("      <message name=\"m%d\">\n        text %d\n      </message>\n", i, i);
  l = h + "<locale name=\"english\">\n" + c + "  <Ex>\n    <Sub>\n" + l + "    </Sub>\n  </Ex>\n</locale>\n";
  if (!(s.cfg[5] & 4)) {
    if (s.cfg[3] & 2) { fs_put("/etc/wizard/words.xml", pad + l); fs_put("/etc/wizard/locale.xml", h + "<localemap>\n" + c + "  <include locale=\"C\" file=\"words.xml\" />\n</localemap>\n"); }
    else fs_put("/etc/wizard/locale.xml", l);
  }
  if (!(s.cfg[5] & 8)) fs_put("/etc/wizard/log.xml", h + "<logmap>\n" + c + "  <log events=\"User\" />\n  <log output=\"file\" />\n  <log filename=\"/w/x.log\" />\n  <log generations=\"3\" />\n  <log limit=\"2000\" />\n  <log format=\"%e\" />\n</logmap>\n");
}
/* the answer a single thread gets from the files (full) or without them */
static std::string answer(const Scenario &s, int kind, long a, bool full) {
  std::string t;
  switch (kind) {
    case K16_CONF: return full && !(s.cfg[5] & 1) ? strf("V%ld", a) : "none";
    case K16_BUILTIN: return "ImageMagick";
    case K16_CONFLIST: if (full && !(s.cfg[5] & 1)) for (int i = 0; i < N16_ENTRIES; i++) t += strf(a & 1 ? "V%d " : "N%d ", i); return t + (a & 1 ? "ImageMagick " : "NAME ");
    case K16_PATTERN: return full && !(s.cfg[5] & 2) ? strf("t/x%ld", a) : "none";
    case K16_TOMIME: return full && !(s.cfg[5] & 2) ? strf("t/x%ld", a) : strf("image/x-x%ld", a);
    case K16_MAGIC: return full && !(s.cfg[5] & 2) ? strf("t/m%ld", a) : "none";
    case K16_MIMELIST: if (full && !(s.cfg[5] & 2)) { for (int i = 0; i < N16_ENTRIES; i++) t += strf("t/m%d ", i); for (int i = 0; i < N16_ENTRIES; i++) t += strf("t/x%d ", i); return t; } return "none";
    case K16_LOCALE: return full && !(s.cfg[5] & 4) ? strf("text %ld", a) : strf("Ex/Sub/m%ld", a);
    case K16_LOCALELIST: if (full && !(s.cfg[5] & 4)) for (int i = 0; i < N16_ENTRIES; i++) t += a & 1 ? strf("text %d\n", i) : strf("Ex/Sub/m%d/ ", i); return t;
    case K16_RESOURCE: case K16_TEMP: return "1";
    case K16_RANDOM: return "16";
    case K16_LOGLIST: return "some";
    case K16_THROW: return "305";
  }
  return "";
}
static int table(int kind) {
  switch (kind) {
    case K16_CONF: case K16_CONFLIST: return 1;
    case K16_PATTERN: case K16_TOMIME: case K16_MAGIC: case K16_MIMELIST: return 2;
    case K16_LOCALE: case K16_LOCALELIST: return 4;
  }
  return 0;
}
static const char *names[] = {"", "start", "option", "built-in option", "list of options", "type by name", "type by content", "list of types", "message", "event", "resource", "random bytes", "exception", "temporary file", "type of format", "list of messages", "list of log settings"};
static void oracle(const Scenario &s) {
  for (auto &x : *w_exits) if (s.cfg[4] == 2 && !x.killed && x.code == 1 && !x.signo) { probe("out of memory"); return; }
  check_exits(true);
  if (world_failed()) return;
  long logged[N16_ENTRIES] = {0}, seen[8] = {0};                 /* seen: 1 from the file, 2 without it */
  std::vector<long> live;
  auto check = [&](int kind, long a, const std::string &got, bool first) {
    if (kind == K16_LOG) { logged[a]++; return; }
    if (kind == K16_GENESIS) return;
    std::string f = answer(s, kind, a, true), d = answer(s, kind, a, false);
    int t = table(kind);
    if (got == f) { if (t == 1 && (s.cfg[3] & 1)) t = a >= 2 || kind == K16_CONFLIST ? 3 : 0; if (t && first) seen[t] |= f == d ? 0 : 1; return; }
    if (first && t == 1 && s.cfg[4] && (s.cfg[3] & 1)) {                     /* either file may have been unreadable */
      if (got == d || (kind == K16_CONFLIST && (got == "N0 N1 NAME " || got == "V0 V1 ImageMagick "))) { if (a >= 2 || kind == K16_CONFLIST) seen[3] |= 2; probe("defaults"); return; }
    }
    if (first && t && s.cfg[4] && got == d) { seen[t] |= 2; probe("defaults"); return; }
    if (first && s.cfg[4] == 2) { probe("entry lost for want of memory"); return; }
    violation("answer", strf("%s %ld: \"%s\" instead of \"%s\"%s", names[kind], a, got.c_str(), f.c_str(), first ? "" : " in an earlier or later use"));
  };
  for (auto &e : *w_history) {
    if (world_failed()) return;
    if (e.type == 2 && e.kind == N16_LIVE) live.push_back(e.status);
    else if (e.type == 2 && e.kind == N16_SWEEP) check((int) e.status, e.value & 255, e.data, false);
    else if (e.type == 1) { const SimOp *o = op_by_id(s, e.op); check(o->kind, o->a[0], e.data, true); }
  }
  if (world_failed()) return;
  for (int t = 1; t < 8; t++) if (s.cfg[4] != 2 && seen[t] == 3) { violation("two-tables", strf("some answers come from the %s file and some do not", t & 1 ? "options" : t == 2 ? "media types" : "messages")); return; }
  if (!s.cfg[4]) {
    if (!(s.cfg[5] & 8) && s.cfg[1] != 2) {
      std::string log;
      for (auto &n : fs_list("/w")) if (n == "/w/x.log") log = fs_find(n)->data;
      for (int i = 0; i < N16_ENTRIES; i++) {
        long n = 0; std::string m = strf("[E%d]", i);
        for (size_t p = log.find(m); p != std::string::npos; p = log.find(m, p + 1)) n++;
        if (n != logged[i]) { violation("event", strf("%ld of %ld events of number %d were logged", n, logged[i], i)); return; }
      }
    }
    if (s.cfg[0] >= 1) for (size_t i = 1; i < live.size(); i++) if (live[i] > live[0]) { violation("left-over", strf("%ld blocks of memory are in use after shutdown %zu, %ld after the first", live[i], i + 1, live[0])); return; }
    if (s.cfg[0] >= 1) probe("shutdown compared");
  }
}
static PropDef pd = {16, "C16", "c16", gen, init, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations and faults; non-trivial runs have at least one preemption or fault"};
static RegProp reg(&pd);
