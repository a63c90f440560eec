#include "gen.h"
#include "c21.h"
#include <signal.h>

static const int sigs[] = K21_SIGNALS;
static long code(long end, long phrase, long at = 0, long sig = 0) { return end + 8 * phrase + 64 * at + 4096 * sig; }

static void gen(Scenario &s, Rng &g) {
  const int nodes = g.chance(0.8) ? 1 : 2;
  s.cfg = {g.chance(0.5) ? 0 : (long) g.below(65536)};
  gen_strategy(s, g, 0.3);
  FaultCfg &f = s.fc;
  if (g.chance(0.4)) {
    FaultGen q(s, g);
    q.q = g.pick(std::vector<double>{0.01, 0.03, 0.1});
    q.add(S_OPEN, F_EMFILE, 3); q.add(S_OPEN, F_EACCES, 3); q.add(S_READ, F_EIO); q.add(S_READ, F_EINTR); q.add(S_WRITE, F_EIO); q.add(S_CLOSE, F_CLOSEFAIL);
    f.budget = (long) g.range(1, 3);
    if (g.chance(0.3)) f.p[S_MALLOC][F_ENOMEM] = 0.03;
  }
  if (g.chance(0.3)) { f.p_signal = g.pick(std::vector<double>{0.003, 0.02, 0.06}); f.signal_budget = (int) g.range(1, 2); }
  if (g.chance(0.1)) { f.p_kill = 0.01; f.kill_budget = 1; }
  if (g.chance(0.1)) { f.p_stall = 0.01; f.stall_max_ms = 5000; }
  for (int n = 0; n < nodes; n++) for (long k = 0, m = (long) g.range(1, 3); k < m; k++) {
    std::vector<long> l;
    const long longs = g.chance(0.02);
    long p = longs ? 4 + (long) g.below(4) : (long) g.below(4);
    while ((long) l.size() < K21_LINES) {
      const double u = g.unit();
      const long at = (long) g.below(24), sig = (long) g.below(8), other = longs ? 4 + (long) g.below(4) : (long) g.below(4);
      if (u < 0.55) l.push_back(code(E21_NEWLINE, p));
      else if (u < 0.62) l.push_back(code(E21_NEWLINE, other));
      else if (u < 0.67) l.push_back(code(E21_RETURN, p));
      else if (u < 0.71) l.push_back(code(E21_EOF, p, g.chance(0.5) ? 63 : at));
      else if (u < 0.77) l.push_back(code(E21_EIO, g.chance(0.7) ? p : other, at));
      else if (u < 0.90) l.push_back(code(E21_SIGNAL, p, at, sig));
      else if (u < 0.94) l.push_back(code(E21_WAIT, p, at));
      else if (u < 0.97) l.push_back(code(E21_AHEAD, p));
      else l.push_back(code(E21_TWO, p, at, sig));
    }
    l.resize(6);
    s.add(0, n, 0, K21_ASK, {l[0], l[1], l[2], l[3], l[4], l[5]});
  }
  s.phases[0].restarts = (int) g.range(0, 1);
}
static void init(const Scenario &s) {
  fs_put("/dev/tty", "", 5);
  /* whatever comes first, the same short line is typed in the end */
  for (int n = 0; n < SIM_MAXNODE; n++) w_tty[n].always = {'e', 'n', 'd', '\n'};
  (void) s;
}
static std::string cut(const std::string &x) { return x.substr(0, 4095); }
static void oracle(const Scenario &s) {
  /* processes end in order, by a signal that was sent, or for lack of memory */
  for (auto &x : *w_exits) if (!x.killed && x.code != 0) {
    bool ok = false;
    for (auto &e : *w_history) if (e.node == x.node && e.life == x.life && e.phase == x.phase) { if (e.type == 2 && e.kind == 99 && e.status == x.code) ok = true; if (e.type == 3 && e.faults > 0) ok = true; }
    if (!ok) { violation("exit", strf("process %d ended with status %d: %s", x.node, x.code, x.err.substr(0, 200).c_str())); return; }
  }
  struct Call { int op = -1; bool second = false, over = false, good = false, failed = false, open = false, intr = false; long faults = 0; std::string first, line; std::map<long, int> arrived, handled; };
  std::map<int, Call> calls;                           /* by node */
  for (auto &e : *w_history) {
    Call &c = calls[e.node];
    if (e.type == 0) { c = Call(); c.op = e.op; c.faults = e.faults; continue; }
    if (e.type == 3 || e.type == 4) { c = Call(); continue; }
    if (c.op < 0) continue;
    auto done = [&](void) {                             /* a line is complete */
      c.open = false;
      if (!c.second) { c.first = cut(c.line); c.second = true; }
      else if (cut(c.line) == c.first) c.over = c.good = true;
      else { c.second = false; probe("lines differ"); }
    };
    if (e.type == 2) switch (e.kind) {
      case NT_PROMPT:
        c.open = true; c.line.clear();
        break;
      case NT_CHAR:
        if (c.over) { violation("asked", "the terminal is read after a passphrase was typed twice"); return; }
        if (e.value) { violation("shown", "the terminal shows a passphrase while it is typed"); return; }
        if (e.status == '\n' || e.status == '\r') done(); else c.line += (char) e.status;
        break;
      case NT_EOF: done(); break;
      case NT_EIO: c.failed = true; break;
      case NT_INTR:
        if (e.status != SIGTSTP && e.status != SIGTTIN && e.status != SIGTTOU) c.intr = true;
        if (e.status > 0) c.arrived[e.status]++;
        break;
      case N21_HANDLED: c.handled[e.status]++; break;
    }
    if (e.type != 1) continue;
    if (e.status) {
      probe("passphrase typed");
      if (c.failed) { violation("cut", strf("a passphrase of %lu bytes is accepted although the terminal failed", (unsigned long) e.data.size())); return; }
      if (!c.good) { violation("cut", strf("a passphrase of %lu bytes is accepted that was not typed twice", (unsigned long) e.data.size())); return; }
      if (e.data != c.first) { violation("wrong", strf("a passphrase of %lu bytes is not the one of %lu that was typed", (unsigned long) e.data.size(), (unsigned long) c.first.size())); return; }
    } else {
      probe("passphrase refused");
      if (!e.value) { violation("silent", "a passphrase was refused without an error"); return; }
      if (!c.failed && !c.intr && e.faults == c.faults) { violation("refused", "a passphrase was refused although nothing failed"); return; }
    }
    for (int k = 0; k < 8; k++) if (s.cfg[0] >> k & 1 && !(s.cfg[0] >> (k + 8) & 1)) {
      const int came = c.arrived.count(sigs[k]) ? c.arrived[sigs[k]] : 0, seen = c.handled.count(sigs[k]) ? c.handled[sigs[k]] : 0;
      if (came && c.arrived.size() == 1 && !seen) { violation("signal-lost", strf("signal %d came while a passphrase was typed and never reached the program", sigs[k])); return; }
      if (seen > came) { violation("signal-twice", strf("signal %d came %d times while a passphrase was typed and reached the program %d times", sigs[k], came, seen)); return; }
      if (seen) probe("signal passed on");
    }
    c.op = -1;
  }
  for (int k = 1; k < 4; k++) {
    static const long lengths[] = K21_LENGTHS;
    std::string t = data_for(s.seed, (unsigned long) (k == 3 ? 2 : k), lengths[k] - 1);
    for (auto &ch : t) if (ch == '\n' || ch == '\r') ch = 'x';
    for (int n = 0; n < SIM_MAXNODE; n++) if (w_tty[n].screen.find(t) != std::string::npos) { violation("shown", "a passphrase is shown on the terminal"); return; }
    for (auto &x : *w_exits) if ((x.err + x.out).find(t) != std::string::npos) { violation("shown", "a passphrase is printed"); return; }
  }
}
static PropDef pd = {21, "C21", "c21", gen, init, nullptr, nullptr, oracle,
  "a run is counted as distinct by the hash of its schedule deviations, faults, signals and kill points; non-trivial runs have at least one of them"};
static RegProp reg(&pd);
