/*
  Runner: seeded search over scenarios, schedules and faults with worker processes; replay,
  minimisation, determinism gate, evidence.

    wzsim search C10 --runs N --time S --seed S --tier quick --out DIR --evidence FILE --known FILE
    wzsim replay FILE [--trace]
    wzsim one C10 --seed S --index I [--trace]
    wzsim determinism C10 --seed S --runs N
*/
#include "core.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <regex.h>

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

/* ------------------------------------------------------------------ replay files */
struct Case { Scenario sc; std::vector<Dev> devs; std::vector<FDev> fdevs; std::string cls, msg; uint64_t hash = 0; long index = 0; };

static std::string oneline(std::string s) { for (auto &c : s) if (c == '\n' || c == '\r') c = ' '; return s; }

static void save_case(const std::string &path, const Case &c) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); exit(2); }
  fprintf(f, "wzsim-replay 1\nprop C%02d\nseed %lu\nindex %ld\n", c.sc.prop, c.sc.seed, c.index);
  fprintf(f, "class %s\nmessage %s\nhash %016lx\ncap %lu\n", c.cls.c_str(), oneline(c.msg).c_str(), c.hash, c.sc.cap);
  fprintf(f, "cfg %zu", c.sc.cfg.size()); for (long v : c.sc.cfg) fprintf(f, " %ld", v); fprintf(f, "\n");
  fprintf(f, "# phases: faults kills schedule restarts environment\n");
  for (auto &p : c.sc.phases) fprintf(f, "phase %d %d %d %d %d\n", p.faults, p.kills, p.sched, p.restarts, p.env);
  fprintf(f, "# operations: id phase node thread kind arguments\n");
  for (auto &o : c.sc.ops) { fprintf(f, "op %d %d %d %d %d", o.id, o.phase, o.node, o.thr, o.kind); for (long v : o.a) fprintf(f, " %ld", v); fprintf(f, "\n"); }
  fprintf(f, "# faults: fiber system-call kind argument\n");
  for (auto &d : c.fdevs) fprintf(f, "fault %u %lu %s %ld\n", d.uid, d.sys, fault_name[d.kind], d.arg);
  fprintf(f, "# schedule deviations: fiber point switch-to\n");
  for (auto &d : c.devs) fprintf(f, "switch %u %lu %u\n", d.uid, d.pt, d.target);
  fprintf(f, "end\n");
  fclose(f);
}
static bool load_case(const std::string &path, Case &c) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f) return false;
  char line[8192];
  bool ok = false;
  while (fgets(line, sizeof line, f)) {
    char w[32]; int n = 0;
    if (sscanf(line, "%31s %n", w, &n) != 1 || w[0] == '#') continue;
    char *r = line + n; char *nl = strchr(r, '\n'); if (nl) *nl = 0;
    std::string k = w;
    if (k == "prop") c.sc.prop = atoi(r + 1);
    else if (k == "seed") c.sc.seed = strtoul(r, 0, 10);
    else if (k == "index") c.index = atol(r);
    else if (k == "class") c.cls = r;
    else if (k == "message") c.msg = r;
    else if (k == "hash") c.hash = strtoul(r, 0, 16);
    else if (k == "cap") c.sc.cap = strtoul(r, 0, 10);
    else if (k == "cfg") { long m = strtol(r, &r, 10); for (long i = 0; i < m; i++) c.sc.cfg.push_back(strtol(r, &r, 10)); }
    else if (k == "phase") { PhaseCfg p; int a, b, d, e, g; sscanf(r, "%d %d %d %d %d", &a, &b, &d, &e, &g); p.faults = a; p.kills = b; p.sched = d; p.restarts = e; p.env = g; c.sc.phases.push_back(p); }
    else if (k == "op") { SimOp o; memset(&o, 0, sizeof o); o.id = (int) strtol(r, &r, 10); o.phase = (int) strtol(r, &r, 10); o.node = (int) strtol(r, &r, 10); o.thr = (int) strtol(r, &r, 10); o.kind = (int) strtol(r, &r, 10); for (long &v : o.a) v = strtol(r, &r, 10); c.sc.ops.push_back(o); }
    else if (k == "fault") { FDev d; char nm[32]; if (sscanf(r, "%u %lu %31s %ld", &d.uid, &d.sys, nm, &d.arg) == 4) { d.kind = 0; for (int i = 0; i < F_MAX; i++) if (!strcmp(fault_name[i], nm)) d.kind = i; c.fdevs.push_back(d); } }
    else if (k == "switch") { Dev d; if (sscanf(r, "%u %lu %u", &d.uid, &d.pt, &d.target) == 3) c.devs.push_back(d); }
    else if (k == "end") ok = true;
  }
  fclose(f);
  return ok;
}

/* ------------------------------------------------------------------ one run in a child */
struct ChildRes { int ok; int violation; uint64_t hash, shash; char cls[64]; char msg[1024]; };

static RunResult exec_case(const Case &c, bool trace) { return run_scenario(c.sc, false, c.devs, c.fdevs, trace); }

/* executes in a forked child so that a broken run cannot hurt the runner */
static ChildRes child_run(const Case &c, int wall_s) {
  ChildRes *sh = (ChildRes *) mmap(nullptr, sizeof(ChildRes), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(sh, 0, sizeof *sh);
  pid_t pid = fork();
  if (pid == 0) {
    alarm((unsigned) wall_s);
    RunResult r = exec_case(c, false);
    sh->violation = r.violation; sh->hash = r.hash; sh->shash = r.shash;
    snprintf(sh->cls, sizeof sh->cls, "%s", r.cls.c_str()); snprintf(sh->msg, sizeof sh->msg, "%s", oneline(r.msg).c_str());
    sh->ok = 1;
    _exit(0);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  ChildRes r = *sh; munmap(sh, sizeof *sh);
  return r;
}

/* the reason without numbers, to recognise the same failure */
static std::string sig_of(const std::string &cls, const std::string &msg) {
  std::string s = cls + ":";
  size_t n = 0;
  for (char c : msg) { if (isdigit((unsigned char) c)) { if (s.back() != '#') s += '#'; } else s += c; if (++n > 70) break; }
  return s;
}

/* ------------------------------------------------------------------ minimisation */
static std::vector<Case> par_try(const std::vector<Case> &cands, const std::string &cls, double deadline, std::vector<int> &which) {
  /* run candidates in parallel (8 at a time); return indices that still fail with the same class */
  std::vector<Case> good; which.clear();
  size_t i = 0;
  while (i < cands.size() && now_s() < deadline) {
    size_t m = std::min((size_t) 8, cands.size() - i);
    struct Slot { int ok, violation; char cls[64]; char msg[1024]; uint64_t hash; };
    Slot *sh = (Slot *) mmap(nullptr, sizeof(Slot) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *) sh, 0, sizeof(Slot) * 8);
    std::vector<pid_t> pids;
    for (size_t j = 0; j < m; j++) {
      pid_t pid = fork();
      if (pid == 0) { alarm(20); RunResult r = exec_case(cands[i + j], false); sh[j].violation = r.violation; sh[j].hash = r.hash; snprintf(sh[j].cls, 64, "%s", r.cls.c_str()); snprintf(sh[j].msg, 1024, "%s", oneline(r.msg).c_str()); sh[j].ok = 1; _exit(0); }
      pids.push_back(pid);
    }
    for (auto p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
    bool found = false;
    for (size_t j = 0; j < m && !found; j++) if (sh[j].ok && sh[j].violation && cls == sh[j].cls) { which.push_back((int) (i + j)); Case c = cands[i + j]; c.msg = sh[j].msg; c.hash = sh[j].hash; good.push_back(c); found = true; }
    munmap(sh, sizeof(Slot) * 8);
    if (found) return good;
    i += m;
  }
  return good;
}
template <class T, class Set> static void ddmin(Case &c, std::vector<T> (*get)(const Case &), Set set, double deadline) {
  size_t chunk = std::max((size_t) 1, get(c).size() / 2);
  while (now_s() < deadline) {
    std::vector<T> v = get(c);
    if (v.empty()) break;
    if (chunk > v.size()) chunk = v.size();
    std::vector<Case> cands;
    for (size_t i = 0; i < v.size(); i += chunk) {
      std::vector<T> w(v.begin(), v.begin() + (long) i); w.insert(w.end(), v.begin() + (long) std::min(v.size(), i + chunk), v.end());
      Case d = c; set(d, w); cands.push_back(d);
    }
    std::vector<int> which;
    auto g = par_try(cands, c.cls, deadline, which);
    if (!g.empty()) { c = g[0]; continue; }
    if (chunk == 1) break;
    chunk = (chunk + 1) / 2;
  }
}
static void minimise(Case &c, double secs) {
  double dl = now_s() + secs;
  for (int round = 0; round < 2 && now_s() < dl; round++) {
    ddmin<Dev>(c, +[](const Case &x) { return x.devs; }, [](Case &x, const std::vector<Dev> &v) { x.devs = v; }, dl);
    ddmin<FDev>(c, +[](const Case &x) { return x.fdevs; }, [](Case &x, const std::vector<FDev> &v) { x.fdevs = v; }, dl);
    ddmin<SimOp>(c, +[](const Case &x) { return x.sc.ops; }, [](Case &x, const std::vector<SimOp> &v) { x.sc.ops = v; }, dl);
  }
}

/* ------------------------------------------------------------------ known findings */
struct Known { int prop; std::string cls; regex_t re; std::string text; };
static std::vector<Known *> g_known;
static void load_known(const std::string &path) {
  /* open: property=C05 class=<class> match=<regex> :: text */
  FILE *f = fopen(path.c_str(), "r");
  if (!f) return;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    char *nl = strchr(line, '\n'); if (nl) *nl = 0;
    if (strncmp(line, "open:", 5)) continue;
    char *p = strstr(line, "property="), *c = strstr(line, "class="), *m = strstr(line, "match="), *t = strstr(line, " :: ");
    if (!p || !c || !m || !t) continue;
    Known *k = new Known; k->prop = atoi(p + 10);
    char *e = strchr(c, ' '); k->cls.assign(c + 6, e - c - 6);
    std::string re(m + 6, t - m - 6);
    if (regcomp(&k->re, re.c_str(), REG_EXTENDED | REG_NOSUB)) { fprintf(stderr, "bad pattern in known findings: %s\n", re.c_str()); exit(2); }
    k->text = t + 4;
    g_known.push_back(k);
  }
  fclose(f);
}
static Known *is_known(int prop, const std::string &cls, const std::string &msg) {
  for (auto k : g_known) if (k->prop == prop && k->cls == cls && regexec(&k->re, oneline(msg).c_str(), 0, nullptr, 0) == 0) return k;
  return nullptr;
}

/* ------------------------------------------------------------------ search */
#define NPROBE 64
struct WStat {
  uint64_t runs, nontrivial, faulty, multi, det_checked, det_failed, procs, kills, switches, preempts, syscalls, points, events, sim_ns;
  uint64_t faults[F_MAX], runs_with[F_MAX];
  uint64_t known_hits[32];
  char probe_name[NPROBE][64]; uint64_t probe_n[NPROBE]; uint64_t probe_runs[NPROBE];
  int found; long found_index; char cls[64]; char msg[1024], det_msg[1024];
  long at;            /* index of the run in progress */
  long done;
  double started;
};
#define SETCAP (1 << 23)
struct Shared { WStat w[16]; volatile int stop; volatile long next; uint64_t nhash, nshash; uint64_t set1[SETCAP], set2[SETCAP]; };

/* concurrent insert-only set shared by the workers */
static bool set_add(uint64_t *set, uint64_t h) {
  if (h == 0) h = 1;
  size_t i = h & (SETCAP - 1);
  for (int k = 0; k < 256; k++, i = (i + 1) & (SETCAP - 1)) {
    uint64_t v = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
    if (v == h) return false;
    if (v == 0) { uint64_t e = 0; if (__atomic_compare_exchange_n(&set[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true; if (e == h) return false; }
  }
  return false;
}

static Scenario make_scenario(const PropDef *pd, uint64_t base, long index) {
  Scenario sc; sc.prop = pd->num; sc.seed = mix2(mix2(base, pd->num), (uint64_t) index);
  sc.index = index;
  Rng g(mix2(sc.seed, 77));
  pd->gen(sc, g);
  return sc;
}

static void stat_probe(WStat *w, const char *name, uint64_t n) {
  for (int i = 0; i < NPROBE; i++) {
    if (!w->probe_name[i][0]) snprintf(w->probe_name[i], 64, "%s", name);
    if (!strcmp(w->probe_name[i], name)) { w->probe_n[i] += n; w->probe_runs[i]++; return; }
  }
}

static int g_detevery = 16;
static void worker(Shared *S, int me, const PropDef *pd, uint64_t base, long from, long to, double deadline) {
  WStat *w = &S->w[me];
  for (long i = from; i < to && !S->stop; i++) {
    if (now_s() > deadline) break;
    w->at = i; w->started = now_s();
    alarm(200);
    Scenario sc = make_scenario(pd, base, i);
    g_probes.clear();
    RunResult r = run_scenario(sc, true, {}, {}, false);
    bool known = false;
    if (r.violation) {
      Known *k = is_known(pd->num, r.cls, r.msg);
      if (k) { known = true; for (size_t j = 0; j < g_known.size() && j < 32; j++) if (g_known[j] == k) w->known_hits[j]++; }
    }
    auto pr = g_probes;
    if (i % g_detevery == 0 || (r.violation && !known)) {
      RunResult r2 = run_scenario(sc, true, {}, {}, false);
      w->det_checked++;
      if (r2.hash != r.hash) { w->det_failed++; snprintf(w->det_msg, sizeof w->det_msg, "run %ld is not repeatable (%s / %s)", i, r.msg.c_str(), r2.msg.c_str()); }
      else if (i % (4 * g_detevery) == 0) {
        /* the recorded decisions replayed must give the same execution */
        Case c; c.sc = sc; c.devs = r.devs; c.fdevs = r.fdevs;
        RunResult r3 = exec_case(c, false);
        if (r3.hash != r.hash) { w->det_failed++; snprintf(w->det_msg, sizeof w->det_msg, "run %ld: replay of the recorded decisions differs", i); }
      }
    }
    w->runs++;
    uint64_t nf = 0;
    for (int k = 1; k < F_MAX; k++) { w->faults[k] += r.st.faults[k]; if (r.st.faults[k]) w->runs_with[k]++; nf += r.st.faults[k]; }
    if (nf) w->faulty++;
    if (r.st.switches > r.st.procs + 1) w->multi++;
    w->procs += r.st.procs; w->kills += r.st.kills; w->switches += r.st.switches; w->preempts += r.st.preempts;
    w->syscalls += r.st.syscalls; w->points += r.st.points; w->events += r.st.events; w->sim_ns += r.st.sim_ns;
    if (set_add(S->set1, r.hash)) { __atomic_fetch_add(&S->nhash, 1, __ATOMIC_RELAXED); }
    if (r.shash && set_add(S->set2, r.shash)) __atomic_fetch_add(&S->nshash, 1, __ATOMIC_RELAXED);
    if (nf || r.st.preempts) w->nontrivial++;
    for (auto &kv : pr) stat_probe(w, kv.first.c_str(), kv.second);
    if (r.violation && !known) {
      snprintf(w->cls, sizeof w->cls, "%s", r.cls.c_str()); snprintf(w->msg, sizeof w->msg, "%s", oneline(r.msg).c_str());
      w->found_index = i; w->found = 1; S->stop = 1;
      break;
    }
  }
}

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char) c; } else if (c < 32 || c > 126) r += strf("\\u%04x", c); else r += (char) c; }
  return r + "\"";
}

static std::string exe_dir() { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); if (k < 0) return "."; b[k] = 0; char *s = strrchr(b, '/'); *s = 0; return b; }

static int replay_file(const std::string &path, bool trace, bool quiet) {
  Case c;
  if (!load_case(path, c)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
  RunResult r = exec_case(c, trace);
  if (!quiet) printf("replay %s: %s%s%s hash %016lx (recorded %016lx)\n", path.c_str(), r.violation ? "violation " : "no violation", r.cls.c_str(), r.violation ? (": " + oneline(r.msg)).c_str() : "", r.hash, c.hash);
  if (r.violation && r.hash == c.hash && r.cls == c.cls) return 1;
  return r.violation ? 3 : 0;
}

static int search(const PropDef *pd, long runs, double secs, uint64_t seed, const std::string &tier, const std::string &out, const std::string &evidence, int workers, double min_secs) {
  double t0 = now_s();
  Shared *S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  double deadline = t0 + secs;
  const long batch = 200;
  std::vector<pid_t> pids((size_t) workers, 0);
  long next = 0;
  std::vector<long> bfrom((size_t) workers, 0), bto((size_t) workers, 0);
  int harness_error = 0; std::string herr;
  long done_runs = 0;
  auto spawn = [&](int k) {
    if (next >= runs || S->stop || now_s() > deadline) { pids[k] = 0; return; }
    long bs = std::min(batch, std::max(5L, runs / (workers * 4)));
    bfrom[k] = next; bto[k] = std::min(runs, next + bs); next = bto[k];
    pid_t pid = fork();
    if (pid == 0) { worker(S, k, pd, seed, bfrom[k], bto[k], deadline); _exit(0); }
    pids[k] = pid;
  };
  for (int k = 0; k < workers; k++) spawn(k);
  int crash_found = -1;
  for (;;) {
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    for (int k = 0; k < workers; k++) if (pids[k] == p) {
      if (WIFSIGNALED(st)) {
        herr = strf("worker died with signal %d in run %ld after %.1f s", WTERMSIG(st), S->w[k].at, now_s() - S->w[k].started);
        harness_error = 1; S->stop = 1; crash_found = k;
      }
      spawn(k);
    }
    bool any = false; for (auto q : pids) if (q) any = any || kill(q, 0) == 0;
    if (!any) { bool left = false; for (auto q : pids) if (q) left = true; if (!left) break; }
  }
  (void) crash_found; (void) min_secs;
  double t_search = now_s() - t0;
  WStat T; memset((void *) &T, 0, sizeof T);
  std::map<std::string, std::pair<uint64_t, uint64_t>> probes;
  int found = -1;
  for (int k = 0; k < workers; k++) {
    WStat &w = S->w[k];
    T.runs += w.runs; T.nontrivial += w.nontrivial; T.faulty += w.faulty; T.multi += w.multi; T.det_checked += w.det_checked; T.det_failed += w.det_failed;
    T.procs += w.procs; T.kills += w.kills; T.switches += w.switches; T.preempts += w.preempts; T.syscalls += w.syscalls; T.points += w.points; T.events += w.events; T.sim_ns += w.sim_ns;
    for (int i = 0; i < F_MAX; i++) { T.faults[i] += w.faults[i]; T.runs_with[i] += w.runs_with[i]; }
    for (int i = 0; i < 32; i++) T.known_hits[i] += w.known_hits[i];
    for (int i = 0; i < NPROBE && w.probe_name[i][0]; i++) { probes[w.probe_name[i]].first += w.probe_n[i]; probes[w.probe_name[i]].second += w.probe_runs[i]; }
    if (w.found && (found < 0 || w.found_index < S->w[found].found_index)) found = k;
    if (w.det_failed && !harness_error) { harness_error = 1; herr = w.det_msg; }
  }
  done_runs = (long) T.runs;
  std::string viol_path, viol_msg;
  if (found >= 0) {
    /* reproduce, minimise, verify in a fresh process */
    long idx = S->w[found].found_index;
    Case c; c.sc = make_scenario(pd, seed, idx); c.index = idx;
    RunResult r = run_scenario(c.sc, true, {}, {}, false);
    if (!r.violation || r.cls != S->w[found].cls) { harness_error = 1; herr = strf("run %ld failed in a worker (%s: %s) but not when repeated", idx, S->w[found].cls, S->w[found].msg); }
    else {
      c.devs = r.devs; c.fdevs = r.fdevs; c.cls = r.cls; c.msg = r.msg; c.hash = r.hash;
      mkdir(out.c_str(), 0755);
      std::string full = out + strf("/%s-%lu-%ld.full.replay", pd->id, seed, idx);
      Case full_c = c;
      ChildRes cr = child_run(c, 200);
      if (!cr.ok || !cr.violation || c.cls != cr.cls) { harness_error = 1; herr = strf("run %ld: explicit replay does not reproduce (%s: %s)", idx, c.cls.c_str(), c.msg.c_str()); }
      else {
        c.hash = cr.hash; c.msg = cr.msg; full_c.hash = cr.hash; full_c.msg = cr.msg;
        save_case(full, full_c);
        minimise(c, tier == "quick" ? 25 : 90);
        if (is_known(pd->num, c.cls, c.msg)) c = full_c;   /* never let minimisation slip into a listed finding */
        /* record the decisions actually used by the minimised run */
        ChildRes m = child_run(c, 200);
        if (!m.ok || !m.violation) { c = full_c; } else { c.hash = m.hash; c.msg = m.msg; c.cls = m.cls; }
        viol_path = out + strf("/%s-%lu-%ld.replay", pd->id, seed, idx);
        save_case(viol_path, c);
        viol_msg = c.cls + ": " + oneline(c.msg);
        /* fresh process */
        pid_t pid = fork();
        if (pid == 0) { std::string exe = exe_dir() + "/wzsim"; execl(exe.c_str(), "wzsim", "replay", viol_path.c_str(), "--quiet", (char *) 0); _exit(2); }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { harness_error = 1; herr = "replay in a fresh process did not reproduce " + viol_path; }
        fprintf(stderr, "violation of %s in run %ld: %s\n  minimised to %zu operations, %zu faults, %zu switches (from %zu, %zu, %zu)\n", pd->id, idx, viol_msg.c_str(),
          c.sc.ops.size(), c.fdevs.size(), c.devs.size(), full_c.sc.ops.size(), full_c.fdevs.size(), full_c.devs.size());
      }
    }
  }
  double wall = now_s() - t0;
  /* evidence */
  std::string e = "{\n";
  e += strf(" \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %lu,\n \"level\": \"exploration\",\n", pd->id, tier.c_str(), seed);
  e += " \"coverage\": {\n";
  e += strf("  \"evaluations\": %lu,\n  \"distinct_nontrivial\": %lu,\n", T.runs, S->nshash);
  e += "  \"rule\": " + jstr(pd->rule) + ",\n";
  /* samples: the first few run seeds with what they did */
  e += "  \"samples\": [";
  struct Smp { int ok; uint64_t sh; RunStats st; };
  Smp *sm = (Smp *) mmap(nullptr, sizeof(Smp), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  bool any_sample = false;
  for (long i = 0; i < std::min(6L, done_runs); i++) {
    sm->ok = 0;
    Scenario sc = make_scenario(pd, seed, i * std::max(1L, done_runs / 6));
    pid_t pid = fork();   /* a sample must not depend on, or hurt, the runner */
    if (pid == 0) { alarm(30); sm->ok = 0; RunResult q = run_scenario(sc, true, {}, {}, false); sm->sh = q.shash; sm->st = q.st; sm->ok = 1; _exit(0); }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    std::string fs; for (int f = 1; f < F_MAX; f++) if (sm->st.faults[f]) fs += strf("%s%s:%lu", fs.empty() ? "" : ",", fault_name[f], sm->st.faults[f]);
    if (sm->ok) e += strf("%s\n   {\"run\": %ld, \"run_seed\": \"%016lx\", \"operations\": %zu, \"processes\": %lu, \"switches\": %lu, \"preemptions\": %lu, \"system_calls\": %lu, \"simulated_s\": %.6f, \"faults\": \"%s\", \"schedule_hash\": \"%016lx\"}",
      any_sample ? "," : "", i * std::max(1L, done_runs / 6), sc.seed, sc.ops.size(), sm->st.procs, sm->st.switches, sm->st.preempts, sm->st.syscalls, sm->st.sim_ns * 1e-9, fs.c_str(), sm->sh), any_sample = true;
  }
  e += "\n  ],\n";
  e += strf("  \"runs_per_hour\": %.0f,\n  \"search_s\": %.2f,\n  \"simulated_time_s\": %.3f,\n", T.runs / std::max(t_search, 0.001) * 3600, t_search, T.sim_ns * 1e-9);
  e += strf("  \"distinct_executions\": %lu,\n", S->nhash);
  e += "  \"distinctness\": \"64-bit hash of the sequence of recorded scheduling deviations and injected faults of a run (distinct_nontrivial), respectively of every context switch, system call, lock acquisition and recorded result (distinct_executions)\",\n";
  e += strf("  \"runs_with_faults\": %lu,\n  \"runs_with_preemption_or_fault\": %lu,\n  \"runs_interleaved\": %lu,\n", T.faulty, T.nontrivial, T.multi);
  e += strf("  \"simulated_processes\": %lu,\n  \"kills\": %lu,\n  \"context_switches\": %lu,\n  \"preemptions\": %lu,\n  \"system_calls\": %lu,\n  \"scheduling_points\": %lu,\n  \"history_events\": %lu,\n",
    T.procs, T.kills, T.switches, T.preempts, T.syscalls, T.points, T.events);
  e += strf("  \"determinism_double_runs\": %lu,\n  \"determinism_mismatches\": %lu,\n", T.det_checked, T.det_failed);
  e += "  \"faults\": {"; bool first = true;
  for (int i = 1; i < F_MAX; i++) if (T.faults[i]) { e += strf("%s\"%s\": {\"injected\": %lu, \"runs\": %lu}", first ? "" : ", ", fault_name[i], T.faults[i], T.runs_with[i]); first = false; }
  e += "},\n  \"probes\": {"; first = true;
  for (auto &p : probes) { e += strf("%s%s: {\"hits\": %lu, \"runs\": %lu}", first ? "" : ", ", jstr(p.first).c_str(), p.second.first, p.second.second); first = false; }
  e += "},\n  \"known_findings_hit\": {"; first = true;
  for (size_t i = 0; i < g_known.size() && i < 32; i++) if (g_known[i]->prop == pd->num) { e += strf("%s%s: %lu", first ? "" : ", ", jstr(g_known[i]->text).c_str(), T.known_hits[i]); first = false; }
  e += "},\n";
  e += "  \"real_components\": [\"all of wizard/*.c\", \"utilities/*.c\", \"zlib\", \"bzip2\", \"liblzma\"],\n";
  e += "  \"simulated_components\": [\"threads and scheduler\", \"heap\", \"file system, descriptors and buffered streams\", \"mappings\", \"clocks and sleeping\", \"system entropy\", \"process identity, signals and kills\", \"environment\"]\n";
  e += " },\n";
  e += strf(" \"wall_s\": %.2f,\n \"violations\": %d,\n", wall, found >= 0 && !harness_error ? 1 : 0);
  if (found >= 0) e += " \"violation\": " + jstr(viol_msg) + ",\n \"replay\": " + jstr(viol_path) + ",\n";
  e += " \"assumptions\": [\"sequentially consistent memory\", \"preemption happens at memory accesses, locks and system calls of the library\", \"a killed process loses its memory and buffered stream data; completed writes survive\"]\n}\n";
  FILE *f = fopen(evidence.c_str(), "w");
  if (f) { fputs(e.c_str(), f); fclose(f); }
  for (size_t i = 0; i < g_known.size() && i < 32; i++) if (g_known[i]->prop == pd->num) printf("KNOWN-FINDING: property=%s %s (seen in %lu runs)\n", pd->id, g_known[i]->text.c_str(), T.known_hits[i]);
  printf("%s: %lu runs, %lu distinct schedules, %.1f s\n", pd->id, T.runs, S->nshash, wall);
  if (harness_error) { fprintf(stderr, "check error: %s\n", herr.c_str()); return 2; }
  if (found >= 0) { printf("%s\nVIOLATION property=%s replay=%s\n", viol_msg.c_str(), pd->id, viol_path.c_str()); return 1; }
  return 0;
}

int main(int argc, char **argv) {
  setenv("TZ", "UTC0", 1);
  tzset();
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::map<std::string, std::string> opt; std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--") == 0) { if (i + 1 < argc && strncmp(argv[i + 1], "--", 2)) { opt[a.substr(2)] = argv[i + 1]; i++; } else opt[a.substr(2)] = "1"; }
    else pos.push_back(a);
  }
  if (pos.empty()) { fprintf(stderr, "usage: wzsim search|replay|one|determinism ...\n"); return 2; }
  if (opt.count("known")) load_known(opt["known"]);
  uint64_t seed = opt.count("seed") ? strtoul(opt["seed"].c_str(), 0, 10) : 1;
  if (pos[0] == "replay") return replay_file(pos.at(1), opt.count("trace"), opt.count("quiet"));
  const PropDef *pd = find_prop(atoi(pos.at(1).c_str() + 1));
  if (!pd) { fprintf(stderr, "no such property %s\n", pos[1].c_str()); return 2; }
  if (pos[0] == "one") {
    Scenario sc = make_scenario(pd, seed, atol(opt["index"].c_str()));
    double t = now_s();
    RunResult r = run_scenario(sc, true, {}, {}, opt.count("trace"));
    printf("%s %s %s hash %016lx schedule %016lx ops %zu switches %lu preempts %lu syscalls %lu points %lu sim %.3f s wall %.4f s\n", pd->id, r.violation ? r.cls.c_str() : "ok", r.msg.c_str(), r.hash, r.shash, sc.ops.size(), r.st.switches, r.st.preempts, r.st.syscalls, r.st.points, r.st.sim_ns * 1e-9, now_s() - t);
    return r.violation;
  }
  if (pos[0] == "scan") {     /* development: run many and count distinct failures */
    long n = atol(opt["runs"].c_str()); std::map<std::string, std::pair<long, long>> seen; double t = now_s();
    long from = opt.count("from") ? atol(opt["from"].c_str()) : 0;
    int W8 = 8; int pfd[2]; if (pipe(pfd)) return 2;
    for (int k = 0; k < W8; k++) if (fork() == 0) {
      for (long i = from + k; i < from + n; i += W8) {
        fflush(stdout);
        pid_t pid = (i / W8) % 50 == 0 ? 0 : 0; (void) pid;
        alarm(200);
        Scenario sc = make_scenario(pd, seed, i);
        g_probes.clear();
        RunResult r = run_scenario(sc, true, {}, {}, false);
        if (r.violation) { std::string s = strf("%ld\t%s%s\n", i, is_known(pd->num, r.cls, r.msg) ? "[known] " : "", sig_of(r.cls, oneline(r.msg)).c_str()); ssize_t q = write(pfd[1], s.data(), s.size()); (void) q; }
        for (auto &kv : g_probes) { std::string s = strf("%ld\tprobe:%s\n", i, kv.first.c_str()); ssize_t q = write(pfd[1], s.data(), s.size()); (void) q; }
      }
      _exit(0);
    }
    close(pfd[1]);
    FILE *f = fdopen(pfd[0], "r"); char line[4096];
    while (fgets(line, sizeof line, f)) { char *tab = strchr(line, '\t'); if (!tab) continue; std::string s = tab + 1; s.pop_back(); auto &e = seen[s]; if (!e.first++) e.second = atol(line); }
    int bad = 0;
    for (int k = 0; k < W8; k++) { int st; wait(&st); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
    for (auto &kv : seen) printf("%6ld  first %ld  %s\n", kv.second.first, kv.second.second, kv.first.c_str());
    printf("%ld runs in %.1f s%s\n", n, now_s() - t, bad ? strf(" (%d workers died)", bad).c_str() : "");
    return 0;
  }
  if (pos[0] == "mini") {     /* minimise one failing run */
    long idx = atol(opt["index"].c_str());
    Case c; c.sc = make_scenario(pd, seed, idx); c.index = idx;
    RunResult r = run_scenario(c.sc, true, {}, {}, false);
    if (!r.violation) { printf("no violation\n"); return 0; }
    c.devs = r.devs; c.fdevs = r.fdevs; c.cls = r.cls; c.msg = r.msg; c.hash = r.hash;
    ChildRes cr = child_run(c, 200);
    if (!cr.ok || !cr.violation || c.cls != cr.cls) { printf("replay does not reproduce (%d %d %s %s)\n", cr.ok, cr.violation, cr.cls, cr.msg); return 2; }
    if (cr.hash != r.hash) printf("note: explicit replay hash differs\n");
    minimise(c, 60);
    RunResult q = exec_case(c, false); c.hash = q.hash; c.msg = q.msg;
    save_case(opt.count("out") ? opt["out"] : "/tmp/mini.replay", c);
    printf("%s: %s\n%zu ops %zu faults %zu switches\n", c.cls.c_str(), c.msg.c_str(), c.sc.ops.size(), c.fdevs.size(), c.devs.size());
    return 1;
  }
  if (pos[0] == "determinism") {
    long n = atol(opt["runs"].c_str()); uint64_t h = 0;
    for (long i = opt.count("from") ? atol(opt["from"].c_str()) : 0; i < n; i++) { Scenario sc = make_scenario(pd, seed, i); RunResult r = run_scenario(sc, true, {}, {}, opt.count("trace")); if (opt.count("twice")) { RunResult q = run_scenario(sc, true, {}, {}, opt.count("trace")); if (q.hash != r.hash) printf("%ld differs\n", i); } h = mix2(h, r.hash); if (opt.count("v")) printf("%ld %016lx\n", i, r.hash); }
    printf("%s %ld runs digest %016lx\n", pd->id, n, h);
    return 0;
  }
  if (pos[0] == "search") {
    long runs = opt.count("runs") ? atol(opt["runs"].c_str()) : 1000;
    double secs = opt.count("time") ? atof(opt["time"].c_str()) : 60;
    int workers = opt.count("workers") ? atoi(opt["workers"].c_str()) : 8;
    return search(pd, runs, secs, seed, opt.count("tier") ? opt["tier"] : "quick", opt.count("out") ? opt["out"] : "/tmp", opt.count("evidence") ? opt["evidence"] : "/dev/null", std::min(workers, 16), 0);
  }
  return 2;
}
