/*
  Simulator core: fibers, scheduler, fault injection, virtual clock, heap, file system and the
  replacements (w_*) of every libc call made by the library under test.
*/
#include "core.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/times.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>
#include <dirent.h>
#include <pwd.h>
#include <ctype.h>
#include <wchar.h>
#include <ucontext.h>

const char *fault_name[F_MAX] = {"none", "io-error", "disk-full", "interrupted", "short-transfer", "too-many-files",
  "access-denied", "out-of-memory", "close-error", "stall", "clock-jump", "signal", "kill-before-call",
  "kill-mid-call", "kill-after-call", "no-syscall", "name-taken"};

long Rng::logrange(long lo, long hi) {
  double a = 0, b = 0;
  long r = hi - lo + 1;
  while ((1L << (long) b) < r) b += 1;
  a = unit() * b;
  long v = (1L << (long) a);
  v = (long) below((uint64_t) v * 2);
  if (v >= r) v = (long) below((uint64_t) r);
  return lo + v;
}

std::string strf(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  char *s = nullptr;
  if (vasprintf(&s, fmt, ap) < 0) s = nullptr;
  va_end(ap);
  std::string r(s ? s : "");
  free(s);
  return r;
}

/* ------------------------------------------------------------------ symbols */
static std::vector<std::pair<uint64_t, std::string>> symtab;
std::string symbolize(void *pc) {
  if (symtab.empty()) {
    char exe[4096]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 8);
    if (k > 0) {
      exe[k] = 0; strcat(exe, ".sym");
      if (FILE *f = fopen(exe, "r")) {
        char line[512]; unsigned long a; char t; char name[400];
        while (fgets(line, sizeof line, f)) if (sscanf(line, "%lx %c %399s", &a, &t, name) == 3 && (t == 't' || t == 'T')) symtab.push_back({a, name});
        fclose(f);
      }
    }
    if (symtab.empty()) symtab.push_back({0, "?"});
  }
  auto it = std::upper_bound(symtab.begin(), symtab.end(), std::make_pair((uint64_t) pc, std::string("\x7f")));
  if (it == symtab.begin()) return "?";
  --it;
  std::string n = it->second;
  if (n.size() > 3 && n[0] == 'n' && isdigit((unsigned char) n[1]) && n[2] == '_') n = n.substr(3);
  size_t d = n.find('.'); if (d != std::string::npos) n = n.substr(0, d);
  return n;
}

/* ------------------------------------------------------------------ fibers */
#define STACK_SIZE (1024 * 1024)
#define MAXFIBER 64
#define STACK_BASE 0x310000000000UL

enum { ST_FREE, ST_READY, ST_BLOCKED, ST_SLEEP, ST_DEAD };

struct Proc;
struct Fiber {
  uint32_t uid; int slot; int thr; Proc *proc;
  int state;
  void *sp; char *stack;
  int err;
  uint64_t points;      /* accesses + calls so far */
  uint64_t sys;         /* system calls so far */
  uint64_t wake;        /* ST_SLEEP */
  const void *wait;     /* ST_BLOCKED: address */
  const char *waitname;
  int quiet;
  long faults;
  std::vector<const SimOp *> prog; size_t pc;
  std::map<unsigned, void *> tls;
  const char *sysname;
  uint64_t run_points;  /* points at switch-in (fairness) */
  const SimOp *cur_op;
  uint64_t last_dev;    /* point of the last recorded deviation */
};

struct OpenFile { Inode *ino; uint64_t pos; int flags; int refs; std::string path; int lock = 0; uint64_t wbeg = 0, wend = 0; /* latest write */ };

struct SimFile;
struct Proc {
  int node, life, phase, pid;
  bool alive, killed = false, reaped = false;
  std::vector<OpenFile *> fds;
  std::vector<SimFile *> files;
  std::map<int, struct sigaction> sig;
  std::string out, err;
  long faults;
  int nthreads, nlive;
  Fiber *main_fiber;
  std::vector<Fiber *> fibers;
  bool threads_started;
  int sigdepth;
  std::string cwd;
  std::map<uint64_t, struct Map *> maps;
  uint64_t nblocks, nbytes;
  std::string in; size_t inpos;
  uint64_t rnd = 1;
};

struct Map { Proc *p; uint64_t addr; size_t len; Inode *ino; uint64_t off; bool shared; };

struct World {
  const Scenario *sc = nullptr;
  const PropDef *pd = nullptr;
  bool generate = true, trace = false;
  Rng rs, rf, re;                     /* schedule, fault, entropy */
  std::map<uint32_t, std::map<uint64_t, uint32_t>> devs;
  std::map<uint32_t, std::map<uint64_t, std::pair<int, long>>> fdevs;
  RunResult res;
  std::vector<Event> hist;
  std::vector<ProcExit> exits;
  std::vector<std::string> planted;
  unsigned long fclasses = 0;
  uint64_t now = 0;                   /* monotonic ns */
  int64_t wall = 0;                   /* wall offset ns */
  uint64_t cpu = 0;
  int phase = 0;
  PhaseCfg pc;
  long fault_left = 0; int kill_left = 0, signal_left = 0;
  bool disk_full = false;
  uint64_t steps = 0, cap = 0;
  uint64_t hash = 0, shash = 0;
  int pid_next = 1000;
  std::map<std::string, Inode *> fs;
  std::vector<Inode *> inodes;
  std::map<std::string, std::string> env;
  std::vector<char *> environ_v;
  std::vector<std::string> environ_s;
  Proc *procs[SIM_MAXNODE] = {};
  std::vector<Proc *> allprocs;
  int lives[SIM_MAXNODE] = {};
  Fiber *fib[MAXFIBER] = {};
  int pattern = 0;
  uint64_t evseq = 0;
  bool stop = false;
  uint64_t entropy_n = 0, mkstemp_n = 0;
  Tty tty[SIM_MAXNODE];
  struct termios term[SIM_MAXNODE];
};
static World W;
Tty *w_tty = W.tty;
/* cfg[15]: bit 0 the clocks stand still, bit 1 a restarted process has its predecessor's pid, bit 2 a failed close loses nothing */
static inline long world_flags() { return W.sc->cfg.size() > 15 ? W.sc->cfg[15] : 0; }
static inline uint64_t clk_now() { return world_flags() & 1 ? 100000000000UL : W.now; }
static inline uint64_t clk_cpu() { return world_flags() & 1 ? 0 : W.cpu; }
static Fiber *cur;                    /* running fiber, NULL in scheduler context */
static void *sched_sp;
static char *stacks[MAXFIBER];
std::vector<Event> *w_history = &W.hist;
std::vector<ProcExit> *w_exits = &W.exits;
std::vector<std::string> *w_planted = &W.planted;
unsigned long *w_fault_classes = &W.fclasses;
std::map<std::string, uint64_t> g_probes;
std::vector<const PropDef *> g_props;
const PropDef *find_prop(int num) { for (auto p : g_props) if (p->num == num) return p; return nullptr; }
void probe(const char *name) { g_probes[name]++; }
bool world_failed() { return W.res.violation; }
uint64_t world_now() { return W.now; }

extern "C" void ctx_switch(void **save, void *to);
asm(".text\n.globl ctx_switch\nctx_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

static inline void hmix(uint64_t v) { W.hash = mix64(W.hash ^ v) + v; }
static inline void smix(uint64_t v) { W.shash = mix64(W.shash ^ v) + v; }

/* memory-access countdown */
static long g_budget = 1L << 40, g_budget_init = 1L << 40;
static int g_conflict;                /* conflict-directed preemption active */
static uint64_t g_conf_thresh;

static inline void sync_points() {
  uint64_t d = (uint64_t)(g_budget_init - g_budget);
  cur->points += d; W.res.st.points += d; W.now += d; W.cpu += d; W.steps += d;
  g_budget_init = g_budget;
}

static void to_sched() {
  Fiber *f = cur;
  f->err = errno;
  ctx_switch(&f->sp, sched_sp);
  errno = f->err;
}

static void refill() {
  long b;
  if (cur->quiet || !W.pc.sched) b = 1000000;
  else if (W.generate) {
    const double p = W.sc->sc.p_mem;
    if (p <= 0) b = 1000000;
    else {
      double u = W.rs.unit();
      if (u <= 0) u = 1e-12;
      b = 1 + (long) (__builtin_log(u) / __builtin_log(1 - p));
      if (b > 1000000) b = 1000000;
      if (b < 1) b = 1;
    }
  } else {
    b = 1000000;
    auto it = W.devs.find(cur->uid);
    if (it != W.devs.end()) {
      auto d = it->second.upper_bound(cur->points);
      if (d != it->second.end() && d->first - cur->points < 1000000) b = (long) (d->first - cur->points);
    }
  }
  g_budget = g_budget_init = b;
}

static bool runnable(Fiber *f) { return f && f->state == ST_READY; }

static void violation_here(const char *cls, const std::string &msg) {
  if (!W.res.violation) {
    W.res.violation = true;
    W.res.cls = cls;
    W.res.msg = msg;
  }
  W.stop = true;
}
void violation(const char *cls, const std::string &msg) {
  violation_here(cls, msg);
  if (cur) { to_sched(); abort(); }
}
extern "C" void sim_violation(const char *cls, const char *fmt, ...) {
  char buf[2048];
  va_list ap; va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  violation(cls, buf);
  abort();
}

static Fiber *pick_other(Fiber *self) {
  Fiber *c[MAXFIBER]; int n = 0;
  for (int i = 0; i < MAXFIBER; i++) if (W.fib[i] && W.fib[i] != self && runnable(W.fib[i])) c[n++] = W.fib[i];
  if (!n) return nullptr;
  return c[W.rs.below(n)];
}
static Fiber *find_uid(uint32_t uid) {
  for (int i = 0; i < MAXFIBER; i++) if (W.fib[i] && W.fib[i]->uid == uid && W.fib[i]->state != ST_DEAD) return W.fib[i];
  return nullptr;
}
static Fiber *g_next;                 /* who the scheduler must run next */

static void check_cap() {
  if (W.steps > W.cap) {
    std::string m = "no progress within the step bound; running:";
    for (int i = 0; i < MAXFIBER; i++) if (W.fib[i] && W.fib[i]->state != ST_DEAD)
      m += strf(" [node %d thread %d op %d last call %s]", W.fib[i]->proc->node, W.fib[i]->thr,
        W.fib[i]->cur_op ? W.fib[i]->cur_op->kind : -1, W.fib[i]->sysname ? W.fib[i]->sysname : "-");
    violation("hang", m);
  }
}

static void switch_to(Fiber *t) {
  W.res.st.preempts++;
  smix(((uint64_t) cur->uid << 40) ^ (cur->points << 8) ^ t->uid);
  W.res.devs.push_back({cur->uid, cur->points, t->uid});
  cur->last_dev = cur->points;
  g_next = t;
  if (W.trace) fprintf(stderr, "  [%u@%lu] preempted, run %u\n", cur->uid, cur->points, t->uid);
  to_sched();
}

/* decision at the current point; p: probability of preemption */
static void decide(double p) {
  if (cur->quiet || !W.pc.sched) return;
  if (W.generate) {
    if (p > 0 && W.rs.chance(p)) { Fiber *t = pick_other(cur); if (t) switch_to(t); }
  } else {
    auto it = W.devs.find(cur->uid);
    if (it != W.devs.end()) {
      auto d = it->second.find(cur->points);
      if (d != it->second.end()) { Fiber *t = find_uid(d->second); if (t && t != cur && runnable(t)) switch_to(t); }
    }
  }
}

static void slow_point() {
  sync_points();
  check_cap();
  if (W.generate) decide(W.sc->sc.p_mem > 0 || cur->points - cur->run_points > 4000000 ? 1.0 : 0.0);
  else decide(0);
  refill();
}

static void point(double p) {
  --g_budget;
  sync_points();
  check_cap();
  decide(p);
  if (g_budget <= 0) refill();
}

/* ------------------------------------------------------------------ heap */
#define ARENA_BASE 0x200000000000UL
#define ARENA_NODE (192UL << 20)
#define ARENA_SIZE (ARENA_NODE * SIM_MAXNODE)
#define SHADOW_BASE 0x280000000000UL
#define CONF_BASE 0x290000000000UL    /* last accessor per granule */
enum { SH_RED = 0xfa, SH_FREED = 0xfd, SH_UNUSED = 0xff };

struct Blk { uint64_t addr, size, total; uint32_t state; uint32_t kind; };   /* lives in the arena before the block */
struct Heap {
  uint64_t base, top, hw;
  std::unordered_map<uint64_t, std::vector<uint64_t>> freel;   /* total -> blocks */
  std::unordered_map<uint64_t, size_t> freepos;
};
static Heap heaps[SIM_MAXNODE];

static inline uint8_t *shadow(uint64_t a) { return (uint8_t *) (SHADOW_BASE + ((a - ARENA_BASE) >> 3)); }

static void heap_init() {
  if (mmap((void *) ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *) ARENA_BASE) { perror("arena"); exit(2); }
  if (mmap((void *) SHADOW_BASE, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *) SHADOW_BASE) { perror("shadow"); exit(2); }
  if (mmap((void *) CONF_BASE, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *) CONF_BASE) { perror("conf"); exit(2); }
  for (int i = 0; i < SIM_MAXNODE; i++) {
    heaps[i].base = heaps[i].top = heaps[i].hw = ARENA_BASE + i * ARENA_NODE;
  }
  for (int i = 0; i < MAXFIBER; i++) {
    char *s = (char *) mmap((void *) (STACK_BASE + (uint64_t) i * (STACK_SIZE + 65536)), STACK_SIZE + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (s == MAP_FAILED) { perror("stack"); exit(2); }
    mprotect(s, 65536, PROT_NONE);
    stacks[i] = s + 65536;
  }
}

static void heap_reset(int node) {
  Heap &h = heaps[node];
  if (h.top > h.base) {
    uint64_t n = h.top - h.base;
    memset(shadow(h.base), 0, n / 8 + 1);
    memset((void *) (CONF_BASE + ((h.base - ARENA_BASE) >> 3)), 0, n / 8 + 1);
    if (n > (24UL << 20)) {
      madvise((void *) (h.base + (24UL << 20)), (n - (24UL << 20) + 4095) & ~4095UL, MADV_DONTNEED);
    }
  }
  h.top = h.base;
  h.freel.clear(); h.freepos.clear();
}

static void mark(uint64_t a, size_t n, size_t total_after) {
  /* user region addressable, tail red */
  uint8_t *s = shadow(a);
  size_t full = n >> 3;
  memset(s, 0, full);
  size_t i = full;
  if (n & 7) s[i++] = (uint8_t) (n & 7);
  size_t end = (n + total_after) >> 3;
  while (i < end) s[i++] = SH_RED;
}

/* in the shadow: 0 = addressable or never allocated above h.top (checked separately) */
static uint64_t heap_alloc(int node, size_t n, size_t align) {
  Heap &h = heaps[node];
  if (align < 16) align = 16;
  if (n > ARENA_NODE / 2) return 0;
  size_t body = (n + 15) & ~15UL;
  size_t head = 64 > align ? 64 : align;
  size_t total = head + body + 32;
  total = (total + align - 1) & ~(align - 1);
  uint64_t key = total * 4096 + align;
  uint64_t blk = 0;
  uint64_t limit = h.base + ARENA_NODE - 4096;
  uint64_t start = (h.top + align - 1) & ~(uint64_t) (align - 1);
  bool reuse = (h.top - h.base) > (20UL << 20);
  if (reuse) {
    auto it = h.freel.find(key);
    if (it != h.freel.end()) {
      size_t &pos = h.freepos[key];
      if (pos + 4 < it->second.size()) {
        blk = it->second[pos++];
        if (pos > 1024) { it->second.erase(it->second.begin(), it->second.begin() + pos); pos = 0; }
      }
    }
  }
  if (!blk) {
    if (start + total > limit) return 0;
    blk = start;
    h.top = start + total;
  }
  uint64_t user = blk + head;
  memset(shadow(blk), SH_RED, (user - blk) >> 3);
  Blk *b = (Blk *) (user - 48);
  b->addr = user; b->size = n; b->total = key; b->state = 0xA110C; b->kind = 0;
  size_t tail = blk + total - user - n;
  mark(user, n, tail);
  return user;
}

static Blk *blk_of(uint64_t user) {
  Blk *b = (Blk *) (user - 48);
  return b;
}

static int cur_node() { return cur ? cur->proc->node : 0; }

static void heap_free_blk(int node, uint64_t user) {
  Heap &h = heaps[node];
  Blk *b = blk_of(user);
  b->state = 0xF4EE;
  size_t align = b->total & 4095, total = b->total / 4096;
  size_t head = 64 > align ? 64 : align;
  memset(shadow(user), SH_FREED, (b->size + 7) >> 3);
  (void) total;
  h.freel[b->total].push_back(user - head);
}

extern char n0_image_start[], n0_image_end[];

static __attribute__((noinline, noreturn)) void bad_access(uint64_t a, size_t n, bool w, void *pc) {
  const char *what = "invalid";
  std::string extra;
  if (a < 65536) what = "null-pointer";
  else {
    uint64_t off = a - ARENA_BASE;
    if (off < ARENA_SIZE) {
      uint8_t s = *shadow(a);
      if (s == 0 || (s < 8 && (a & 7) + n > s)) { s = *shadow(a + n - 1); }
      what = s == SH_FREED ? "freed-memory" : "out-of-bounds";
    }
  }
  sync_points();
  violation("memory", strf("%s %s of %zu bytes at %s", what, w ? "write" : "read", n, symbolize(pc).c_str()));
  abort();
}

static inline bool range_ok(uint64_t a, size_t n) {
  uint64_t off = a - ARENA_BASE;
  if (off >= ARENA_SIZE) return a >= 65536;
  uint64_t node = off / ARENA_NODE;
  if (a + n > heaps[node].top) return false;
  if (cur && (int) node != cur->proc->node) return false;
  uint8_t *s = shadow(a);
  uint8_t *e = shadow(a + n - 1);
  /* first granules must be fully addressable up to the last */
  while (s < e && ((uintptr_t) s & 7)) { if (*s) return false; s++; }
  while (s + 8 <= e) { if (*(uint64_t *) s) return false; s += 8; }
  while (s < e) { if (*s) return false; s++; }
  uint8_t last = *e;
  return last == 0 || ((last < 8) && (((a + n - 1) & 7) < last));
}

static inline void check_range(const void *p, size_t n, bool w, void *pc) {
  if (n == 0 || !cur) return;
  if (!range_ok((uint64_t) p, n)) bad_access((uint64_t) p, n, w, pc);
}
extern "C" int sim_mem_ok(const void *p, size_t n) { return n == 0 || range_ok((uint64_t) p, n) ? 0 : 1; }

static __attribute__((noinline)) void conflict_point() {
  if (cur->quiet || !W.pc.sched) return;
  sync_points();
  if (cur->last_dev == cur->points) return;
  if (W.rs.next() < g_conf_thresh) { Fiber *t = pick_other(cur); if (t) switch_to(t); }
  if (g_budget <= 0) refill();
}

static uint64_t glob_lo, glob_hi;      /* all node images' writable data */
static uint8_t *glob_conf;

static inline __attribute__((always_inline)) void acc(uint64_t a, size_t n, bool w, void *pc) {
  if (__builtin_expect(!cur, 0)) return;
  if (__builtin_expect(--g_budget <= 0, 0)) slow_point();
  uint64_t off = a - ARENA_BASE;
  if (off < ARENA_SIZE) {
    uint8_t s = *shadow(a);
    if (__builtin_expect(s != 0 || (a & 7) + n > 8, 0)) { if (!range_ok(a, n)) bad_access(a, n, w, pc); }
    else if (__builtin_expect(a + n > heaps[cur->proc->node].top || a < heaps[cur->proc->node].base, 0)) bad_access(a, n, w, pc);
    if (__builtin_expect(g_conflict, 0)) {
      uint8_t *c = (uint8_t *) (CONF_BASE + (off >> 3));
      uint8_t me = (uint8_t) (cur->slot + 1);
      if (*c != me) { uint8_t o = *c; *c = me; if (o) conflict_point(); }
    }
  } else if (__builtin_expect(a < 65536, 0)) bad_access(a, n, w, pc);
  else if (__builtin_expect(g_conflict, 0) && a - glob_lo < glob_hi - glob_lo) {
    uint8_t *c = glob_conf + ((a - glob_lo) >> 3);
    uint8_t me = (uint8_t) (cur->slot + 1);
    if (*c != me) { uint8_t o = *c; *c = me; if (o) conflict_point(); }
  }
}

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void *a) { acc((uint64_t) a, n, false, PC); } \
  void __tsan_write##n(void *a) { acc((uint64_t) a, n, true, PC); } \
  void __tsan_read_write##n(void *a) { acc((uint64_t) a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { acc((uint64_t) a, n, false, PC); } \
  void __tsan_volatile_write##n(void *a) { acc((uint64_t) a, n, true, PC); } \
  void __tsan_unaligned_read##n(void *a) { acc((uint64_t) a, n, false, PC); } \
  void __tsan_unaligned_write##n(void *a) { acc((uint64_t) a, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void *a) { acc((uint64_t) a, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void *a) { acc((uint64_t) a, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void *a) { acc((uint64_t) a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { --g_budget; check_range(a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { --g_budget; check_range(a, n, true, PC); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
/* atomics: plain operations on a single OS thread, with a scheduling point before */
#define ATOM(T, B) \
  T __tsan_atomic##B##_load(const volatile T *a, int) { acc((uint64_t) a, sizeof(T), false, PC); if (cur) point(std::max(W.sc->sc.p_sync, 0.02)); return *a; } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int) { acc((uint64_t) a, sizeof(T), true, PC); if (cur) point(std::max(W.sc->sc.p_sync, 0.02)); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { acc((uint64_t) a, sizeof(T), true, PC); if (cur) point(std::max(W.sc->sc.p_sync, 0.02)); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { acc((uint64_t) a, sizeof(T), true, PC); if (cur) point(std::max(W.sc->sc.p_sync, 0.02)); T o = *a; *a = (T) (o + v); return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { acc((uint64_t) a, sizeof(T), true, PC); if (cur) point(std::max(W.sc->sc.p_sync, 0.02)); T o = *a; *a = (T) (o - v); return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { acc((uint64_t) a, sizeof(T), true, PC); if (cur) point(std::max(W.sc->sc.p_sync, 0.02)); T o = *a; *a = (T) (o & v); return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { acc((uint64_t) a, sizeof(T), true, PC); if (cur) point(std::max(W.sc->sc.p_sync, 0.02)); T o = *a; *a = (T) (o | v); return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { acc((uint64_t) a, sizeof(T), true, PC); if (cur) point(std::max(W.sc->sc.p_sync, 0.02)); T o = *a; *a = (T) (o ^ v); return o; } \
  T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { acc((uint64_t) a, sizeof(T), true, PC); if (cur) point(std::max(W.sc->sc.p_sync, 0.02)); T o = *a; *a = (T) ~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acc((uint64_t) a, sizeof(T), true, PC); if (cur) point(std::max(W.sc->sc.p_sync, 0.02)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int n) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, n); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acc((uint64_t) a, sizeof(T), true, PC); if (cur) point(std::max(W.sc->sc.p_sync, 0.02)); T o = *a; if (o == c) *a = v; return o; }
ATOM(uint8_t, 8) ATOM(uint16_t, 16) ATOM(uint32_t, 32) ATOM(uint64_t, 64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

/* ------------------------------------------------------------------ node images */
struct NodeImage {
  char *data_lo, *data_hi, *bss_lo, *bss_hi;
  void (*setup)(int); void (*thread)(int, int); void (*teardown)(int);
  std::string snap;
};
static NodeImage images[SIM_MAXNODE];
extern "C" {
#define NODE(k) \
  extern char __start_ndata##k[] __attribute__((weak)), __stop_ndata##k[] __attribute__((weak)); \
  extern char __start_nbss##k[] __attribute__((weak)), __stop_nbss##k[] __attribute__((weak)); \
  void n##k##_wl_setup(int); void n##k##_wl_thread(int, int); void n##k##_wl_teardown(int);
NODE(0) NODE(1) NODE(2) NODE(3)
}
static void images_init() {
#define INIT(k) \
  images[k].data_lo = __start_ndata##k; images[k].data_hi = __stop_ndata##k; \
  images[k].bss_lo = __start_nbss##k; images[k].bss_hi = __stop_nbss##k; \
  images[k].setup = n##k##_wl_setup; images[k].thread = n##k##_wl_thread; images[k].teardown = n##k##_wl_teardown; \
  images[k].snap.assign(images[k].data_lo, images[k].data_hi - images[k].data_lo);
  INIT(0) INIT(1) INIT(2) INIT(3)
  glob_lo = ~0UL; glob_hi = 0;
  for (int k = 0; k < SIM_MAXNODE; k++) {
    for (char *p : {images[k].data_lo, images[k].bss_lo}) if (p && (uint64_t) p < glob_lo) glob_lo = (uint64_t) p;
    for (char *p : {images[k].data_hi, images[k].bss_hi}) if (p && (uint64_t) p > glob_hi) glob_hi = (uint64_t) p;
  }
  glob_lo &= ~7UL;
  glob_conf = (uint8_t *) calloc(1, (glob_hi - glob_lo) / 8 + 8);
}
static void image_reset(int k) {
  memcpy(images[k].data_lo, images[k].snap.data(), images[k].snap.size());
  memset(images[k].bss_lo, 0, images[k].bss_hi - images[k].bss_lo);
}

/* ------------------------------------------------------------------ file system */
static std::string norm(const char *path, const Proc *p) {
  std::string s(path ? path : "");
  if (s.empty()) return s;
  if (s[0] != '/') s = (p ? p->cwd : std::string("/w")) + "/" + s;
  std::vector<std::string> parts; size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('/', i); if (j == std::string::npos) j = s.size();
    std::string c = s.substr(i, j - i);
    if (c == "..") { if (!parts.empty()) parts.pop_back(); }
    else if (!c.empty() && c != ".") parts.push_back(c);
    i = j + 1;
  }
  std::string r;
  for (auto &c : parts) r += "/" + c;
  return r.empty() ? "/" : r;
}
static std::string dirname_of(const std::string &p) { size_t i = p.rfind('/'); return i == 0 || i == std::string::npos ? "/" : p.substr(0, i); }
static Inode *new_inode(int type) {
  Inode *i = new Inode; i->type = type; i->id = (int) W.inodes.size() + 10; W.inodes.push_back(i);
  i->mtime = (long) ((W.now + W.wall) / 1000000000);
  if (type == 1) i->mode = 0755;
  return i;
}
Inode *fs_find(const std::string &path) { auto it = W.fs.find(path); return it == W.fs.end() ? nullptr : it->second; }
void fs_mkdirs(const std::string &path) {
  if (path != "/" && !path.empty()) { fs_mkdirs(dirname_of(path)); if (!fs_find(path)) W.fs[path] = new_inode(1); }
}
Inode *fs_put(const std::string &path, const std::string &data, int type) {
  fs_mkdirs(dirname_of(path));
  Inode *i = fs_find(path);
  if (!i) { i = new_inode(type); W.fs[path] = i; }
  i->type = type; i->data = data;
  return i;
}
bool fs_remove(const std::string &path) { return W.fs.erase(path) > 0; }
std::vector<std::string> fs_list(const std::string &prefix) {
  std::vector<std::string> r;
  for (auto it = W.fs.lower_bound(prefix); it != W.fs.end() && it->first.compare(0, prefix.size(), prefix) == 0; ++it)
    if (it->second->type != 1) r.push_back(it->first);
  return r;
}
void world_env(const char *name, const std::string &value) { W.env[name] = value; }
std::string data_for(uint64_t seed, unsigned long tag, long n) {
  std::string s((size_t) (n < 0 ? 0 : n), '\0');
  Rng r(mix2(seed, tag ^ 0xdada));
  for (long i = 0; i < n; i += 8) { uint64_t v = r.next(); memcpy(&s[i], &v, n - i < 8 ? n - i : 8); }
  return s;
}
extern "C" {
void sim_fill(void *p, long n, unsigned long tag) { std::string s = data_for(W.sc->seed, tag, n); memcpy(p, s.data(), n); }
unsigned long sim_hash64(unsigned long tag) { return mix2(W.sc->seed, tag ^ 0xdada); }
}

/* ------------------------------------------------------------------ processes */
static void proc_gone(Proc *p, bool killed, int code, const char *why, bool abnormal);
static void close_all(Proc *p);
struct SimFile { FILE *f; int fd; Proc *p; int locked_by; bool dead; int depth; };

static Fiber *new_fiber(Proc *p, int thr, void (*entry)());
static void fiber_main_entry();
static void fiber_thread_entry();

static struct termios sane_terminal() {
  struct termios t; memset(&t, 0, sizeof t);
  t.c_iflag = ICRNL | IXON; t.c_oflag = OPOST | ONLCR; t.c_cflag = CS8 | CREAD; t.c_lflag = ISIG | ICANON | ECHO | ECHOE | ECHOK; t.c_cc[VINTR] = 3; t.c_cc[VEOF] = 4;
  return t;
}
static void start_proc(int node, int life, const std::vector<std::vector<const SimOp *>> &prog) {
  Proc *p = new Proc;
  p->node = node; p->life = life; p->phase = W.phase; p->pid = world_flags() & 2 ? 1000 + node : W.pid_next++; p->alive = true;
  p->faults = 0; p->threads_started = false; p->sigdepth = 0; p->cwd = "/w"; p->nblocks = p->nbytes = 0;
  p->inpos = 0;
  W.term[node] = sane_terminal();
  Tty &y = W.tty[node]; y.lines.clear(); y.now.clear(); y.line = y.at = 0; y.asked = false;
  W.procs[node] = p; W.allprocs.push_back(p);
  W.res.st.procs++;
  heap_reset(node);
  image_reset(node);
  p->nthreads = (int) prog.size(); p->nlive = 0;
  for (int t = 0; t < (int) prog.size(); t++) {
    Fiber *f = new_fiber(p, t, t == 0 ? fiber_main_entry : fiber_thread_entry);
    f->prog = prog[t];
    if (t > 0) { f->state = ST_BLOCKED; f->wait = &p->threads_started; f->waitname = "thread start"; }
    p->fibers.push_back(f);
  }
  p->main_fiber = p->fibers[0];
}

static void fiber_tramp() { abort(); }
static Fiber *new_fiber(Proc *p, int thr, void (*entry)()) {
  int slot = -1;
  for (int i = 0; i < MAXFIBER; i++) if (!W.fib[i]) { slot = i; break; }
  if (slot < 0) { fprintf(stderr, "too many fibers\n"); _exit(2); }
  Fiber *f = new Fiber();
  f->uid = (uint32_t) (p->node | thr << 2 | W.lives[p->node] << 6);
  f->slot = slot; f->thr = thr; f->proc = p; f->state = ST_READY; f->stack = stacks[slot];
  f->sysname = nullptr; f->cur_op = nullptr; f->last_dev = ~0UL;
  memset(f->stack + STACK_SIZE - (256 << 10), W.pattern, 256 << 10);
  uint64_t *sp = (uint64_t *) (f->stack + STACK_SIZE);
  *--sp = (uint64_t) fiber_tramp;  /* return address of entry */
  *--sp = (uint64_t) entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp;
  W.fib[slot] = f;
  p->nlive++;
  return f;
}

static void wake_waiters(const void *addr) {
  for (int i = 0; i < MAXFIBER; i++) if (W.fib[i] && W.fib[i]->state == ST_BLOCKED && W.fib[i]->wait == addr) W.fib[i]->state = ST_READY;
}

static void block_on(const void *addr, const char *name) {
  cur->state = ST_BLOCKED; cur->wait = addr; cur->waitname = name;
  --g_budget; sync_points();
  to_sched();
  if (g_budget <= 0) refill();
}

static void sleep_ns(uint64_t ns) {
  cur->state = ST_SLEEP;
  --g_budget; sync_points();
  cur->wake = W.now + ns;
  to_sched();
  if (g_budget <= 0) refill();
}

static void fiber_done() {
  Fiber *f = cur; Proc *p = f->proc;
  f->tls.clear();
  --g_budget;
  sync_points();
  f->state = ST_DEAD;
  p->nlive--;
  wake_waiters(&p->nlive);
  to_sched();
  abort();
}

static void fiber_main_entry() {
  Proc *p = cur->proc;
  errno = 0;
  refill();
  images[p->node].setup(W.sc->prop);
  p->threads_started = true;
  wake_waiters(&p->threads_started);
  images[p->node].thread(W.sc->prop, 0);
  while (p->nlive > 1) block_on(&p->nlive, "join");
  images[p->node].teardown(W.sc->prop);
  --g_budget;
  sync_points();
  proc_gone(p, false, 0, nullptr, false);
  to_sched();
  abort();
}
static void fiber_thread_entry() {
  errno = 0;
  refill();
  images[cur->proc->node].thread(W.sc->prop, cur->thr);
  fiber_done();
}

static void proc_gone(Proc *p, bool killed, int code, const char *why, bool abnormal) {
  if (!p->alive) return;
  if (!killed || (why && !strcmp(why, "signal"))) { struct termios t = sane_terminal(); if (memcmp(&t, &W.term[p->node], sizeof t)) violation("terminal", "a process ended without giving the terminal back as it was"); }
  p->alive = false; p->killed = killed;
  for (auto &m : p->maps) {   /* shared file mappings reach the file */
    Map *mp = m.second;
    if (mp->ino) {
      mp->ino->maps--;
      if (mp->shared) { size_t n = mp->len; if (mp->off < mp->ino->data.size()) { n = std::min(n, mp->ino->data.size() - (size_t) mp->off); memcpy(&mp->ino->data[mp->off], (void *) mp->addr, n); } }
    }
    delete mp;
  }
  p->maps.clear();
  close_all(p);
  for (auto f : p->fibers) f->state = ST_DEAD;
  ProcExit x; x.node = p->node; x.life = p->life; x.phase = p->phase; x.killed = killed; x.code = code; x.signo = 0;
  x.err = p->err; x.out = p->out;
  W.exits.push_back(x);
  Event e; e.type = killed ? 4 : 3; e.uid = 0; e.node = p->node; e.thr = 0; e.life = p->life; e.phase = p->phase; e.op = -1; e.kind = 0;
  e.status = code; e.value = abnormal; e.seq = W.evseq++; e.t = W.now; e.faults = p->faults;
  if (why) e.data = why;
  W.hist.push_back(e);
  hmix(0xE0 ^ (uint64_t) code << 8 ^ (uint64_t) killed << 40);
  if (W.trace) fprintf(stderr, "  process node %d life %d %s code %d %s\n", p->node, p->life, killed ? "KILLED" : "exits", code, why ? why : "");
  if (killed) { W.res.st.kills++; W.lives[p->node]++; }
}

static __attribute__((noreturn)) void die(bool killed, int code, const char *why, bool abnormal) {
  --g_budget;
  sync_points();
  proc_gone(cur->proc, killed, code, why, abnormal);
  to_sched();
  abort();
}

/* ------------------------------------------------------------------ faults */
static void record_fault(int kind, long arg) {
  W.res.fdevs.push_back({cur->uid, cur->sys, kind, arg});
  W.res.st.faults[kind]++;
  smix(0xFA0000 ^ kind ^ ((uint64_t) cur->uid << 32) ^ (cur->sys << 12));
  if (kind != F_STALL && kind != F_CLOCK && kind != F_SHORT && kind != F_EINTR && kind != F_SIGNAL) { cur->proc->faults++; }
  if (kind != F_STALL && kind != F_CLOCK) cur->faults++;
  if (W.trace) fprintf(stderr, "  [%u sys %lu %s] FAULT %s %ld\n", cur->uid, cur->sys, cur->sysname, fault_name[kind], arg);
}

struct SysRes { int fault; long arg; };

static void run_signal(int signo, bool sent);
extern "C" { static void add_event(int type, int op, int kind, long st, long v, const void *d, long n); }

/* common entry of every simulated system call */
static SysRes enter_sys(int cls, const char *name, const std::string *path = nullptr, bool yields = true, bool eintr = true) {
  SysRes r = {F_NONE, 0};
  if (!cur) return r;
  cur->sys++;
  cur->sysname = name;
  W.res.st.syscalls++;
  W.now += 1000;
  W.steps += 40;
  const bool pathok = W.sc->fc.only_path.empty() || !path || path->find(W.sc->fc.only_path) != std::string::npos;
  hmix(((uint64_t) cur->uid << 32) ^ (cur->sys << 8) ^ cls);
  if (yields) { point(W.sc->sc.p_sys); }
  if (cur->quiet) return r;
  int kind = F_NONE; long arg = 0;
  if (W.generate) {
    const FaultCfg &fc = W.sc->fc;
    if (W.pc.faults) {
      if (W.fault_left > 0 && pathok) {
        double u = W.rf.unit();
        for (int k = 1; k < F_MAX; k++) {
          double p = fc.p[cls][k];
          if (p > 0) { if (u < p) { kind = k; break; } u -= p; }
        }
        if (kind == F_EINTR && (!eintr || (!fc.eintr_path.empty() && path && path->find(fc.eintr_path) == std::string::npos))) kind = F_NONE;
        if (kind) {
          W.fault_left--;
          if (kind == F_SHORT) arg = fc.short_max ? 1 + (long) W.rf.below(fc.short_max) : (long) (W.rf.next() >> 2);
          else if (kind == F_ENOSPC) arg = (long) W.rf.below(4);
          else if (kind == F_EIO) arg = (long) W.rf.below(4);
        }
      }
      if (!kind && fc.p_stall > 0 && cls != S_MALLOC && W.rf.chance(fc.p_stall)) { kind = F_STALL; arg = 1 + (long) W.rf.below(fc.stall_max_ms); }
      if (!kind && fc.p_clock > 0 && cls != S_MALLOC && W.rf.chance(fc.p_clock)) {
        kind = F_CLOCK;
        static const long mag[] = {1, 10, 1000, 60000, 3600000, 86400000, 31536000000};
        arg = mag[W.rf.below(7)] * (W.rf.chance(0.5) ? 1 : -1);
      }
      if (!kind && fc.p_signal > 0 && W.signal_left > 0 && cls != S_MALLOC && W.rf.chance(fc.p_signal)) { kind = F_SIGNAL; arg = (long) W.rf.below(3); W.signal_left--; }
    }
    if (!kind && W.pc.kills && W.kill_left > 0 && fc.p_kill > 0 && (fc.kill_nodes >> cur->proc->node & 1) && W.rf.chance(fc.p_kill)) {
      int c = (int) W.rf.below(3);
      kind = c == 0 ? F_KILL : c == 1 ? F_KILLMID : F_KILLAFTER;
      arg = (long) (W.rf.next() >> 2);
      W.kill_left--;
    }
  } else {
    auto it = W.fdevs.find(cur->uid);
    if (it != W.fdevs.end()) {
      auto d = it->second.find(cur->sys);
      if (d != it->second.end()) { kind = d->second.first; arg = d->second.second; }
    }
  }
  if (kind == F_SIGNAL && cls == S_MALLOC) kind = F_NONE;
  if (!kind) return r;
  record_fault(kind, arg);
  W.fclasses |= 1UL << cls;
  switch (kind) {
    case F_STALL: sleep_ns((uint64_t) arg * 1000000); return r;
    case F_CLOCK: W.wall += (int64_t) arg * 1000000; return r;
    case F_SIGNAL: run_signal(arg == 0 ? SIGTERM : arg == 1 ? SIGINT : SIGHUP, true); return r;
    case F_KILL: die(true, 0, "killed", false);
    default: break;
  }
  r.fault = kind; r.arg = arg;
  return r;
}
static inline void exit_sys(const SysRes &r) { if (r.fault == F_KILLAFTER || r.fault == F_KILLMID) die(true, 0, "killed", false); }

static int fault_errno(int k) {
  switch (k) {
    case F_EIO: case F_CLOSEFAIL: return EIO;
    case F_ENOSPC: return ENOSPC;
    case F_EINTR: return EINTR;
    case F_EMFILE: return EMFILE;
    case F_EACCES: return EACCES;
    case F_ENOMEM: return ENOMEM;
    case F_ENOSYS: return ENOSYS;
  }
  return 0;
}

static void run_signal(int signo, bool sent) {
  Proc *p = cur->proc;
  auto it = p->sig.find(signo);
  if (it == p->sig.end() || it->second.sa_handler == SIG_DFL) {
    if (it == p->sig.end()) return;        /* not handled by the program: not delivered */
    die(true, 128 + signo, "signal", false);
  }
  if (it->second.sa_handler == SIG_IGN) return;
  if (sent) add_event(2, -1, NT_INTR, signo, 0, nullptr, 0);
  void (*h)(int) = it->second.sa_handler;
  p->sigdepth++;
  probe("signal handler ran");
  add_event(2, -1, 99, signo, 0, nullptr, 0);
  h(signo);
  p->sigdepth--;
}

/* a signal the process sends to itself or that comes from its terminal; true: a call is interrupted */
static bool take_signal(int signo) {
  Proc *p = cur->proc;
  auto it = p->sig.find(signo);
  if (it == p->sig.end() || it->second.sa_handler == SIG_DFL) {
    if (signo == SIGTSTP || signo == SIGTTIN || signo == SIGTTOU) { sleep_ns(1000000000); return false; }      /* stopped, and continued a while later */
    if (signo == SIGCONT || signo == SIGCHLD || signo == SIGURG || signo == SIGWINCH) return false;
    die(true, 128 + signo, "signal", false);
  }
  if (it->second.sa_handler == SIG_IGN) return false;
  const bool restart = it->second.sa_flags & SA_RESTART;
  run_signal(signo, false);
  return !restart;
}
/* ------------------------------------------------------------------ libc replacements */
extern "C" {

/* ---- memory */
static void *do_alloc(size_t n, size_t align, bool zero, void *pc, const char *name) {
  if (!cur) return nullptr;
  (void) pc;
  SysRes r = enter_sys(S_MALLOC, name, nullptr, false);
  if (r.fault == F_ENOMEM) { errno = ENOMEM; return nullptr; }
  uint64_t a = heap_alloc(cur->proc->node, n, align);
  if (!a) { errno = ENOMEM; return nullptr; }
  cur->proc->nblocks++; cur->proc->nbytes += n;
  if (zero) memset((void *) a, 0, n);
  else memset((void *) a, W.pattern, n);
  exit_sys(r);
  return (void *) a;
}
static void do_free(void *q, void *pc) {
  if (!q) return;
  if (!cur) return;
  uint64_t a = (uint64_t) q;
  uint64_t off = a - ARENA_BASE;
  if (off >= ARENA_SIZE || off / ARENA_NODE != (uint64_t) cur->proc->node) violation("memory", "free of a pointer that is not a heap block at " + symbolize(pc));
  Blk *b = blk_of(a);
  if (a + 1 > heaps[cur->proc->node].top || b->addr != a || (b->state != 0xA110C && b->state != 0xF4EE)) violation("memory", "free of a pointer that is not a heap block at " + symbolize(pc));
  if (b->state == 0xF4EE) violation("memory", "double free at " + symbolize(pc));
  cur->proc->nblocks--; cur->proc->nbytes -= b->size;
  heap_free_blk(cur->proc->node, a);
}
void *w_malloc(size_t n) { return do_alloc(n, 16, false, PC, "malloc"); }
void *w_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return do_alloc(n, 16, true, PC, "calloc"); }
void w_free(void *p) { do_free(p, PC); }
void *w_realloc(void *p, size_t n) {
  if (!p) return do_alloc(n, 16, false, PC, "realloc");
  if (n == 0) { do_free(p, PC); return nullptr; }
  uint64_t a = (uint64_t) p;
  if (a - ARENA_BASE >= ARENA_SIZE || blk_of(a)->addr != a || blk_of(a)->state != 0xA110C) violation("memory", "realloc of a pointer that is not a live heap block at " + symbolize(PC));
  void *q = do_alloc(n, 16, false, PC, "realloc");
  if (!q) return nullptr;
  memcpy(q, p, std::min((size_t) blk_of(a)->size, n));
  do_free(p, PC);
  return q;
}
void *w_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return w_realloc(p, n); }
int w_posix_memalign(void **out, size_t align, size_t n) {
  int e = errno;
  void *p = do_alloc(n, align, false, PC, "posix_memalign");
  errno = e;
  if (!p) return ENOMEM;
  *out = p; return 0;
}
void *w_memalign(size_t align, size_t n) { return do_alloc(n, align, false, PC, "memalign"); }
void *w_aligned_alloc(size_t align, size_t n) { return do_alloc(n, align, false, PC, "aligned_alloc"); }
size_t w_malloc_usable_size(void *p) { return p ? blk_of((uint64_t) p)->size : 0; }
char *w_strdup(const char *s) { size_t n = strlen(s) + 1; check_range(s, n, false, PC); char *p = (char *) do_alloc(n, 16, false, PC, "strdup"); if (p) memcpy(p, s, n); return p; }
char *w_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *) do_alloc(n + 1, 16, false, PC, "strndup"); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

void *w_memcpy(void *d, const void *s, size_t n) { if (cur) { if (--g_budget <= 0) slow_point(); check_range(s, n, false, PC); check_range(d, n, true, PC); } return memcpy(d, s, n); }
void *w_memmove(void *d, const void *s, size_t n) { if (cur) { if (--g_budget <= 0) slow_point(); check_range(s, n, false, PC); check_range(d, n, true, PC); } return memmove(d, s, n); }
void *w_memset(void *d, int c, size_t n) { if (cur) { if (--g_budget <= 0) slow_point(); check_range(d, n, true, PC); } return memset(d, c, n); }
int w_memcmp(const void *a, const void *b, size_t n) { if (cur) { if (--g_budget <= 0) slow_point(); check_range(a, n, false, PC); check_range(b, n, false, PC); } return memcmp(a, b, n); }
void *w_memchr(const void *a, int c, size_t n) { if (cur) { if (--g_budget <= 0) slow_point(); void *r = (void *) memchr(a, c, n); check_range(a, r ? (size_t) ((char *) r - (char *) a) + 1 : n, false, PC); return r; } return (void *) memchr(a, c, n); }
void *w___memcpy_chk(void *d, const void *s, size_t n, size_t) { return w_memcpy(d, s, n); }
void *w___memset_chk(void *d, int c, size_t n, size_t) { return w_memset(d, c, n); }
void *w___memmove_chk(void *d, const void *s, size_t n, size_t) { return w_memmove(d, s, n); }
static size_t cstr(const char *s, void *pc) {   /* strlen with check */
  if ((uint64_t) s < 65536) bad_access((uint64_t) s, 1, false, pc);
  if (--g_budget <= 0) slow_point();
  uint64_t off = (uint64_t) s - ARENA_BASE;
  size_t n;
  if (off < ARENA_SIZE) { if (!range_ok((uint64_t) s, 1)) bad_access((uint64_t) s, 1, false, pc); n = strnlen(s, ARENA_BASE + ARENA_SIZE - (uint64_t) s); check_range(s, n + 1, false, pc); }
  else n = strlen(s);
  return n;
}
size_t w_strlen(const char *s) { if (!cur) return strlen(s); return cstr(s, PC); }
size_t w_strnlen(const char *s, size_t m) { size_t n = strnlen(s, m); if (cur) check_range(s, n < m ? n + 1 : n, false, PC); return n; }
char *w_strcpy(char *d, const char *s) { size_t n = cstr(s, PC); check_range(d, n + 1, true, PC); return (char *) memcpy(d, s, n + 1); }
char *w_strncpy(char *d, const char *s, size_t n) { check_range(d, n, true, PC); return strncpy(d, s, n); }
char *w_strcat(char *d, const char *s) { size_t m = cstr(d, PC), n = cstr(s, PC); check_range(d, m + n + 1, true, PC); memcpy(d + m, s, n + 1); return d; }
char *w_strncat(char *d, const char *s, size_t n) { size_t m = cstr(d, PC), k = strnlen(s, n); check_range(d, m + k + 1, true, PC); return strncat(d, s, n); }
size_t w_strlcpy(char *d, const char *s, size_t n) { size_t k = cstr(s, PC); if (n) { size_t m = k < n ? k : n - 1; check_range(d, m + 1, true, PC); memcpy(d, s, m); d[m] = 0; } return k; }
size_t w_strlcat(char *d, const char *s, size_t n) { size_t m = strnlen(d, n), k = cstr(s, PC); if (m < n) { size_t c = k < n - m ? k : n - m - 1; check_range(d, m + c + 1, true, PC); memcpy(d + m, s, c); d[m + c] = 0; } return m + k; }
int w_strcmp(const char *a, const char *b) { cstr(a, PC); cstr(b, PC); return strcmp(a, b); }
int w_strcasecmp(const char *a, const char *b) { cstr(a, PC); cstr(b, PC); return strcasecmp(a, b); }
int w_strncmp(const char *a, const char *b, size_t n) { if (n && (((uint64_t) a < 65536) || ((uint64_t) b < 65536))) bad_access(0, 1, false, PC); if (--g_budget <= 0) slow_point(); return strncmp(a, b, n); }
int w_strncasecmp(const char *a, const char *b, size_t n) { if (n && (((uint64_t) a < 65536) || ((uint64_t) b < 65536))) bad_access(0, 1, false, PC); if (--g_budget <= 0) slow_point(); return strncasecmp(a, b, n); }
char *w_strchr(const char *s, int c) { cstr(s, PC); return (char *) strchr(s, c); }
char *w_strrchr(const char *s, int c) { cstr(s, PC); return (char *) strrchr(s, c); }
char *w_strstr(const char *s, const char *t) { cstr(s, PC); cstr(t, PC); return (char *) strstr(s, t); }
size_t w_strspn(const char *s, const char *t) { cstr(s, PC); cstr(t, PC); return strspn(s, t); }
size_t w_strcspn(const char *s, const char *t) { cstr(s, PC); cstr(t, PC); return strcspn(s, t); }

/* ---- threads */
struct SimMutex { uint32_t magic, owner; uint32_t count; int kind; };
enum { MX_DEAD = 0xdeadbeef, MX_LIVE = 0x51515151 };
int w_pthread_mutexattr_init(pthread_mutexattr_t *a) { *(int *) a = 0; return 0; }
int w_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int w_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *) a = t; return 0; }
int w_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  check_range(m, sizeof *m, true, PC);
  SimMutex *s = (SimMutex *) m; memset((void *) m, 0, sizeof *m); s->magic = MX_LIVE; s->kind = a ? *(const int *) a : 0; return 0;
}
int w_pthread_mutex_destroy(pthread_mutex_t *m) {
  check_range(m, sizeof *m, true, PC);
  point(W.sc->sc.p_sync);
  SimMutex *s = (SimMutex *) m;
  if (s->magic == MX_DEAD) return EINVAL;
  if (s->count) return EBUSY;
  s->magic = MX_DEAD; return 0;
}
static int mutex_lock(pthread_mutex_t *m, bool try_, void *pc) {
  cur->sysname = "mutex lock";
  point(W.sc->sc.p_sync);
  for (;;) {
    check_range(m, sizeof *m, true, pc);
    SimMutex *s = (SimMutex *) m;
    if (s->magic == MX_DEAD) return EINVAL;
    if (!s->count) { s->owner = cur->uid; s->count = 1; break; }
    if (s->owner == cur->uid) {
      if (s->kind == PTHREAD_MUTEX_RECURSIVE) { s->count++; break; }
      if (s->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (try_) return EBUSY;
    block_on(m, "mutex");
  }
  hmix(0x10C ^ ((uint64_t) cur->uid << 20));
  return 0;
}
int w_pthread_mutex_lock(pthread_mutex_t *m) { return mutex_lock(m, false, PC); }
int w_pthread_mutex_trylock(pthread_mutex_t *m) { return mutex_lock(m, true, PC); }
int w_pthread_mutex_unlock(pthread_mutex_t *m) {
  cur->sysname = "mutex unlock";
  check_range(m, sizeof *m, true, PC);
  SimMutex *s = (SimMutex *) m;
  if (s->magic == MX_DEAD) return EINVAL;
  if (s->kind == PTHREAD_MUTEX_ERRORCHECK && (!s->count || s->owner != cur->uid)) return EPERM;
  if (s->kind == PTHREAD_MUTEX_RECURSIVE && s->count > 1) { s->count--; return 0; }
  s->count = 0; s->owner = 0;
  wake_waiters(m);
  point(W.sc->sc.p_sync);
  return 0;
}
pthread_t w_pthread_self(void) { return (pthread_t) (0x700000000000UL + (cur ? (uint64_t) (cur->thr + 1) * 0x800000 : 0)); }
int w_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
static unsigned key_next;
int w_pthread_key_create(unsigned *k, void (*)(void *)) { *k = ++key_next; return 0; }
int w_pthread_key_delete(unsigned k) { for (auto f : cur->proc->fibers) f->tls.erase(k); return 0; }
void *w_pthread_getspecific(unsigned k) { auto it = cur->tls.find(k); return it == cur->tls.end() ? nullptr : it->second; }
int w_pthread_setspecific(unsigned k, const void *v) { cur->tls[k] = (void *) v; return 0; }
int w_pthread_once(int *o, void (*fn)(void)) { if (*o == 2) return 0; while (*o == 1) block_on(o, "once"); if (*o == 0) { *o = 1; fn(); *o = 2; wake_waiters(o); } return 0; }
int w_sched_yield(void) { point(0.5); return 0; }
/* reader/writer locks and spin locks as plain locks with reader count */
int w_pthread_spin_init(volatile int *l, int) { *l = 0; return 0; }
int w_pthread_spin_lock(volatile int *l) { point(W.sc->sc.p_sync); while (*l) block_on((void *) l, "spin"); *l = 1; return 0; }
int w_pthread_spin_unlock(volatile int *l) { *l = 0; wake_waiters((void *) l); point(W.sc->sc.p_sync); return 0; }
int w_pthread_spin_destroy(volatile int *) { return 0; }
struct SimRw { uint32_t magic; int readers, writer; };
int w_pthread_rwlock_init(SimRw *l, const void *) { memset((void *) l, 0, sizeof *l); return 0; }
int w_pthread_rwlock_destroy(SimRw *) { return 0; }
int w_pthread_rwlock_rdlock(SimRw *l) { point(W.sc->sc.p_sync); while (l->writer) block_on(l, "rwlock"); l->readers++; return 0; }
int w_pthread_rwlock_wrlock(SimRw *l) { point(W.sc->sc.p_sync); while (l->writer || l->readers) block_on(l, "rwlock"); l->writer = 1; return 0; }
int w_pthread_rwlock_unlock(SimRw *l) { if (l->writer) l->writer = 0; else if (l->readers) l->readers--; wake_waiters(l); point(W.sc->sc.p_sync); return 0; }

/* ---- process */
int w_getpid(void) { return cur ? cur->proc->pid : 1; }
int w_getppid(void) { return 2; }
long w_gettid(void) { return cur->proc->pid * 10 + cur->thr; }
unsigned w_getuid(void) { return 1000; }
unsigned w_geteuid(void) { return 1000; }
unsigned w_getgid(void) { return 1000; }
unsigned w_getegid(void) { return 1000; }
int w_kill(int pid, int sig) {
  SysRes r = enter_sys(S_PROC, "kill");
  if (r.fault == F_EACCES) { errno = EPERM; return -1; }
  int rc = -1; errno = ESRCH;
  for (int i = 0; i < SIM_MAXNODE; i++) if (W.procs[i] && W.procs[i]->alive && W.procs[i]->pid == pid) {
    rc = 0;
    if (sig != SIGKILL && sig != 0 && W.procs[i] == cur->proc) take_signal(sig);
    if (sig == SIGKILL) { if (W.procs[i] == cur->proc) die(true, 0, "killed", false); proc_gone(W.procs[i], true, 0, "killed", false); }
  }
  exit_sys(r);
  return rc;
}
void w_exit(int code) {
  sync_points();
  std::vector<SimFile *> fl = cur->proc->files;
  for (auto s : fl) if (!s->dead && s->f) fflush(s->f);
  die(false, code, "exit", false);
}
void w__exit(int code) { die(false, code, "_exit", false); }
void w__Exit(int code) { die(false, code, "_exit", false); }
void w_abort(void) { violation("abort", "abort() at " + symbolize(PC)); abort(); }
void w___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  const char *b = strrchr(file, '/');
  violation("assert", strf("assertion `%s' failed in %s (%s)", e, fn, b ? b + 1 : file)); (void) line; abort();
}
void w___stack_chk_fail(void) { violation("memory", "stack overflow detected at " + symbolize(PC)); abort(); }
int w_atexit(void (*)(void)) { return 0; }
int w_sigaction(int s, const struct sigaction *n, struct sigaction *o) {
  auto &m = cur->proc->sig;
  if (o) { if (m.count(s)) *o = m[s]; else { memset(o, 0, sizeof *o); o->sa_handler = SIG_DFL; } }
  if (n) m[s] = *n;
  return 0;
}
typedef void (*sighandler)(int);
sighandler w_signal(int s, sighandler h) {
  auto &m = cur->proc->sig; sighandler o = m.count(s) ? m[s].sa_handler : SIG_DFL;
  struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; m[s] = a; return o;
}
int w_sigprocmask(int, const sigset_t *, sigset_t *o) { if (o) sigemptyset(o); return 0; }
int w_pthread_sigmask(int, const sigset_t *, sigset_t *o) { if (o) sigemptyset(o); return 0; }
int w_raise(int s) {
  auto it = cur->proc->sig.find(s);
  if (s == SIGABRT && it == cur->proc->sig.end()) violation("abort", "raise(SIGABRT) at " + symbolize(PC));
  if (it == cur->proc->sig.end() || it->second.sa_handler == SIG_DFL) die(true, 128 + s, "signal", false);
  if (it->second.sa_handler != SIG_IGN) it->second.sa_handler(s);
  return 0;
}
char *w_getenv(const char *n) { auto it = W.env.find(n); return it == W.env.end() ? nullptr : (char *) it->second.c_str(); }
char *w_secure_getenv(const char *n) { return w_getenv(n); }
static char *empty_env[1];
char **w_environ = empty_env, **w___environ = empty_env;
char *w_setlocale(int, const char *) { return (char *) "C"; }
long w_sysconf(int name) {
  switch (name) {
    case _SC_PAGESIZE: return 4096;
    case _SC_PHYS_PAGES: return 262144;
    case _SC_AVPHYS_PAGES: return 131072;
    case _SC_OPEN_MAX: return 256;
    case _SC_CLK_TCK: return 100;
    case _SC_NPROCESSORS_ONLN: case _SC_NPROCESSORS_CONF: return 4;
  }
  return -1;
}
int w_getpagesize(void) { return 4096; }
static OpenFile *getfd(int fd);
static bool is_tty(int fd) { if (fd < 3) { errno = ENOTTY; return false; } OpenFile *o = getfd(fd); if (!o) return false; if (o->ino->type != 5) { errno = ENOTTY; return false; } return true; }
int w_tcgetattr(int fd, struct termios *t) { if (!is_tty(fd)) return -1; *t = W.term[cur->proc->node]; return 0; }
int w_tcsetattr(int fd, int how, const struct termios *t) {
  if (!is_tty(fd)) return -1;
  SysRes r = enter_sys(S_MISC, "tcsetattr");
  Tty &y = W.tty[cur->proc->node];
  W.term[cur->proc->node] = *t;
  if (how == TCSAFLUSH) { y.now.clear(); y.at = 0; y.asked = false; }         /* what was typed before is dropped */
  hmix(t->c_lflag);
  exit_sys(r);
  return 0;
}
int w_isatty(int) { errno = ENOTTY; return 0; }
struct passwd *w_getpwnam(const char *) { return nullptr; }
struct passwd *w_getpwuid(unsigned) { return nullptr; }
FILE *w_popen(const char *, const char *) { errno = ENOSYS; return nullptr; }
int w_pclose(FILE *) { return -1; }
int w_system(const char *) { errno = ENOSYS; return -1; }
int w_sched_getaffinity(int, size_t, void *) { return -1; }
int w_getrlimit(int, struct rlimit *r) { r->rlim_cur = 256; r->rlim_max = 256; return 0; }
int w_gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }

/* ---- clocks */
static int64_t wallns() { return (int64_t) clk_now() + (world_flags() & 1 ? 1700000000000000000L : W.wall); }
time_t w_time(time_t *t) { enter_sys(S_TIME, "time"); time_t v = (time_t) (wallns() / 1000000000); if (t) *t = v; return v; }
int w_gettimeofday(struct timeval *tv, void *) { enter_sys(S_TIME, "gettimeofday"); int64_t n = wallns(); tv->tv_sec = n / 1000000000; tv->tv_usec = (n % 1000000000) / 1000; return 0; }
int w_clock_gettime(clockid_t c, struct timespec *ts) {
  enter_sys(S_TIME, "clock_gettime");
  int64_t n = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? wallns() : c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID ? (int64_t) clk_cpu() : (int64_t) clk_now();
  ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0;
}
clock_t w_times(struct tms *t) { enter_sys(S_TIME, "times"); if (t) { clock_t n = (clock_t) (clk_cpu() / 10000000); t->tms_utime = n * 3 / 4; t->tms_stime = n - t->tms_utime; t->tms_cutime = t->tms_cstime = 0; } return (clock_t) (clk_now() / 10000000); }
clock_t w_clock(void) { enter_sys(S_TIME, "clock"); return (clock_t) (clk_cpu() / 1000); }
int w_getrusage(int, struct rusage *r) { memset(r, 0, sizeof *r); r->ru_utime.tv_sec = clk_cpu() / 1000000000; r->ru_utime.tv_usec = clk_cpu() % 1000000000 / 1000; return 0; }
int w_usleep(unsigned us) { SysRes r = enter_sys(S_SLEEP, "usleep"); if (r.fault == F_EINTR) { sleep_ns((uint64_t) us * 100); errno = EINTR; return -1; } sleep_ns((uint64_t) us * 1000); exit_sys(r); return 0; }
int w_nanosleep(const struct timespec *a, struct timespec *rem) {
  SysRes r = enter_sys(S_SLEEP, "nanosleep"); uint64_t n = (uint64_t) a->tv_sec * 1000000000 + a->tv_nsec;
  if (r.fault == F_EINTR) { sleep_ns(n / 10); if (rem) { n -= n / 10; rem->tv_sec = n / 1000000000; rem->tv_nsec = n % 1000000000; } errno = EINTR; return -1; }
  sleep_ns(n); exit_sys(r); return 0;
}
unsigned w_sleep(unsigned s) { enter_sys(S_SLEEP, "sleep"); sleep_ns((uint64_t) s * 1000000000); return 0; }
int w_select(int, void *, void *, void *, struct timeval *tv) { enter_sys(S_SLEEP, "select"); if (tv) sleep_ns((uint64_t) tv->tv_sec * 1000000000 + tv->tv_usec * 1000); return 0; }
int w_poll(void *, unsigned long, int ms) { enter_sys(S_SLEEP, "poll"); if (ms > 0) sleep_ns((uint64_t) ms * 1000000); return 0; }

/* ---- entropy */
static void entropy(void *p, size_t n) {
  uint8_t *q = (uint8_t *) p;
  while (n) { uint64_t v = W.re.next(); size_t k = n < 8 ? n : 8; memcpy(q, &v, k); q += k; n -= k; }
}
int w_getentropy(void *p, size_t n) {
  SysRes r = enter_sys(S_ENTROPY, "getentropy");
  if (n > 256) { errno = EIO; return -1; }
  if (r.fault == F_EIO || r.fault == F_ENOSYS) { errno = fault_errno(r.fault); return -1; }
  check_range(p, n, true, PC);
  entropy(p, n); exit_sys(r); return 0;
}
ssize_t w_getrandom(void *p, size_t n, unsigned) {
  SysRes r = enter_sys(S_ENTROPY, "getrandom");
  if (r.fault == F_EIO || r.fault == F_ENOSYS) { errno = fault_errno(r.fault); return -1; }
  entropy(p, n); exit_sys(r); return (ssize_t) n;
}
unsigned w_arc4random(void) { return (unsigned) W.re.next(); }
/* the C library's generator: deterministic, per process, seeded with 1 */
static uint64_t lcg() { uint64_t &s = cur->proc->rnd; s = s * 6364136223846793005UL + 1442695040888963407UL; return s >> 33; }
int w_rand(void) { return (int) (lcg() & 0x7fffffff); }
void w_srand(unsigned v) { cur->proc->rnd = v; }
long w_random(void) { return (long) (lcg() & 0x7fffffff); }
void w_srandom(unsigned v) { cur->proc->rnd = v; }
double w_drand48(void) { return (double) (lcg() & 0x7fffffff) / 2147483648.0; }
long w_lrand48(void) { return (long) (lcg() & 0x7fffffff); }
void w_srand48(long v) { cur->proc->rnd = (uint64_t) v; }

/* ---- descriptors */
static OpenFile *getfd(int fd) {
  Proc *p = cur->proc;
  if (fd < 3 || (size_t) (fd - 3) >= p->fds.size() || !p->fds[fd - 3]) { errno = EBADF; return nullptr; }
  return p->fds[fd - 3];
}
static int putfd(OpenFile *o) {
  Proc *p = cur->proc;
  for (size_t i = 0; i < p->fds.size(); i++) if (!p->fds[i]) { p->fds[i] = o; return (int) i + 3; }
  p->fds.push_back(o); return (int) p->fds.size() + 2;
}
static int do_open(const char *path, int flags, int mode) {
  if ((uint64_t) path < 65536) { errno = EFAULT; return -1; }
  std::string *np = new std::string(norm(path, cur->proc));
  SysRes r = enter_sys(S_OPEN, "open", np);
  std::string n(*np); delete np;
  if (int e = fault_errno(r.fault)) { if (!(e == ENOSPC && !(flags & O_CREAT))) { errno = e; return -1; } }
  Inode *i = fs_find(n);
  if (r.fault == F_EXIST && !i && (flags & O_CREAT) && n.find("/wizard-") != std::string::npos && fs_find(dirname_of(n))) {   /* somebody else was faster */
    W.planted.push_back(n);
    i = fs_put(n, strf("belongs to somebody else %zu", W.planted.size()));
    i->mode = 0666;
  }
  if (W.trace) fprintf(stderr, "  [%u sys %lu] open %s flags %x -> %s\n", cur->uid, cur->sys, n.c_str(), flags, i ? "exists" : "absent");
  int rc = -1;
  if (i && (flags & O_CREAT) && (flags & O_EXCL)) errno = EEXIST;
  else if (!i && !(flags & O_CREAT)) errno = ENOENT;
  else if (i && i->type == 1 && (flags & O_ACCMODE) != O_RDONLY) errno = EISDIR;
  else if (i && (i->mode & 0200) == 0 && (flags & O_ACCMODE) != O_RDONLY) errno = EACCES;
  else if (!i && (n.empty() || !fs_find(dirname_of(n)))) errno = ENOENT;
  else if (!i && W.disk_full) { cur->faults++; errno = ENOSPC; }
  else if (!i && n.size() > dirname_of(n).size() + 256) errno = ENAMETOOLONG;
  else {
    if (!i) { i = new_inode(0); i->mode = mode; W.fs[n] = i; }
    else if ((flags & O_TRUNC) && i->type == 0) { i->data.clear(); }
    OpenFile *o = new OpenFile; o->ino = i; o->pos = 0; o->flags = flags; o->refs = 1; o->path = n;
    rc = putfd(o);
  }
  hmix((uint64_t) rc);
  exit_sys(r);
  return rc;
}
int w_open(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); return do_open(path, flags, mode); }
int w_open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); return do_open(path, flags, mode); }
int w_openat(int, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap); return do_open(path, flags, mode); }
int w_creat(const char *path, int mode) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
static void unlock_file(OpenFile *o) { if (o->lock == 2) o->ino->lock_ex = 0; else if (o->lock == 1) o->ino->lock_sh--; o->lock = 0; wake_waiters(&o->ino->lock_ex); }
/* advisory whole-file locks of open file descriptions; gone with the last descriptor */
int w_flock(int fd, int op) {
  for (;;) {
    OpenFile *o = getfd(fd); if (!o) return -1;
    SysRes r = enter_sys(S_LOCK, "flock", &o->path);
    o = getfd(fd); if (!o) return -1;
    if (int e = fault_errno(r.fault)) { errno = e; return -1; }
    const int want = op & ~LOCK_NB;
    if (want == LOCK_UN) { unlock_file(o); exit_sys(r); return 0; }
    Inode *i = o->ino;
    int ex = i->lock_ex - (o->lock == 2), sh = i->lock_sh - (o->lock == 1);
    if (!ex && (want == LOCK_SH || !sh)) {
      unlock_file(o);
      if (want == LOCK_EX) { i->lock_ex = 1; o->lock = 2; } else { i->lock_sh++; o->lock = 1; }
      hmix(0xF10C); exit_sys(r);
      return 0;
    }
    if (op & LOCK_NB) { errno = EWOULDBLOCK; exit_sys(r); return -1; }
    block_on(&i->lock_ex, "file lock");
  }
}
static int do_close(int fd) {
  if (fd >= 0 && fd < 3) return 0;
  OpenFile *o = getfd(fd); if (!o) return -1;
  SysRes r = enter_sys(S_CLOSE, "close", &o->path);
  o = getfd(fd); if (!o) return -1;
  cur->proc->fds[fd - 3] = nullptr;
  if (r.fault == F_CLOSEFAIL && !(world_flags() & 4) && o->wend > o->wbeg && o->wend == o->ino->data.size() && !o->ino->maps) o->ino->data.resize((size_t) o->wbeg);   /* the delayed write was lost */
  if (--o->refs == 0) { if (o->lock) unlock_file(o); delete o; }
  exit_sys(r);
  if (r.fault == F_CLOSEFAIL || r.fault == F_EIO) { errno = EIO; return -1; }
  return 0;
}
int w_close(int fd) { return do_close(fd); }
static void maps_sync(Inode *i) {
  if (!i->maps) return;
  for (auto p : W.allprocs) if (p->alive) for (auto &m : p->maps) if (m.second->ino == i && m.second->shared) {
    Map *mp = m.second;
    if (mp->off < i->data.size()) memcpy(&i->data[mp->off], (void *) mp->addr, std::min(mp->len, i->data.size() - (size_t) mp->off));
  }
}
static void tty_note(int kind, long a, long b) { add_event(2, cur->cur_op ? cur->cur_op->id : -1, kind, a, b, nullptr, 0); }
static ssize_t tty_read(void *buf, size_t n, void *pc) {
  Tty &y = W.tty[cur->proc->node];
  if (!n) return 0;
  for (;;) {
    if (y.at >= y.now.size()) {
      if (y.asked || y.now.empty()) { y.now = y.line < y.lines.size() ? y.lines[y.line++] : y.always; y.at = 0; y.asked = false; }
      if (y.at >= y.now.size()) { tty_note(NT_EOF, 0, 0); return 0; }
    }
    const int c = y.now[y.at++];
    if (c >= TY_WAIT) { sleep_ns((uint64_t) (c - TY_WAIT) * 1000000); continue; }
    if (c == TY_EIO) { cur->faults++; cur->proc->faults++; tty_note(NT_EIO, 0, 0); errno = EIO; return -1; }
    if (c == TY_EOF) { tty_note(NT_EOF, 0, 0); return 0; }
    if (c >= TY_SIG) { tty_note(NT_INTR, c - TY_SIG, 0); if (take_signal(c - TY_SIG)) { errno = EINTR; return -1; } continue; }
    const bool echo = W.term[cur->proc->node].c_lflag & ECHO;
    if (echo) y.screen += (char) c;
    tty_note(NT_CHAR, c, echo);
    check_range(buf, 1, true, pc);
    *(char *) buf = (char) c;
    return 1;
  }
}
static ssize_t do_read(int fd, void *buf, size_t n, int64_t at, void *pc) {
  if (fd == 0) { Proc *p = cur->proc; size_t k = std::min(n, p->in.size() - p->inpos); memcpy(buf, p->in.data() + p->inpos, k); p->inpos += k; return (ssize_t) k; }
  OpenFile *o = getfd(fd); if (!o) return -1;
  if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  SysRes r = enter_sys(S_READ, "read", &o->path, true, pc != nullptr);
  o = getfd(fd); if (!o) return -1;
  Inode *i = o->ino;
  if (i->type == 5) {
    if (r.fault == F_EIO) { tty_note(NT_EIO, 0, 0); errno = EIO; return -1; }
    if (r.fault == F_EINTR) { tty_note(NT_INTR, 0, 0); errno = EINTR; return -1; }
    ssize_t k = tty_read(buf, n, pc);
    hmix((uint64_t) k);
    const int e = errno; exit_sys(r); errno = e;
    return k;
  }
  if (r.fault == F_EIO) { if (r.arg == 0) i->bad = 1; errno = EIO; return -1; }
  if (i->bad) { errno = EIO; return -1; }
  if (r.fault == F_EINTR) { errno = EINTR; return -1; }
  if (i->type == 1) { errno = EISDIR; return -1; }
  if (i->type == 3) { size_t k = n; if (r.fault == F_SHORT && n > 1) k = 1 + (size_t) r.arg % (n - 1); check_range(buf, k, true, pc); entropy(buf, k); hmix(k); exit_sys(r); return (ssize_t) k; }
  maps_sync(i);
  uint64_t pos = at >= 0 ? (uint64_t) at : o->pos;
  size_t k = pos < i->data.size() ? std::min(n, i->data.size() - (size_t) pos) : 0;
  if (r.fault == F_SHORT && k > 1) k = 1 + (size_t) r.arg % (k - 1);
  if (k) { check_range(buf, k, true, pc); memcpy(buf, i->data.data() + pos, k); }
  if (at < 0) o->pos += k;
  hmix(k);
  exit_sys(r);
  if (W.trace) fprintf(stderr, "  [%u sys %lu] read %s @%lu %zu -> %zu\n", cur->uid, cur->sys, o->path.c_str(), pos, n, k);
  return (ssize_t) k;
}
ssize_t w_read(int fd, void *b, size_t n) { return do_read(fd, b, n, -1, PC); }
ssize_t w_pread(int fd, void *b, size_t n, off_t at) { return do_read(fd, b, n, at, PC); }
ssize_t w_pread64(int fd, void *b, size_t n, off_t at) { return do_read(fd, b, n, at, PC); }
ssize_t w___read_chk(int fd, void *b, size_t n, size_t) { return do_read(fd, b, n, -1, PC); }
static ssize_t do_write(int fd, const void *buf, size_t n, int64_t at, void *pc) {
  if (fd == 1) { cur->proc->out.append((const char *) buf, n); return (ssize_t) n; }
  if (fd == 2) { cur->proc->err.append((const char *) buf, n); return (ssize_t) n; }
  OpenFile *o = getfd(fd); if (!o) return -1;
  if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  SysRes r = enter_sys(S_WRITE, "write", &o->path, true, pc != nullptr);
  o = getfd(fd); if (!o) return -1;
  Inode *i = o->ino;
  check_range(buf, n, false, pc);
  if (i->type == 5) {
    if (n > 1) tty_note(NT_PROMPT, 0, 0);
    if (int e = fault_errno(r.fault)) { errno = e; return -1; }
    Tty &y = W.tty[cur->proc->node];
    y.screen.append((const char *) buf, n);
    if (n > 1) y.asked = true;
    exit_sys(r);
    return (ssize_t) n;
  }
  if (r.fault == F_EIO) { if (r.arg == 0) i->bad = 1; errno = EIO; return -1; }
  if (i->bad) { cur->faults++; errno = EIO; return -1; }
  if (r.fault == F_EINTR) { errno = EINTR; return -1; }
  if (i->type >= 3) return (ssize_t) n;
  uint64_t pos = at >= 0 ? (uint64_t) at : (o->flags & O_APPEND) ? i->data.size() : o->pos;
  size_t k = n;
  if (r.fault == F_ENOSPC) {
    if (r.arg != 0) W.disk_full = true;
    if (n > 1 && (r.arg & 1)) k = n / 2; else { errno = ENOSPC; return -1; }
  } else if (W.disk_full && pos + n > i->data.size()) {
    cur->faults++;
    k = pos < i->data.size() ? i->data.size() - (size_t) pos : 0;
    if (!k && n) { errno = ENOSPC; return -1; }
  }
  if (r.fault == F_SHORT && k > 1) k = 1 + (size_t) r.arg % (k - 1);
  if (r.fault == F_KILLMID) k = n ? (size_t) r.arg % (n + 1) : 0;
  if (k) {
    if (pos + k > i->data.size()) { if (pos + k > (64UL << 20)) { errno = EFBIG; return -1; } i->data.resize((size_t) pos + k, '\0'); }
    memcpy(&i->data[pos], buf, k);
    o->wbeg = pos; o->wend = pos + k;
  }
  if (at < 0) o->pos = pos + k;
  i->mtime = (long) (wallns() / 1000000000);
  hmix(k);
  if (W.trace) fprintf(stderr, "  [%u sys %lu] write %s @%lu %zu -> %zu\n", cur->uid, cur->sys, o->path.c_str(), pos, n, k);
  exit_sys(r);
  return (ssize_t) k;
}
ssize_t w_write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1, PC); }
ssize_t w_pwrite(int fd, const void *b, size_t n, off_t at) { return do_write(fd, b, n, at, PC); }
ssize_t w_pwrite64(int fd, const void *b, size_t n, off_t at) { return do_write(fd, b, n, at, PC); }
off_t w_lseek(int fd, off_t off, int whence) {
  OpenFile *o = getfd(fd); if (!o) { if (fd >= 0 && fd < 3) errno = ESPIPE; return -1; }
  SysRes r = enter_sys(S_SEEK, "lseek", &o->path);
  o = getfd(fd); if (!o) return -1;
  if (int e = fault_errno(r.fault)) { errno = e; return -1; }
  if (o->ino->type >= 2) { errno = ESPIPE; return -1; }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t) o->pos : whence == SEEK_END ? (int64_t) o->ino->data.size() : -1;
  if (base < 0 || base + off < 0) { errno = EINVAL; return -1; }
  o->pos = (uint64_t) (base + off);
  exit_sys(r);
  return (off_t) o->pos;
}
off_t w_lseek64(int fd, off_t off, int whence) { return w_lseek(fd, off, whence); }
int w_fsync(int fd) { OpenFile *o = getfd(fd); if (!o) return -1; SysRes r = enter_sys(S_WRITE, "fsync", &o->path, true, false); if (int e = fault_errno(r.fault)) { errno = e; return -1; } o->wbeg = o->wend = 0; exit_sys(r); return 0; }
int w_fdatasync(int fd) { return w_fsync(fd); }
void w_sync(void) {}
int w_ftruncate(int fd, off_t n) {
  OpenFile *o = getfd(fd); if (!o) return -1;
  SysRes r = enter_sys(S_WRITE, "ftruncate", &o->path, true, false);
  o = getfd(fd); if (!o) return -1;
  if (int e = fault_errno(r.fault)) if (e != ENOSPC) { errno = e; return -1; }
  if ((size_t) n > (64UL << 20)) { errno = EFBIG; return -1; }
  o->ino->data.resize((size_t) n, '\0'); exit_sys(r); return 0;
}
int w_ftruncate64(int fd, off_t n) { return w_ftruncate(fd, n); }
int w_posix_fallocate(int fd, off_t off, off_t len) {
  OpenFile *o = getfd(fd); if (!o) return EBADF;
  SysRes r = enter_sys(S_WRITE, "posix_fallocate", &o->path);
  o = getfd(fd); if (!o) return EBADF;
  if (int e = fault_errno(r.fault)) return e;
  if (W.disk_full) return ENOSPC;
  if ((size_t) (off + len) > (64UL << 20)) return EFBIG;
  if (o->ino->data.size() < (size_t) (off + len)) o->ino->data.resize((size_t) (off + len), '\0');
  exit_sys(r); return 0;
}
static void fill_stat(struct stat *st, Inode *i) {
  memset(st, 0, sizeof *st);
  static const int types[] = {S_IFREG, S_IFDIR, S_IFIFO, S_IFCHR, S_IFCHR, S_IFCHR};
  st->st_mode = (mode_t) (types[i->type] | i->mode); st->st_size = i->type == 0 ? (off_t) i->data.size() : i->type == 1 ? 4096 : 0;
  st->st_ino = (ino_t) i->id; st->st_dev = 1; st->st_nlink = (nlink_t) i->nlink; st->st_uid = 1000; st->st_gid = 1000;
  st->st_mtime = st->st_atime = st->st_ctime = i->mtime; st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
}
int w_fstat(int fd, struct stat *st) {
  if (fd >= 0 && fd < 3) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; return 0; }
  OpenFile *o = getfd(fd); if (!o) return -1;
  SysRes r = enter_sys(S_STAT, "fstat", &o->path);
  o = getfd(fd); if (!o) return -1;
  if (int e = fault_errno(r.fault)) { errno = e; return -1; }
  check_range(st, sizeof *st, true, PC);
  fill_stat(st, o->ino); exit_sys(r); return 0;
}
int w_fstat64(int fd, struct stat *st) { return w_fstat(fd, st); }
static int do_stat(const char *path, struct stat *st, const char *name) {
  std::string *np = new std::string(norm(path, cur->proc));
  SysRes r = enter_sys(S_STAT, name, np);
  std::string n(*np); delete np;
  if (int e = fault_errno(r.fault)) { errno = e; return -1; }
  Inode *i = fs_find(n);
  int rc = 0;
  if (n == "/") { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; }
  else if (!i) { errno = ENOENT; rc = -1; }
  else fill_stat(st, i);
  exit_sys(r);
  return rc;
}
int w_stat(const char *p, struct stat *st) { return do_stat(p, st, "stat"); }
int w_stat64(const char *p, struct stat *st) { return do_stat(p, st, "stat"); }
int w_lstat(const char *p, struct stat *st) { return do_stat(p, st, "lstat"); }
int w_lstat64(const char *p, struct stat *st) { return do_stat(p, st, "lstat"); }
int w_access(const char *path, int) { struct stat st; return do_stat(path, &st, "access"); }
int w_unlink(const char *path) {
  std::string *np = new std::string(norm(path, cur->proc));
  SysRes r = enter_sys(S_UNLINK, "unlink", np);
  std::string n(*np); delete np;
  if (int e = fault_errno(r.fault)) { errno = e; return -1; }
  Inode *i = fs_find(n);
  int rc = 0;
  if (!i) { errno = ENOENT; rc = -1; }
  else if (i->type == 1) { errno = EISDIR; rc = -1; }
  else { W.fs.erase(n); i->nlink--; }
  if (W.trace) fprintf(stderr, "  [%u sys %lu] unlink %s -> %d\n", cur->uid, cur->sys, n.c_str(), rc);
  hmix((uint64_t) rc);
  exit_sys(r);
  return rc;
}
int w_rmdir(const char *path);
int w_remove(const char *path) { Inode *i = fs_find(norm(path, cur->proc)); return i && i->type == 1 ? w_rmdir(path) : w_unlink(path); }
int w_rmdir(const char *path) {
  enter_sys(S_UNLINK, "rmdir");
  std::string n = norm(path, cur->proc); Inode *i = fs_find(n);
  if (!i) { errno = ENOENT; return -1; }
  if (i->type != 1) { errno = ENOTDIR; return -1; }
  auto it = W.fs.upper_bound(n + "/"); if (it != W.fs.end() && it->first.compare(0, n.size() + 1, n + "/") == 0) { errno = ENOTEMPTY; return -1; }
  W.fs.erase(n); return 0;
}
int w_rename(const char *a, const char *b) {
  std::string *np = new std::string(norm(a, cur->proc));
  SysRes r = enter_sys(S_RENAME, "rename", np);
  std::string na(*np); delete np;
  if (int e = fault_errno(r.fault)) { errno = e; return -1; }
  std::string nb = norm(b, cur->proc); Inode *i = fs_find(na);
  if (!i || !fs_find(dirname_of(nb))) { errno = ENOENT; return -1; }
  if (na != nb) { W.fs[nb] = i; W.fs.erase(na); }
  exit_sys(r); return 0;
}
int w_link(const char *a, const char *b) {
  std::string *np = new std::string(norm(b, cur->proc));
  SysRes r = enter_sys(S_RENAME, "link", np);
  std::string nb(*np); delete np;
  if (int e = fault_errno(r.fault)) { errno = e; return -1; }
  Inode *i = fs_find(norm(a, cur->proc));
  if (!i) { errno = ENOENT; return -1; }
  if (fs_find(nb)) { errno = EEXIST; return -1; }
  W.fs[nb] = i; i->nlink++; exit_sys(r); return 0;
}
int w_mkdir(const char *path, mode_t mode) {
  std::string *np = new std::string(norm(path, cur->proc));
  SysRes r = enter_sys(S_MKDIR, "mkdir", np);
  std::string n(*np); delete np;
  if (int e = fault_errno(r.fault)) { errno = e; return -1; }
  int rc = -1;
  if (fs_find(n) || n == "/") errno = EEXIST;
  else if (dirname_of(n) != "/" && !fs_find(dirname_of(n))) errno = ENOENT;
  else { Inode *i = new_inode(1); i->mode = (int) mode; W.fs[n] = i; rc = 0; }
  exit_sys(r); return rc;
}
int w_chmod(const char *path, mode_t m) { Inode *i = fs_find(norm(path, cur->proc)); if (!i) { errno = ENOENT; return -1; } i->mode = (int) m & 07777; return 0; }
int w_fchmod(int fd, mode_t m) { OpenFile *o = getfd(fd); if (!o) return -1; SysRes r = enter_sys(S_MISC, "fchmod", &o->path); if (int e = fault_errno(r.fault)) { errno = e; return -1; } o->ino->mode = (int) m & 07777; return 0; }
mode_t w_umask(mode_t) { return 022; }
int w_utime(const char *path, const struct utimbuf *t) { enter_sys(S_MISC, "utime"); Inode *i = fs_find(norm(path, cur->proc)); if (!i) { errno = ENOENT; return -1; } i->mtime = t ? t->modtime : (long) (wallns() / 1000000000); return 0; }
int w_utimes(const char *, const struct timeval *) { return 0; }
ssize_t w_readlink(const char *, char *, size_t) { errno = EINVAL; return -1; }
char *w_realpath(const char *, char *) { errno = ENOENT; return nullptr; }
char *w_getcwd(char *b, size_t n) { if (cur->proc->cwd.size() + 1 > n) { errno = ERANGE; return nullptr; } strcpy(b, cur->proc->cwd.c_str()); return b; }
int w_chdir(const char *path) { std::string n = norm(path, cur->proc); Inode *i = fs_find(n); if (!i || i->type != 1) { errno = ENOENT; return -1; } cur->proc->cwd = n; return 0; }
int w_dup(int fd) { OpenFile *o = getfd(fd); if (!o) return -1; o->refs++; return putfd(o); }
int w_dup2(int, int) { errno = EBADF; return -1; }
int w_fcntl(int fd, int cmd, ...) { OpenFile *o = getfd(fd); if (!o) return -1; if (cmd == F_GETFL) return o->flags; return 0; }
int w_fcntl64(int fd, int, ...) { OpenFile *o = getfd(fd); if (!o) return -1; return 0; }
int w_ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }
int w_posix_fadvise(int, off_t, off_t, int) { return 0; }
int w_posix_madvise(void *, size_t, int) { return 0; }
int w_madvise(void *, size_t, int) { return 0; }
int w_mkstemp(char *tmpl) {
  size_t n = strlen(tmpl); if (n < 6) { errno = EINVAL; return -1; }
  for (int k = 0; k < 100; k++) {
    uint64_t v = mix2(W.sc->seed, 0x7e117 + W.mkstemp_n++);
    for (int i = 0; i < 6; i++) { tmpl[n - 6 + i] = "abcdefghijklmnopqrstuvwxyz012345"[v & 31]; v >>= 5; }
    int fd = do_open(tmpl, O_CREAT | O_EXCL | O_RDWR, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  errno = EEXIST; return -1;
}
int w_mkstemp64(char *t) { return w_mkstemp(t); }

/* ---- mappings */
void *w_mmap(void *, size_t len, int prot, int flags, int fd, off_t off) {
  OpenFile *o = nullptr;
  if (!(flags & MAP_ANONYMOUS)) { o = getfd(fd); if (!o) return MAP_FAILED; }
  SysRes r = enter_sys(S_MMAP, "mmap", o ? &o->path : nullptr);
  if (int e = fault_errno(r.fault)) { errno = e; return MAP_FAILED; }
  int type = flags & 3;
  if (type == 3 && o) type = MAP_SHARED;      /* MAP_SHARED_VALIDATE: files only */
  if (len == 0 || type == 0 || type == 3) { errno = EINVAL; return MAP_FAILED; }
  if (o && o->ino->type != 0) { errno = ENODEV; return MAP_FAILED; }
  if (o && type == MAP_SHARED && (prot & PROT_WRITE) && (o->flags & O_ACCMODE) != O_RDWR) { errno = EACCES; return MAP_FAILED; }
  if (o && (o->flags & O_ACCMODE) == O_WRONLY) { errno = EACCES; return MAP_FAILED; }
  uint64_t a = heap_alloc(cur->proc->node, len, 2048);
  if (!a) { errno = ENOMEM; return MAP_FAILED; }
  /* note: aligned to 2048 so that the size key stays unique; the library never relies on page alignment */
  blk_of(a)->kind = 1;
  memset((void *) a, 0, len);
  Map *m = new Map; m->p = cur->proc; m->addr = a; m->len = len; m->ino = o ? o->ino : nullptr; m->off = (uint64_t) off; m->shared = type == MAP_SHARED && (prot & PROT_WRITE);
  if (o) {
    maps_sync(o->ino);
    if ((uint64_t) off < o->ino->data.size()) memcpy((void *) a, o->ino->data.data() + off, std::min(len, o->ino->data.size() - (size_t) off));
    o->ino->maps++;
  }
  cur->proc->maps[a] = m;
  exit_sys(r);
  return (void *) a;
}
void *w_mmap64(void *a, size_t l, int p, int f, int fd, off_t o) { return w_mmap(a, l, p, f, fd, o); }
int w_munmap(void *a, size_t len) {
  enter_sys(S_MISC, "munmap");
  auto it = cur->proc->maps.find((uint64_t) a);
  if (it == cur->proc->maps.end()) { errno = EINVAL; return -1; }
  Map *m = it->second;
  if (m->len != len) { if (((m->len + 4095) & ~4095UL) != ((len + 4095) & ~4095UL)) violation("memory", strf("unmapping %zu bytes of a mapping of %zu", len, m->len)); }
  if (m->ino) {
    if (m->shared && m->off < m->ino->data.size()) memcpy(&m->ino->data[m->off], a, std::min(m->len, m->ino->data.size() - (size_t) m->off));
    m->ino->maps--;
  }
  cur->proc->maps.erase(it); delete m;
  heap_free_blk(cur->proc->node, (uint64_t) a);
  return 0;
}
int w_msync(void *a, size_t, int) {
  auto it = cur->proc->maps.find((uint64_t) a);
  if (it == cur->proc->maps.end()) { errno = ENOMEM; return -1; }
  if (it->second->ino) maps_sync(it->second->ino);
  return 0;
}

/* ---- directories */
struct SimDir { std::vector<std::string> names; size_t i; struct dirent d; };
DIR *w_opendir(const char *path) {
  enter_sys(S_OPEN, "opendir");
  std::string n = norm(path, cur->proc); Inode *i = fs_find(n);
  if (n != "/" && (!i || i->type != 1)) { errno = ENOENT; return nullptr; }
  SimDir *d = new SimDir; d->i = 0; if (n == "/") n = "";
  for (auto &e : W.fs) if (e.first.size() > n.size() + 1 && e.first.compare(0, n.size() + 1, n + "/") == 0 && e.first.find('/', n.size() + 1) == std::string::npos) d->names.push_back(e.first.substr(n.size() + 1));
  return (DIR *) d;
}
struct dirent *w_readdir(DIR *dd) { SimDir *d = (SimDir *) dd; if (d->i >= d->names.size()) return nullptr; memset(&d->d, 0, sizeof d->d); snprintf(d->d.d_name, sizeof d->d.d_name, "%s", d->names[d->i++].c_str()); return &d->d; }
struct dirent *w_readdir64(DIR *dd) { return w_readdir(dd); }
int w_closedir(DIR *dd) { delete (SimDir *) dd; return 0; }

/* ---- stdio on the simulated descriptors */
static FILE *std_in, *std_out, *std_err;
FILE *w_stdin, *w_stdout, *w_stderr;
static std::unordered_map<FILE *, SimFile *> filemap;
static ssize_t ck_read(void *c, char *b, size_t n) { SimFile *s = (SimFile *) c; if (s->dead) return 0; return do_read(s->fd, b, n, -1, nullptr); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  SimFile *s = (SimFile *) c; if (s->dead) return (ssize_t) n;
  size_t done = 0;
  while (done < n) { ssize_t k = do_write(s->fd, b + done, n - done, -1, nullptr); if (k <= 0) break; done += (size_t) k; }
  return (ssize_t) done;
}
static int ck_seek(void *c, off64_t *o, int w) { SimFile *s = (SimFile *) c; if (s->dead) return -1; off_t r = w_lseek(s->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { SimFile *s = (SimFile *) c; if (s->dead) return 0; return do_close(s->fd); }
static FILE *make_file(int fd, const char *mode) {
  SimFile *s = new SimFile; s->fd = fd; s->p = cur->proc; s->locked_by = -1; s->dead = false; s->depth = 0;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  char m[4]; int j = 0; for (const char *q = mode; *q && j < 3; q++) if (*q == 'r' || *q == 'w' || *q == 'a' || *q == '+') m[j++] = *q; m[j] = 0;
  s->f = fopencookie(s, m, io);
  filemap[s->f] = s; cur->proc->files.push_back(s);
  return s->f;
}
FILE *w_fopen(const char *path, const char *mode) {
  if ((uint64_t) path < 65536 || (uint64_t) mode < 65536) bad_access(0, 1, false, PC);
  int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
  if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC; else if (mode[0] == 'a') fl |= O_CREAT | O_APPEND; else if (mode[0] != 'r') { errno = EINVAL; return nullptr; }
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = do_open(path, fl, 0644);
  if (fd < 0) return nullptr;
  return make_file(fd, mode);
}
FILE *w_fopen64(const char *p, const char *m) { return w_fopen(p, m); }
FILE *w_fdopen(int fd, const char *mode) { if (fd < 0) { errno = EBADF; return nullptr; } if (fd >= 3 && !getfd(fd)) return nullptr; return make_file(fd, mode); }
static SimFile *sf(FILE *f) { auto it = filemap.find(f); return it == filemap.end() ? nullptr : it->second; }
/* stdio's own per-stream lock */
struct FLock {
  SimFile *s;
  FLock(FILE *f, void *pc) {
    if ((uint64_t) f < 65536) bad_access((uint64_t) f, 8, true, pc);
    s = sf(f);
    if (!s) { sync_points(); violation("memory", "operation on a stream that is not open at " + symbolize(pc)); }
    if (s->p != cur->proc) violation("memory", "operation on a stream of another process");
    point(W.sc->sc.p_sync);
    while ((s = sf(f)) && s->depth && s->locked_by != (int) cur->uid) block_on(s, "stream");
    if (!s) violation("memory", "stream closed while another thread uses it at " + symbolize(pc));
    s->locked_by = (int) cur->uid; s->depth++;
  }
  ~FLock() { if (s) { if (--s->depth == 0) { s->locked_by = -1; wake_waiters(s); } } }
};
static bool is_std(FILE *f) { return f == std_in || f == std_out || f == std_err; }
static void std_put(FILE *f, const char *b, size_t n) { Proc *p = cur->proc; std::string &s = f == std_err ? p->err : p->out; if (s.size() < (1u << 20)) s.append(b, n); }
int w_fclose(FILE *f) {
  if (is_std(f)) return 0;
  int rc;
  SimFile *s;
  { FLock l(f, PC); s = l.s;
    rc = fclose(f);
    filemap.erase(f);
    auto &v = s->p->files; v.erase(std::remove(v.begin(), v.end(), s), v.end());
    l.s = nullptr; }
  wake_waiters(s);
  delete s;
  return rc;
}
size_t w_fread(void *b, size_t sz, size_t n, FILE *f) { if (f == std_in) { ssize_t k = do_read(0, b, sz * n, -1, PC); return sz ? (size_t) k / sz : 0; } FLock l(f, PC); check_range(b, sz * n, true, PC); return fread(b, sz, n, f); }
size_t w_fwrite(const void *b, size_t sz, size_t n, FILE *f) { if (is_std(f)) { check_range(b, sz * n, false, PC); std_put(f, (const char *) b, sz * n); return n; } FLock l(f, PC); check_range(b, sz * n, false, PC); return fwrite(b, sz, n, f); }
int w_fgetc(FILE *f) { if (f == std_in) { unsigned char c; return do_read(0, &c, 1, -1, PC) == 1 ? c : EOF; } FLock l(f, PC); return fgetc(f); }
int w_getc(FILE *f) { return w_fgetc(f); }
int w__IO_getc(FILE *f) { return w_fgetc(f); }
int w_getchar(void) { return w_fgetc(std_in); }
int w_fputc(int c, FILE *f) { if (is_std(f)) { char ch = (char) c; std_put(f, &ch, 1); return (unsigned char) c; } FLock l(f, PC); return fputc(c, f); }
int w_putc(int c, FILE *f) { return w_fputc(c, f); }
int w__IO_putc(int c, FILE *f) { return w_fputc(c, f); }
int w_putchar(int c) { return w_fputc(c, std_out); }
char *w_fgets(char *b, int n, FILE *f) { if (f == std_in) return nullptr; FLock l(f, PC); return fgets(b, n, f); }
int w_fputs(const char *s, FILE *f) { if (is_std(f)) { std_put(f, s, strlen(s)); return 1; } FLock l(f, PC); return fputs(s, f); }
int w_puts(const char *s) { std_put(std_out, s, strlen(s)); std_put(std_out, "\n", 1); return 1; }
int w_vfprintf(FILE *f, const char *fmt, va_list ap) {
  if (is_std(f)) { char *s = nullptr; int n = vasprintf(&s, fmt, ap); if (n > 0) std_put(f, s, (size_t) n); free(s); return n; }
  FLock l(f, PC); return vfprintf(f, fmt, ap);
}
int w___vfprintf_chk(FILE *f, int, const char *fmt, va_list ap) { return w_vfprintf(f, fmt, ap); }
int w_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = w_vfprintf(f, fmt, ap); va_end(ap); return n; }
int w___fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = w_vfprintf(f, fmt, ap); va_end(ap); return n; }
int w_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = w_vfprintf(std_out, fmt, ap); va_end(ap); return n; }
int w___printf_chk(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = w_vfprintf(std_out, fmt, ap); va_end(ap); return n; }
int w_vprintf(const char *fmt, va_list ap) { return w_vfprintf(std_out, fmt, ap); }
void w_perror(const char *s) { std::string m = strf("%s: %s\n", s ? s : "", strerror(errno)); std_put(std_err, m.data(), m.size()); }
/* formatted output into memory: check the destination */
int w_vsnprintf(char *b, size_t n, const char *fmt, va_list ap) { if (--g_budget <= 0) slow_point(); int k = vsnprintf(b, n, fmt, ap); if (n && k >= 0) check_range(b, std::min((size_t) k + 1, n), true, PC); return k; }
int w_snprintf(char *b, size_t n, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int k = w_vsnprintf(b, n, fmt, ap); va_end(ap); return k; }
int w_vsprintf(char *b, const char *fmt, va_list ap) { int k = vsprintf(b, fmt, ap); if (k >= 0) check_range(b, (size_t) k + 1, true, PC); return k; }
int w_sprintf(char *b, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int k = w_vsprintf(b, fmt, ap); va_end(ap); return k; }
int w_fseek(FILE *f, long o, int w) { if (is_std(f)) { errno = ESPIPE; return -1; } FLock l(f, PC); return fseek(f, o, w); }
int w_fseeko(FILE *f, off_t o, int w) { if (is_std(f)) { errno = ESPIPE; return -1; } FLock l(f, PC); return fseeko(f, o, w); }
int w_fseeko64(FILE *f, off_t o, int w) { return w_fseeko(f, o, w); }
long w_ftell(FILE *f) { if (is_std(f)) { errno = ESPIPE; return -1; } FLock l(f, PC); return ftell(f); }
off_t w_ftello(FILE *f) { if (is_std(f)) { errno = ESPIPE; return -1; } FLock l(f, PC); return ftello(f); }
off_t w_ftello64(FILE *f) { return w_ftello(f); }
void w_rewind(FILE *f) { if (is_std(f)) return; FLock l(f, PC); rewind(f); }
int w_feof(FILE *f) { if (is_std(f)) return f == std_in && cur->proc->inpos >= cur->proc->in.size(); FLock l(f, PC); return feof(f); }
int w_ferror(FILE *f) { if (is_std(f)) return 0; FLock l(f, PC); return ferror(f); }
void w_clearerr(FILE *f) { if (is_std(f)) return; FLock l(f, PC); clearerr(f); }
int w_fflush(FILE *f) { if (!f) { std::vector<SimFile *> fl = cur->proc->files; int rc = 0; for (auto s : fl) rc |= fflush(s->f); return rc; } if (is_std(f)) return 0; FLock l(f, PC); return fflush(f); }
int w_setvbuf(FILE *f, char *b, int m, size_t n) { if (is_std(f)) return 0; FLock l(f, PC); (void) b; return setvbuf(f, nullptr, m == _IOFBF ? _IOFBF : m, n); }
void w_setbuf(FILE *, char *) {}
int w_fileno(FILE *f) { if (f == std_in) return 0; if (f == std_out) return 1; if (f == std_err) return 2; SimFile *s = sf(f); if (!s) { sync_points(); violation("memory", "fileno of a stream that is not open at " + symbolize(PC)); } return s->fd; }
int w_ungetc(int c, FILE *f) { if (is_std(f)) return EOF; FLock l(f, PC); return ungetc(c, f); }
void w_flockfile(FILE *f) { if (is_std(f)) return; FLock l(f, PC); l.s = nullptr; }
void w_funlockfile(FILE *f) { SimFile *s = sf(f); if (s && s->depth && --s->depth == 0) { s->locked_by = -1; wake_waiters(s); } }

/* ---- actor interface */
const SimOp *sim_op(void) {
  if (cur->pc >= cur->prog.size()) { cur->cur_op = nullptr; return nullptr; }
  cur->cur_op = cur->prog[cur->pc++];
  return cur->cur_op;
}
static void add_event(int type, int op, int kind, long st, long v, const void *d, long n) {
  Event e; e.type = type; e.uid = cur->uid; e.node = cur->proc->node; e.thr = cur->thr; e.life = cur->proc->life; e.phase = cur->proc->phase;
  e.op = op; e.kind = kind; e.status = st; e.value = v; e.seq = W.evseq++; e.t = W.now; e.faults = cur->proc->faults;
  if (d && n > 0) e.data.assign((const char *) d, (size_t) n);
  hmix(((uint64_t) type << 60) ^ ((uint64_t) (op + 1) << 32) ^ (uint64_t) st ^ ((uint64_t) v << 8));
  if (W.trace) fprintf(stderr, "  [%u@%lu] %s op %d kind %d status %ld value %ld len %ld\n", cur->uid, cur->points, type == 0 ? "call" : type == 1 ? "return" : "note", op, kind, st, v, n);
  W.hist.push_back(e);
  W.res.st.events++;
}
void sim_inv(const SimOp *o) { sync_points(); add_event(0, o->id, o->kind, 0, 0, nullptr, 0); }
void sim_ret(const SimOp *o, long st, long v, const void *d, long n) { sync_points(); add_event(1, o->id, o->kind, st, v, d, n); }
void sim_note(int kind, long a, long b, const void *d, long n) { sync_points(); add_event(2, cur->cur_op ? cur->cur_op->id : -1, kind, a, b, d, n); }
void sim_tty_type(const int *l, long n) { W.tty[cur->proc->node].lines.push_back(std::vector<int>(l, l + n)); }
unsigned long sim_tty_state(void) { unsigned long h = 1; const unsigned char *b = (const unsigned char *) &W.term[cur->proc->node]; for (size_t i = 0; i < sizeof W.term[0]; i++) h = mix64(h ^ b[i]); return h; }
unsigned long sim_signal_state(void) { unsigned long h = 1; for (auto &k : cur->proc->sig) if (k.second.sa_handler != SIG_DFL) h = mix64(mix64(h ^ (unsigned long) k.first) ^ (unsigned long) k.second.sa_handler); return h; }
long sim_cfg(int i) { return (size_t) i < W.sc->cfg.size() ? W.sc->cfg[i] : 0; }
unsigned long sim_mono(void) { sync_points(); return W.now; }
long sim_proc_faults(void) { return cur->proc->faults; }
void sim_burn(unsigned long ns) { W.cpu += ns; W.now += ns; }
long sim_thread_faults(void) { return cur->faults; }
void sim_quiet(int on) { sync_points(); cur->quiet += on ? 1 : -1; refill(); }
void sim_yield(void) { point(W.sc->sc.p_sync); }
int sim_thr(void) { return cur->thr; }
int sim_node(void) { return cur->proc->node; }
int sim_life(void) { return cur->proc->life; }
long sim_live_blocks(void) { return (long) cur->proc->nblocks; }
long sim_live_bytes(void) { return (long) cur->proc->nbytes; }
long sim_open_fds(void) { long n = 0; for (auto o : cur->proc->fds) if (o) n++; return n; }
int sim_in_signal(void) { return cur->proc->sigdepth > 0; }
long sim_live_maps(void) { return (long) cur->proc->maps.size(); }
long sim_file_size(const char *p) { Inode *i = fs_find(norm(p, cur->proc)); return i ? (long) i->data.size() : -1; }
long sim_file_read(const char *p, void *b, long n) { Inode *i = fs_find(norm(p, cur->proc)); if (!i) return -1; long k = std::min(n, (long) i->data.size()); memcpy(b, i->data.data(), (size_t) k); return k; }
void sim_file_write(const char *p, const void *b, long n) { fs_put(norm(p, cur->proc), std::string((const char *) b, (size_t) n)); }
int sim_file_mode(const char *p) { Inode *i = fs_find(norm(p, cur->proc)); return i ? i->mode : -1; }
int sim_file_unlink(const char *p) { return fs_remove(norm(p, cur->proc)) ? 0 : -1; }
} /* extern C */

static void close_all(Proc *p) {
  for (auto &o : p->fds) if (o) { if (--o->refs == 0) { if (o->lock) unlock_file(o); delete o; } o = nullptr; }
  for (auto s : p->files) {
    s->dead = true;
    filemap.erase(s->f);
    if (!s->depth) { fclose(s->f); delete s; }     /* callbacks do nothing: buffered data is lost */
  }
  p->files.clear();
}

/* ------------------------------------------------------------------ scheduler */
static void on_crash(int sig, siginfo_t *si, void *uc) {
  if (!cur) { static const char m[] = "simulator crash\n"; ssize_t k = write(2, m, sizeof m - 1); (void) k; signal(sig, SIG_DFL); raise(sig); return; }
  if (sig == SIGALRM) return;
  if (sig == SIGSEGV || sig == SIGBUS) {
    uint64_t a = (uint64_t) si->si_addr;
    for (int i = 0; i < MAXFIBER; i++) if (a >= (uint64_t) stacks[i] - 65536 && a < (uint64_t) stacks[i]) { violation_here("crash", "stack exhausted (unbounded recursion)"); goto out; }
  }
  if (!W.res.violation) violation_here("crash", strf("signal %d (%s) at %s", sig, sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic" : sig == SIGBUS ? "bus error" : "abort", symbolize((void *) ((ucontext_t *) uc)->uc_mcontext.gregs[REG_RIP]).c_str()));
out:
  cur = nullptr;
  /* leave the fiber for good */
  void *dummy;
  ctx_switch(&dummy, sched_sp);
}

static Fiber *choose(Fiber *last) {
  /* the fiber that ran last cannot or need not continue: pick the next */
  Fiber *c[MAXFIBER]; int n = 0;
  for (int i = 0; i < MAXFIBER; i++) if (W.fib[i] && runnable(W.fib[i])) c[n++] = W.fib[i];
  /* sleepers whose time has come */
  if (!n) {
    uint64_t best = ~0UL;
    for (int i = 0; i < MAXFIBER; i++) if (W.fib[i] && W.fib[i]->state == ST_SLEEP && W.fib[i]->wake < best) best = W.fib[i]->wake;
    if (best == ~0UL) return nullptr;
    if (best > W.now) W.now = best;
    for (int i = 0; i < MAXFIBER; i++) if (W.fib[i] && W.fib[i]->state == ST_SLEEP && W.fib[i]->wake <= W.now) { W.fib[i]->state = ST_READY; c[n++] = W.fib[i]; }
  }
  std::sort(c, c + n, [](Fiber *a, Fiber *b) { return a->uid < b->uid; });
  if (n == 1) return c[0];
  Fiber *def = c[0];
  for (int i = 0; i < n; i++) if (c[i] == last) def = last;
  uint32_t luid = last ? last->uid : 0xffffffff; uint64_t lpt = last ? last->points : W.res.st.procs;
  if (W.generate && W.pc.sched) {
    Fiber *t = c[W.rs.below(n)];
    if (t != def) { W.res.devs.push_back({luid, lpt, t->uid}); smix(((uint64_t) luid << 40) ^ (lpt << 8) ^ t->uid ^ 0x55); }
    return t;
  }
  if (!W.generate) {
    auto it = W.devs.find(luid);
    if (it != W.devs.end()) { auto d = it->second.find(lpt); if (d != it->second.end()) { Fiber *t = find_uid(d->second); if (t && runnable(t)) { W.res.devs.push_back({luid, lpt, t->uid}); smix(((uint64_t) luid << 40) ^ (lpt << 8) ^ t->uid ^ 0x55); return t; } } }
  }
  return def;
}

static void reap() {
  for (int i = 0; i < MAXFIBER; i++) if (W.fib[i] && W.fib[i]->state == ST_DEAD && !W.fib[i]->proc->alive) { W.fib[i]->slot = -1; W.fib[i] = nullptr; }
}

/* the successor of a killed process starts at once and continues with the operations not yet begun */
static int g_restarts[SIM_MAXNODE];
static void restart_killed() {
  for (int n = 0; n < SIM_MAXNODE; n++) {
    Proc *p = W.procs[n];
    if (!p || p->alive || p->phase != W.phase || !p->killed || g_restarts[n] <= 0) continue;
    g_restarts[n]--;
    std::vector<std::vector<const SimOp *>> rest;
    bool any = false;
    for (auto f : p->fibers) { rest.emplace_back(f->prog.begin() + (long) f->pc, f->prog.end()); if (!rest.back().empty()) any = true; }
    if (any) start_proc(n, W.lives[n], rest);
  }
}

static void run_fibers() {
  Fiber *last = nullptr;
  bool reap_dead;
  while (!W.stop) {
    /* wake sleepers that are due */
    for (int i = 0; i < MAXFIBER; i++) if (W.fib[i] && W.fib[i]->state == ST_SLEEP && W.fib[i]->wake <= W.now) W.fib[i]->state = ST_READY;
    Fiber *t = g_next; g_next = nullptr;
    if (!t || !runnable(t)) t = choose(last);
    if (!t) {
      bool any = false; std::string m = "deadlock:";
      for (int i = 0; i < MAXFIBER; i++) if (W.fib[i] && W.fib[i]->state == ST_BLOCKED) { any = true; m += strf(" [node %d thread %d waits for %s]", W.fib[i]->proc->node, W.fib[i]->thr, W.fib[i]->waitname); }
      if (any) violation_here("deadlock", m);
      break;
    }
    W.res.st.switches++;
    cur = t; last = t;
    hmix(0x5C0000 ^ t->uid ^ (t->points << 24));
    errno = t->err;
    t->run_points = t->points;
    refill();
    ctx_switch(&sched_sp, t->sp);
    cur = nullptr;
    g_budget = g_budget_init = 1L << 40;
    reap_dead = false;
    for (auto p : W.procs) if (p && !p->alive && !p->reaped) { p->reaped = true; reap_dead = true; }
    if (reap_dead) { reap(); if (!W.stop) restart_killed(); }
  }
}

static void world_clear() {
  for (auto p : W.allprocs) {
    if (p->alive) { for (auto &m : p->maps) delete m.second; p->maps.clear(); close_all(p); p->alive = false; }
    for (auto f : p->fibers) delete f;
    delete p;
  }
  W.allprocs.clear();
  for (auto i : W.inodes) delete i;
  W.inodes.clear(); W.fs.clear();
  for (auto &kv : filemap) (void) kv;
  filemap.clear();
}

static bool sim_ready;
static void sim_init_once() {
  if (sim_ready) return;
  sim_ready = true;
  heap_init();
  images_init();
  std_in = w_stdin = (FILE *) 0x260000000100UL; std_out = w_stdout = (FILE *) 0x260000000200UL; std_err = w_stderr = (FILE *) 0x260000000300UL;
  static char alt[65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
}

long Scenario::add(int phase, int node, int thr, int kind, std::initializer_list<long> a) {
  SimOp o; memset(&o, 0, sizeof o);
  o.id = (int) ops.size(); o.phase = phase; o.node = node; o.thr = thr; o.kind = kind;
  int i = 0; for (long v : a) o.a[i++] = v;
  ops.push_back(o);
  while ((int) phases.size() <= phase) phases.emplace_back();
  return o.id;
}

RunResult run_scenario(const Scenario &sc, bool generate, const std::vector<Dev> &devs, const std::vector<FDev> &fdevs, bool trace) {
  sim_init_once();
  W = World();
  W.sc = &sc; W.pd = find_prop(sc.prop); W.generate = generate; W.trace = trace;
  W.rs = Rng(mix2(sc.seed, 1)); W.rf = Rng(mix2(sc.seed, 2)); W.re = Rng(mix2(sc.seed, 3));
  W.pattern = 1 + (int) (mix2(sc.seed, 4) % 255);
  for (auto &d : devs) W.devs[d.uid][d.pt] = d.target;
  for (auto &d : fdevs) W.fdevs[d.uid][d.sys] = {d.kind, d.arg};
  W.fault_left = sc.fc.budget; W.kill_left = sc.fc.kill_budget; W.signal_left = sc.fc.signal_budget;
  W.now = 100000000000UL; W.wall = 1700000000000000000L; W.cap = sc.cap;
  W.pid_next = 1000; key_next = 0;
  W.hash = mix64(sc.seed);
  g_next = nullptr;
  g_conflict = generate && sc.sc.p_conf > 0;
  g_conf_thresh = (uint64_t) (sc.sc.p_conf * 18446744073709551615.0);
  if (g_conflict) memset(glob_conf, 0, (glob_hi - glob_lo) / 8 + 8);
  fs_mkdirs("/w"); fs_mkdirs("/tmp"); fs_mkdirs("/home/u/.wizard"); fs_mkdirs("/etc/wizard"); fs_mkdirs("/dev");
  fs_put("/dev/urandom", "", 3); fs_put("/dev/random", "", 3); fs_put("/dev/null", "", 4);
  W.env["HOME"] = "/home/u"; W.env["WIZARD_CONFIGURE_PATH"] = "/etc/wizard"; W.env["WIZARD_TMPDIR"] = "/tmp"; W.env["PATH"] = "/bin";
  if (W.pd->init) W.pd->init(sc);
  for (auto &kv : W.env) W.environ_s.push_back(kv.first + "=" + kv.second);
  for (auto &s : W.environ_s) W.environ_v.push_back((char *) s.c_str());
  W.environ_v.push_back(nullptr);
  w_environ = w___environ = W.environ_v.data();

  for (int ph = 0; ph < sc.nphases() && !W.stop; ph++) {
    W.phase = ph; W.pc = sc.phases[ph];
    W.disk_full = false;
    for (auto i : W.inodes) i->bad = 0;
    if (W.pc.env) {
      for (auto &o : sc.ops) if (o.phase == ph && W.pd->env) W.pd->env(sc, o);
      hmix(0xEE0 + ph);
      continue;
    }
    /* programs per node and thread */
    std::vector<std::vector<const SimOp *>> prog[SIM_MAXNODE];
    for (auto &o : sc.ops) if (o.phase == ph) {
      auto &pn = prog[o.node];
      if ((int) pn.size() <= o.thr) pn.resize(o.thr + 1);
      pn[o.thr].push_back(&o);
    }
    for (int n = 0; n < SIM_MAXNODE; n++) if (!prog[n].empty()) start_proc(n, W.lives[n], prog[n]);
    for (int &r : g_restarts) r = W.pc.restarts;
    run_fibers();
    reap();
    for (int n = 0; n < SIM_MAXNODE; n++) if (W.procs[n] && !W.procs[n]->alive && W.procs[n]->phase == ph) { if (!W.procs[n]->killed) W.lives[n]++; W.procs[n] = nullptr; }
    if (!W.stop && W.pd->phase_end) W.pd->phase_end(sc, ph);
  }
  if (!W.stop && W.pd->oracle) W.pd->oracle(sc);
  cur = nullptr;
  W.res.hash = W.hash; W.res.shash = W.shash; W.res.st.sim_ns = W.now - 100000000000UL;
  if (W.res.violation) { uint64_t h = 0; for (char c : W.res.cls + W.res.msg) h = mix64(h ^ (uint8_t) c); W.res.hash ^= h; }
  /* reset node heaps used by live processes */
  world_clear();
  for (int i = 0; i < MAXFIBER; i++) W.fib[i] = nullptr;
  return std::move(W.res);
}
