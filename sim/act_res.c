/* C12, C13, C18: threads take and give back resources, temporary files and memory. */
#include "act.h"
#include "res.h"

extern WizardSizeType GetWizardResourceLimit(const ResourceType);

static const ResourceType types[] = { MemoryResource, MapResource, DiskResource, FileResource };
static const char *dirs[] = { "", "/w/d", "/nowhere", "/w/d/" };

typedef struct { unsigned long size[32]; int type[32], n; } Grants;
static Grants grants[8];
static struct { MemoryInfo *m; unsigned char *p; size_t n; unsigned long tag; } vm[8][R_SLOTS];
static struct { int used, wrote; char name[WizardPathExtent]; unsigned long tag; } tmp[8][R_SLOTS];
typedef struct { unsigned char *p; size_t n; int how; unsigned long tag; MemoryInfo *m; } Block;
static Block blk[8][R_SLOTS];
static unsigned long tags = 1;
static long base_blocks, base_maps, base_fds;

/* memory handlers of an application: every block carries a header */
static void *own_acquire(size_t n) { char *p = n > (1UL << 40) ? NULL : malloc(n + 32); if (p == NULL) return NULL; memcpy(p, "own block", 10); memcpy(p + 16, &n, sizeof n); return p + 32; }
static void own_check(char *p) { if (sim_mem_ok(p - 32, 32) || memcmp(p - 32, "own block", 10)) sim_violation("foreign-block", "a block that the application's handler did not provide is given to it"); }
static void own_destroy(void *p) { if (p == NULL) return; own_check(p); free((char *) p - 32); }
static void *own_resize(void *q, size_t n)
{
  char *p;
  if (q == NULL) return own_acquire(n);
  own_check(q);
  if (n > (1UL << 40)) return NULL;
  p = realloc((char *) q - 32, n + 32);
  if (p == NULL) return NULL;
  memcpy(p + 16, &n, sizeof n);
  return p + 32;
}

static void usage(unsigned long *u) { int i; for (i = 0; i < R_TYPES; i++) u[i] = GetWizardResource(types[i]); }
static void warm(void)
{
  /* whatever the library sets up once and keeps */
  ExceptionInfo *e = AcquireExceptionInfo();
  char name[WizardPathExtent];
  int f = AcquireUniqueFileResource("", name, e);
  if (f != -1) { close(f); RelinquishUniqueFileResource(name, WizardTrue); }
  unlink(name);
  e = DestroyExceptionInfo(e);
}
static void setup(int prop)
{
  int i;
  sim_quiet(1);
  if (prop == 18 && sim_cfg(4)) SetWizardMemoryMethods(own_acquire, own_resize, own_destroy);
  if (sim_cfg(5)) setenv("WIZARD_TMPDIR", sim_cfg(5) == 1 ? "/w/d" : sim_cfg(5) == 2 ? "/nowhere" : "", 1);
  WizardsToolkitGenesis("sim");
  if (prop != 13 || sim_cfg(6)) warm();
  for (i = 0; i < R_TYPES; i++) SetWizardResourceLimit(types[i], (WizardSizeType) sim_cfg(i));
  base_blocks = sim_live_blocks(); base_maps = sim_live_maps(); base_fds = sim_open_fds();
  sim_quiet(0);
}
void c12_setup(void) { setup(12); }
void c13_setup(void) { setup(13); }
void c18_setup(void) { setup(18); }

static void fill(unsigned char *p, size_t n, unsigned long tag)
{
  size_t i, k = n < 4096 ? n : 4096;
  unsigned char b[64];
  if (sim_mem_ok(p, n)) sim_violation("unusable", "a block of %zu bytes is not wholly usable", n);
  for (i = 0; i < k; i += 64) { sim_fill(b, 64, tag + i); memcpy(p + i, b, k - i < 64 ? k - i : 64); }
  if (n > k) p[n - 1] = (unsigned char) (tag * 7);
  if (n > k && n / 2 >= k) p[n / 2] = (unsigned char) (tag * 5);
}
static long differs(unsigned char *p, size_t n, size_t filled, unsigned long tag)
{
  /* content written by fill() for `filled' bytes; the first n of them must be there */
  size_t i, k = filled < 4096 ? filled : 4096, m = n < k ? n : k;
  unsigned char b[64];
  for (i = 0; i < m; i += 64) { sim_fill(b, 64, tag + i); if (memcmp(p + i, b, m - i < 64 ? m - i : 64)) return (long) i; }
  if (filled > k && n >= filled && p[filled - 1] != (unsigned char) (tag * 7)) return (long) filled - 1;
  if (filled > k && n > filled / 2 && filled / 2 >= k && p[filled / 2] != (unsigned char) (tag * 5)) return (long) filled / 2;
  return -1;
}
static void overlap(unsigned char *p, size_t n)
{
  int t, s;
  for (t = 0; t < 8; t++) for (s = 0; s < R_SLOTS; s++)
    if (blk[t][s].p != NULL && p < blk[t][s].p + blk[t][s].n && blk[t][s].p < p + n)
      sim_violation("overlap", "a new block of %zu bytes overlaps a live one", n);
}
static unsigned long newtag(void) { tags += 100000; return tags; }

static int res_op(const SimOp *o, int thr, ExceptionInfo *e)
{
  Grants *g = &grants[thr];
  switch (o->kind)
    {
    case R_ACQ:
      {
        long ok;
        sim_inv(o);
        ok = g->n < 32 && AcquireWizardResource(types[o->a[0]], (WizardSizeType) o->a[1]) != WizardFalse;
        if (ok) { g->type[g->n] = (int) o->a[0]; g->size[g->n] = (unsigned long) o->a[1]; g->n++; }
        sim_ret(o, ok, 0, NULL, 0);
        return 1;
      }
    case R_REL:
      {
        long i = 0, v[2] = { -1, 0 };
        if (g->n == 0) return 1;
        i = o->a[0] % g->n;
        v[0] = g->type[i]; v[1] = (long) g->size[i];
        g->n--; g->type[i] = g->type[g->n]; g->size[i] = g->size[g->n];
        sim_note(20, o->id, 0, v, sizeof v);
        sim_inv(o);
        RelinquishWizardResource(types[v[0]], (WizardSizeType) v[1]);
        sim_ret(o, 1, 0, v, sizeof v);
        return 1;
      }
    case R_GET: sim_inv(o); { long v = (long) GetWizardResource(types[o->a[0]]); sim_ret(o, 1, v, NULL, 0); } return 1;
    case R_GETLIM: sim_inv(o); { long v = (long) GetWizardResourceLimit(types[o->a[0]]); sim_ret(o, 1, v, NULL, 0); } return 1;
    case R_LIM: sim_inv(o); SetWizardResourceLimit(types[o->a[0]], (WizardSizeType) o->a[1]); sim_ret(o, 1, 0, NULL, 0); return 1;
    case R_VACQ:
      {
        unsigned long u[2 * R_TYPES]; long s = o->a[0]; size_t n = (size_t) (o->a[1] * o->a[2]);
        if (vm[thr][s].m != NULL) return 1;
        usage(u);
        sim_inv(o);
        vm[thr][s].m = AcquireVirtualMemory((size_t) o->a[1], (size_t) o->a[2], e);
        usage(u + R_TYPES);
        if (vm[thr][s].m != NULL)
          {
            vm[thr][s].p = GetVirtualMemoryBlob(vm[thr][s].m); vm[thr][s].n = n;
            if (sim_mem_ok(vm[thr][s].p, n)) sim_violation("unusable", "a block of %zu bytes is not wholly usable", n);
          }
        sim_ret(o, vm[thr][s].m != NULL, s, u, sizeof u);
        return 1;
      }
    case R_VREL:
      {
        unsigned long u[2 * R_TYPES]; long s = o->a[0];
        if (vm[thr][s].m == NULL) return 1;
        usage(u);
        sim_inv(o);
        vm[thr][s].m = RelinquishVirtualMemory(vm[thr][s].m);
        usage(u + R_TYPES);
        sim_ret(o, 1, s, u, sizeof u);
        return 1;
      }
    }
  return 0;
}

static int tmp_op(const SimOp *o, int thr, ExceptionInfo *e)
{
  long s = o->a[0];
  switch (o->kind)
    {
    case R_TACQ:
      {
        unsigned long u[2 * R_TYPES]; int fd = -1, ok; char data[64];
        if (tmp[thr][s].used) return 1;
        usage(u);
        *tmp[thr][s].name = '\0';
        sim_inv(o);
        if (o->a[2] == 0) { fd = AcquireUniqueFileResource(dirs[o->a[1]], tmp[thr][s].name, e); ok = fd != -1; }
        else ok = AcquireUniqueFilename(tmp[thr][s].name, e) != WizardFalse;
        if (ok)
          {
            const char *nm = tmp[thr][s].name;
            sim_note(N_OUT, s, 0, nm, (long) strlen(nm));
            sim_quiet(1);
            if (sim_file_size(nm) == -1 && !sim_in_signal()) sim_violation("missing", "a temporary file does not exist when it is handed out: %s", nm);
            if (sim_file_size(nm) > 0) sim_violation("shared", "a temporary file is not empty when it is handed out: %s", nm);
            if (sim_file_mode(nm) != -1 && (sim_file_mode(nm) & 077)) sim_violation("public", "a temporary file can be accessed by others (mode %o): %s", sim_file_mode(nm), nm);
            tmp[thr][s].used = 1; tmp[thr][s].tag = newtag() + 17 * (unsigned long) sim_node() + (unsigned long) sim_life() * 1000003;
            sim_fill(data, 64, tmp[thr][s].tag);
            if (fd == -1) sim_file_write(nm, data, 64);
            else if (write(fd, data, 64) != 64) sim_violation("missing", "a temporary file cannot be written: %s", nm);
            if (fd != -1) close(fd);
            sim_quiet(0);
          }
        usage(u + R_TYPES);
        sim_ret(o, ok, s, u, sizeof u);
        return 1;
      }
    case R_TCHECK:
      {
        char have[64], want[64];
        if (!tmp[thr][s].used || sim_in_signal()) return 1;
        if (sim_file_size(tmp[thr][s].name) == -1) sim_violation("missing", "a temporary file vanished before it was given back: %s", tmp[thr][s].name);
        sim_fill(want, 64, tmp[thr][s].tag);
        if (sim_file_read(tmp[thr][s].name, have, 64) != 64 || memcmp(have, want, 64)) sim_violation("shared", "the content of a temporary file changed under its owner: %s", tmp[thr][s].name);
        return 1;
      }
    case R_TREL:
      {
        unsigned long u[2 * R_TYPES]; int ok; char have[64], want[64]; const char *nm = tmp[thr][s].name; long f;
        if (!tmp[thr][s].used) return 1;
        usage(u);
        sim_note(N_BACK, s, o->a[1], nm, (long) strlen(nm));
        sim_inv(o);
        f = sim_thread_faults();
        ok = RelinquishUniqueFileResource(nm, o->a[1] ? WizardTrue : WizardFalse) != WizardFalse;
        sim_quiet(1);
        tmp[thr][s].used = 0;
        if (o->a[1] && ok && sim_file_size(nm) != -1) sim_violation("remains", "a temporary file remains although giving it back succeeded: %s", nm);
        if (!ok && sim_thread_faults() == f && !sim_in_signal()) sim_violation("refused", "giving back a temporary file was reported as failed without any fault: %s", nm);
        if (!o->a[1])
          {
            sim_fill(want, 64, tmp[thr][s].tag);
            if (!sim_in_signal() && (sim_file_read(nm, have, 64) != 64 || memcmp(have, want, 64))) sim_violation("kept-lost", "a temporary file that was to be kept is gone or changed");
            sim_note(N_KEPT, s, 0, nm, (long) strlen(nm));
          }
        sim_quiet(0);
        usage(u + R_TYPES);
        sim_ret(o, ok, s, u, sizeof u);
        return 1;
      }
    }
  return 0;
}

static void mem_check(Block *b)
{
  long d;
  if (b->p == NULL) return;
  if (sim_mem_ok(b->p, b->n)) sim_violation("unusable", "a live block of %zu bytes is no longer usable", b->n);
  d = differs(b->p, b->n, b->n, b->tag);
  if (d >= 0) sim_violation("content", "byte %ld of a live block of %zu bytes changed", d, b->n);
}
static void mem_rel(Block *b)
{
  if (b->p == NULL) return;
  mem_check(b);
  if (b->how == 3) { b->p = NULL; b->m = RelinquishVirtualMemory(b->m); }
  else { unsigned char *p = b->p; b->p = NULL; if (b->how == 2) RelinquishAlignedMemory(p); else RelinquishWizardMemory(p); }
}
static int mem_op(const SimOp *o, int thr, ExceptionInfo *e)
{
  Block *b = &blk[thr][o->a[0]];
  size_t count = (size_t) o->a[2], quantum = (size_t) o->a[3], n = count * quantum, over;
  over = __builtin_mul_overflow(count, quantum, &n) || count == 0 || quantum == 0;
  switch (o->kind)
    {
    case R_MACQ:
      {
        unsigned char *p; MemoryInfo *m = NULL;
        if (b->p != NULL) return 1;
        sim_inv(o);
        switch (o->a[1])
          {
          case 0: p = AcquireWizardMemory(over ? (n = 0) : n); over = 0; break;
          case 1: p = AcquireQuantumMemory(count, quantum); break;
          case 2: p = AcquireAlignedMemory(count, quantum); break;
          default: m = AcquireVirtualMemory(count, quantum, e); p = m == NULL ? NULL : GetVirtualMemoryBlob(m); break;
          }
        sim_quiet(1);
        if (m != NULL && p == NULL) sim_violation("unusable", "virtual memory without memory");
        if (p != NULL && over && n != 0) sim_violation("overflow", "a request for %zu times %zu bytes was granted", count, quantum);
        if (p != NULL)
          {
            if (o->a[1] >= 2 && n != 0 && o->a[1] == 2 && ((size_t) p & 63)) sim_violation("unaligned", "an aligned block is at %p", (void *) p);
            if ((size_t) p & 15) sim_violation("unaligned", "a block is at %p", (void *) p);
            overlap(p, n == 0 ? 1 : n);
            b->p = p; b->n = n; b->how = (int) o->a[1]; b->m = m; b->tag = newtag();
            fill(p, n, b->tag);
          }
        sim_quiet(0);
        sim_ret(o, p != NULL, (long) n, NULL, 0);
        return 1;
      }
    case R_MRES:
      {
        unsigned char *p = b->p, *q; size_t old = b->n; unsigned long tag = b->tag; long d;
        if (p != NULL && b->how >= 2) return 1;
        mem_check(b);
        sim_inv(o);
        b->p = NULL;
        if (o->a[1] == 0) { q = ResizeWizardMemory(p, over ? (n = 0) : n); over = 0; }
        else q = ResizeQuantumMemory(p, count, quantum);
        sim_quiet(1);
        if (q != NULL && over && n != 0) sim_violation("overflow", "a request for %zu times %zu bytes was granted", count, quantum);
        if (q != NULL)
          {
            overlap(q, n == 0 ? 1 : n);
            if (p != NULL && (d = differs(q, n < old ? n : old, old, tag)) >= 0) sim_violation("content", "resizing from %zu to %zu bytes changed byte %ld", old, n, d);
            b->p = q; b->n = n; b->how = (int) o->a[1]; b->tag = newtag();
            fill(q, n, b->tag);
          }
        sim_quiet(0);
        sim_ret(o, q != NULL, (long) n, NULL, 0);
        return 1;
      }
    case R_MREL: sim_inv(o); mem_rel(b); sim_ret(o, 1, 0, NULL, 0); return 1;
    case R_MCHECK: { int s; for (s = 0; s < R_SLOTS; s++) mem_check(&blk[thr][s]); return 1; }
    }
  return 0;
}

static void run(int thr)
{
  const SimOp *o;
  while ((o = sim_op()) != NULL)
    {
      ExceptionInfo *e;
      sim_quiet(1);
      e = AcquireExceptionInfo();
      sim_quiet(0);
      if (!res_op(o, thr, e) && !tmp_op(o, thr, e)) mem_op(o, thr, e);
      sim_quiet(1);
      e = DestroyExceptionInfo(e);
      sim_quiet(0);
    }
}
void c12_thread(int thr) { run(thr); }
void c13_thread(int thr) { run(thr); }
void c18_thread(int thr) { run(thr); }

void c12_teardown(void)
{
  unsigned long u[R_TYPES], want[R_TYPES] = { 0 };
  int t, s, i;
  static const char *name[] = { "memory", "address space", "disk", "files" };
  sim_quiet(1);
  for (t = 0; t < 8; t++)
    for (s = 0; s < R_SLOTS; s++)
      {
        if (vm[t][s].m != NULL) vm[t][s].m = RelinquishVirtualMemory(vm[t][s].m);
        if (tmp[t][s].used) { RelinquishUniqueFileResource(tmp[t][s].name, WizardTrue); tmp[t][s].used = 0; }
      }
  for (t = 0; t < 8; t++) for (i = 0; i < grants[t].n; i++) want[grants[t].type[i]] += grants[t].size[i];
  usage(u);
  for (i = 0; i < R_TYPES; i++)
    if (u[i] != want[i]) sim_violation("unbalanced", "%lu units of %s are reported in use, %lu were granted and not given back", u[i], name[i], want[i]);
  sim_quiet(0);
}
void c13_teardown(void)
{
  int t, s;
  sim_quiet(1);
  WizardsToolkitTerminus();
  for (t = 0; t < 8; t++) for (s = 0; s < R_SLOTS; s++)
    if (tmp[t][s].used && sim_file_size(tmp[t][s].name) != -1) sim_violation("remains", "a temporary file remains after orderly shutdown: %s", tmp[t][s].name);
  sim_quiet(0);
}
void c18_teardown(void)
{
  int t, s;
  sim_quiet(1);
  for (t = 0; t < 8; t++) for (s = 0; s < R_SLOTS; s++) mem_rel(&blk[t][s]);
  if (sim_live_blocks() != base_blocks) sim_violation("leak", "%ld heap blocks left behind", sim_live_blocks() - base_blocks);
  if (sim_live_maps() != base_maps) sim_violation("leak", "%ld mappings left behind", sim_live_maps() - base_maps);
  if (sim_open_fds() != base_fds) sim_violation("leak", "%ld descriptors left open", sim_open_fds() - base_fds);
  sim_quiet(0);
}
