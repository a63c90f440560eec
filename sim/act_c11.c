/* C11: threads share one ordered tree map. */
#include "act.h"
#include "c11.h"

static SplayTreeInfo *tree;
static int kfree[C11_MAXK], vfree[C11_MAXV];
static char names[C11_MAXK][16], twins[C11_MAXK][16];

/* keys that know when they were given back; every insertion brings its own */
typedef struct { long id; int dead, kept; } Key;
static Key ids[C11_MAXK], tids[C11_MAXK], fresh[C11_MAXOPS];

static int cmp(const void *a, const void *b)
{
  const Key *x = (const Key *) a, *y = (const Key *) b;
  if (x->dead || y->dead) sim_violation("dead-key", "key %ld is used after it was given back", x->dead ? x->id : y->id);
  return x->id < y->id ? -1 : x->id > y->id ? 1 : 0;
}
static void *key_of(long k)
{
  switch (sim_cfg(0))
    {
    case 0: return (void *) ((k + 1) << 4);
    case 1: return &ids[k];
    default: return names[k];
    }
}
/* an equal key that is another object */
static void *twin_of(long k, const SimOp *o)
{
  if (sim_cfg(0) == 1) return &tids[k];
  return o->id % 2 == 0 || sim_cfg(0) == 0 ? key_of(k) : (void *) twins[k];
}
static void *new_key(long k, const SimOp *o)
{
  if (sim_cfg(0) != 1) return key_of(k);
  fresh[o->id].id = k; fresh[o->id].kept = 1;
  return &fresh[o->id];
}
static long key_id(const void *k)
{
  if (k == NULL) return -1;
  switch (sim_cfg(0))
    {
    case 0: return ((long) k >> 4) - 1;
    case 1: return ((const Key *) k)->id;
    default: return ((const char *) k - names[0]) / 16;
    }
}
static void *drop_key(void *k)
{
  kfree[key_id(k)]++;
  if (sim_cfg(0) == 1 && ((Key *) k)->dead++) sim_violation("dead-key", "key %ld is given back twice", key_id(k));
  return NULL;
}
static void *drop_val(void *v)
{
  if (++vfree[(long) v >> 4] > 1)
    sim_violation("lost-or-duplicated", "value %ld given back twice", (long) v >> 4);
  return NULL;
}
static void *same(void *p) { return p; }
static void *copy_key(void *k) { return sim_cfg(0) == 1 ? (void *) &tids[((Key *) k)->id] : k; }

void c11_setup(void)
{
  long i;
  sim_quiet(1);
  for (i = 0; i < C11_MAXK; i++) { ids[i].id = tids[i].id = i; sprintf(names[i], "k%05ld", i); memcpy(twins[i], names[i], 16); }
  tree = NewSplayTree(sim_cfg(0) == 0 ? NULL : sim_cfg(0) == 1 ? cmp : CompareSplayTreeString,
    sim_cfg(2) & 1 ? drop_key : NULL, sim_cfg(2) & 2 ? drop_val : NULL);
  for (i = 0; i < sim_cfg(1); i++)
    if (AddValueToSplayTree(tree, key_of(C11_PREK(i)), (void *) C11_PREV(i)) == WizardFalse)
      sim_violation("prefill", "insertion failed");
  if (sim_cfg(3)) ResetSplayTreeIterator(tree);
  sim_quiet(0);
}

void c11_thread(int thr)
{
  const SimOp *o;
  (void) thr;
  while ((o = sim_op()) != NULL)
    {
      long st = 0, n = 0;
      void *v = NULL;
      long *arr = NULL;
      SplayTreeInfo *c;
      if (o->kind == T_CLONE) { sim_quiet(1); arr = (long *) malloc(4096 * sizeof(long)); sim_quiet(0); }
      sim_inv(o);
      switch (o->kind)
        {
        case T_ADD: st = AddValueToSplayTree(tree, new_key(o->a[0], o), (void *) o->a[1]); if (!st && sim_cfg(0) == 1) fresh[o->id].kept = 0; break;
        case T_GET: v = (void *) GetValueFromSplayTree(tree, twin_of(o->a[0], o)); break;
        case T_DELETE: st = DeleteNodeFromSplayTree(tree, twin_of(o->a[0], o)); break;
        case T_REMOVE: v = RemoveNodeFromSplayTree(tree, twin_of(o->a[0], o)); break;
        case T_DELETEV: st = DeleteNodeByValueFromSplayTree(tree, (void *) o->a[1]); break;
        case T_REMOVEV: v = RemoveNodeByValueFromSplayTree(tree, (void *) o->a[1]); if (v && sim_cfg(0) == 1) ((Key *) v)->kept = 0; st = key_id(v); v = NULL; break;
        case T_COUNT: st = (long) GetNumberOfNodesInSplayTree(tree); break;
        case T_RESET: ResetSplayTree(tree); break;
        case T_ITRESET: ResetSplayTreeIterator(tree); break;
        case T_NEXTK: st = key_id(GetNextKeyInSplayTree(tree)); break;
        case T_NEXTV: v = (void *) GetNextValueInSplayTree(tree); break;
        case T_CLONE:
          c = CloneSplayTree(tree, copy_key, same);
          sim_quiet(1);
          ResetSplayTreeIterator(c);
          while (n < 4094) { const void *k = GetNextKeyInSplayTree(c); if (k == NULL) break; arr[n++] = key_id(k); arr[n++] = (long) GetValueFromSplayTree(c, k); }
          st = (long) GetNumberOfNodesInSplayTree(c);
          sim_quiet(0);
          break;
        }
      sim_ret(o, st, (long) v, arr, n * (long) sizeof(long));
      if (arr) free(arr);
    }
}

void c11_teardown(void)
{
  long n, m = 0, i;
  long *v;
  sim_quiet(1);
  v = (long *) malloc(8192 * sizeof(long));
  n = (long) GetNumberOfNodesInSplayTree(tree);
  ResetSplayTreeIterator(tree);
  while (m < 8190)
    {
      const void *k = GetNextKeyInSplayTree(tree);
      if (k == NULL) break;
      v[m++] = key_id(k);
      m++;
    }
  for (i = 0; i < m; i += 2) v[i + 1] = (long) GetValueFromSplayTree(tree, sim_cfg(0) == 1 ? (void *) &tids[v[i]] : key_of(v[i]));
  ResetSplayTreeIterator(tree);
  for (i = 0; i < m; i += 2)
    if ((long) GetNextValueInSplayTree(tree) != v[i + 1])
      sim_violation("walk", "walk over values differs from lookup at entry %ld", i / 2);
  if (GetNextValueInSplayTree(tree) != NULL) sim_violation("walk", "walk over values is longer than the walk over keys");
  sim_note(1, n, m / 2, v, m * (long) sizeof(long));
  tree = DestroySplayTree(tree);
  if (sim_cfg(0) == 1 && (sim_cfg(2) & 1))
    {
      for (i = 0; i < C11_MAXOPS; i++) if (fresh[i].kept && !fresh[i].dead) sim_violation("lost-key", "key %ld was never given back", fresh[i].id);
    }
  sim_note(2, 0, 0, vfree, sizeof vfree);
  free(v);
  sim_quiet(0);
}
