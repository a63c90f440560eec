/* C10: threads share one linked list or one hash map. */
#include "act.h"
#include "c10.h"

static LinkedListInfo *list;
static HashmapInfo *map;
static int given[C10_MAXVAL], back[C10_MAXVAL];
static char names[64][16], twins[64][16];
/* keys that know when they were given back; every insertion brings its own */
typedef struct { long id; int dead, kept; } Key;
static Key pre[64], probe[64], fresh[C10_MAXOPS];
static StringInfo *infos[64], *tinfos[64];

static int cmp(const void *a, const void *b)
{
  long x = C10_KEY((long) a), y = C10_KEY((long) b);
  return x < y ? -1 : x > y ? 1 : 0;
}
static void *drop(void *v)
{
  long id = C10_ID((long) v);
  back[id]++;
  if (back[id] > given[id])
    sim_violation("lost-or-duplicated", "value %ld given back %d times, stored %d times", id, back[id], given[id]);
  return NULL;
}
static size_t bad_hash(const void *key) { (void) key; return 7; }
static size_t mod_hash(const void *key) { return ((size_t) key >> 4) % 3; }

static WizardBooleanType same_key(const void *a, const void *b) { return a == b ? WizardTrue : WizardFalse; }

static size_t id_hash(const void *k)
{
  if (((const Key *) k)->dead) sim_violation("dead-key", "key %ld is used after it was given back", ((const Key *) k)->id);
  return (size_t) ((const Key *) k)->id;
}
static WizardBooleanType same_id(const void *a, const void *b)
{
  const Key *x = (const Key *) a, *y = (const Key *) b;
  if (x->dead || y->dead) sim_violation("dead-key", "key %ld is used after it was given back", x->dead ? x->id : y->id);
  return x->id == y->id ? WizardTrue : WizardFalse;
}
static void *drop_key(void *k)
{
  if (((Key *) k)->dead++) sim_violation("dead-key", "key %ld is given back twice", ((Key *) k)->id);
  return NULL;
}
static void *key_of(long k)
{
  if (sim_cfg(3) == 2)
    return names[k];
  if (sim_cfg(3) == 4)
    return infos[k];
  if (sim_cfg(3) == 5)
    return &probe[k];
  return (void *) ((k + 1) << 4);
}
/* an equal key that is another object */
static void *twin_of(long k, const SimOp *o)
{
  if (o->id % 2 == 0)
    return key_of(k);
  return sim_cfg(3) == 2 ? (void *) twins[k] : sim_cfg(3) == 4 ? (void *) tinfos[k] : key_of(k);
}
static void *new_key(long k, const SimOp *o)
{
  if (sim_cfg(3) != 5)
    return key_of(k);
  fresh[o->id].id = k;
  return &fresh[o->id];
}
static long key_id(void *k)
{
  if (k == NULL)
    return -1;
  if (sim_cfg(3) == 2)
    return ((char *) k - names[0]) / 16;
  if (sim_cfg(3) == 4)
    {
      long i;
      for (i = 0; i < 64 && infos[i] != k; i++) ;
      return i;
    }
  if (sim_cfg(3) == 5)
    return ((Key *) k)->id;
  return ((long) k >> 4) - 1;
}

void c10_setup(void)
{
  long i;
  sim_quiet(1);
  for (i = 0; i < 64; i++) { sprintf(names[i], "k%ld", i * 7919); memcpy(twins[i], names[i], 16); pre[i].id = probe[i].id = i; }
  if (sim_cfg(0) == 2 && sim_cfg(3) == 4)
    for (i = 0; i < 64; i++)
      {
        /* what lies behind the end of the key differs */
        infos[i] = AcquireStringInfo(16); memset(GetStringInfoDatum(infos[i]), 0x5a, 16); SetStringInfoLength(infos[i], strlen(names[i])); memcpy(GetStringInfoDatum(infos[i]), names[i], strlen(names[i]));
        tinfos[i] = AcquireStringInfo(16); memset(GetStringInfoDatum(tinfos[i]), 0x33, 16); SetStringInfoLength(tinfos[i], strlen(names[i])); memcpy(GetStringInfoDatum(tinfos[i]), names[i], strlen(names[i]));
      }
  if (sim_cfg(0) < 2)
    {
      list = NewLinkedList((size_t) sim_cfg(1));
      for (i = 0; i < sim_cfg(2); i++)
        {
          given[C10_ID(C10_PRE(i))]++;
          if (sim_cfg(0) == 0)
            AppendValueToLinkedList(list, (void *) C10_PRE(i));
          else
            InsertValueInSortedLinkedList(list, cmp, NULL, (void *) C10_PRE(i));
        }
      if (sim_cfg(2) > 0 && sim_cfg(4)) ResetLinkedListIterator(list);
    }
  else
    {
      map = NewHashmap((size_t) sim_cfg(1), sim_cfg(3) == 0 ? HashPointerType : sim_cfg(3) == 1 ? bad_hash :
        sim_cfg(3) == 2 ? HashStringType : sim_cfg(3) == 4 ? HashStringInfoType : sim_cfg(3) == 5 ? id_hash : mod_hash,
        sim_cfg(3) == 0 && sim_cfg(4) ? NULL : sim_cfg(3) == 2 ? CompareHashmapString : sim_cfg(3) == 4 ? CompareHashmapStringInfo : sim_cfg(3) == 5 ? same_id : same_key,
        sim_cfg(3) == 5 ? drop_key : NULL, drop);
      for (i = 0; i < sim_cfg(2); i++)
        {
          given[C10_ID(C10_PRE(i))]++;
          PutEntryInHashmap(map, sim_cfg(3) == 5 ? (void *) &pre[i] : key_of(i), (void *) C10_PRE(i));
        }
    }
  sim_quiet(0);
}

void c10_thread(int thr)
{
  const SimOp *o;
  (void) thr;
  while ((o = sim_op()) != NULL)
    {
      long st = 0;
      void *v = NULL, *rep = NULL;
      long *arr = NULL;
      long n = 0;
      if (o->kind == L_TOARRAY) { sim_quiet(1); arr = (long *) malloc(512 * sizeof(long)); sim_quiet(0); }
      sim_inv(o);
      switch (o->kind)
        {
        case L_APPEND: given[C10_ID(o->a[1])]++; st = AppendValueToLinkedList(list, (void *) o->a[1]); break;
        case L_INSERT: given[C10_ID(o->a[1])]++; st = InsertValueInLinkedList(list, (size_t) o->a[0], (void *) o->a[1]); break;
        case L_SORTED: given[C10_ID(o->a[1])]++; st = InsertValueInSortedLinkedList(list, cmp, o->a[0] ? &rep : NULL, (void *) o->a[1]); v = rep; break;
        case L_GET: v = GetValueFromLinkedList(list, (size_t) o->a[0]); break;
        case L_LAST: v = GetLastValueInLinkedList(list); break;
        case L_REMOVE: v = RemoveElementFromLinkedList(list, (size_t) o->a[0]); break;
        case L_REMOVEV: v = RemoveElementByValueFromLinkedList(list, (void *) o->a[1]); break;
        case L_REMOVELAST: v = RemoveLastElementFromLinkedList(list); break;
        case L_COUNT: st = (long) GetNumberOfElementsInLinkedList(list); break;
        case L_EMPTY: st = IsLinkedListEmpty(list); break;
        case L_CLEAR: ClearLinkedList(list, NULL); break;
        case L_TOARRAY:
          memset(arr, 0xff, 512 * sizeof(long));
          st = LinkedListToArray(list, (void **) arr);
          for (n = 0; n < 512 && arr[n] != -1; n++) ;
          break;
        case L_RESET: ResetLinkedListIterator(list); break;
        case L_NEXT: v = GetNextValueInLinkedList(list); break;
        case H_PUT: given[C10_ID(o->a[1])]++; st = PutEntryInHashmap(map, new_key(o->a[0], o), (void *) o->a[1]);
          if (!st) given[C10_ID(o->a[1])]--;
          else if (sim_cfg(3) == 5) fresh[o->id].kept = 1;
          break;
        case H_GET: v = GetValueFromHashmap(map, twin_of(o->a[0], o)); break;
        case H_REMOVE: v = RemoveEntryFromHashmap(map, twin_of(o->a[0], o)); if (v) { back[C10_ID((long) v)]++; } break;
        case H_COUNT: st = (long) GetNumberOfEntriesInHashmap(map); break;
        case H_EMPTY: st = IsHashmapEmpty(map); break;
        case H_RESET: ResetHashmapIterator(map); break;
        case H_NEXTK: v = GetNextKeyInHashmap(map); st = key_id(v); v = NULL; break;
        case H_NEXTV: v = GetNextValueInHashmap(map); break;
        }
      sim_ret(o, st, (long) v, arr, n * (long) sizeof(long));
      if (arr) free(arr);
    }
}

void c10_teardown(void)
{
  long i, n, m = 0;
  long v[600];
  sim_quiet(1);
  if (list)
    {
      n = (long) GetNumberOfElementsInLinkedList(list);
      ResetLinkedListIterator(list);
      while (m < 600 && (v[m] = (long) GetNextValueInLinkedList(list)) != 0) m++;
      for (i = 0; i < m; i++)
        if ((long) GetValueFromLinkedList(list, (size_t) i) != v[i])
          sim_violation("walk", "element %ld differs between walk and lookup", i);
      if (m > 0 && (long) GetLastValueInLinkedList(list) != v[m - 1])
        sim_violation("walk", "last element differs from the walk");
      sim_note(1, n, m, v, m * (long) sizeof(long));
      list = DestroyLinkedList(list, NULL);
    }
  else
    {
      long k[600], mk = 0;
      n = (long) GetNumberOfEntriesInHashmap(map);
      ResetHashmapIterator(map);
      while (m < 600 && (v[m] = (long) GetNextValueInHashmap(map)) != 0) m++;
      ResetHashmapIterator(map);
      while (mk < 600 && (k[mk] = key_id(GetNextKeyInHashmap(map))) >= 0) mk++;
      if (mk != m) sim_violation("walk", "walk over keys visits %ld entries, over values %ld", mk, m);
      for (i = 0; i < mk; i++)
        if ((long) GetValueFromHashmap(map, key_of(k[i])) != v[i])
          sim_violation("walk", "entry %ld of the walk differs from lookup", i);
      sim_note(2, n, m, v, m * (long) sizeof(long));
      sim_note(3, n, mk, k, mk * (long) sizeof(long));
      map = DestroyHashmap(map);
      for (i = 0; i < C10_MAXOPS; i++)
        if (fresh[i].kept && !fresh[i].dead)
          sim_violation("lost-key", "key %ld was never given back", fresh[i].id);
      for (i = 0; i < C10_MAXVAL; i++)
        if (given[i] != back[i])
          sim_violation("lost-or-duplicated", "value %ld stored %d times, given back %d times", i, given[i], back[i]);
    }
  sim_quiet(0);
}
