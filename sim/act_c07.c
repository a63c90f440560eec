/* C07: threads of several processes draw random keys from shared and own generators. */
#include "act.h"
#include "c07.h"

static RandomInfo *shared;
static const HashType hashes[] = { SHA2256Hash, SHA2512Hash, SHA1Hash, MD5Hash, SHA3256Hash };

static RandomInfo *fresh(void)
{
  RandomInfo *r = AcquireRandomInfo(hashes[sim_cfg(0)]);
  if (r == NULL)
    sim_violation("no-generator", "no random generator could be acquired");
  return r;
}

void c07_setup(void)
{
  sim_quiet(1);
  WizardsToolkitGenesis("sim");
  sim_quiet(0);
  shared = NULL;
  if (sim_cfg(1))
    SetRandomTrueRandom(WizardTrue);
  shared = fresh();
}

void c07_thread(int thr)
{
  const SimOp *o;
  RandomInfo *own = NULL;
  (void) thr;
  while ((o = sim_op()) != NULL)
    {
      RandomInfo *r;
      sim_inv(o);
      switch (o->kind)
        {
          case K7_NEW:
            if (own != NULL)
              own = DestroyRandomInfo(own);
            own = fresh();
            sim_ret(o, 1, 0, NULL, 0);
            break;
          case K7_DROP:
            if (own != NULL)
              own = DestroyRandomInfo(own);
            sim_ret(o, 1, 0, NULL, 0);
            break;
          case K7_KEY:
            {
              StringInfo *k;
              r = o->a[0] && own != NULL ? own : shared;
              k = GetRandomKey(r, (size_t) o->a[1]);
              if (GetStringInfoLength(k) != (size_t) o->a[1])
                sim_violation("length", "a key of %lu bytes instead of %ld", (unsigned long) GetStringInfoLength(k), o->a[1]);
              sim_ret(o, 1, 0, GetStringInfoDatum(k), o->a[1]);
              k = DestroyStringInfo(k);
              break;
            }
          case K7_VALUE:
            {
              double v = GetRandomValue(o->a[0] && own != NULL ? own : shared);
              if (!(v >= 0.0 && v <= 1.0))
                sim_violation("value", "a random value outside of 0..1");
              sim_ret(o, 1, 0, &v, sizeof(v));
              break;
            }
          case K7_PSEUDO:
            {
              double v[4];
              int i;
              if (own == NULL)
                own = fresh();
              for (i = 0; i < 4; i++)
                {
                  v[i] = GetPseudoRandomValue(own);
                  if (!(v[i] >= 0.0 && v[i] <= 1.0))
                    sim_violation("value", "a pseudo random value outside of 0..1");
                }
              sim_ret(o, 1, 0, v, sizeof(v));
              break;
            }
        }
    }
  if (own != NULL)
    own = DestroyRandomInfo(own);
}

void c07_teardown(void)
{
  if (shared != NULL)
    shared = DestroyRandomInfo(shared);
}
