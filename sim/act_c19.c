/* C19: processes generate secret keys under passphrases and unlock them. */
#include "act.h"
#include "c19.h"

static const HashType hashes[] = { SHA2256Hash, SHA2512Hash, SHA1Hash, SHA3256Hash };

/* a secret as such, or behind the interface of authentication methods */
typedef struct { SecretInfo *s; AuthenticateInfo *a; long hash; } Obj;
static Obj held[8];

static Obj obj_new(const char *ring, long hash, long bits, long front)
{
  Obj x = { NULL, NULL, hash };
  if (front) { x.a = AcquireAuthenticateInfo(SecretAuthenticateMethod, ring, hashes[hash]); SetAuthenticateKeyLength(x.a, (size_t) bits); }
  else x.s = AcquireSecretInfo(ring, hashes[hash], (size_t) bits);
  return x;
}
static void obj_free(Obj *x)
{
  if (x->a != NULL) x->a = DestroyAuthenticateInfo(x->a);
  if (x->s != NULL) x->s = DestroySecretInfo(x->s);
}
static int obj_is(const Obj *x) { return x->a != NULL || x->s != NULL; }

void c19_setup(void) { sim_quiet(1); WizardsToolkitGenesis("sim"); sim_quiet(0); }

void c19_thread(int thr)
{
  const SimOp *o;
  while ((o = sim_op()) != NULL)
    {
      ExceptionInfo *e;
      Obj x;
      char name[64], phrase[64];
      const StringInfo *k, *id;
      unsigned char buf[1024], idb[256];
      long n = 0, i, ok = 0;
      const char *ring = sim_cfg(0) ? K19_RING : NULL;
      sim_inv(o);
      if (o->kind == K19_UNLOCK)
        {
          snprintf(name, sizeof name, K19_IDFILE, o->a[0]);
          n = sim_file_read(name, idb, sizeof idb);
          if (n <= 0)
            {
              sim_ret(o, -1, 0, NULL, 0);
              continue;
            }
        }
      snprintf(phrase, sizeof phrase, K19_PHRASE, o->kind == K19_GEN ? o->a[0] : o->a[1]);
      sim_quiet(1);
      e = AcquireExceptionInfo();
      sim_quiet(0);
      for (i = 0; i < (o->a[3] < 1 ? 1 : o->a[3]) && !ok; i++)
        {
          long bits = o->kind == K19_GEN ? o->a[1] : 256;
          if ((o->a[4] & 1) && obj_is(&held[thr]) && held[thr].hash == o->a[2])
            {
              x = held[thr];
              memset(&held[thr], 0, sizeof held[thr]);
              if (x.a != NULL) SetAuthenticateKeyLength(x.a, (size_t) bits); else SetSecretKeyLength(x.s, (size_t) bits);
            }
          else
            x = obj_new(ring, o->a[2], bits, o->a[5]);
          if ((long) (x.a != NULL ? GetAuthenticateKeyLength(x.a) : GetSecretKeyLength(x.s)) != bits)
            sim_violation("wrong-key", "the length of keys is not the one that was set");
          if (x.a != NULL) SetAuthenticatePassphrase(x.a, phrase); else SetSecretPassphrase(x.s, phrase);
          if (o->kind == K19_GEN)
            ok = (x.a != NULL ? GenerateAuthenticateKey(x.a, e) : GenerateSecretKey(x.s, e)) != WizardFalse;
          else
            {
              StringInfo *sid = AcquireStringInfo((size_t) n);
              SetStringInfoDatum(sid, idb);
              if (x.a != NULL) SetAuthenticateId(x.a, sid); else SetSecretId(x.s, sid);
              sid = DestroyStringInfo(sid);
              ok = (x.a != NULL ? AuthenticateKey(x.a, e) : AuthenticateSecretKey(x.s, e)) != WizardFalse;
            }
          if (ok)
            {
              long a, b;
              k = x.a != NULL ? GetAuthenticateKey(x.a) : GetSecretKey(x.s);
              id = x.a != NULL ? GetAuthenticateId(x.a) : GetSecretId(x.s);
              a = (long) GetStringInfoLength(k);
              b = (long) GetStringInfoLength(id);
              if (a + b > (long) sizeof buf)
                sim_violation("wrong-key", "a key of %ld and an identifier of %ld bytes", a, b);
              memcpy(buf, GetStringInfoDatum(k), (size_t) a);
              memcpy(buf + a, GetStringInfoDatum(id), (size_t) b);
              if (o->kind == K19_GEN)
                {
                  snprintf(name, sizeof name, K19_IDFILE, (long) o->id);
                  sim_file_write(name, buf + a, b);
                }
              sim_ret(o, 1, a, buf, a + b);
            }
          if ((o->a[4] & 2) && !obj_is(&held[thr]))
            held[thr] = x;
          else
            obj_free(&x);
        }
      if (!ok)
        sim_ret(o, 0, 0, NULL, 0);
      sim_quiet(1);
      e = DestroyExceptionInfo(e);
      sim_quiet(0);
    }
  obj_free(&held[thr]);
}

void c19_teardown(void) { }
