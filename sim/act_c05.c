/* C05: processes store, look up and list keys of one keyring. */
#include "act.h"
#include "wizard/blob-private.h"
#include "c05.h"

void c05_setup(void) { sim_quiet(1); WizardsToolkitGenesis("sim"); sim_quiet(0); }

static StringInfo *bytes(long n, unsigned long tag)
{
  StringInfo *s = AcquireStringInfo((size_t) n);
  sim_fill(GetStringInfoDatum(s), n, tag);
  return s;
}

void c05_thread(int thr)
{
  const SimOp *o;
  (void) thr;
  while ((o = sim_op()) != NULL)
    {
      ExceptionInfo *e;
      KeyringInfo *k;
      StringInfo *id, *key, *nonce;
      const char *path = sim_cfg(0) ? K5_PATH : NULL;
      long i, ok = 0, n = o->a[4] < 1 ? 1 : o->a[4];
      sim_quiet(1);
      e = AcquireExceptionInfo();
      id = bytes(sim_cfg(1), 1000 + (unsigned long) o->a[0]);
      GetStringInfoDatum(id)[0] = (unsigned char) o->a[0];
      key = bytes(o->a[2], 2000 + (unsigned long) o->a[1]);
      nonce = bytes(o->a[3], 3000 + (unsigned long) o->a[1]);
      k = AcquireKeyringInfo(path);
      SetKeyringId(k, id);
      sim_quiet(0);
      sim_inv(o);
      switch (o->kind)
        {
          case K5_STORE:
            SetKeyringKey(k, key);
            SetKeyringNonce(k, nonce);
            for (i = 0; i < n && !ok; i++)
              ok = ImportKeyringKey(k, e) != WizardFalse;
            sim_ret(o, ok, 0, NULL, 0);
            break;
          case K5_LOOKUP:
            for (i = 0; i < n && !ok; i++)
              ok = ExportKeyringKey(k, e) != WizardFalse;
            if (!ok)
              sim_ret(o, 0, 0, NULL, 0);
            else
              {
                const StringInfo *gk = GetKeyringKey(k), *gn = GetKeyringNonce(k);
                unsigned char buf[8192];
                size_t a = GetStringInfoLength(gk), b = GetStringInfoLength(gn);
                if (a + b > sizeof buf)
                  sim_violation("wrong-key", "a lookup returned %lu key and %lu nonce bytes", (unsigned long) a, (unsigned long) b);
                memcpy(buf, GetStringInfoDatum(gk), a);
                memcpy(buf + a, GetStringInfoDatum(gn), b);
                sim_ret(o, 1, (long) a, buf, (long) (a + b));
              }
            break;
          case K5_LIST:
            {
              char name[64];
              BlobInfo *b;
              snprintf(name, sizeof name, K5_LISTING, o->id);
              b = OpenBlob(name, WriteBinaryBlobMode, WizardTrue, e);
              if (b != (BlobInfo *) NULL)
                {
                  ok = PrintKeyringProperties(path, b, e) != WizardFalse;
                  (void) CloseBlob(b);
                  b = DestroyBlob(b);
                }
              sim_ret(o, ok, 0, NULL, 0);
              break;
            }
        }
      sim_quiet(1);
      k = DestroyKeyringInfo(k);
      id = DestroyStringInfo(id);
      key = DestroyStringInfo(key);
      nonce = DestroyStringInfo(nonce);
      e = DestroyExceptionInfo(e);
      sim_quiet(0);
    }
}

void c05_teardown(void) { }
