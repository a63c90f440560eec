/* C16: threads use the library's shared tables and locks for the first time together. */
#include "act.h"
#include "c16.h"

static int join(char *b, char **l, size_t n)
{
  size_t i;
  int k = 0;
  if (l == NULL)
    return sprintf(b, "none");
  for (i = 0; i < n; i++)
    {
      k += sprintf(b + k, "%s ", l[i]);
      l[i] = DestroyString(l[i]);
    }
  l = (char **) RelinquishWizardMemory(l);
  return k;
}

/* the answer as text */
static int use(int kind, long a, char *b)
{
  ExceptionInfo *e = AcquireExceptionInfo();
  int k = 0;
  size_t n = 0, i;
  char **v;
  char t[64];
  switch (kind)
    {
    case K16_GENESIS: WizardsToolkitGenesis("sim"); break;
    case K16_CONF:
    case K16_BUILTIN:
      {
        const ConfigureInfo *p;
        sprintf(t, kind == K16_CONF ? "N%ld" : "NAME", a);
        p = GetConfigureInfo(t, e);
        k = sprintf(b, "%s", p ? GetConfigureValue(p) : "none");
        break;
      }
    case K16_CONFLIST:
      if (a & 1)
        {
          const ConfigureInfo **l = GetConfigureInfoList("N*", &n, e);
          k = l ? 0 : sprintf(b, "none");
          for (i = 0; l != NULL && i < n; i++)
            k += sprintf(b + k, "%s ", GetConfigureValue(l[i]));
          if (l != NULL)
            l = (const ConfigureInfo **) RelinquishWizardMemory((void *) l);
          break;
        }
      v = GetConfigureList("N*", &n, e);
      k = join(b, v, n);
      break;
    case K16_MIMELIST:
      if (a & 1)
        {
          const MimeInfo **l = GetMimeInfoList("t/*", &n, e);
          k = l ? 0 : sprintf(b, "none");
          for (i = 0; l != NULL && i < n; i++)
            k += sprintf(b + k, "%s ", GetMimeType(l[i]));
          if (l != NULL)
            l = (const MimeInfo **) RelinquishWizardMemory((void *) l);
          break;
        }
      v = GetMimeList("t/*", &n, e);
      k = join(b, v, n);
      break;
    case K16_LOCALELIST:
      if (a & 1)
        {
          const LocaleInfo **l = GetLocaleInfoList("Ex/*", &n, e);
          k = l ? 0 : sprintf(b, "none");
          for (i = 0; l != NULL && i < n; i++)
            k += sprintf(b + k, "%s\n", l[i]->message);
          if (l != NULL)
            l = (const LocaleInfo **) RelinquishWizardMemory((void *) l);
          break;
        }
      v = GetLocaleList("Ex/*", &n, e);
      k = join(b, v, n);
      break;
    case K16_LOGLIST:
      {
        const LogInfo **l = GetLogInfoList("*", &n, e);
        k = sprintf(b, "%s", l && n ? "some" : "none");
        if (l != NULL)
          l = (const LogInfo **) RelinquishWizardMemory((void *) l);
        break;
      }
    case K16_PATTERN:
    case K16_MAGIC:
      {
        const MimeInfo *p;
        if (kind == K16_PATTERN)
          {
            sprintf(t, "f.x%ld", a);
            p = GetMimeInfo(t, (const unsigned char *) "nothing", 7, e);
          }
        else
          {
            sprintf(t, a & 1 ? "..MAG%ld" : "..MAG%ld.....", a);
            p = GetMimeInfo(a % 3 ? "plain" : "f.x2", (const unsigned char *) t, strlen(t), e);
          }
        k = sprintf(b, "%s", p ? GetMimeType(p) : "none");
        break;
      }
    case K16_TOMIME:
      {
        char *m;
        sprintf(t, "x%ld", a);
        m = WizardToMime(t);
        k = sprintf(b, "%s", m ? m : "none");
        if (m != NULL)
          m = DestroyString(m);
        break;
      }
    case K16_LOCALE: sprintf(t, "Ex/Sub/m%ld", a); k = sprintf(b, "%s", GetLocaleMessage(t)); break;
    case K16_LOG: (void) LogWizardEvent(UserEvent, "m.c", "f", 1, "[E%ld]", a); break;
    case K16_RESOURCE:
      k = sprintf(b, "%d", AcquireWizardResource(FileResource, 1));
      RelinquishWizardResource(FileResource, 1);
      break;
    case K16_RANDOM:
      {
        RandomInfo *r = AcquireRandomInfo(MD5Hash);
        StringInfo *s = GetRandomKey(r, 16);
        k = sprintf(b, "%d", (int) GetStringInfoLength(s));
        s = DestroyStringInfo(s);
        r = DestroyRandomInfo(r);
        break;
      }
    case K16_THROW:
      (void) ThrowWizardException(e, "m.c", "f", 1, OptionWarning, "w%ld", a);
      k = sprintf(b, "%d", (int) GetExceptionSeverity(e));
      break;
    case K16_TEMP:
      {
        char p[4096];
        int f = AcquireUniqueFileResource("sim", p, e);
        if (f != -1)
          close(f);
        k = sprintf(b, "%d", f != -1);
        if (f != -1)
          (void) RelinquishUniqueFileResource(p, WizardFalse);
        break;
      }
    }
  e = DestroyExceptionInfo(e);
  return k;
}

static void sweep(int tag)
{
  static const int kinds[] = { K16_CONF, K16_BUILTIN, K16_CONFLIST, K16_PATTERN, K16_MAGIC, K16_MIMELIST, K16_LOCALE, K16_LOG, K16_RESOURCE, K16_RANDOM, K16_THROW, K16_TEMP, K16_TOMIME, K16_LOCALELIST, K16_LOGLIST };
  char *b = (char *) malloc(4096);
  size_t i;
  long a;
  for (i = 0; i < sizeof kinds / sizeof *kinds; i++)
    for (a = 0; a < N16_ENTRIES; a++)
      {
        int k = use(kinds[i], a, b);
        sim_note(N16_SWEEP, kinds[i], a | (long) tag << 8, b, k);
        if (kinds[i] == K16_LOG || kinds[i] == K16_RESOURCE || kinds[i] == K16_RANDOM || kinds[i] == K16_TEMP || kinds[i] == K16_LOGLIST)
          break;
      }
  free(b);
}

/* cfg: 0 earlier uses of the library, 1 who starts it for the threads (0 the main thread, 1 each thread, 2 nobody), 2 later uses */
void c16_setup(void)
{
  long i;
  sim_quiet(1);
  for (i = 0; i < sim_cfg(0); i++)
    {
      WizardsToolkitGenesis("sim");
      sweep(1);
      WizardsToolkitTerminus();
      sim_note(N16_LIVE, sim_live_blocks(), sim_live_bytes(), NULL, 0);
    }
  if (sim_cfg(1) == 0)
    WizardsToolkitGenesis("sim");
  sim_quiet(0);
}

void c16_thread(int thr)
{
  const SimOp *o;
  char *b;
  (void) thr;
  sim_quiet(1);
  b = (char *) malloc(4096);
  sim_quiet(0);
  while ((o = sim_op()) != NULL)
    {
      int k;
      sim_inv(o);
      k = use(o->kind, o->a[0], b);
      sim_ret(o, 0, 0, b, k);
    }
  sim_quiet(1);
  free(b);
  sim_quiet(0);
}

void c16_teardown(void)
{
  long i;
  sim_quiet(1);
  if (sim_cfg(1) == 2)
    WizardsToolkitGenesis("sim");
  for (i = 0; i <= sim_cfg(2); i++)
    {
      if (i)
        {
          WizardsToolkitGenesis("sim");
          sweep(2);
        }
      WizardsToolkitTerminus();
      sim_note(N16_LIVE, sim_live_blocks(), sim_live_bytes(), NULL, 0);
    }
  sim_quiet(0);
}
