/* C15: threads log events while others change the format and the mask or close the log. */
#include "act.h"
#include "c15.h"

static const LogEventType types[] = { TraceEvent, BlobEvent, ExceptionEvent, WarningEvent, UserEvent, ResourceEvent };
static const char *masks[] = { "All", "None", "User", "Trace,User", "Exception", "Warning,Blob" };
static char *longform;

void c15_setup(void)
{
  char b[256];
  int n;
  sim_quiet(1);
  WizardsToolkitGenesis("sim");
  longform = (char *) malloc(6100);
  memset(longform, 'y', 6000);
  memcpy(longform, "L", 1);
  strcpy(longform + 6000, "%e");
  n = snprintf(b, sizeof b, "%s|%s", GetClientName(), GetLogName());
  sim_note(N15_WHO, (long) getpid(), 0, b, n);
  sim_quiet(0);
}

static const char *format_of(long k)
{
  switch (k)
    {
    case 0: return "Z%eZ";
    case 1: return "A%eA%eA";
    case 2: return "B %d %m %f %l %p %n %c %% %q %e B\\n%e\\r|%t %r %u %v";
    case 3: return "xml";
    case 4: return longform;
    default: return "%t %r %u %v %d %c[%p]: %m/%f/%l/%d\\n  %e 5";
    }
}

void c15_thread(int thr)
{
  const SimOp *o;
  char *b;
  (void) thr;
  sim_quiet(1);
  b = (char *) malloc(8192);
  sim_quiet(0);
  while ((o = sim_op()) != NULL)
    {
      long i, n, f = sim_thread_faults(), st = 1;
      ExceptionInfo *e;
      if (o->kind == K15_LOG || o->kind == K15_THROW)
        {
          n = sprintf(b, "[E%d.", o->id);
          for (i = 0; i < o->a[1]; i++)
            b[n++] = 'a' + (char) ((o->id + i) % 26);
          strcpy(b + n, "]");
        }
      sim_inv(o);
      switch (o->kind)
        {
        case K15_LOG: st = LogWizardEvent(types[o->a[0]], "dir/mod.c", "fun", (size_t) o->id, "%s", b); break;
        case K15_THROW:
          e = AcquireExceptionInfo();
          (void) ThrowWizardException(e, "dir/mod.c", "fun", (size_t) o->id, o->a[0] == 2 ? BlobError : BlobWarning, "%s", b);
          e = DestroyExceptionInfo(e);
          break;
        case K15_FORMAT: SetLogFormat(format_of(o->a[0])); break;
        case K15_MASK: (void) SetLogEventMask(masks[o->a[0]]); break;
        case K15_CLOSE: CloseWizardLog(); break;
        case K15_LIST:
          {
            size_t k;
            const LogInfo **l;
            e = AcquireExceptionInfo();
            l = GetLogInfoList("*", &k, e);
            if (l != NULL)
              l = (const LogInfo **) RelinquishWizardMemory((void *) l);
            e = DestroyExceptionInfo(e);
            break;
          }
        }
      sim_ret(o, st, sim_thread_faults() - f, NULL, 0);
    }
  sim_quiet(1);
  free(b);
  sim_quiet(0);
}

void c15_teardown(void)
{
  sim_quiet(1);
  free(longform);
  WizardsToolkitTerminus();
  sim_quiet(0);
}
