/* C14: threads report into shared error records, copy, clear and deliver them. */
#include "act.h"
#include "c14.h"

static ExceptionInfo *rec[2];
static const ExceptionType sevs[] = { OptionWarning, BlobWarning, OptionError, BlobError, KeyringError, OptionFatalError, ResourceFatalError, WarningException, ErrorException, FatalErrorException };

static void deliver(int how, ExceptionType s, const char *reason, const char *description)
{
  char b[256];
  int n = snprintf(b, sizeof b, "%s|%s", reason == NULL ? "(none)" : reason, description == NULL ? "(none)" : description);
  sim_note(how, (long) s, 0, b, n);
}
static void on_warning(const ExceptionType s, const char *r, const char *d) { deliver(1, s, r, d); }
static void on_error(const ExceptionType s, const char *r, const char *d) { deliver(2, s, r, d); }
static void on_fatal(const ExceptionType s, const char *r, const char *d) { deliver(3, s, r, d); if (strncmp(r, "reason", 6) != 0 && strncmp(r, "formatted", 9) != 0) exit(1); }

void c14_setup(void)
{
  sim_quiet(1);
  WizardsToolkitGenesis("sim");
  SetWarningHandler(on_warning);
  SetErrorHandler(on_error);
  SetFatalErrorHandler(on_fatal);
  rec[0] = AcquireExceptionInfo();
  rec[1] = AcquireExceptionInfo();
  sim_quiet(0);
}

static void throw_one(ExceptionInfo *e, long s, long id, long form)
{
  char a[64], b[64];
  snprintf(a, sizeof a, "reason %ld", id);
  snprintf(b, sizeof b, "description %ld", id * 7);
  if (form == 2)
    ThrowWizardException(e, "mod.c", "fun", 7, sevs[s], "formatted %ld", id);
  else
    ThrowException(e, sevs[s], a, form == 1 ? NULL : b);
}

void c14_thread(int thr)
{
  const SimOp *o;
  (void) thr;
  while ((o = sim_op()) != NULL)
    {
      ExceptionInfo *e;
      long i;
      sim_inv(o);
      switch (o->kind)
        {
        case K14_THROW: throw_one(rec[o->a[0]], o->a[1], o->a[2], o->a[3]); sim_ret(o, 1, 0, NULL, 0); break;
        case K14_CATCH: CatchException(rec[o->a[0]]); sim_ret(o, 1, 0, NULL, 0); break;
        case K14_CLEAR: ClearWizardException(rec[o->a[0]]); sim_ret(o, 1, 0, NULL, 0); break;
        case K14_SEV: i = (long) GetExceptionSeverity(rec[o->a[0]]); sim_ret(o, 1, i, NULL, 0); break;
        case K14_SNAP:
          e = AcquireExceptionInfo();
          InheritException(e, rec[o->a[0]]);
          CatchException(e);
          sim_ret(o, 1, 0, NULL, 0);
          e = DestroyExceptionInfo(e);
          break;
        case K14_BATCH:
          e = AcquireExceptionInfo();
          for (i = 0; i < o->a[3]; i++)
            throw_one(e, (o->a[1] + i) % 7, o->a[2] + i, 0);
          InheritException(rec[o->a[0]], e);
          sim_ret(o, 1, 0, NULL, 0);
          e = DestroyExceptionInfo(e);
          break;
        case K14_CROSS: InheritException(rec[o->a[0]], rec[o->a[1]]); sim_ret(o, 1, 0, NULL, 0); break;
        }
    }
}

void c14_teardown(void)
{
  int i;
  sim_quiet(1);
  for (i = 0; i < 2; i++)
    {
      sim_note(K14_FINAL, i, (long) GetExceptionSeverity(rec[i]), NULL, 0);
      CatchException(rec[i]);
      rec[i] = DestroyExceptionInfo(rec[i]);
    }
  sim_quiet(0);
}
