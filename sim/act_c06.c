/* C06: threads of several processes take the advisory lock of shared files. */
#include "act.h"
#include "c06.h"

static const char *rel[] = { "one.xdm", "two.xdm" };
static const char *abs_path[] = { "/home/u/.wizard/one.xdm", "/home/u/.wizard/two.xdm" };

void c06_setup(void) { sim_quiet(1); WizardsToolkitGenesis("sim"); sim_quiet(0); }

static void hold(const SimOp *o)
{
  long i;
  for (i = 0; i < 1 + o->a[2]; i++)
    sim_yield();
  if (o->a[3] > 0)
    usleep((unsigned int) o->a[3] * 1000);
}

void c06_thread(int thr)
{
  const SimOp *o;
  (void) thr;
  while ((o = sim_op()) != NULL)
    {
      ExceptionInfo *e;
      FileInfo *f, *g;
      long k, n = o->a[4] < 1 ? 1 : o->a[4];
      sim_quiet(1);
      e = AcquireExceptionInfo();
      sim_quiet(0);
      sim_inv(o);
      f = NULL;
      for (k = 0; k < n && f == NULL; k++)
        f = AcquireFileInfo(o->a[5] ? abs_path[o->a[0]] : NULL, rel[o->a[0]], o->a[1] ? WriteFileMode : ReadFileMode, e);
      if (f != NULL)
        {
          sim_note(1, o->a[0], 1, NULL, 0);
          hold(o);
          if (o->kind == K_NEST)
            {
              g = AcquireFileInfo(o->a[5] ? abs_path[o->a[0]] : NULL, rel[o->a[0]], ReadFileMode, e);
              if (g != NULL)
                g = DestroyFileInfo(g, e);
              hold(o);
            }
          sim_note(1, o->a[0], 0, NULL, 0);
          f = DestroyFileInfo(f, e);
          sim_ret(o, 1, k, NULL, 0);
        }
      else
        sim_ret(o, 0, k, NULL, 0);
      sim_quiet(1);
      e = DestroyExceptionInfo(e);
      sim_quiet(0);
    }
}

void c06_teardown(void)
{
  /* a lock that could neither be removed nor emptied (two failed calls) is kept until the process ends */
  if (sim_open_fds() > sim_proc_faults() / 2)
    sim_violation("leak", "%ld descriptors left open after all locks were given back", sim_open_fds());
}
