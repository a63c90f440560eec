/* C17: stopwatches while time passes, work is done and clocks jump. */
#include "act.h"
#include "c17.h"

static unsigned long clk(clockid_t c)
{
  struct timespec t;
  clock_gettime(c, &t);
  return (unsigned long) t.tv_sec * 1000000000UL + (unsigned long) t.tv_nsec;
}

void c17_setup(void)
{
  sim_quiet(1);
  WizardsToolkitGenesis("sim");
  sim_quiet(0);
}

void c17_thread(int thr)
{
  const SimOp *o;
  TimerInfo *t[2] = { NULL, NULL };
  (void) thr;
  while ((o = sim_op()) != NULL)
    {
      struct T17 r;
      long k = o->a[0], st = 1;
      memset(&r, 0, sizeof r);
      sim_inv(o);
      sim_quiet(1);
      r.m0 = clk(CLOCK_MONOTONIC);
      r.c0 = clk(CLOCK_PROCESS_CPUTIME_ID);
      sim_quiet(0);
      if (o->kind != K17_DELAY && o->kind != K17_WORK && t[k] == NULL)
        {
          t[k] = AcquireTimerInfo();
          st = 2;
        }
      else
        switch (o->kind)
          {
          case K17_START: StartTimer(t[k], o->a[1] ? WizardTrue : WizardFalse); break;
          case K17_ELAPSED: r.v = GetElapsedTime(t[k]); break;
          case K17_USER: r.v = GetUserTime(t[k]); break;
          case K17_CONTINUE: st = ContinueTimer(t[k]); break;
          case K17_RESET: ResetTimer(t[k]); break;
          case K17_DELAY: WizardDelay((WizardSizeType) o->a[1]); break;
          case K17_WORK: sim_burn((unsigned long) o->a[1] * 1000000UL); break;
          }
      sim_quiet(1);
      r.m1 = clk(CLOCK_MONOTONIC);
      r.c1 = clk(CLOCK_PROCESS_CPUTIME_ID);
      sim_ret(o, st, 0, &r, (long) sizeof r);
      sim_quiet(0);
    }
  for (int k = 0; k < 2; k++)
    if (t[k] != NULL)
      t[k] = DestroyTimerInfo(t[k]);
}

void c17_teardown(void) { }
