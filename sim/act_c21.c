/* C21: a passphrase is typed at a terminal. */
#include "act.h"
#include "c21.h"
#include <signal.h>

static const int sigs[] = K21_SIGNALS;

static void own(int s) { sim_note(N21_HANDLED, s, 0, NULL, 0); }

void c21_setup(void)
{
  int i;
  struct sigaction a;
  sim_quiet(1);
  WizardsToolkitGenesis("sim");
  memset(&a, 0, sizeof a);
  for (i = 0; i < 8; i++)
    {
      a.sa_handler = sim_cfg(0) >> (i + 8) & 1 ? SIG_IGN : own;
      if (sim_cfg(0) >> i & 1)
        sigaction(sigs[i], &a, NULL);
    }
  sim_quiet(0);
}

static void type(long c)
{
  static const long lengths[] = K21_LENGTHS;
  static int line[6000];
  static unsigned char text[5000];
  const long end = c % 8, p = c / 8 % 8, at = c / 64 % 64, sig = c / 4096 % 8;
  long i, k = 0, n = lengths[p];
  sim_fill(text, n, p > 3 ? 4 : p == 3 ? 2 : (unsigned long) p);
  for (i = 0; i < n; i++)
    {
      if (text[i] == '\n' || text[i] == '\r')
        text[i] = 'x';
      if (p == 3 && i == n - 1)
        text[i] ^= 0x40;
    }
  for (i = 0; i <= n; i++)
    {
      if (i == (at > n ? n : at))
        switch (end)
          {
          case E21_EOF: line[k++] = TY_EOF; break;
          case E21_EIO: line[k++] = TY_EIO; break;
          case E21_SIGNAL: line[k++] = TY_SIG + sigs[sig]; break;
          case E21_WAIT: line[k++] = TY_WAIT + 1500; break;
          case E21_TWO: line[k++] = TY_SIG + sigs[sig]; line[k++] = TY_SIG + sigs[(sig + at) % 8]; break;
          }
      if (i < n)
        line[k++] = text[i];
    }
  line[k++] = end == E21_RETURN ? '\r' : '\n';
  if (end == E21_AHEAD)
    for (i = 0; i < 5; i++)
      line[k++] = 'A' + (int) i;
  sim_tty_type(line, k);
}

void c21_thread(int thr)
{
  const SimOp *o;
  (void) thr;
  while ((o = sim_op()) != NULL)
    {
      ExceptionInfo *e;
      StringInfo *s;
      unsigned long term, sg;
      long fds, blocks, bad, i;
      sim_quiet(1);
      for (i = 0; i < K21_LINES; i++)
        if (o->a[i] >= 0)
          type(o->a[i]);
      e = AcquireExceptionInfo();
      term = sim_tty_state(); sg = sim_signal_state(); fds = sim_open_fds(); blocks = sim_live_blocks();
      sim_quiet(0);
      sim_inv(o);
      s = GetPassphrase(e);
      sim_quiet(1);
      bad = (long) GetExceptionSeverity(e);
      if (sim_tty_state() != term)
        sim_violation("terminal", "the terminal is not as it was after a passphrase was %s", s != NULL ? "typed" : "refused");
      if (sim_signal_state() != sg)
        sim_violation("signals", "signals are not handled as they were after a passphrase was %s", s != NULL ? "typed" : "refused");
      if (sim_open_fds() != fds)
        sim_violation("left-over", "a descriptor is left open after a passphrase was %s", s != NULL ? "typed" : "refused");
      if (s != NULL)
        sim_ret(o, 1, bad, GetStringInfoDatum(s), (long) GetStringInfoLength(s));
      else
        sim_ret(o, 0, bad, NULL, 0);
      if (s != NULL)
        s = DestroyStringInfo(s);
      ClearWizardException(e);
      if (sim_live_blocks() > blocks)
        sim_violation("left-over", "%ld blocks of memory are in use after a passphrase was refused", sim_live_blocks() - blocks);
      e = DestroyExceptionInfo(e);
      sim_quiet(0);
    }
}

void c21_teardown(void) { }
