/*
  Interface between the simulator core and the actors (code that runs inside a
  simulated process and drives the library under test).
*/
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

#define SIM_MAXARG 8
#define SIM_MAXNODE 4

typedef struct SimOp
{
  int id, phase, node, thr, kind;
  long a[SIM_MAXARG];
} SimOp;

/* next operation of the calling thread, NULL when its program is over */
const SimOp *sim_op(void);
/* record call and return of an operation (history for the oracles) */
void sim_inv(const SimOp *);
void sim_ret(const SimOp *, long status, long value, const void *data, long len);
/* free-form record */
void sim_note(int kind, long a, long b, const void *data, long len);
/* report a violation and end the run; does not return */
void sim_violation(const char *cls, const char *fmt, ...)
  __attribute__((format(printf, 2, 3), noreturn));
/* bytes that depend on the run's seed and the tag only */
void sim_fill(void *p, long n, unsigned long tag);
unsigned long sim_hash64(unsigned long tag);
/* scenario parameters */
long sim_cfg(int i);
/* virtual clocks, nanoseconds */
unsigned long sim_mono(void);
/* number of injected faults of this process (all kinds but stalls/clock) */
long sim_proc_faults(void);
/* faults injected so far into the calling thread */
long sim_thread_faults(void);
/* the calling thread computes for that long */
void sim_burn(unsigned long ns);
/* switch off preemption and faults for the calling thread (nests) */
void sim_quiet(int on);
void sim_yield(void);
int sim_thr(void);
int sim_node(void);
int sim_life(void);
/* number of live heap blocks / open descriptors / mappings of this process */
long sim_live_blocks(void);
long sim_live_bytes(void);
long sim_open_fds(void);
long sim_live_maps(void);
/* a signal handler of this process is running */
int sim_in_signal(void);
/* whole-file access that bypasses faults */
long sim_file_size(const char *path);           /* -1: absent */
long sim_file_read(const char *path, void *buf, long n);
void sim_file_write(const char *path, const void *buf, long n);
int sim_file_mode(const char *path);            /* -1: absent */
int sim_file_unlink(const char *path);
/* the terminal of this process: add a line that is typed at a prompt; state of the terminal and of the handled signals */
enum { TY_SIG = 1000, TY_EIO = 2000, TY_EOF, TY_WAIT = 3000 };
void sim_tty_type(const int *line, long n);
unsigned long sim_tty_state(void);
unsigned long sim_signal_state(void);
/* notes about a terminal: prompt, character (a: character, b: echo is on), end of file, error, interruption (a: signal) */
enum { NT_PROMPT = 901, NT_CHAR, NT_EOF, NT_EIO, NT_INTR };
/* check a heap range: 0 ok */
int sim_mem_ok(const void *p, size_t n);

/* provided by actors */
void wl_setup(int prop);
void wl_thread(int prop, int thr);
void wl_teardown(int prop);
#ifdef __cplusplus
}
#endif
#endif
