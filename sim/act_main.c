#include "sim.h"
#define ACT(n,k) void c##n##_setup(void), c##n##_thread(int), c##n##_teardown(void);
#include "act_list.h"
#undef ACT
void wl_setup(int prop)
{
  switch (prop) {
#define ACT(n,k) case k: c##n##_setup(); break;
#include "act_list.h"
#undef ACT
  }
}
void wl_thread(int prop, int thr)
{
  switch (prop) {
#define ACT(n,k) case k: c##n##_thread(thr); break;
#include "act_list.h"
#undef ACT
  }
}
void wl_teardown(int prop)
{
  switch (prop) {
#define ACT(n,k) case k: c##n##_teardown(); break;
#include "act_list.h"
#undef ACT
  }
}
