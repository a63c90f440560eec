/* C12, C13, C18: resource accounting, temporary files, memory requests */
enum { R_ACQ = 1, R_REL, R_GET, R_LIM, R_GETLIM, R_VACQ, R_VREL, R_TACQ, R_TREL, R_TCHECK, R_MACQ, R_MRES, R_MREL, R_MCHECK, R_DONE };
#define R_SLOTS 6
#define R_TYPES 4             /* memory, map, disk, file */
#define R_INF (~0UL)
/* notes: a temporary file was handed out / is about to be given back / was kept by its owner */
enum { N_OUT = 1, N_BACK, N_KEPT };
