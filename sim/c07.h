/* C07 operations: a[0] generator (0 shared by the threads, 1 the thread's own), a[1] number of bytes */
enum { K7_NEW = 1, K7_KEY, K7_DROP, K7_VALUE, K7_PSEUDO, K7_ENV = 9 };
#define K7_RESERVOIR "/home/u/.wizard/reservoir.xdm"
