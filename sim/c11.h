#ifndef C11_H
#define C11_H
enum { T_ADD = 1, T_GET, T_DELETE, T_REMOVE, T_DELETEV, T_REMOVEV, T_COUNT, T_RESET, T_ITRESET, T_NEXTK, T_NEXTV, T_CLONE };
#define C11_MAXK 4096
#define C11_MAXV 8192
#define C11_MAXOPS 256
#define C11_PREK(i) (2 * (i) + 1)
#define C11_PREV(i) ((long) (4096 + (i)) << 4)
/* cfg: 0 key type, 1 prefill, 2 relinquish flags, 3 iterator started */
#endif
