#ifndef C10_H
#define C10_H
enum { L_APPEND = 1, L_INSERT, L_SORTED, L_GET, L_LAST, L_REMOVE, L_REMOVEV, L_REMOVELAST, L_COUNT, L_EMPTY, L_CLEAR,
  L_TOARRAY, L_RESET, L_NEXT, H_PUT = 21, H_GET, H_REMOVE, H_COUNT, H_EMPTY, H_RESET, H_NEXTK, H_NEXTV };
/* a value carries a sort key and a unique identity */
#define C10_VAL(key, id) (((long) (key) << 20) | ((long) (id) << 4))
#define C10_KEY(v) ((v) >> 20)
#define C10_ID(v) (((v) >> 4) & 0xffff)
#define C10_MAXOPS 256
#define C10_MAXVAL 4096
#define C10_PRE(i) C10_VAL(2 * (i) + 2, 2000 + (i))
/* cfg: 0 mode (0 list, 1 sorted list, 2 map), 1 capacity, 2 prefill, 3 hash, 4 flag */
#endif
