/* C08, C09: every thread drives one stream at a time; file a[0] of the thread's own set or, from SHARED on, read only */
enum { K8_OPENW = 1, K8_OPENR, K8_W, K8_WC, K8_WB, K8_WS, K8_R, K8_RC, K8_RB, K8_EOF, K8_TELL, K8_SIZE, K8_SYNC, K8_CLOSE, K8_WHOLE, K8_CUT };
enum { B_PLAIN, B_GZ, B_BZ, B_FD, B_FIFO };
#define B_SHARED 100
#define B_WRITES(k) ((k) >= K8_W && (k) <= K8_WS)
#define B_READS(k) ((k) >= K8_R && (k) <= K8_RB)
/* K8_OPENW, K8_OPENR: a[0] file, a[1] kind, a[2] expand; transfers: a[0] length; K8_WHOLE: a[0] file, a[1] 0 blob 1 string 2 string info 3 configure file, a[2] limit, a[3] kind; K8_CUT: a[0] file, a[1] kind, a[2] length */
#define B_NAME(buf, n, kind) sprintf(buf, "/w/b%ld%s", (long) (n), (kind) == B_GZ ? ".gz" : (kind) == B_BZ ? ".bz2" : "")
