/* C06: file locks */
enum { K_HOLD = 1, K_NEST, K_FINAL };
/* a[0] file, a[1] mode (0 read 1 write), a[2] hold kind, a[3] hold milliseconds, a[4] attempts */
