enum { K17_START = 1, K17_ELAPSED, K17_USER, K17_CONTINUE, K17_RESET, K17_DELAY, K17_WORK };
struct T17 { unsigned long m0, m1, c0, c1; double v; };   /* clocks before and after the call, its result */
