enum { K14_THROW = 1, K14_CATCH, K14_CLEAR, K14_SEV, K14_SNAP, K14_BATCH, K14_CROSS };
#define K14_FINAL 50          /* note: final delivery of record a begins */
