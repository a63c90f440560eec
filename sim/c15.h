enum { K15_LOG = 1, K15_THROW, K15_FORMAT, K15_MASK, K15_CLOSE, K15_LIST };
#define N15_WHO 40            /* note: process number, data "client|log name" */
