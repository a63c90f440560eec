enum { K16_GENESIS = 1, K16_CONF, K16_BUILTIN, K16_CONFLIST, K16_PATTERN, K16_MAGIC, K16_MIMELIST, K16_LOCALE, K16_LOG, K16_RESOURCE, K16_RANDOM, K16_THROW, K16_TEMP, K16_TOMIME, K16_LOCALELIST, K16_LOGLIST };
enum { N16_SWEEP = 1, N16_LIVE };
#define N16_ENTRIES 6
