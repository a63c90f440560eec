/* C05 operations: a[0] identifier, a[1] value tag, a[2] key length, a[3] nonce length, a[4] attempts */
enum { K5_STORE = 1, K5_LOOKUP, K5_LIST };
#define K5_IDS 6
/* the run's keyring: cfg 0 = default location, 1 = explicit path; cfg[1] = length of the identifiers */
#define K5_PATH "/w/keys.xdm"
#define K5_LISTING "/w/list%d.xml"
