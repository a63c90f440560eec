/* C19: K19_GEN a[0] passphrase, a[1] key length in bits, a[2] hash; K19_UNLOCK a[0] generating operation, a[1] passphrase, a[2] hash, a[3] attempts; a[4] of both: 1 goes on with the object of the thread's earlier operation, 2 keeps the object for a later one; a[5] of both: a new object is made for the method of authentication */
enum { K19_GEN = 1, K19_UNLOCK };
#define K19_PHRASES 8
#define K19_IDFILE "/ids/%ld"
#define K19_PHRASE "/w/phrase%ld"
#define K19_RING "/w/ring.xdm"
