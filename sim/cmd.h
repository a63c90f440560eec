/*
  Command operations shared by C01 to C04; one operation is one whole process.
    KC_ENC, KC_DEC     a[0] input file, a[1] output file, a[2] cipher options, a[3] chunk size, a[4] passphrase, a[5] flags
    KC_DIGEST          a[0] set of input files, a[1] output file, a[2] hash
    KC_AUTH            a[0] digest list, a[1] output file
    KC_LIST            a[1] output file
    KC_EXPORT          a[0] enciphered file whose key is exported, a[1] output keyring
    KC_INFO            a[0] enciphered file
    KC_HASH            library: a[0] input file, a[2] hash, a[3] size of the pieces, a[4] number of messages before it
    KC_ENV             environment: a[0] file, a[1] action, a[2], a[3] parameters
*/
enum { KC_ENC = 1, KC_DEC, KC_DIGEST, KC_AUTH, KC_LIST, KC_EXPORT, KC_INFO, KC_ENV = 9, KC_HASH };
enum { CF_RING = 1, CF_PROPS = 2, CF_PLAIN = 4, CF_VERBOSE = 8, CF_GZOUT = 16, CF_BZOUT = 32, CF_GZIN = 64, CF_BZIN = 128, CF_TTY = 256 /* the passphrase is typed */ };
#define CMD_FILE "/w/f%ld%s"
/* two of the files have unusual names */
#define CMD_ODD1 28
#define CMD_ODD2 29
#define CMD_ODDNAMES {"/w/two words", "/w/a&b <c> \"d\".txt"}
#define CMD_PHRASE "/w/phrase%ld"
#define CMD_RING "/w/ring.xdm"
#define CMD_NCIPHER 4
#define CMD_NMODE 5
#define CMD_NHASH 14
#define CMD_NENTROPY 4
#define CMD_CIPHERS {"AES", "Chacha", "Serpent", "Twofish"}
#define CMD_MODES {"CBC", "CFB", "CTR", "ECB", "OFB"}
#define CMD_ENTROPIES {"None", "BZip", "LZMA", "Zip"}
#define CMD_HASHES {"SHA2-256", "CRC64", "MD5", "SHA1", "SHA2", "SHA2-224", "SHA2-384", "SHA2-512", "SHA3", "SHA3-224", "SHA3-256", "SHA3-384", "SHA3-512", "None"}
/* cipher options: cipher + 10*mode + 100*hmac + 10000*entropy + 100000*level + 1000000*key hash + 100000000*key length */
#define CMD_F(x, unit, n) ((x) / (unit) % (n))
