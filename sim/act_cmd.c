/* C01 to C04: every operation runs one command as a process of its own. */
#include "act.h"
#include "cmd.h"

int encipher_main(int, char **), decipher_main(int, char **), digest_main(int, char **), keyring_main(int, char **), cipher_info_main(int, char **);

static int ac;
static char *av[64], store[64][256];

static void arg(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(store[ac], sizeof store[ac], fmt, ap);
  va_end(ap);
  av[ac] = store[ac];
  av[++ac] = NULL;
}

static void file(long n, long flags, long gz, long bz)
{
  static const char *const odd[] = CMD_ODDNAMES;
  if (n == CMD_ODD1 || n == CMD_ODD2)
    arg("%s", odd[n - CMD_ODD1]);
  else
    arg(CMD_FILE, n, flags & gz ? ".gz" : flags & bz ? ".bz2" : "");
}

static void type_phrase(long k)
{
  char name[64], text[128];
  int line[129], i, n;
  snprintf(name, sizeof name, CMD_PHRASE, k);
  n = (int) sim_file_read(name, text, sizeof text);
  for (i = 0; i < n; i++)
    line[i] = (unsigned char) text[i];
  line[n] = '\n';
  sim_tty_type(line, n + 1);
  sim_tty_type(line, n + 1);
}

static void cipher_options(const SimOp *o, int enc)
{
  static const char *const ciphers[] = CMD_CIPHERS, *const modes[] = CMD_MODES, *const hashes[] = CMD_HASHES, *const entropies[] = CMD_ENTROPIES;
  static const char *const bits[] = { "256", "512", "1024", "2048" };
  const long x = o->a[2], fl = o->a[5];
  if (enc)
    {
      arg("-cipher"); arg("%s", ciphers[CMD_F(x, 1, 10)]);
      arg("-mode"); arg("%s", modes[CMD_F(x, 10, 10)]);
      arg("-hmac"); arg("%s", hashes[CMD_F(x, 100, 100)]);
      arg("-entropy"); arg("%s", entropies[CMD_F(x, 10000, 10)]);
      arg("-level"); arg("%ld", CMD_F(x, 100000, 10));
      arg("-key"); arg("%s", hashes[CMD_F(x, 1000000, 100)]);
      if (CMD_F(x, 100000000, 10) != 9)
        { arg("-key-length"); arg("%s", bits[CMD_F(x, 100000000, 10)]); }
      if (o->a[3] != 0)
        { arg("-chunksize"); arg("%ld", o->a[3]); }
    }
  if (fl & CF_TTY)
    type_phrase(o->a[4]);
  else
    { arg("-passphrase"); arg(CMD_PHRASE, o->a[4]); }
  if (fl & CF_RING)
    { arg("-keyring"); arg(CMD_RING); }
  if (fl & CF_PROPS)
    { arg("-properties"); file(enc ? o->a[1] : o->a[0], 0, 0, 0); strcat(store[ac - 1], ".prop"); }
  if (fl & CF_PLAIN)
    arg("+(de)compress");
  if (fl & CF_VERBOSE)
    arg("-verbose");
}

/* one message in pieces, after others with the same hash state */
static void hash(const SimOp *o)
{
  static const HashType types[] = { SHA2256Hash, CRC64Hash, MD5Hash, SHA1Hash, SHA2Hash, SHA2224Hash, SHA2384Hash, SHA2512Hash, SHA3Hash, SHA3224Hash, SHA3256Hash, SHA3384Hash, SHA3512Hash };
  HashInfo *h;
  StringInfo *s;
  unsigned char *buf;
  char *hex;
  long n, at, k, r;
  sim_quiet(1);
  WizardsToolkitGenesis("sim");
  store[0][0] = 0;
  ac = 0;
  file(o->a[0], 0, 0, 0);
  n = sim_file_size(store[0]);
  buf = malloc((size_t) n + 1);
  n = sim_file_read(store[0], buf, n);
  sim_quiet(0);
  h = AcquireHashInfo(types[o->a[2]]);
  if (o->a[5] > 0)
    {
      (void) InitializeHash(h);
      s = AcquireStringInfo((size_t) n);
      memcpy(GetStringInfoDatum(s), buf, (size_t) n);
      for (r = 0; r < o->a[5]; r++)
        (void) UpdateHash(h, s);
      s = DestroyStringInfo(s);
      (void) FinalizeHash(h);
    }
  else
  for (r = o->a[4]; r >= 0; r--)
    {
      (void) InitializeHash(h);
      for (at = 0; at < n || n == 0; at += k)
        {
          k = o->a[3] > 0 ? o->a[3] : 1 + (long) (sim_hash64((unsigned long) (at * 131 + o->id + r)) % (unsigned long) (o->a[3] == 0 ? 300 : -o->a[3]));
          if (k > n - at)
            k = n - at;
          if (r > 0 && at > n / 2)
            break;
          s = AcquireStringInfo((size_t) k);
          memcpy(GetStringInfoDatum(s), buf + at, (size_t) k);
          (void) UpdateHash(h, s);
          s = DestroyStringInfo(s);
          if (n == 0)
            break;
        }
      if (r == 0 || r % 2)
        (void) FinalizeHash(h);
    }
  hex = GetHashHexDigest(h);
  sim_ret(o, 0, 0, hex, (long) strlen(hex));
  hex = DestroyString(hex);
  h = DestroyHashInfo(h);
  sim_quiet(1);
  free(buf);
  WizardsToolkitTerminus();
  sim_quiet(0);
}

static void run(void)
{
  static const char *const hashes[] = CMD_HASHES;
  const SimOp *o = sim_op();
  long i;
  int rc = -1;
  if (o == NULL)
    return;
  ac = 0;
  sim_inv(o);
  switch (o->kind)
    {
      case KC_ENC:
        arg("encipher");
        cipher_options(o, 1);
        file(o->a[0], o->a[5], CF_GZIN, CF_BZIN);
        file(o->a[1], o->a[5], CF_GZOUT, CF_BZOUT);
        rc = encipher_main(ac, av);
        break;
      case KC_DEC:
        arg("decipher");
        cipher_options(o, 0);
        file(o->a[0], o->a[5], CF_GZIN, CF_BZIN);
        file(o->a[1], o->a[5], CF_GZOUT, CF_BZOUT);
        rc = decipher_main(ac, av);
        break;
      case KC_DIGEST:
        arg("digest");
        arg("-hash"); arg("%s", hashes[o->a[2]]);
        for (i = 0; i < 60; i++)
          if (o->a[0] >> i & 1)
            file(i, 0, 0, 0);
        file(o->a[1], o->a[5], CF_GZOUT, CF_BZOUT);
        rc = digest_main(ac, av);
        break;
      case KC_AUTH:
        arg("digest");
        arg("-authenticate");
        file(o->a[0], o->a[5], CF_GZIN, CF_BZIN);
        file(o->a[1], o->a[5], CF_GZOUT, CF_BZOUT);
        rc = digest_main(ac, av);
        break;
      case KC_LIST:
        arg("keyring");
        if (o->a[5] & CF_RING)
          arg(CMD_RING);
        file(o->a[1], o->a[5], CF_GZOUT, CF_BZOUT);
        rc = keyring_main(ac, av);
        break;
      case KC_EXPORT:
        {
          char name[64], *buf, *p;
          long n;
          snprintf(name, sizeof name, CMD_FILE, o->a[0], "");
          n = sim_file_size(name);
          sim_quiet(1);
          buf = malloc((size_t) (n < 0 ? 0 : n) + 1);
          sim_quiet(0);
          if (n > 0)
            n = sim_file_read(name, buf, n);
          buf[n < 0 ? 0 : n] = 0;
          p = strstr(buf, "<cipher:id>");
          if (p == NULL)
            {
              sim_ret(o, -1, 0, NULL, 0);
              return;
            }
          p += 11;
          arg("keyring");
          arg("-export"); arg("%.*s", (int) strcspn(p, "<"), p);
          file(o->a[1], 0, 0, 0);
          rc = keyring_main(ac, av);
          break;
        }
      case KC_HASH:
        hash(o);
        return;
      case KC_INFO:
        arg("cipher-info");
        file(o->a[0], o->a[5], CF_GZIN, CF_BZIN);
        rc = cipher_info_main(ac, av);
        break;
    }
  sim_ret(o, rc, 0, NULL, 0);
}
#define CMD(n) \
  void c##n##_setup(void) { } \
  void c##n##_thread(int thr) { (void) thr; run(); } \
  void c##n##_teardown(void) { }
CMD(01)
CMD(02)
CMD(03)
CMD(04)
CMD(20)
