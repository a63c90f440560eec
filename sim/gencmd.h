/* Helpers of the command properties. */
#ifndef GENCMD_H
#define GENCMD_H
#include "gen.h"
#include "cmd.h"
#include "refhash.h"

inline long gen_cipher(Rng &g, bool authenticated = false) {
  long cipher = (long) g.below(CMD_NCIPHER), mode = (long) g.below(CMD_NMODE), hmac = g.chance(0.4) ? 0 : (long) g.below(authenticated ? CMD_NHASH - 1 : CMD_NHASH);
  /* the memory of a simulated process bounds the levels: LZMA 1, BZip 1 to 3 */
  const double u = g.unit();
  long entropy = u < 0.4 ? 0 : u < 0.6 ? 1 : u < 0.66 ? 2 : 3, level = entropy == 1 ? (g.chance(0.8) ? 1 : (long) g.range(2, 3)) : entropy == 2 ? 1 : (long) g.range(1, 9), key = g.chance(0.6) ? 0 : (long) g.below(CMD_NHASH - 1), kl = g.chance(0.6) ? 9 : (long) g.below(4);
  return cipher + 10 * mode + 100 * hmac + 10000 * entropy + 100000 * level + 1000000 * key + 100000000 * kl;
}
inline long gen_chunk(Rng &g) {
  double u = g.unit();
  if (u < 0.15) return 0;                                     /* default: 256 KiB */
  if (u < 0.5) return 16 * (long) g.range(1, 40);
  if (u < 0.6) return g.pick(std::vector<long>{1, 15, 17, 31, 33, 63, 64, 65});
  return (long) g.range(20, 700);
}
inline long gen_length(Rng &g, long chunk) {
  double u = g.unit();
  if (chunk > 0 && u < 0.5) {                                  /* around a multiple of the chunk size */
    long k = (long) g.range(0, chunk < 30 ? 6 : 3), d = g.chance(0.4) ? 0 : g.chance(0.5) ? (long) g.range(-17, 17) : (long) g.range(-70, 70);
    return std::max(0L, k * chunk + d);
  }
  if (u < 0.55) return 0;
  long cap = chunk == 0 ? (g.chance(0.1) ? 20000 : 3000) : std::max(40L, std::min(chunk * 12, 3000L));
  return (long) g.range(0, cap);
}
/* files of several default-sized chunks, and chunks larger than the buffers; byte-wise feedback is too slow for it */
inline long gen_large(Rng &g, long x, long &chunk) {
  if (CMD_F(x, 10, CMD_NMODE) == 1) { chunk = g.chance(0.5) ? 0 : 16 * (long) g.range(500, 1200); return (long) g.range(8000, 24000); }
  if (g.chance(0.6)) { chunk = 0; return 262144 * (long) g.range(1, 2) + (g.chance(0.3) ? 0 : (long) g.range(-20, 20)); }
  chunk = g.chance(0.5) ? 16 * (long) g.range(500, 8000) : (long) g.range(8000, 150000);
  return std::min(300000L, chunk * (long) g.range(1, 3) + (g.chance(0.3) ? 0 : (long) g.range(-40, 40)));
}
inline long gen_style(Rng &g) { return (long) g.below(4); }
/* contents: random, text-like, one repeated byte, random followed by a compressible rest; 4, 5: looks like a compressed file */
inline std::string cmd_content(const Scenario &s, long tag, long len, long style) {
  std::string r = data_for(s.seed, 7000 + (unsigned long) tag, len);
  if (style == 1) for (char &c : r) c = "aaaabcde \n<>&?="[(unsigned char) c % 15];
  if (style == 2) for (char &c : r) c = r[0];
  if (style == 3) for (size_t i = r.size() / 3; i < r.size(); i++) r[i] = (char) (i % 7);
  if (len && (r[0] == 'B' || r[0] == 0x1f)) r[0] = 'x';        /* not taken for a compressed file */
  if (style == 2) for (char &c : r) c = r[0];
  if (style == 4) r.replace(0, std::min<size_t>(r.size(), 3), "\x1f\x8b\x08", std::min<size_t>(r.size(), 3));
  if (style == 5) r.replace(0, std::min<size_t>(r.size(), 4), "BZh9", std::min<size_t>(r.size(), 4));
  return r;
}
inline std::string cmd_path(long n, const char *ext = "") {
  static const char *const odd[] = CMD_ODDNAMES;
  return n == CMD_ODD1 || n == CMD_ODD2 ? odd[n - CMD_ODD1] : strf(CMD_FILE, n, ext);
}
/* a passphrase with a newline cannot be typed */
inline long gen_typed(Rng &g, long phrase, double p) { return g.chance(p) && phrase != 1 ? CF_TTY : 0; }
inline void cmd_phrases(const Scenario &s) {
  fs_put("/dev/tty", "", 5);
  for (long k = 0; k < 4; k++) {
    std::string b = data_for(s.seed, 600, 120);
    for (char &c : b) c = (char) ('!' + (unsigned char) c % 90);
    b = b.substr(0, k == 0 ? 12 : k == 1 ? 11 : k == 2 ? 64 : 120);
    if (k == 1) b += "\n";
    fs_put(strf(CMD_PHRASE, k), b);
  }
}
inline const LinOp *find_op(const std::vector<LinOp> &ops, int id) { for (auto &l : ops) if (l.inv->op == id) return &l; return nullptr; }
inline const SimOp *enc_of(const Scenario &s, long file) { for (auto &o : s.ops) if (o.kind == KC_ENC && o.a[0] == file) return &o; return nullptr; }
inline std::string cmd_name(const SimOp &o) {
  static const char *const ciphers[] = CMD_CIPHERS, *const modes[] = CMD_MODES, *const hashes[] = CMD_HASHES, *const entropies[] = CMD_ENTROPIES;
  switch (o.kind) {
    case KC_ENC: case KC_DEC:
      return strf("%s (%s, %s, hmac %s, entropy %s, level %ld, key %s, length %ld, chunk %ld, flags %ld)", o.kind == KC_ENC ? "encipher" : "decipher", ciphers[CMD_F(o.a[2], 1, 10)], modes[CMD_F(o.a[2], 10, 10)],
        hashes[CMD_F(o.a[2], 100, 100)], entropies[CMD_F(o.a[2], 10000, 10)], CMD_F(o.a[2], 100000, 10), hashes[CMD_F(o.a[2], 1000000, 100)], CMD_F(o.a[2], 100000000, 10), o.a[3], o.a[5]);
    case KC_DIGEST: return strf("digest -hash %s", hashes[o.a[2]]);
    case KC_HASH: return strf("hashing with %s", hashes[o.a[2]]);
    case KC_AUTH: return "digest -authenticate";
    case KC_LIST: return "keyring listing";
    case KC_EXPORT: return "keyring export";
    case KC_INFO: return "cipher-info";
  }
  return "?";
}
inline std::string cmd_error(const LinOp &l) { for (auto &x : *w_exits) if (x.node == l.inv->node && x.life == l.inv->life && x.phase == l.inv->phase) return x.err.substr(0, 300); return ""; }
inline std::string ref(long h, const std::string &m) {
  using namespace refhash;
  switch (h) {
    case 0: case 4: return sha256(m, false);
    case 1: return crc64(m);
    case 2: return md5(m);
    case 3: return sha1(m);
    case 5: return sha256(m, true);
    case 6: return sha512(m, true);
    case 7: return sha512(m, false);
    case 8: return keccak(m, 288);
    case 9: return keccak(m, 224);
    case 10: return keccak(m, 256);
    case 11: return keccak(m, 384);
    default: return keccak(m, 512);
  }
}
inline std::string unescape(std::string x) {
  static const char *const e[][2] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&quot;", "\""}, {"&#39;", "'"}, {"&amp;", "&"}};
  for (auto &p : e) for (size_t i = 0; (i = x.find(p[0], i)) != std::string::npos; i++) x.replace(i, strlen(p[0]), p[1]);
  return x;
}
inline bool between(const std::string &x, size_t &at, const char *a, const char *b, std::string &v) {
  size_t i = x.find(a, at);
  if (i == std::string::npos) return false;
  i += strlen(a);
  size_t j = x.find(b, i);
  if (j == std::string::npos) return false;
  v = x.substr(i, j - i);
  at = j;
  return true;
}
/* digest list of a set of files */
inline bool digest_list_ok(const SimOp &o, std::function<std::string(long)> original, std::string &cls, std::string &msg) {
  auto bad = [&](const char *c, const std::string &m) { cls = c; msg = m; return false; };
  Inode *l = fs_find(cmd_path(o.a[1]));
  if (!l) return bad("digest-list", "no digest list was written");
  size_t at = 0;
  std::string v;
  for (long k = 0; k < 60; k++) if (o.a[0] >> k & 1) {
    const std::string want = original(k);
    if (!between(l->data, at, "rdf:about=\"", "\">", v) || unescape(v) != cmd_path(k)) return bad("digest-list", strf("entry of %s is missing from the list", cmd_path(k).c_str()));
    if (!between(l->data, at, "<digest:extent>", "<", v) || v != strf("%lu", (unsigned long) want.size())) return bad("digest-list", strf("extent %s recorded for %lu bytes", v.c_str(), (unsigned long) want.size()));
    at += strlen("</digest:extent>");
    if (!between(l->data, at, "<digest:", "<", v)) return bad("digest-list", "digest missing");
    if (v.substr(v.find('>') + 1) != ref(o.a[2], want)) return bad("wrong-digest", strf("%s of %lu bytes: %s recorded, %s expected", cmd_name(o).c_str(), (unsigned long) want.size(), v.c_str(), ref(o.a[2], want).c_str()));
  }
  if (between(l->data, at, "rdf:about=\"", "\">", v)) return bad("digest-list", strf("additional entry %s in the list", v.c_str()));
  if (l->data.find("</rdf:RDF>", at) == std::string::npos) return bad("digest-list", "the list has no end");
  return true;
}
#endif
