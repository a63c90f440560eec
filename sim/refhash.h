/* Reference digests, written from the standards and independent of the library under test. */
#ifndef REFHASH_H
#define REFHASH_H
#include <string>
#include <stdint.h>
#include <string.h>
#include <math.h>
namespace refhash {
typedef std::string S;
inline uint32_t rl(uint32_t x, int n) { return x << n | x >> (32 - n); }
inline uint32_t rr(uint32_t x, int n) { return x >> n | x << (32 - n); }
inline uint64_t rr(uint64_t x, int n) { return x >> n | x << (64 - n); }
inline S pad(const S &m, int block, int lenbytes, bool big) {
  S d = m; d += (char) 0x80;
  while ((int) (d.size() % block) != block - lenbytes) d += (char) 0;
  uint64_t bits = (uint64_t) m.size() * 8;
  for (int i = 0; i < lenbytes; i++) { int sh = big ? 8 * (lenbytes - 1 - i) : 8 * i; d += sh < 64 ? (char) (bits >> sh) : (char) 0; }
  return d;
}
inline S hexs(const unsigned char *p, size_t n) { static const char *h = "0123456789abcdef"; S r; for (size_t i = 0; i < n; i++) { r += h[p[i] >> 4]; r += h[p[i] & 15]; } return r; }
inline S md5(const S &m) {
  static const int sh[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  S d = pad(m, 64, 8, false);
  for (size_t o = 0; o < d.size(); o += 64) {
    uint32_t w[16]; memcpy(w, d.data() + o, 64);
    uint32_t a = h[0], b = h[1], c = h[2], e = h[3];
    for (int i = 0; i < 64; i++) {
      uint32_t f; int g;
      if (i < 16) { f = (b & c) | (~b & e); g = i; } else if (i < 32) { f = (e & b) | (~e & c); g = (5 * i + 1) % 16; }
      else if (i < 48) { f = b ^ c ^ e; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~e); g = 7 * i % 16; }
      uint32_t t = e; e = c; c = b;
      b += rl(a + f + (uint32_t) floor(fabs(sin(i + 1.0)) * 4294967296.0) + w[g], sh[i / 16][i % 4]); a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += e;
  }
  return hexs((unsigned char *) h, 16);
}
inline S be32(const uint32_t *h, int n) { S r; for (int i = 0; i < n; i++) for (int j = 24; j >= 0; j -= 8) r += (char) (h[i] >> j); return hexs((const unsigned char *) r.data(), r.size()); }
inline S sha1(const S &m) {
  uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
  S d = pad(m, 64, 8, true);
  for (size_t o = 0; o < d.size(); o += 64) {
    uint32_t w[80];
    for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 4; j++) w[i] = w[i] << 8 | (unsigned char) d[o + 4 * i + j]; }
    for (int i = 16; i < 80; i++) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
    uint32_t a = h[0], b = h[1], c = h[2], e = h[3], g = h[4];
    for (int i = 0; i < 80; i++) {
      uint32_t f, k;
      if (i < 20) { f = (b & c) | (~b & e); k = 0x5a827999; } else if (i < 40) { f = b ^ c ^ e; k = 0x6ed9eba1; }
      else if (i < 60) { f = (b & c) | (b & e) | (c & e); k = 0x8f1bbcdc; } else { f = b ^ c ^ e; k = 0xca62c1d6; }
      uint32_t t = rl(a, 5) + f + g + k + w[i]; g = e; e = c; c = rl(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += e; h[4] += g;
  }
  return be32(h, 5);
}
/* constants of the SHA-2 family: fractional parts of roots of primes, computed exactly */
inline int prime(int n) { static int p[80]; static int c = 0; if (!c) for (int x = 2; c < 80; x++) { bool ok = true; for (int i = 0; i < c; i++) if (x % p[i] == 0) ok = false; if (ok) p[c++] = x; } return p[n]; }
inline uint64_t root(int x, int deg) {   /* first 64 bits of the fractional part of the square or cube root */
  typedef unsigned __int128 U;
  long double r = deg == 2 ? sqrtl(x) : cbrtl(x);
  uint64_t ip = (uint64_t) floorl(r), lo = 0;
  for (int b = 63; b >= 0; b--) {
    uint64_t t = lo | 1ULL << b;
    /* (ip + t/2^64)^deg <= x ? with 256-bit arithmetic on 32-bit limbs */
    uint32_t v[3] = {(uint32_t) t, (uint32_t) (t >> 32), (uint32_t) ip}, acc[12] = {1};
    int n = 1;
    for (int k = 0; k < deg; k++) { uint32_t q[12] = {}; for (int i = 0; i < n; i++) { U c = 0; for (int j = 0; j < 3; j++) { c += (U) acc[i] * v[j] + q[i + j]; q[i + j] = (uint32_t) c; c >>= 32; } for (int j = i + 3; c && j < 12; j++) { c += q[j]; q[j] = (uint32_t) c; c >>= 32; } } memcpy(acc, q, sizeof q); n = n + 3 > 12 ? 12 : n + 3; }
    uint32_t top = acc[2 * deg];   /* integer part */
    if (top < (uint32_t) x) lo = t;
  }
  return lo;
}
inline S sha256(const S &m, bool is224) {
  static uint32_t K[64]; if (!K[0]) for (int i = 0; i < 64; i++) K[i] = (uint32_t) (root(prime(i), 3) >> 32);
  uint32_t h[8];
  for (int i = 0; i < 8; i++) h[i] = is224 ? (uint32_t) root(prime(i + 8), 2) : (uint32_t) (root(prime(i), 2) >> 32);
  S d = pad(m, 64, 8, true);
  for (size_t o = 0; o < d.size(); o += 64) {
    uint32_t w[64], s[8];
    for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 4; j++) w[i] = w[i] << 8 | (unsigned char) d[o + 4 * i + j]; }
    for (int i = 16; i < 64; i++) w[i] = (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ w[i - 2] >> 10) + w[i - 7] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 16];
    memcpy(s, h, sizeof h);
    for (int i = 0; i < 64; i++) {
      uint32_t t1 = s[7] + (rr(s[4], 6) ^ rr(s[4], 11) ^ rr(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K[i] + w[i];
      uint32_t t2 = (rr(s[0], 2) ^ rr(s[0], 13) ^ rr(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
      memmove(s + 1, s, 28); s[4] += t1; s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
  }
  return be32(h, is224 ? 7 : 8);
}
inline S sha512(const S &m, bool is384) {
  static uint64_t K[80]; if (!K[0]) for (int i = 0; i < 80; i++) K[i] = root(prime(i), 3);
  uint64_t h[8];
  for (int i = 0; i < 8; i++) h[i] = root(prime(is384 ? i + 8 : i), 2);
  S d = pad(m, 128, 16, true);
  for (size_t o = 0; o < d.size(); o += 128) {
    uint64_t w[80], s[8];
    for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = w[i] << 8 | (unsigned char) d[o + 8 * i + j]; }
    for (int i = 16; i < 80; i++) w[i] = (rr(w[i - 2], 19) ^ rr(w[i - 2], 61) ^ w[i - 2] >> 6) + w[i - 7] + (rr(w[i - 15], 1) ^ rr(w[i - 15], 8) ^ w[i - 15] >> 7) + w[i - 16];
    memcpy(s, h, sizeof h);
    for (int i = 0; i < 80; i++) {
      uint64_t t1 = s[7] + (rr(s[4], 14) ^ rr(s[4], 18) ^ rr(s[4], 41)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K[i] + w[i];
      uint64_t t2 = (rr(s[0], 28) ^ rr(s[0], 34) ^ rr(s[0], 39)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
      memmove(s + 1, s, 56); s[4] += t1; s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
  }
  S r; for (int i = 0; i < (is384 ? 6 : 8); i++) for (int j = 56; j >= 0; j -= 8) r += (char) (h[i] >> j);
  return hexs((const unsigned char *) r.data(), r.size());
}
/* Keccak as submitted (padding 10*1 without the later domain bits) */
inline S keccak(const S &m, int bits, unsigned char dom = 1) {
  uint64_t A[25] = {}; int rate = 200 - bits / 4; S d = m;
  d += (char) dom; while (d.size() % rate) d += (char) 0; d[d.size() - 1] = (char) (d[d.size() - 1] | 0x80);
  for (size_t o = 0; o < d.size(); o += rate) {
    for (int i = 0; i < rate; i++) A[i / 8] ^= (uint64_t) (unsigned char) d[o + i] << 8 * (i % 8);
    unsigned lfsr = 1;
    for (int r = 0; r < 24; r++) {
      uint64_t C[5], B[25];
      for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
      for (int x = 0; x < 5; x++) { uint64_t D = C[(x + 4) % 5] ^ rr(C[(x + 1) % 5], 63); for (int y = 0; y < 25; y += 5) A[x + y] ^= D; }
      int x = 1, y = 0; uint64_t cur = A[1]; B[0] = A[0];
      for (int t = 0; t < 24; t++) { int ny = (2 * x + 3 * y) % 5; x = y; y = ny; int rot = (t + 1) * (t + 2) / 2 % 64; uint64_t nx = A[x + 5 * y]; B[x + 5 * y] = rot ? rr(cur, 64 - rot) : cur; cur = nx; }
      for (int yy = 0; yy < 25; yy += 5) for (int xx = 0; xx < 5; xx++) A[yy + xx] = B[yy + xx] ^ (~B[yy + (xx + 1) % 5] & B[yy + (xx + 2) % 5]);
      for (int j = 0; j < 7; j++) { if (lfsr & 1) A[0] ^= 1ULL << ((1 << j) - 1); lfsr <<= 1; if (lfsr & 0x100) lfsr ^= 0x171; }
    }
  }
  S r; for (int i = 0; i < bits / 8; i++) r += (char) (A[i / 8] >> 8 * (i % 8));
  return hexs((const unsigned char *) r.data(), r.size());
}
inline S crc64(const S &m) {   /* ISO 3309 */
  uint64_t c = 0;
  for (unsigned char b : m) { c ^= b; for (int i = 0; i < 8; i++) c = c & 1 ? c >> 1 ^ 0xD800000000000000ULL : c >> 1; }
  S r; for (int j = 56; j >= 0; j -= 8) r += (char) (c >> j);
  return hexs((const unsigned char *) r.data(), r.size());
}
}
#endif
