// Stand-in for boringssl's sha.h: SHA-256 with boringssl's state layout.
#ifndef VH_SHIM_SHA_H_
#define VH_SHIM_SHA_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#define SHA256_DIGEST_LENGTH 32
#define SHA256_CBLOCK 64
struct sha256_state_st {
  uint32_t h[8];
  uint32_t Nl, Nh;
  uint8_t data[SHA256_CBLOCK];
  unsigned num, md_len;
};
typedef struct sha256_state_st SHA256_CTX;
namespace vh_sha {
inline constexpr uint32_t K[64] = {
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1,
    0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3,
    0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786,
    0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147,
    0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13,
    0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b,
    0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a,
    0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
    0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
inline uint32_t rr(uint32_t v, int n) { return (v >> n) | (v << (32 - n)); }
inline void block(uint32_t h[8], const uint8_t* p) {
  uint32_t w[64];
  for (int i = 0; i < 16; ++i)
    w[i] = (uint32_t)p[4 * i] << 24 | (uint32_t)p[4 * i + 1] << 16 |
           (uint32_t)p[4 * i + 2] << 8 | p[4 * i + 3];
  for (int i = 16; i < 64; ++i) {
    uint32_t s0 = rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3);
    uint32_t s1 = rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10);
    w[i] = w[i - 16] + s0 + w[i - 7] + s1;
  }
  uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5],
           g = h[6], k = h[7];
  for (int i = 0; i < 64; ++i) {
    uint32_t t1 = k + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + ((e & f) ^ (~e & g)) +
                  K[i] + w[i];
    uint32_t t2 =
        (rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
    k = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
  }
  h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  h[4] += e; h[5] += f; h[6] += g; h[7] += k;
}
}  // namespace vh_sha
inline int SHA256_Init(SHA256_CTX* s) {
  memset(s, 0, sizeof(*s));
  static const uint32_t iv[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a,
                                 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  memcpy(s->h, iv, sizeof(iv));
  s->md_len = 32;
  return 1;
}
inline int SHA256_Update(SHA256_CTX* s, const void* in, size_t len) {
  const uint8_t* p = (const uint8_t*)in;
  uint64_t bits = ((uint64_t)s->Nh << 32 | s->Nl) + (uint64_t)len * 8;
  s->Nl = (uint32_t)bits;
  s->Nh = (uint32_t)(bits >> 32);
  while (len > 0) {
    size_t n = SHA256_CBLOCK - s->num;
    if (n > len) n = len;
    memcpy(s->data + s->num, p, n);
    s->num += (unsigned)n;
    p += n;
    len -= n;
    if (s->num == SHA256_CBLOCK) {
      vh_sha::block(s->h, s->data);
      s->num = 0;
    }
  }
  return 1;
}
inline int SHA256_Final(uint8_t* out, SHA256_CTX* s) {
  uint64_t bits = (uint64_t)s->Nh << 32 | s->Nl;
  s->data[s->num++] = 0x80;
  if (s->num > 56) {
    memset(s->data + s->num, 0, SHA256_CBLOCK - s->num);
    vh_sha::block(s->h, s->data);
    s->num = 0;
  }
  memset(s->data + s->num, 0, 56 - s->num);
  for (int i = 0; i < 8; ++i) s->data[56 + i] = (uint8_t)(bits >> (56 - 8 * i));
  vh_sha::block(s->h, s->data);
  for (int i = 0; i < 32; ++i)
    out[i] = (uint8_t)(s->h[i / 4] >> (24 - 8 * (i % 4)));
  return 1;
}
#endif
