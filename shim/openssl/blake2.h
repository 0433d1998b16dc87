// Stand-in for boringssl's (patched) blake2.h: BLAKE2b per RFC 7693, with the
// state layout the transcript code serializes.
#ifndef VH_SHIM_BLAKE2_H_
#define VH_SHIM_BLAKE2_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#define BLAKE2B256_DIGEST_LENGTH (256 / 8)
#define BLAKE2B512_DIGEST_LENGTH (512 / 8)
#define BLAKE2B_CBLOCK 128
#define BLAKE2B_PERSONAL_LENGTH 16
struct blake2b_state_st {
  uint64_t h[8];
  uint64_t t_low, t_high;
  uint8_t block[BLAKE2B_CBLOCK];
  size_t block_used;
};
typedef struct blake2b_state_st BLAKE2B_CTX;
namespace vh_blake2 {
inline constexpr uint64_t kIV[8] = {
    0x6a09e667f3bcc908ULL, 0xbb67ae8584caa73bULL, 0x3c6ef372fe94f82bULL,
    0xa54ff53a5f1d36f1ULL, 0x510e527fade682d1ULL, 0x9b05688c2b3e6c1fULL,
    0x1f83d9abfb41bd6bULL, 0x5be0cd19137e2179ULL};
inline constexpr uint8_t kSigma[10][16] = {
    {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
    {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
    {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
    {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
    {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
    {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
    {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
    {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
    {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
    {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
inline uint64_t rotr(uint64_t v, int n) { return (v >> n) | (v << (64 - n)); }
inline void transform(BLAKE2B_CTX* s, const uint8_t* block, size_t num,
                      bool last) {
  uint64_t v[16], m[16];
  memcpy(v, s->h, 64);
  memcpy(v + 8, kIV, 64);
  s->t_low += num;
  if (s->t_low < num) s->t_high++;
  v[12] ^= s->t_low;
  v[13] ^= s->t_high;
  if (last) v[14] = ~v[14];
  memcpy(m, block, 128);
  auto g = [&](int a, int b, int c, int d, uint64_t x, uint64_t y) {
    v[a] += v[b] + x; v[d] = rotr(v[d] ^ v[a], 32);
    v[c] += v[d]; v[b] = rotr(v[b] ^ v[c], 24);
    v[a] += v[b] + y; v[d] = rotr(v[d] ^ v[a], 16);
    v[c] += v[d]; v[b] = rotr(v[b] ^ v[c], 63);
  };
  for (int r = 0; r < 12; ++r) {
    const uint8_t* p = kSigma[r % 10];
    g(0, 4, 8, 12, m[p[0]], m[p[1]]);
    g(1, 5, 9, 13, m[p[2]], m[p[3]]);
    g(2, 6, 10, 14, m[p[4]], m[p[5]]);
    g(3, 7, 11, 15, m[p[6]], m[p[7]]);
    g(0, 5, 10, 15, m[p[8]], m[p[9]]);
    g(1, 6, 11, 12, m[p[10]], m[p[11]]);
    g(2, 7, 8, 13, m[p[12]], m[p[13]]);
    g(3, 4, 9, 14, m[p[14]], m[p[15]]);
  }
  for (int i = 0; i < 8; ++i) s->h[i] ^= v[i] ^ v[i + 8];
}
inline void init(BLAKE2B_CTX* s, size_t len, const char* personal) {
  memset(s, 0, sizeof(*s));
  memcpy(s->h, kIV, 64);
  s->h[0] ^= 0x01010000 | len;
  if (personal) {
    uint64_t p[2];
    memcpy(p, personal, 16);
    s->h[6] ^= p[0];
    s->h[7] ^= p[1];
  }
}
}  // namespace vh_blake2
inline void BLAKE2B512_Init(BLAKE2B_CTX* s) { vh_blake2::init(s, 64, nullptr); }
inline void BLAKE2B512_InitWithPersonal(BLAKE2B_CTX* s, const char* p) {
  vh_blake2::init(s, 64, p);
}
inline void BLAKE2B512_Update(BLAKE2B_CTX* s, const void* in, size_t len) {
  const uint8_t* data = (const uint8_t*)in;
  while (len > 0) {
    if (s->block_used == BLAKE2B_CBLOCK) {
      vh_blake2::transform(s, s->block, BLAKE2B_CBLOCK, false);
      s->block_used = 0;
    }
    size_t n = BLAKE2B_CBLOCK - s->block_used;
    if (n > len) n = len;
    memcpy(s->block + s->block_used, data, n);
    s->block_used += n;
    data += n;
    len -= n;
  }
}
inline void BLAKE2B512_Final(uint8_t* out, BLAKE2B_CTX* s) {
  memset(s->block + s->block_used, 0, BLAKE2B_CBLOCK - s->block_used);
  vh_blake2::transform(s, s->block, s->block_used, true);
  memcpy(out, s->h, 64);
}
#endif
