// Stand-in for boringssl's (patched) chacha.h.
#ifndef VH_SHIM_CHACHA_H_
#define VH_SHIM_CHACHA_H_
#include <stdint.h>
#include <string.h>
static inline uint32_t vh_rotl32(uint32_t v, int n) {
  return (v << n) | (v >> (32 - n));
}
inline void chacha_core(uint8_t output[64], const uint32_t input[16]) {
  uint32_t x[16];
  memcpy(x, input, sizeof(x));
  auto qr = [&x](int a, int b, int c, int d) {
    x[a] += x[b]; x[d] = vh_rotl32(x[d] ^ x[a], 16);
    x[c] += x[d]; x[b] = vh_rotl32(x[b] ^ x[c], 12);
    x[a] += x[b]; x[d] = vh_rotl32(x[d] ^ x[a], 8);
    x[c] += x[d]; x[b] = vh_rotl32(x[b] ^ x[c], 7);
  };
  for (int i = 20; i > 0; i -= 2) {
    qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
    qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
  }
  for (int i = 0; i < 16; ++i) x[i] += input[i];
  memcpy(output, x, 64);
}
#endif
