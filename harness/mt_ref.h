// MT19937 as published (Matsumoto & Nishimura, 2002/1/26)
#pragma once
#include <cstdint>
struct RefMT {
  uint32_t s[624]; int i = 624;
  explicit RefMT(uint32_t seed) { s[0] = seed; for (uint32_t k = 1; k < 624; k++) s[k] = 1812433253u * (s[k - 1] ^ (s[k - 1] >> 30)) + k; }
  uint32_t next() {
    if (i == 624) { for (int k = 0; k < 624; k++) { uint32_t y = (s[k] & 0x80000000u) | (s[(k + 1) % 624] & 0x7fffffffu); s[k] = s[(k + 397) % 624] ^ (y >> 1) ^ (0x9908b0dfu & (0u - (y & 1))); } i = 0; }
    uint32_t y = s[i++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18; return y;
  }
};
