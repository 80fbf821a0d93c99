// @bounds power: all bases, exponents 0..64 and nine larger ones up to 1000 (65, 100, 127..129, 255..257, 1000); exponents 65535..65541 for ten bases; base-2 logarithm: every 8-, 16-, 32- and 64-bit argument; modulus: all 64-bit arguments with each modulus 1..16 and 13 large moduli up to 2^63-1 (thorough: 1..64)
#include "sym.h"
#ifdef THOROUGH
#define NP 64
#define NM 64
#define NB 13
#else
#define NP 64
#define NM 16
#define NB 13
#endif
// @h h_pow reach=done
HARNESS h_pow() { static const unsigned L[] = {65, 100, 127, 128, 129, 255, 256, 257, 1000}; unsigned p = (unsigned)CHOICE("p", 0, NP + 9); if (p > NP) p = L[p - NP - 1]; unsigned u = sym<unsigned>("u"), a = 1; for (unsigned i = 0; i < p; i++) a *= u; CHECK(susa::pow(u, p) == a, "unsigned power"); int s = (int)u; CHECK((unsigned)susa::pow(s, p) == a, "signed power"); REACH("done"); }
template <class T> static void lg() { T x = sym<T>("x"); T e = susa::log2(x); int hi = -1; for (int i = 0; i < (int)sizeof(T) * 8; i++) hi = ((x >> i) & 1) ? i : hi; ASSUME(x != 0); CHECK((int)e == hi, "position of the highest set bit"); REACH("done"); }
// @h h_log8 reach=done
HARNESS h_log8() { lg<uint8_t>(); }
// @h h_log16 reach=done
HARNESS h_log16() { lg<uint16_t>(); }
// @h h_log32 reach=done
HARNESS h_log32() { lg<uint32_t>(); }
// @h h_log64 reach=done shards=4
HARNESS h_log64() { lg<uint64_t>(); }
// @h h_mod reach=done shards=8
HARNESS h_mod() {
  static const long big[] = {1024, 1000, 1l << 32, 0x7fffffffffffffffl, 1l << 62, 10, 12, 100, 1000003, 1l << 20, 1l << 31, (1l << 31) - 1, 1l << 40}; int k = (int)CHOICE("m", 1, NM + NB); long m = k <= NM ? k : big[k - NM - 1];
  long a = sym<long>("a"); long r = susa::mod(a, m); CHECK(r >= 0 && r < m, "modulus: range"); CHECK((unsigned long)r == (unsigned long)a % (unsigned long)m || a < 0, "modulus: congruent");
  if (a < 0) { unsigned long n = (0ul - (unsigned long)a) % (unsigned long)m; CHECK((unsigned long)r == (n ? (unsigned long)m - n : 0ul), "modulus: congruent (negative argument)"); } REACH("done");
}
// exponents past 2^16
// @h h_pow_far reach=done
HARNESS h_pow_far() { static const int B[] = {0, 1, -1, 2, 3, -3, 5, 7, 2147483647, 65537}; unsigned p = 65535 + (unsigned)CHOICE("p", 0, 6); int s = B[CHOICE("b", 0, 9)]; unsigned a = 1, q = (unsigned)s; for (unsigned i = p; i; i >>= 1) { if (i & 1) a *= q; q *= q; } CHECK(susa::pow((unsigned)s, p) == a, "unsigned power"); CHECK((unsigned)susa::pow(s, p) == a, "signed power"); REACH("done"); }
