// @bounds radix-2 lengths 2..32 (thorough ..128), lengths 64, 128, 256 and 512 with a fixed background and one arbitrary sample (64: every fifth place; 128: three places; 256: one; 512: one, every thirteenth output), direct transform lengths 2..24 (thorough ..48) and 260 (fixed background, one arbitrary sample), matrices up to 16 rows and 2, 3, 4, 9 or 17 columns (direct: 7 rows and 2, 3, 9 or 17 columns); symbolic real samples in exact arithmetic with the computed twiddle factors as the constants they are; deviation bound 1e-9 per unit of input (|x| <= 1); every refused length up to 12
#include "sym.h"
#include <cmath>
#ifdef THOROUGH
#define LG 7
#define ND 48
#else
#define LG 5
#define ND 24
#endif
using susa::matrix; typedef std::complex<double> cd;
template <int CAP> static Ref<cd, CAP> dft(const Ref<double, CAP> &x, size_t n) {
  Ref<cd, CAP> y(x.r, x.c); double cs[CAP], sn[CAP]; for (size_t i = 0; i < n; i++) { double t = 2 * 3.14159265358979323846 * (double)i / (double)n; cs[i] = std::cos(t); sn[i] = std::sin(t); }
  for (size_t j = 0; j < x.n() / n; j++) for (size_t k = 0; k < n; k++) { double re = 0, im = 0; for (size_t i = 0; i < n; i++) { re += x.a[j * n + i] * cs[i * k % n]; im -= x.a[j * n + i] * sn[i * k % n]; } y.a[j * n + k] = cd(re, im); }
  return y;
}
template <int CAP> static Ref<double, CAP> unit(size_t r, size_t c) { auto x = symref<double, CAP>("x", r, c); for (size_t i = 0; i < r * c; i++) ASSUME((x.a[i] <= 1) & (x.a[i] >= -1)); return x; }
// @h h_fft mode=real reach=row,col shards=8
HARNESS h_fft() { size_t n = (size_t)1 << CHOICE("lg", 1, LG); bool row = CHOICE("row", 0, 1); auto x = row ? unit<128>(1, n) : unit<128>(n, 1); auto m = mk(x); susa::fft<double> f; BEFORE(f.radix2(fixed<double>(n, 1)); f.radix2(fixed<double>(1, 2 * n)); f.dft(fixed<double>(3, 2))); eqc(f.radix2(m), dft<128>(x, n), 1e-9, "radix-2 transform"); eq(m, x, "input unchanged"); if (row) REACH("row"); else REACH("col"); }
// @h h_fft_l mode=real reach=done shards=4
HARNESS h_fft_l() { int q = (int)CHOICE("q", 0, 15); size_t n = q < 13 ? 64 : 128, p = (size_t)(q < 13 ? q * 5 : (q - 13) * 61); Ref<double, 128> x(n, 1); for (size_t i = 0; i < n; i++) x.a[i] = (double)((int)(i * 29 % 17) - 8) / 8; x.a[p] = sym<double>("x"); ASSUME((x.a[p] <= 1) & (x.a[p] >= -1)); if (q & 1) { x.r = 1; x.c = n; } auto m = mk(x); susa::fft<double> f; BEFORE(f.radix2(fixed<double>(n, 1)); f.radix2(fixed<double>(1, 2 * n)); f.dft(fixed<double>(3, 2))); eqc(f.radix2(m), dft<128>(x, n), 1e-9, "radix-2 transform"); REACH("done"); }
// @h h_fft_m mode=real reach=done shards=4
HARNESS h_fft_m() { size_t n = (size_t)1 << CHOICE("lg", 1, 4), c = (size_t)CHOICE("c", 2, 6); if (c > 4) c = c == 5 ? 9 : 17; auto x = unit<288>(n, c); auto m = mk(x); susa::fft<double> f; BEFORE(f.radix2(fixed<double>(n, 1)); f.radix2(fixed<double>(1, 2 * n)); f.dft(fixed<double>(3, 2))); eqc(f.radix2(m), dft<288>(x, n), 1e-9, "radix-2, column by column"); eq(m, x, "input unchanged"); REACH("done"); }
// @h h_dft mode=real reach=row,col shards=8
HARNESS h_dft() { size_t n = (size_t)CHOICE("n", 2, ND); bool row = CHOICE("row", 0, 1); auto x = row ? unit<128>(1, n) : unit<128>(n, 1); auto m = mk(x); susa::fft<double> f; BEFORE(f.dft(fixed<double>(n, 1)); f.dft(fixed<double>(1, n + 1)); f.radix2(fixed<double>(4, 2))); eqc(f.dft(m), dft<128>(x, n), 1e-9, "direct transform"); eq(m, x, "input unchanged"); if (row) REACH("row"); else REACH("col"); }
// @h h_dft_m mode=real reach=done shards=4
HARNESS h_dft_m() { size_t n = (size_t)CHOICE("n", 2, 7), c = (size_t)CHOICE("c", 2, 5); if (c > 3) c = c == 4 ? 9 : 17; auto x = unit<128>(n, c); auto m = mk(x); susa::fft<double> f; BEFORE(f.dft(fixed<double>(n, 1)); f.dft(fixed<double>(1, n + 1)); f.radix2(fixed<double>(4, 2))); eqc(f.dft(m), dft<128>(x, n), 1e-9, "direct, column by column"); eq(m, x, "input unchanged"); REACH("done"); }
// 1x1: the transform is the sample itself
// @h h_one mode=real reach=done
HARNESS h_one() { auto x = unit<64>(1, 1); auto m = mk(x); susa::fft<double> f; Ref<cd> y(1, 1); y.a[0] = cd(x.a[0], 0); eqc(CHOICE("d", 0, 1) ? f.dft(m) : f.radix2(m), y, 1e-9, "length one"); REACH("done"); }
// @h h_refuse mode=real reach=ok
HARNESS h_refuse() { size_t n = (size_t)CHOICE("n", 1, 12); bool p2 = (n & (n - 1)) == 0; int k = (int)CHOICE("kind", 0, 2); auto x = k == 0 ? unit<64>(1, n) : k == 1 ? unit<64>(n, 1) : unit<64>(n, 3); ASSUME(k < 2 || n > 1); auto m = mk(x); susa::fft<double> f; MUST_ABORT_IF(!p2, f.radix2(m), "a length that is not a power of two must be refused"); REACH("ok"); }
// long transforms
// @h h_fft_xl mode=real reach=done timeout=150
HARNESS h_fft_xl() { size_t n = 256; Ref<double, 512> x(n, 1); for (size_t i = 0; i < n; i++) x.a[i] = i % 37 == 1 ? (double)((int)(i * 29 % 17) - 8) / 8 : 0; x.a[n - 3] = sym<double>("x"); ASSUME((x.a[n - 3] <= 1) & (x.a[n - 3] >= -1)); auto m = mk(x); susa::fft<double> f; eqc(f.radix2(m), dft<512>(x, n), 1e-9, "radix-2 transform"); REACH("done"); }
// @h h_fft_512 mode=real reach=done timeout=150
HARNESS h_fft_512() { size_t n = 512; Ref<double, 512> x(n, 1); for (size_t i = 0; i < n; i++) x.a[i] = i % 37 == 1 ? (double)((int)(i * 29 % 17) - 8) / 8 : 0; double t = sym<double>("x"); x.a[n - 3] = t; ASSUME((t <= 1) & (t >= -1)); auto m = mk(x); susa::fft<double> f; auto y = f.radix2(m); CHECK(y.size() == n, "radix-2 transform: size");
  bool ok = true; for (size_t k = 5; k < n; k += 13) { double re = 0, im = 0; for (size_t i = 0; i < n; i++) if (i % 37 == 1 && i != n - 3) { double w = -2 * M_PI * (double)(i * k % n) / n; re += x.a[i] * std::cos(w); im += x.a[i] * std::sin(w); } double w = -2 * M_PI * (double)((n - 3) * k % n) / n; re += t * std::cos(w); im += t * std::sin(w); double p = y(k).real() - re, q = y(k).imag() - im; ok = ok & (p <= 1e-9) & (p >= -1e-9) & (q <= 1e-9) & (q >= -1e-9); } CHECK(ok, "radix-2 transform of 512 samples"); REACH("done"); }
// @h h_dft_xl mode=real reach=done timeout=150
HARNESS h_dft_xl() { size_t n = 260; Ref<double, 512> x(n, 1); for (size_t i = 0; i < n; i++) x.a[i] = i % 37 == 1 ? (double)((int)(i * 29 % 17) - 8) / 8 : 0; x.a[n - 3] = sym<double>("x"); ASSUME((x.a[n - 3] <= 1) & (x.a[n - 3] >= -1)); if (CHOICE("row", 0, 1)) { x.r = 1; x.c = n; } auto m = mk(x); susa::fft<double> f; eqc(f.dft(m), dft<512>(x, n), 1e-9, "direct transform"); REACH("done"); }
