// @bounds BPSK: every byte, shapes up to 3x3 and fifteen larger ones of up to 272 elements; QAM: orders 2..256 that are powers of two and the squares 9, 25, 36, 100 (thorough also 512, 1024); demodulation of every complex sample (exact real arithmetic) for orders 4, 8, 16 (thorough 32, 64), of every sample closer than half the spacing to one of eight points of orders 64, 128 and 256; every dB value for the noise deviation
#define SYM_CAP 288
#include "sym.h"
#include <cmath>
// @h bpsk_map reach=done
HARNESS bpsk_map() { size_t r, c; shapeL("r", "c", r, c, 3); auto a = symref<uint8_t>("x", r, c); auto m = mk(a); susa::matrix<int8_t> y = susa::bpsk(m); CHECK(y.no_rows() == r && y.no_cols() == c, "shape of the modulated bits"); for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) { int8_t v = y(i, j); CHECK(((a.at(i, j) == 0) & (v == -1)) | ((a.at(i, j) != 0) & (v == 1)), "zero maps to -1, everything else to +1"); } eq(m, a, "input bits unchanged"); REACH("done"); }
typedef std::complex<double> cd;
static const int M[] = {4, 8, 16, 2, 9, 25, 32, 36, 64, 100, 128, 256, 512, 1024};
static int bits(int m) { int b = 0; while ((2 << b) <= m) b++; return b; }
// @h qam_grid reach=done mode=real
HARNESS qam_grid() {
#ifdef THOROUGH
  int m = M[CHOICE("order", 0, 13)];
#else
  int m = M[CHOICE("order", 0, 11)];
#endif
  BEFORE(susa::qam u(m == 16 ? 64 : 16); u.demodulate_symbol(cd(1, 0.25)); u.get_noise_deviation(3)); susa::qam q((unsigned)m); susa::matrix<cd> s = q.get_constellation(); CHECK(s.size() == (size_t)m, "as many points as the order"); if (s.size() != (size_t)m) return;
  double lo = 1e9, hi = -1e9, lo2 = 1e9, hi2 = -1e9; for (int i = 0; i < m; i++) { double x = s((size_t)i).real(), y = s((size_t)i).imag(); lo = x < lo ? x : lo; hi = x > hi ? x : hi; lo2 = y < lo2 ? y : lo2; hi2 = y > hi2 ? y : hi2; }
  int w = (int)std::floor(hi - lo + 0.5) + 1, h = (int)std::floor(hi2 - lo2 + 0.5) + 1; CHECK(w >= 1 && h >= 1 && w * h == m, "the points fill a unit-spaced grid"); if (w * h != m) return;
  CHECK(lo + hi == 0 && lo2 + hi2 == 0, "symmetric about the origin");
  static char seen[1024]; for (int i = 0; i < m; i++) seen[i] = 0;
  for (int i = 0; i < m; i++) { double x = s((size_t)i).real() - lo, y = s((size_t)i).imag() - lo2; int a = (int)std::floor(x + 0.5), b = (int)std::floor(y + 0.5); bool on = std::fabs(x - a) < 1e-12 && std::fabs(y - b) < 1e-12 && a >= 0 && a < w && b >= 0 && b < h; CHECK(on, "points on the unit-spaced grid"); if (!on) return; CHECK(!seen[a * h + b], "distinct points"); seen[a * h + b] = 1; }
  if (m <= 64) for (int i = 0; i < m; i++) { cd z = q.demodulate_symbol(s((size_t)i)); CHECK(z == s((size_t)i), "a constellation point demodulates to itself"); }
  REACH("done");
}
static void demod(int m) {
  susa::qam q((unsigned)m); BEFORE(susa::qam u(m == 16 ? 64 : 16); u.demodulate_symbol(cd(1, 0.25)); q.demodulate_symbol(cd(-3, 0.4))); susa::matrix<cd> s = q.get_constellation(); cd x = sym<cd>("x"); cd y = q.demodulate_symbol(x);
  bool in = false; for (int i = 0; i < m; i++) in = in | ((y.real() == s((size_t)i).real()) & (y.imag() == s((size_t)i).imag())); CHECK(in, "the decision is a constellation point");
  double dx = x.real() - y.real(), dy = x.imag() - y.imag(), d = dx * dx + dy * dy;
  for (int i = 0; i < m; i++) { double ex = x.real() - s((size_t)i).real(), ey = x.imag() - s((size_t)i).imag(); CHECK(d <= ex * ex + ey * ey, "no constellation point is closer than the decision"); }
  REACH("done");
}
// @h demod4 mode=real reach=done
HARNESS demod4() { demod(4); }
// @h demod8 mode=real reach=done
HARNESS demod8() { demod(8); }
// @h demod16 mode=real reach=done shards=1
HARNESS demod16() { demod(16); }
// @h demod32 mode=real reach=done tier=thorough timeout=900
HARNESS demod32() { demod(32); }
// @h demod64 mode=real reach=done tier=thorough timeout=900
HARNESS demod64() { demod(64); }
// @h noise mode=real reach=done
HARNESS noise() {
  int m = M[CHOICE("order", 0, 11)]; susa::qam q((unsigned)m); BEFORE(susa::qam u(m == 16 ? 64 : 16); u.get_noise_deviation(3); q.get_noise_deviation(7)); susa::matrix<cd> s = q.get_constellation(); double es = 0; for (int i = 0; i < m; i++) es += s((size_t)i).real() * s((size_t)i).real() + s((size_t)i).imag() * s((size_t)i).imag(); double eb = es / m / bits(m);
  double db = sym<double>("db"); double d = q.get_noise_deviation(db); double want = eb / (2 * std::pow(10, db / 10)); CHECK(d >= 0, "the deviation is not negative"); close(d * d, want, 1e-12, "the squared deviation is Eb/(2*10^(dB/10))"); REACH("done");
}
// larger constellations: every sample nearer than half the spacing to a point
// @h demod_big mode=real reach=done shards=8 timeout=150
HARNESS demod_big() {
  int m = 64 << CHOICE("order", 0, 2), k = (int)CHOICE("point", 0, 7); int p = k == 0 ? 0 : k == 1 ? m - 1 : k == 2 ? m - 2 : k == 3 ? m - 9 : k == 4 ? m / 2 : k == 5 ? m / 2 - 1 : k == 6 ? 7 : m - 5; susa::qam q((unsigned)m); susa::matrix<cd> s = q.get_constellation(); cd d = sym<cd>("d"); ASSUME((d.real() < 0.5) & (d.real() > -0.5) & (d.imag() < 0.5) & (d.imag() > -0.5)); cd z = q.demodulate_symbol(cd(s((size_t)p).real() + d.real(), s((size_t)p).imag() + d.imag())); CHECK((z.real() == s((size_t)p).real()) & (z.imag() == s((size_t)p).imag()), "a sample near a point demodulates to it"); REACH("done");
}
