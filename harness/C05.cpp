// @bounds shapes up to 3x3 (quick) / 4x4 (thorough) and seventeen larger shapes of up to 600 elements (1x9, 2x17, 8x8, 16x17, 257x1, ...); every conversion operator between double, float, int, int8_t, uint8_t and between complex<double>, complex<float>, complex<int>, complex<int8_t>, complex<uint8_t>; symbolic elements, for floating-point to integer conversion those representable in the target
#define SYM_CAP 640
#include "sym.h"
#ifdef THOROUGH
#define MX 4
#else
#define MX 3
#endif
using susa::matrix;
template <class S, class D> static bool fits(S v) {
  if (std::is_floating_point<S>::value && std::is_integral<D>::value) { double d = (double)v; return std::is_same<D, int>::value ? (d > -2147483649.0) & (d < 2147483648.0) : std::is_signed<D>::value ? (d > -129.0) & (d < 128.0) : (d > -1.0) & (d < 256.0); }
  return true;
}
template <class S, class D> static void conv() {
  size_t r, c; shapeL("r", "c", r, c, MX); auto x = symref<S>("x", r, c); auto m = mk(x); Ref<D> e(r, c); for (size_t k = 0; k < r * c; k++) ASSUME((fits<S, D>(x.a[k])));
  for (size_t k = 0; k < r * c; k++) e.a[k] = (D)x.a[k]; matrix<D> y = m; eq(y, e, "conversion"); eq(m, x, "source unchanged"); REACH("done");
}
template <class S, class D> static void cconv() {
  size_t r, c; shapeL("r", "c", r, c, MX); auto x = symref<std::complex<S>>("x", r, c); auto m = mk(x); Ref<std::complex<D>> e(r, c); for (size_t k = 0; k < r * c; k++) { ASSUME((fits<S, D>(x.a[k].real()))); ASSUME((fits<S, D>(x.a[k].imag()))); }
  for (size_t k = 0; k < r * c; k++) e.a[k] = std::complex<D>((D)x.a[k].real(), (D)x.a[k].imag()); matrix<std::complex<D>> y = m; eq(y, e, "complex conversion"); eq(m, x, "source unchanged"); REACH("done");
}
template <class S> static void from() {
  switch (CHOICE("target", 0, 4)) { case 0: conv<S, double>(); break; case 1: conv<S, float>(); break; case 2: conv<S, int>(); break; case 3: conv<S, int8_t>(); break; default: conv<S, uint8_t>(); }
}
template <class S> static void cfrom() {
  switch (CHOICE("target", 0, 4)) { case 0: cconv<S, double>(); break; case 1: cconv<S, float>(); break; case 2: cconv<S, int>(); break; case 3: cconv<S, int8_t>(); break; default: cconv<S, uint8_t>(); }
}
// @h h_double reach=done shards=4
HARNESS h_double() { from<double>(); }
// @h h_float reach=done shards=4
HARNESS h_float() { from<float>(); }
// @h h_int reach=done
HARNESS h_int() { from<int>(); }
// @h h_i8 reach=done
HARNESS h_i8() { from<int8_t>(); }
// @h h_u8 reach=done
HARNESS h_u8() { from<uint8_t>(); }
// @h h_cd reach=done shards=4
HARNESS h_cd() { cfrom<double>(); }
// @h h_cf reach=done shards=4
HARNESS h_cf() { cfrom<float>(); }
// @h h_ci reach=done
HARNESS h_ci() { cfrom<int>(); }
// @h h_ci8 reach=done
HARNESS h_ci8() { cfrom<int8_t>(); }
// @h h_cu8 reach=done
HARNESS h_cu8() { cfrom<uint8_t>(); }
