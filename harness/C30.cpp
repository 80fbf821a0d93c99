// @bounds double, complex<double> and int signals: every shape up to 3x3 and fifteen larger ones of up to 272 elements (int: 8-bit values, up to 2x3, thorough 3x3) with arbitrary elements (exact real arithmetic), every signal-to-noise ratio, every oversampling rate from 1 to 2^32-1; the Gaussian draws are those of the default-seeded generator
#define SYM_CAP 288
#include "sym.h"
#include <cmath>
#ifdef THOROUGH
#define HI 3
#else
#define HI 2
#endif
typedef std::complex<double> cd;
static unsigned rate() { unsigned o = sym<unsigned>("ovs"); ASSUME(o >= 1); return o; }
template <class T> static Ref<T> signal(size_t r, size_t c) { Ref<T> a(r, c); for (size_t i = 0; i < r * c; i++) if constexpr (std::is_integral<T>::value) a.a[i] = (T)sym<int8_t>("x"); else a.a[i] = sym<T>("x"); return a; }
template <class T> static void real_noise(bool deflt) {
  size_t r, c; if constexpr (std::is_integral<T>::value) { r = (size_t)CHOICE("r", 1, HI); c = (size_t)CHOICE("c", 1, 3); } else shapeL("r", "c", r, c, 3); auto a = signal<T>(r, c);
  auto m = mk(a); float snr = sym<float>("snr"); if (r * c < 5) BEFORE(auto f = fixed<T>(r, c); susa::awgn(f, 3.0f, 2)); unsigned o = deflt ? 1 : rate(); susa::matrix<double> y = deflt ? susa::awgn(m, snr) : susa::awgn(m, snr, o);
  CHECK(y.no_rows() == r && y.no_cols() == c, "shape of the noisy signal"); if (y.no_rows() != r || y.no_cols() != c) return;
  T q = 0; for (size_t i = 0; i < a.n(); i++) q += a.a[i] * a.a[i]; double p = (double)q; p = p * o / (double)a.n();
  double dev = std::sqrt(p / (2 * std::pow(10.0, (double)snr / 10))); susa::rng g;
  for (size_t i = 0; i < a.n(); i++) { double d = g.randn(); close(y.get(i), (double)a.a[i] + dev * d, 1e-6, "signal plus noise of the requested power"); }
  eq(m, a, "the input signal is unchanged"); REACH("done");
}
// @h awgn_double mode=real reach=done
HARNESS awgn_double() { real_noise<double>(false); }
// @h awgn_default mode=real reach=done
HARNESS awgn_default() { real_noise<double>(true); }
// @h awgn_int mode=real reach=done
HARNESS awgn_int() { real_noise<int>(false); }
// @h awgn_complex mode=real reach=done
HARNESS awgn_complex() {
  size_t r, c; shapeL("r", "c", r, c, 3); auto a = symref<cd>("x", r, c);
  auto m = mk(a); float snr = sym<float>("snr"); if (r * c < 5) BEFORE(auto f = fixed<cd>(r, c); susa::awgn(f, 3.0f, 2)); unsigned o = rate(); susa::matrix<cd> y = susa::awgn(m, snr, o);
  CHECK(y.no_rows() == r && y.no_cols() == c, "shape of the noisy signal"); if (y.no_rows() != r || y.no_cols() != c) return;
  double p = 0; for (size_t i = 0; i < a.n(); i++) p += a.a[i].real() * a.a[i].real() + a.a[i].imag() * a.a[i].imag(); p = p * o / (double)a.n();
  double dev = std::sqrt(p / (2 * std::pow(10.0, (double)snr / 10))); susa::rng g; 
  for (size_t i = 0; i < a.n(); i++) { // two draws per element; the language leaves open which of them is drawn first, so only the unordered pair is fixed
    double d = g.randn(), e = g.randn(); cd v = y.get(i); double nr = v.real() - a.a[i].real(), ni = v.imag() - a.a[i].imag();
    close(nr + ni, dev * (d + e), 1e-6, "signal plus noise of the requested power"); close(nr * ni, dev * dev * d * e, 1e-6, "signal plus noise of the requested power, one draw per part");
  }
  eq(m, a, "the input signal is unchanged"); REACH("done");
}
