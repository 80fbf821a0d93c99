// @bounds matrices and vectors up to 3x3 (thorough 4x4) and seventeen larger shapes of up to 600 elements, standard vectors up to 4; symbolic elements: all 32-bit integers, all doubles in exact arithmetic, all IEEE doubles for sign, absolute value and the large-magnitude end of rounding; rounding to -2..4 decimals (thorough -3..9) and to 5, 7, 8, 10..13, 15 decimals for |x| < 100; normal distribution: |x| <= 38 symbolically and agreement with erfc at 41 points
#define SYM_CAP 640
#include "sym.h"
#include <cmath>
#ifdef THOROUGH
#define NM 4
#define D0 -3
#define D1 9
#else
#define NM 3
#define D0 -2
#define D1 4
#endif
using susa::matrix; typedef std::complex<double> cd;
template <class T, class R, class F, class G> static void map(F f, G g, const char *msg, T *in = nullptr, bool (*ok)(const T &) = nullptr) {
  size_t r, c; shapeL("r", "c", r, c, NM); auto x = symref<T>("x", r, c); if (ok) for (size_t i = 0; i < r * c; i++) ASSUME(ok(x.a[i])); auto m = mk(x); BEFORE(f(fixed<T>(r, c, 1)); f(fixed<T>(c, r + 1, 3))); auto y = f(m); Ref<R> z(r, c); for (size_t i = 0; i < r * c; i++) z.a[i] = g(x.a[i]);
  CHECK(y.no_rows() == r && y.no_cols() == c && y.size() == r * c, "shape of the input"); if (y.no_rows() != r || y.no_cols() != c) return; for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) CHECK(same((R)y(i, j), z.at(i, j)), msg); eq(m, x, "argument unchanged"); REACH("done");
}
// @h h_abs reach=done
HARNESS h_abs() { map<int, int>([](const matrix<int> &m) { return susa::abs(m); }, [](int v) { return v < 0 ? (int)(0u - (unsigned)v) : v; }, "abs", (int *)0, +[](const int &v) { return v != (int)0x80000000; }); }
// @h h_abs_d mode=ieee merge=1 reach=done
HARNESS h_abs_d() { map<double, double>([](const matrix<double> &m) { return susa::abs(m); }, [](double v) { return std::fabs(v); }, "abs"); }
// @h h_abs_c mode=real reach=done
HARNESS h_abs_c() { map<cd, cd>([](const matrix<cd> &m) { return susa::abs(m); }, [](const cd &v) { return cd(std::sqrt(v.real() * v.real() + v.imag() * v.imag()), 0); }, "abs"); }
// @h h_vabs reach=done
HARNESS h_vabs() { size_t n = (size_t)CHOICE("n", 0, 4); std::vector<int> v; Ref<int> x(1, n); for (size_t i = 0; i < n; i++) { x.a[i] = sym<int>("x"); ASSUME(x.a[i] != (int)0x80000000); v.push_back(x.a[i]); } auto y = susa::abs(v); CHECK(y.size() == n && v.size() == n, "size"); for (size_t i = 0; i < n; i++) { CHECK(y[i] == (x.a[i] < 0 ? -x.a[i] : x.a[i]), "abs"); CHECK(v[i] == x.a[i], "argument unchanged"); } REACH("done"); }
// @h h_real mode=ieee reach=done
HARNESS h_real() { map<cd, double>([](const matrix<cd> &m) { return susa::real(m); }, [](const cd &v) { return v.real(); }, "real part"); }
// @h h_imag mode=ieee reach=done
HARNESS h_imag() { map<cd, double>([](const matrix<cd> &m) { return susa::imag(m); }, [](const cd &v) { return v.imag(); }, "imaginary part"); }
// @h h_mag mode=real reach=done
HARNESS h_mag() { map<cd, double>([](const matrix<cd> &m) { return susa::mag(m); }, [](const cd &v) { return v.real() * v.real() + v.imag() * v.imag(); }, "squared magnitude"); }
// @h h_conj mode=ieee reach=done
HARNESS h_conj() { map<cd, cd>([](const matrix<cd> &m) { return susa::conj(m); }, [](const cd &v) { return cd(v.real(), -v.imag()); }, "conjugate"); }
// @h h_complex mode=ieee reach=done
HARNESS h_complex() { map<double, cd>([](const matrix<double> &m) { return susa::to_complex(m); }, [](double v) { return cd(v, 0); }, "conversion to complex"); }
// @h h_log mode=real reach=done
HARNESS h_log() { map<double, double>([](const matrix<double> &m) { return susa::log(m); }, [](double v) { return std::log(v); }, "logarithm", (double *)0, +[](const double &v) { return v > 0; }); }
template <class T> static int sg(T v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
// @h h_sign merge=1 reach=done
HARNESS h_sign() { map<int, int>([](const matrix<int> &m) { return susa::sign(m); }, [](int v) { return sg(v); }, "sign"); int v = sym<int>("v"); CHECK(susa::sign(v) == sg(v), "sign of a number"); }
// @h h_sign_d mode=ieee merge=1 reach=done
HARNESS h_sign_d() { map<double, int>([](const matrix<double> &m) { return susa::sign(m); }, [](double v) { return sg(v); }, "sign", (double *)0, +[](const double &v) { return v == v; }); double v = sym<double>("v"); CHECK(susa::sign(v) == sg(v), "sign of a number"); }
// rounding
static double p10(int d) { double p = 1; for (int i = 0; i < d; i++) p *= 10; return p; }
static double rnd(double v, int d) { if (d <= 0) return v < 0 ? -std::floor(0.5 - v) : std::floor(v + 0.5); double p = p10(d); return v < 0 ? -std::floor(0.5 - v * p) / p : std::floor(v * p + 0.5) / p; }
// @h h_round mode=real reach=done
HARNESS h_round() { int d = (int)CHOICE("d", D0, D1); double x = sym<double>("x"); close(susa::round(x, d), rnd(x, d), 1e-12, "nearest multiple of 10^-d, ties away from zero"); close(susa::round(x), rnd(x, 0), 1e-12, "nearest integer by default"); REACH("done"); }
// @h h_round_m mode=real reach=done
HARNESS h_round_m() {
  size_t r, c; shapeL("r", "c", r, c, NM); bool big = r > 3 || c > 3; int d = (int)CHOICE("d", -1, 2); auto x = symref<double>("x", r, c); if (big) for (size_t i = 0; i < r * c; i++) ASSUME((x.a[i] < 0) != (i % 3 == 1)); auto m = mk(x); auto y = susa::round(m, d), z = susa::round(m); CHECK(y.no_rows() == r && y.no_cols() == c && z.no_rows() == r && z.no_cols() == c, "shape of the input"); if (y.size() != r * c || z.size() != r * c) return;
  for (size_t j = 0; j < c; j++) for (size_t i = 0; i < r; i++) { close(y(i, j), rnd(x.at(i, j), d), 1e-12, "rounded element"); close(z(i, j), rnd(x.at(i, j), 0), 1e-12, "rounded element"); } eq(m, x, "argument unchanged"); REACH("done");
}
// doubles without a fractional part are multiples of 10^-d and stay (up to rounding of the last digit); none of them becomes infinite or NaN
// @h h_round_big mode=ieee reach=done
HARNESS h_round_big() { int d = (int)CHOICE("d", D0, D1); double x = sym<double>("x"); ASSUME((std::fabs(x) >= 0x1p1000) & (std::fabs(x) <= 1.7976931348623157e308)); double y = susa::round(x, d); CHECK((y >= 0) == (x >= 0), "rounding keeps the sign of a large number"); CHECK((std::fabs(y) <= 1.7976931348623157e308), "rounding a finite number gives a finite number"); REACH("done"); }
// @h h_round_int mode=ieee reach=done
HARNESS h_round_int() { int d = (int)CHOICE("d", -1, 0); double x = sym<double>("x"); ASSUME(std::fabs(x) <= 1e300); double y = susa::round(x, d); CHECK(same(y, std::round(x)), "nearest integer (all finite doubles)"); REACH("done"); }
// normal distribution
// @h h_cdf mode=real reach=done
HARNESS h_cdf() { double x = sym<double>("x"); ASSUME((x >= -38) & (x <= 38)); double f = susa::normcdf(x); CHECK((f >= 0) & (f <= 1), "the distribution function lies in [0,1]"); close(susa::qfunc(x), 1 - f, 1e-12, "tail function"); REACH("done"); }
// @h h_cdf_sym mode=real reach=done
HARNESS h_cdf_sym() { double x = sym<double>("x"); ASSUME((x >= -38) & (x <= 38)); close(susa::normcdf(-x), 1 - susa::normcdf(x), 1e-6, "F(-x) = 1 - F(x)"); REACH("done"); }
// @h h_cdf_val reach=done
HARNESS h_cdf_val() { double x = (double)CHOICE("k", -20, 20) / 4; close(susa::normcdf(x), 0.5 * std::erfc(-x / std::sqrt(2.0)), 1e-6, "normal distribution function"); REACH("done"); }
// many decimals
// @h h_round_dec mode=real reach=done
HARNESS h_round_dec() { static const int D[] = {5, 7, 8, 10, 11, 12, 13, 15}; int d = D[CHOICE("d", 0, 7)]; double x = sym<double>("x"); ASSUME((x < 100) & (x > -100)); close(susa::round(x, d), rnd(x, d), 1e-15, "nearest multiple of 10^-d, ties away from zero"); REACH("done"); }
