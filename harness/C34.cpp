// @bounds every roll-off in [0,1] (exact real arithmetic) for upsampling factors 0..12 (thorough ..20) and orders 1, 3, 5, 7, 9, 11, 13, 21, 27 and five longer filters (33 taps at 8 and 12, 65 at 16, 101 at 25, 129 at 32); every non-positive or even order for the refusal
#include "sym.h"
#include <cmath>
static const double PI_ = 3.14159265358979323846;
// root of the raised-cosine spectrum
static double rc(double f, double a) { if (f > (1 + a) * 0.5) return 0; if (f > (1 - a) * 0.5) return std::sqrt(0.5 * (1 + std::cos((PI_ / a) * (f - (1 - a) * 0.5)))); return 1; }
static void taps(int L, int n, double a) {
  BEFORE(susa::rrcosine u((unsigned)L, 0.3, n); u.get(); susa::rrcosine v(2, 0.5, n + 2); v.get()); susa::rrcosine g((unsigned)L, a, n); susa::matrix<double> t = g.get(); CHECK(t.size() == (size_t)n && t.no_rows() * t.no_cols() == (size_t)n, "as many taps as the order"); if (t.size() != (size_t)n) return;
  int c = (n - 1) / 2; double s[140], h[140], e = 0; for (int m = 0; m <= c; m++) s[m] = rc((double)L * m / n, a);
  for (int i = 0; i < n; i++) { h[i] = s[0]; for (int m = 1; m <= c; m++) h[i] += 2 * s[m] * std::cos(2 * PI_ * m * (i - c) / n); e += h[i] * h[i]; }
  double u = 0; for (int i = 0; i < n; i++) { close(t((size_t)i), t((size_t)(n - 1 - i)), 1e-9, "taps are symmetric about the centre"); u += t((size_t)i) * t((size_t)i); }
  for (int i = 0; i < n; i++) close(t((size_t)i), h[i] / std::sqrt(e), 1e-9, "tap equals the normalized frequency-sampling formula");
  close(u, 1, 1e-9, "the taps have unit energy");
  REACH("done");
}
static double roll() { double a = sym<double>("roll"); ASSUME((a >= 0) & (a <= 1)); return a; }
#ifdef THOROUGH
#define LMAX 20
#else
#define LMAX 12
#endif
// @h order1 mode=real reach=done
HARNESS order1() { taps((int)CHOICE("L", 0, LMAX), 1, roll()); }
// @h order3 mode=real reach=done
HARNESS order3() { taps((int)CHOICE("L", 0, LMAX), 3, roll()); }
// @h order5 mode=real reach=done
HARNESS order5() { taps((int)CHOICE("L", 0, LMAX), 5, roll()); }
// @h order7 mode=real reach=done
HARNESS order7() { taps((int)CHOICE("L", 0, LMAX), 7, roll()); }
// @h order9 mode=real reach=done
HARNESS order9() { taps((int)CHOICE("L", 0, LMAX), 9, roll()); }
// @h order11 mode=real reach=done
HARNESS order11() { taps((int)CHOICE("L", 0, LMAX), 11, roll()); }
// @h order13 mode=real reach=done
HARNESS order13() { taps((int)CHOICE("L", 0, LMAX), 13, roll()); }
// @h order21 mode=real reach=done shards=4
HARNESS order21() { taps((int)CHOICE("L", 0, LMAX), 21, roll()); }
// @h order27 mode=real reach=done shards=8
HARNESS order27() { taps((int)CHOICE("L", 0, LMAX), 27, roll()); }
// long filters of high upsampling factors
// @h order_long mode=real reach=done shards=5 timeout=150
HARNESS order_long() { static const int Q[][2] = {{8, 33}, {12, 33}, {16, 65}, {25, 101}, {32, 129}}; const int *q = Q[CHOICE("Q", 0, 4)]; taps(q[0], q[1], roll()); }
// @h refused mode=real reach=done
HARNESS refused() { int n = sym<int>("order"); int L = (int)CHOICE("L", 0, LMAX); double a = roll(); ASSUME((n <= 0) | ((n & 1) == 0)); REACH("done"); MUST_ABORT_IF(true, susa::rrcosine g((unsigned)L, a, n), "an even or non-positive order is refused"); }
