// @bounds 2..5 taps and 1..10 received values (thorough ..12): symbolic real taps, alphabet, received values and signal-to-noise ratio in exact arithmetic with the exponential as an uninterpreted positive function; oracle: the sum over all zero-to-zero paths
#include "sym.h"
#include <cmath>
#ifdef THOROUGH
#define NS 12
#else
#define NS 10
#endif
using susa::matrix;
static void run(unsigned t, unsigned n) {
  auto h = symref<double>("tap", 1, t); auto a = symref<double>("pam", 2, 1); auto r = symref<double>("r", n, 1); bool row = CHOICE("row", 0, 1); if (row) { r.r = 1; r.c = n; } double snr = sym<double>("snr"); auto mh = mk(h); auto ma = mk(a); auto mr = mk(r); susa::channel<double> ch(mh, ma); if (n < 5) BEFORE(ch.decode_bcjr(fixed<double>(n, 1), 0.5); ch.decode_bcjr(fixed<double>(1, n + 1), 0.25); auto f = fixed<double>(3, 1); ch.encode_isi(f, 1)); auto y = ch.decode_bcjr(mr, snr);
  eq(mr, r, "received values unchanged"); CHECK(y.size() == n, "one ratio per instant"); if (y.size() != n) return;
  double w[NS][32]; for (unsigned k = 0; k < n; k++) for (unsigned s = 0; s < 1u << t; s++) { double o = 0; for (unsigned d = 0; d < t; d++) o += h.a[d] * a.a[(s >> d) & 1]; w[k][s] = std::exp(-snr * ((r.a[k] - o) * (r.a[k] - o))); }
  double one[NS] = {}, zero[NS] = {}; bool po[NS] = {};
  for (unsigned p = 0; p < 1u << n; p++) { unsigned s = 0; double v = 1; for (unsigned k = 0; k < n; k++) { unsigned f = s << 1 | ((p >> k) & 1); v = v * w[k][f]; s = f & ((1u << (t - 1)) - 1); } if (s) continue; for (unsigned k = 0; k < n; k++) if ((p >> k) & 1) { one[k] += v; po[k] = true; } else zero[k] += v; }
  for (unsigned k = 0; k < n; k++) { if (!po[k]) CHECK(y(k) == 0, "an impossible symbol has a zero ratio"); else close(y(k), one[k] / zero[k], 1e-9, "ratio of the path sums"); } REACH("done");
}
// @h h_bcjr2 mode=real div=assume reach=done shards=4 timeout=120
HARNESS h_bcjr2() { run(2, (unsigned)CHOICE("n", 1, NS)); }
// @h h_bcjr3 mode=real div=assume reach=done shards=4 timeout=120
HARNESS h_bcjr3() { run(3, (unsigned)CHOICE("n", 1, NS)); }
// @h h_bcjr4 mode=real div=assume reach=done shards=4 timeout=120
HARNESS h_bcjr4() { run(4, (unsigned)CHOICE("n", 1, NS)); }
// @h h_bcjr5 mode=real div=assume reach=done shards=4 timeout=120
HARNESS h_bcjr5() { run(5, (unsigned)CHOICE("n", 1, NS)); }
