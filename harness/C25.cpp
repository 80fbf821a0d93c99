// @bounds 2 outputs, 1..2 memories, 5 generator pairs (thorough: 3 memories, 10 pairs), 1..4 stages (thorough ..5); sixteen (thorough 21) further codes of 1..8 outputs, 1..6 (7) memories and up to 9 (10) stages; every real received value, signal-to-noise ratio and prior in (0,1), in exact arithmetic with the exponential as an uninterpreted positive function; the all-paths sum is the oracle
#include "sym.h"
#include <cmath>
#ifdef THOROUGH
#define NS 5
#define NG 9
#define NM 3
#else
#define NS 4
#define NG 5
#define NM 2
#endif
using susa::matrix; using susa::ccode;
static unsigned par(uint32_t v) { unsigned r = 0; for (int i = 0; i < 8; i++) r ^= (v >> i) & 1; return r; }
// @h h_bcjr mode=real div=assume reach=done shards=8 timeout=120
HARNESS h_bcjr() {
  static const uint32_t G[][2] = {{3, 1}, {2, 3}, {5, 7}, {7, 7}, {4, 7}, {6, 5}, {013, 017}, {017, 013}, {011, 016}, {015, 017}}; int gi = (int)CHOICE("g", 0, NG - 1); unsigned m = gi < 2 ? 1 : gi < 6 ? 2 : 3; const uint32_t *g = G[gi]; unsigned L = (unsigned)CHOICE("stages", 1, NS);
  ccode c(2, 1, m); for (unsigned j = 0; j < 2; j++) { uint32_t o = (g[j] >> 3) * 10 + (g[j] & 7); c.set_generator(o, j); }
  auto r = symref<double>("r", 2 * L, 1); double snr = sym<double>("snr"), pr = sym<double>("prior"); ASSUME((pr > 0) & (pr < 1)); ASSUME(snr > 0); bool row = CHOICE("row", 0, 1); if (row) { r.r = 1; r.c = 2 * L; }
  auto mr = mk(r); BEFORE(c.decode_bcjr(fixed<double>(2 * L + 2, 1), 0.5, 0.25); matrix<uint8_t> q(3, 1, 1); c.encode(q)); auto y = c.decode_bcjr(mr, snr, pr); eq(mr, r, "received values unchanged"); CHECK(y.size() >= L, "one ratio per stage"); if (y.size() < L) return;
  // branch likelihoods, one factor per stage and output pair
  double w[NS][4]; for (unsigned k = 0; k < L; k++) for (int o = 0; o < 4; o++) w[k][o] = std::exp(2 * snr * ((o & 1 ? 1 : -1) * r.a[2 * k] + (o & 2 ? 1 : -1) * r.a[2 * k + 1]));
  double one[NS] = {}, zero[NS] = {}; bool po[NS] = {};
  for (unsigned p = 0; p < 1u << L; p++) { uint32_t s = 0; double v = 1; for (unsigned k = 0; k < L; k++) { uint32_t b = (p >> k) & 1, f = s | (b << m); v = v * w[k][par(f & g[0]) | par(f & g[1]) << 1] * (b ? pr : 1 - pr); s = (s >> 1) | (b << (m - 1)); } if (s) continue; for (unsigned k = 0; k < L; k++) if ((p >> k) & 1) { one[k] += v; po[k] = true; } else zero[k] += v; }
  for (unsigned k = 0; k < L; k++) { if (!po[k]) CHECK(y(k) == 0, "an impossible bit has a zero ratio"); else close(y(k), one[k] / zero[k], 1e-9, "ratio of the path sums"); } REACH("done");
}
// the default prior is one half
// @h h_default mode=real div=assume reach=done
HARNESS h_default() { ccode c(2, 1, 1); c.set_generator(3, 0); c.set_generator(1, 1); auto r = symref<double>("r", 6, 1); double snr = sym<double>("snr"); auto m = mk(r); auto a = c.decode_bcjr(m, snr), b = c.decode_bcjr(m, snr, 0.5); for (unsigned k = 0; k < 3; k++) close(a(k), b(k), 1e-9, "default prior"); REACH("done"); }
// more outputs, memory elements and stages
struct Code { unsigned n, m, L; uint32_t g[8]; };
static void wide(const Code &q, int var) {
  unsigned n = q.n, m = q.m, L = q.L; ccode c(n, 1, m); for (unsigned j = 0; j < n; j++) { uint32_t o = 0, f = 1; for (uint32_t v = q.g[j]; v; v >>= 3, f *= 10) o += (v & 7) * f; c.set_generator(o, j); }
  auto r = symref<double, 128>("r", n * L, 1); double snr = sym<double>("snr"), pr = var ? sym<double>("prior") : 0.5; ASSUME((pr > 0) & (pr < 1)); ASSUME(snr > 0); auto mr = mk(r); auto y = var ? c.decode_bcjr(mr, snr, pr) : c.decode_bcjr(mr, snr); CHECK(y.size() >= L, "one ratio per stage"); if (y.size() < L) return;
  double w[12][256]; bool have[12][256] = {}; double one[12] = {}, zero[12] = {}; bool po[12] = {};
  for (unsigned p = 0; p < 1u << L; p++) { uint32_t s = 0; for (unsigned k = 0; k < L; k++) s = (s >> 1) | (((p >> k) & 1) << (m - 1)); if (s) continue;
    double v = 1; for (unsigned k = 0; k < L; k++) { uint32_t b = (p >> k) & 1, f = s | (b << m), o = 0; for (unsigned j = 0; j < n; j++) { uint32_t t = f & q.g[j]; o |= (par(t & 255) ^ par(t >> 8)) << j; }
      if (!have[k][o]) { double e = 0; for (unsigned j = 0; j < n; j++) e += ((o >> j) & 1 ? 1 : -1) * r.a[n * k + j]; w[k][o] = std::exp(2 * snr * e); have[k][o] = true; } v = v * w[k][o] * (b ? pr : 1 - pr); s = (s >> 1) | (b << (m - 1)); }
    for (unsigned k = 0; k < L; k++) if ((p >> k) & 1) { one[k] += v; po[k] = true; } else zero[k] += v; }
  for (unsigned k = 0; k < L; k++) { if (!po[k]) CHECK(y(k) == 0, "an impossible bit has a zero ratio"); else close(y(k), one[k] / zero[k], 1e-9, "ratio of the path sums"); } REACH("done");
}
// @h h_wide mode=real div=assume reach=done shards=8 timeout=150
HARNESS h_wide() {
  static const Code Q[] = {{1, 1, 5, {3}}, {1, 2, 6, {5}}, {3, 1, 4, {3, 1, 2}}, {3, 2, 5, {7, 5, 3}}, {4, 2, 5, {7, 5, 3, 6}}, {5, 1, 4, {3, 1, 2, 3, 1}}, {5, 2, 5, {7, 1, 5, 2, 6}}, {8, 1, 3, {3, 1, 2, 3, 1, 2, 1, 3}}, {2, 3, 6, {013, 017}}, {2, 4, 7, {023, 035}}, {2, 5, 8, {053, 075}}, {2, 6, 9, {0133, 0171}}, {2, 1, 9, {3, 1}}, {2, 2, 8, {5, 7}}, {2, 3, 7, {015, 017}}, {3, 4, 7, {025, 033, 037}}
#ifdef THOROUGH
    , {2, 2, 10, {5, 7}}, {2, 3, 10, {015, 017}}, {3, 2, 9, {7, 5, 3}}, {2, 7, 10, {0225, 0331}}, {6, 3, 7, {015, 017, 013, 011, 016, 012}}
#endif
  };
  const Code &q = Q[CHOICE("code", 0, (int)(sizeof(Q) / sizeof(Q[0])) - 1)]; wide(q, (int)CHOICE("prior", 0, 1));
}
