// @bounds every state of the generator after one regeneration (624 unconstrained state words); draws of length 1..4 (thorough 6) and up to 700 (uniform, masked, Bernoulli), 67 (Gaussian, one rejected pair anywhere of three places); six fixed probability vectors of 4..12 entries; every mask, maximum and probability; probability vectors of 1..3 entries (thorough 4); up to 2 (thorough 4) rejected pairs before the first Gaussian pair; pairs within 1e-9 of the unit circle excluded; arithmetic on the draws over exact reals
// @assumes the raw draws a routine consumes are those of a copy of the generator read with the full mask (C31, C32)
#include "sym.h"
#ifdef THOROUGH
#define NV 6
#define NP 4
#define NR 4
#else
#define NV 4
#define NP 3
#define NR 2
#endif
static const double TOL = 1e-9;
template <class G> struct Twin { G g; G t; Twin() : g(sym<uint32_t>("seed")), t(g) { __sym_generalize("seeded", &g, sizeof(G)); g.rand_mask(0); __sym_generalize("state", &g, sizeof(G)); t = g; } uint32_t raw() { return t.rand_mask(0xffffffffu); } };
static double r1(uint32_t x) { return (double)x / 4294967295.0; }
static double q1(uint32_t x, const susa::mt &) { return (double)x * (1.0 / 4294967295.0); } // the two differ by rounding only
static double q1(uint32_t x, const susa::rng &) { return r1(x); }
static double r3(uint32_t x) { return ((double)x + 0.5) / 4294967296.0; }
// @h mt_uniform mode=real reach=done
HARNESS mt_uniform() { Twin<susa::mt> w; int n = CHOICE("n", 1, NV); susa::matrix<double> v = w.g.rand((unsigned)n); CHECK(v.no_rows() == (size_t)n && v.no_cols() == 1, "shape of the uniform draws"); for (int i = 0; i < n; i++) { double x = v((unsigned)i); CHECK((x >= -1e-15) & (x <= 1 + 1e-15), "uniform draws lie in [0,1]"); close(x, r1(w.raw()), TOL, "a uniform draw is its raw draw over 2^32-1"); } CHECK(w.g.rand_mask(~0u) == w.raw(), "one raw draw is consumed per uniform"); REACH("done"); }
// @h rng_uniform mode=real merge=1 reach=done
HARNESS rng_uniform() {
  Twin<susa::rng> w; int k = CHOICE("kind", 0, 2);
  if (k == 0) { double x = w.g.rand(); CHECK((x >= 0) & (x <= 1), "a uniform draw lies in [0,1]"); close(x, r1(w.raw()), TOL, "a uniform draw is its raw draw over 2^32-1"); }
  else if (k == 1) { int n = CHOICE("n", 1, NV); susa::matrix<double> v = w.g.rand((unsigned)n); CHECK(v.no_rows() == (size_t)n && v.no_cols() == 1, "shape of the uniform draws"); for (int i = 0; i < n; i++) { double x = v((unsigned)i); CHECK((x >= 0) & (x <= 1), "uniform draws lie in [0,1]"); close(x, r1(w.raw()), TOL, "uniform draws over 2^32-1"); } }
  else { size_t r, c; shape("r", "c", r, c, 1, 3); susa::matrix<double> v = w.g.rand((unsigned)r, (unsigned)c); CHECK(v.no_rows() == r && v.no_cols() == c, "shape of the uniform matrix"); for (size_t i = 0; i < r * c; i++) { double x = v((unsigned)i); CHECK((x >= 0) & (x <= 1), "uniform draws lie in [0,1]"); close(x, r1(w.raw()), TOL, "uniform matrix in storage order"); } }
  CHECK(w.g.rand_mask(~0u) == w.raw(), "one raw draw is consumed per uniform"); REACH("done");
}
// integers, masks, Bernoulli
// @h ints merge=1 reach=done
HARNESS ints() {
  int k = CHOICE("kind", 0, 4);
  if (k == 0) { Twin<susa::mt> w; uint32_t mx = sym<uint32_t>("max"); ASSUME(mx >= 1); uint32_t x = w.g.randint(mx); CHECK((x >= 1) & (x <= mx), "integer draws lie in 1..max"); CHECK(w.g.rand_mask(~0u) == (w.raw(), w.raw()), "one raw draw is consumed"); }
  else if (k == 1) { Twin<susa::mt> w; uint32_t m = sym<uint32_t>("mask"); uint32_t x = w.g.rand_mask(m); CHECK((x & ~m) == 0, "masked draws stay within the mask"); CHECK(x == (w.raw() & m), "masked draw"); }
  else if (k == 2) { Twin<susa::rng> w; uint32_t m = sym<uint32_t>("mask"); uint32_t x = w.g.rand_mask(m); CHECK((x & ~m) == 0, "masked draws stay within the mask"); CHECK(x == (w.raw() & m), "masked draw"); }
  else if (k == 3) { Twin<susa::rng> w; int n = CHOICE("n", 1, NV); susa::matrix<int8_t> v = w.g.bernoulli((size_t)n); CHECK(v.no_rows() == (size_t)n && v.no_cols() == 1, "shape of the Bernoulli draws"); for (int i = 0; i < n; i++) { int8_t x = v((unsigned)i); CHECK((x == 0) | (x == 1), "Bernoulli draws are 0 or 1"); CHECK(x == (int8_t)(w.raw() & 1u), "fair coin from the raw draw"); } CHECK(w.g.rand_mask(~0u) == w.raw(), "one raw draw per coin"); }
  else { Twin<susa::rng> w; uint32_t m = sym<uint32_t>("mask"); int n = CHOICE("n", 1, NV); susa::matrix<unsigned> v = w.g.rand_mask(m, (unsigned)n); CHECK(v.no_rows() == (size_t)n && v.no_cols() == 1, "shape of the masked draws"); for (int i = 0; i < n; i++) CHECK(v((unsigned)i) == (w.raw() & m), "masked draws"); }
  REACH("done");
}
// the integer draw is the remainder rule for every small maximum (spread over 1..max)
// @h randint_rule reach=done
HARNESS randint_rule() { Twin<susa::mt> w; uint32_t mx = (uint32_t)CHOICE("max", 1, 16); uint32_t x = w.g.randint(mx); CHECK(x == w.raw() % mx + 1, "integer draws are the raw draw modulo the maximum, plus one"); REACH("done"); }
// @h mt_bernoulli mode=real reach=one,zero
HARNESS mt_bernoulli() { Twin<susa::mt> w; double p = sym<double>("p"); unsigned x = w.g.bernoulli(p); double u = r3(w.raw()); CHECK((x == 0) | (x == 1), "Bernoulli draws are 0 or 1"); if (x == 1) { CHECK(u <= p, "1 only if the uniform is at most p"); REACH("one"); } else { CHECK(u > p, "0 only if the uniform exceeds p"); REACH("zero"); } CHECK(w.g.rand_mask(~0u) == w.raw(), "one raw draw per coin"); }
// discrete draws
static void probs(susa::matrix<double> &p, double *a, int n) { bool row = CHOICE("row", 0, 1) == 1; double s = 0; for (int i = 0; i < n; i++) { a[i] = sym<double>("p"); ASSUME(a[i] >= 0); s = s + a[i]; } ASSUME(s >= 1); p = row ? susa::matrix<double>(1, (size_t)n) : susa::matrix<double>((size_t)n, 1); for (int i = 0; i < n; i++) p((unsigned)i) = a[i]; }
// x must be an index k with  sum of the entries before k <= u < that sum + p[k], entries taken in the given order
static void inInterval(unsigned x, const double *a, const int *ord, int n, double u, const char *m) { bool ok = false; double s = 0; for (int i = 0; i < n; i++) { double t = s + a[ord[i]]; ok = ok | ((x == (unsigned)ord[i]) & (s <= u) & (u < t)); s = t; } CHECK(ok, m); }
static void order(const double *a, int *ord, int n) { for (int i = 0; i < n; i++) ord[i] = i; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (a[ord[j]] < a[ord[i]]) { int t = ord[i]; ord[i] = ord[j]; ord[j] = t; } }
// @h nonuniform mode=real shards=4 reach=done qtimeout=8000
HARNESS nonuniform() {
  Twin<susa::mt> w; int n = CHOICE("n", 2, NP); int kind = CHOICE("kind", 0, 1); // a single probability is not a vector to the sorting routine
  susa::matrix<double> p; double a[NP]; int ord[NP]; probs(p, a, n);
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) ASSUME((a[i] < a[j]) | (a[j] < a[i])); // the order of ties is not documented
  unsigned x; if (kind == 0) x = w.g.nonuniform(p); else { w.g.set_probabilities(p); x = w.g.nonuniform(); }
  double u = r3(w.raw()); CHECK(x < (unsigned)n, "the draw is an index of the probability vector"); order(a, ord, n); inInterval(x, a, ord, n, u, "the draw is the index whose cumulative interval (ascending order of probability) contains the uniform");
  CHECK(w.g.rand_mask(~0u) == w.raw(), "one raw draw per discrete draw"); REACH("done");
}
// @h nonuniform_vec mode=real shards=4 reach=done qtimeout=8000
HARNESS nonuniform_vec() {
  Twin<susa::mt> w; int n = CHOICE("n", 1, NP), len = CHOICE("len", 1, 2); susa::matrix<double> p; double a[NP]; int ord[NP]; probs(p, a, n); for (int i = 0; i < n; i++) ord[i] = i;
  susa::matrix<unsigned> v = w.g.nonuniform(p, (unsigned)len); CHECK(v.no_rows() == (size_t)len && v.no_cols() == 1, "shape of the discrete draws");
  for (int k = 0; k < len; k++) { double u = r3(w.raw()); unsigned x = v((unsigned)k); CHECK(x < (unsigned)n, "the draw is an index of the probability vector"); inInterval(x, a, ord, n, u, "the draw is the index whose cumulative interval contains the uniform"); }
  REACH("done");
}
// Gaussian draws: polar Box-Muller with rejection
struct Pair { double y1, y2; };
template <class W> static Pair polar(W &w, int rej) {
  for (int k = 0; k < rej; k++) { double a = 2 * q1(w.raw(), w.t) - 1, b = 2 * q1(w.raw(), w.t) - 1; ASSUME(a * a + b * b >= 1 + 1e-9); }
  uint32_t u1 = w.raw(), u2 = w.raw(); double a = 2 * q1(u1, w.t) - 1, b = 2 * q1(u2, w.t) - 1, s = a * a + b * b; ASSUME(s < 1 - 1e-9);
  CHECK(2 * (uint64_t)u1 != 4294967295ull, "the radius is never zero");
  ASSUME(s > 0); double f = std::sqrt(-2.0 * std::log(s) / s); Pair p = {a * f, b * f}; return p;
}
template <class G> static void gauss(bool scalar) {
  Twin<G> w, q; (void)q; int n = scalar ? 1 : CHOICE("n", 1, NV); int rej = CHOICE("rejected", 0, NR), rej2 = n > 2 ? CHOICE("rejected2", 0, 1) : 0; Pair p[(NV + 1) / 2];
  for (int i = 0; i < (n + 1) / 2; i++) p[i] = polar(w, i == 0 ? rej : i == 1 ? rej2 : 0);
  double y[NV]; if constexpr (std::is_same<G, susa::rng>::value) if (scalar) y[0] = w.g.randn();
  if (!scalar) { susa::matrix<double> v = w.g.randn((unsigned)n); CHECK(v.no_rows() == (size_t)n && v.no_cols() == 1, "shape of the Gaussian draws"); for (int i = 0; i < n; i++) y[i] = v((unsigned)i); }
  for (int i = 0; i < n; i++) close(y[i], i % 2 ? p[i / 2].y2 : p[i / 2].y1, TOL, "Gaussian draws follow the polar rule");
  CHECK(w.g.rand_mask(~0u) == w.raw(), "the rejected and accepted pairs are the raw draws consumed"); REACH("done");
}
// @h mt_gauss mode=real shards=4 reach=done
HARNESS mt_gauss() { gauss<susa::mt>(false); }
// @h rng_gauss mode=real merge=1 shards=4 reach=done
HARNESS rng_gauss() { gauss<susa::rng>(false); }
// @h rng_gauss1 mode=real merge=1 reach=done
HARNESS rng_gauss1() { gauss<susa::rng>(true); }
// longer vectors of draws
template <class G> static void gauss_long() {
  static const int L[] = {5, 6, 7, 8, 9, 10, 11, 16, 17, 33, 66, 67}; int n = L[CHOICE("n", 0, 11)], at = (int)CHOICE("at", 0, 2); at = at == 0 ? -1 : at == 1 ? (n + 1) / 2 - 1 : (n + 1) / 4; Twin<G> w; Pair p[34];
  for (int i = 0; i < (n + 1) / 2; i++) p[i] = polar(w, i == at);
  susa::matrix<double> v = w.g.randn((unsigned)n); CHECK(v.no_rows() == (size_t)n && v.no_cols() == 1, "shape of the Gaussian draws"); for (int i = 0; i < n; i++) close(v((unsigned)i), i % 2 ? p[i / 2].y2 : p[i / 2].y1, TOL, "Gaussian draws follow the polar rule");
  CHECK(w.g.rand_mask(~0u) == w.raw(), "the rejected and accepted pairs are the raw draws consumed"); REACH("done");
}
// @h mt_gauss_l mode=real shards=4 reach=done
HARNESS mt_gauss_l() { gauss_long<susa::mt>(); }
// @h rng_gauss_l mode=real merge=1 shards=4 reach=done
HARNESS rng_gauss_l() { gauss_long<susa::rng>(); }
// @h mt_long mode=real reach=done
HARNESS mt_long() { static const int L[] = {7, 16, 33, 66, 130, 260, 700}; Twin<susa::mt> w; int n = L[CHOICE("n", 0, 6)]; susa::matrix<double> v = w.g.rand((unsigned)n); CHECK(v.no_rows() == (size_t)n && v.no_cols() == 1, "shape of the uniform draws"); for (int i = 0; i < n; i++) close(v((unsigned)i), r1(w.raw()), TOL, "a uniform draw is its raw draw over 2^32-1"); CHECK(w.g.rand_mask(~0u) == w.raw(), "one raw draw is consumed per uniform"); REACH("done"); }
// @h rng_long mode=real merge=1 reach=done shards=4
HARNESS rng_long() {
  static const int L[] = {7, 16, 33, 66, 130, 260, 700}, S[][2] = {{2, 40}, {40, 2}, {17, 9}, {1, 130}, {130, 1}, {16, 16}}; Twin<susa::rng> w; int k = CHOICE("kind", 0, 3), n = k == 1 ? 0 : L[CHOICE("n", 0, 6)];
  if (k == 0) { susa::matrix<double> v = w.g.rand((unsigned)n); CHECK(v.no_rows() == (size_t)n && v.no_cols() == 1, "shape of the uniform draws"); for (int i = 0; i < n; i++) close(v((unsigned)i), r1(w.raw()), TOL, "uniform draws over 2^32-1"); }
  else if (k == 1) { const int *q = S[CHOICE("S", 0, 5)]; susa::matrix<double> v = w.g.rand((unsigned)q[0], (unsigned)q[1]); CHECK(v.no_rows() == (size_t)q[0] && v.no_cols() == (size_t)q[1], "shape of the uniform matrix"); for (int i = 0; i < q[0] * q[1]; i++) close(v((unsigned)i), r1(w.raw()), TOL, "uniform matrix in storage order"); }
  else if (k == 2) { susa::matrix<int8_t> v = w.g.bernoulli((size_t)n); CHECK(v.no_rows() == (size_t)n && v.no_cols() == 1, "shape of the Bernoulli draws"); for (int i = 0; i < n; i++) CHECK(v((unsigned)i) == (int8_t)(w.raw() & 1u), "fair coin from the raw draw"); }
  else { uint32_t m = sym<uint32_t>("mask"); susa::matrix<unsigned> v = w.g.rand_mask(m, (unsigned)n); CHECK(v.no_rows() == (size_t)n && v.no_cols() == 1, "shape of the masked draws"); for (int i = 0; i < n; i++) CHECK(v((unsigned)i) == (w.raw() & m), "masked draws"); }
  CHECK(w.g.rand_mask(~0u) == w.raw(), "one raw draw each"); REACH("done");
}
// discrete draws from longer probability vectors
// @h nonuniform_l mode=real shards=4 reach=done qtimeout=8000 timeout=120
HARNESS nonuniform_l() {
  static const double P[][12] = {{0.4, 0.1, 0.3, 0.2}, {0.05, 0.3, 0.1, 0.35, 0.2}, {0.3, 0.25, 0.2, 0.15, 0.09, 0.01}, {0.02, 0.2, 0.01, 0.3, 0.04, 0.03, 0.1, 0.25, 0.05}, {0.11, 0.09, 0.1, 0.12, 0.08, 0.13, 0.07, 0.14, 0.06, 0.05, 0.045, 0.005}, {0, 0.5, 0.3, 0.2}}; static const int N[] = {4, 5, 6, 9, 12, 4};
  int q = CHOICE("P", 0, 5), n = N[q], kind = CHOICE("kind", 0, 4); Twin<susa::mt> w; susa::matrix<double> p((size_t)n, 1); for (int i = 0; i < n; i++) p((unsigned)i) = P[q][i]; int ord[12]; for (int i = 0; i < n; i++) ord[i] = i;
  if (kind < 2) { order(P[q], ord, n); if (kind) w.g.set_probabilities(p); unsigned x = kind ? w.g.nonuniform() : w.g.nonuniform(p); double u = r3(w.raw()), s = 0; ASSUME(u < 1 - 1e-9); for (int i = 0; i < n; i++) { s += P[q][ord[i]]; ASSUME((u < s - 1e-9) | (u > s + 1e-9)); } CHECK(x < (unsigned)n, "the draw is an index of the probability vector"); inInterval(x, P[q], ord, n, u, "the draw is the index whose cumulative interval (ascending order of probability) contains the uniform"); }
  else { static const int L[] = {3, 4, 7}; int len = kind == 2 ? 1 : kind == 3 ? 2 : 3; (void)L; susa::matrix<unsigned> v = w.g.nonuniform(p, (unsigned)len); CHECK(v.no_rows() == (size_t)len && v.no_cols() == 1, "shape of the discrete draws"); if (len == 3 && n > 4) ASSUME(false);
    for (int k = 0; k < len; k++) { double u = r3(w.raw()), s = 0; ASSUME(u < 1 - 1e-9); for (int i = 0; i < n; i++) { s += P[q][i]; ASSUME((u < s - 1e-9) | (u > s + 1e-9)); } unsigned x = v((unsigned)k); CHECK(x < (unsigned)n, "the draw is an index of the probability vector"); inInterval(x, P[q], ord, n, u, "the draw is the index whose cumulative interval contains the uniform"); } }
  REACH("done");
}
