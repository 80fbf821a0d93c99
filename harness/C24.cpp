// @bounds encoding: 1..3 outputs, 1..4 memories (thorough 5), every generator of up to memory+1 taps written in octal, every input of up to 5 (thorough 7) bytes; seven codes of 1..20 memories and 1..8 outputs with inputs of 9, 17, 33, 70 bytes, five of them anything; state and output functions: every state of 1..29 memories, outputs up to 8, generators of up to 5 octal digits symbolically (thorough 6) and fixed wide ones
#define SYM_CAP 80
#include "sym.h"
#ifdef THOROUGH
#define NM 5
#define NL 7
#define ND 6
#else
#define NM 4
#define NL 5
#define ND 5
#endif
using susa::matrix; using susa::ccode;
// the decimal number whose digits are the octal digits of g
static uint32_t oct(uint32_t g) { uint32_t r = 0, p = 1; for (int i = 0; i < 10; i++, p *= 10) r += ((g >> (3 * i)) & 7) * p; return r; }
static unsigned par(uint32_t v, int n) { unsigned r = 0; for (int i = 0; i < n; i++) r ^= (v >> i) & 1; return r; }
// outputs of a message: taps bit m is the current input, bit m-k the input k steps earlier
static void message(ccode &c, const uint32_t *g, unsigned n, unsigned m, const char *nl, int lo, int hi, const char *msg) {
  size_t len = (size_t)CHOICE(nl, lo, hi); bool row = CHOICE("row", 0, 1); auto x = row ? symref<uint8_t>("x", 1, len) : symref<uint8_t>("x", len, 1); auto mx = mk(x); auto y = c.encode(mx); CHECK(y.size() == len * n && y.no_cols() == 1, "encoded length"); if (y.size() != len * n) return;
  for (size_t i = 0; i < len; i++) { uint32_t w = 0; for (unsigned k = 0; k <= m && k <= i; k++) w |= (uint32_t)(x.a[i - k] != 0) << (m - k); for (unsigned j = 0; j < n; j++) CHECK(y(i * n + j) == par(w & g[j], (int)m + 1), msg); } eq(mx, x, "input unchanged");
}
// @h h_encode reach=done shards=8 timeout=100
HARNESS h_encode() { unsigned n = (unsigned)CHOICE("n", 1, 3), m = (unsigned)CHOICE("m", 1, NM); uint32_t g[3]; ccode c(n, 1, m); for (unsigned j = 0; j < n; j++) { g[j] = sym<uint32_t>("g"); ASSUME(g[j] < 2u << m); c.set_generator(oct(g[j]), j); } message(c, g, n, m, "len", 1, NL, "parity of the taps applied to the current and preceding bits"); CHECK(c.rate() * (float)n == 1.0f || n == 3, "rate"); REACH("done"); }
// consecutive messages are encoded independently, also after the internal state was set
// @h h_twice reach=done shards=4
HARNESS h_twice() { unsigned n = 2, m = (unsigned)CHOICE("m", 1, NM); uint32_t g[2]; ccode c(n, 1, m); for (unsigned j = 0; j < n; j++) { g[j] = (uint32_t)CHOICE("g", 1, 3) + (1u << m) * j; ASSUME(g[j] < 2u << m); c.set_generator(oct(g[j]), j); } if (CHOICE("set", 0, 1)) { uint32_t s = sym<uint32_t>("state"); ASSUME(s < 1u << m); c.set_internal_state(s); } message(c, g, n, m, "len1", 1, 2, "first message"); message(c, g, n, m, "len2", 1, 3, "second message starts from the zero state"); REACH("done"); }
static void machine(ccode &c, const uint32_t *g, unsigned n, unsigned m) {
  uint32_t s = sym<uint32_t>("state"); ASSUME(s < 1u << m); for (int b = 0; b < 2; b++) { CHECK(c.next_state(s, b != 0) == ((s >> 1) | ((uint32_t)b << (m - 1))), "next state shifts the input in"); unsigned e = 0; for (unsigned j = 0; j < n; j++) e |= par((s | ((uint32_t)b << m)) & g[j], (int)m + 1) << j; CHECK(c.next_output(s, b != 0) == e, "next output: parity of the taps"); }
}
// @h h_machine reach=done shards=4 timeout=100
HARNESS h_machine() { unsigned n = (unsigned)CHOICE("n", 1, 8), m = (unsigned)CHOICE("m", 1, 3 * ND - 1); ASSUME(n == 1 || m <= 3); uint32_t g[8]; ccode c(n, 1, m); for (unsigned j = 0; j < n; j++) { if (j) g[j] = g[j - 1] ^ (j * 5 + 3); else g[j] = sym<uint32_t>("g"); g[j] &= (2u << m) - 1; if (j) g[j] = (j * 5 + 3) & ((2u << m) - 1); c.set_generator(oct(g[j]), j); } machine(c, g, n, m); REACH("done"); }
// @h h_wide reach=done shards=4
HARNESS h_wide() { static const uint32_t G[] = {01, 0171, 0133, 0557, 02565, 017777, 04335721, 03777777777, 02525252525, 01234567012}; uint32_t g = G[CHOICE("g", 0, 9)]; unsigned m = (unsigned)CHOICE("m", 1, 29); ASSUME(g < 2u << m); ccode c(1, 1, m); c.set_generator(oct(g), 0); machine(c, &g, 1, m); REACH("done"); }
// @h h_rate
HARNESS h_rate() { unsigned n = (unsigned)CHOICE("n", 1, 8); ccode c(n, 1, (unsigned)CHOICE("m", 1, 4)); close(c.rate(), 1.0 / n, 1e-6, "rate: inputs divided by outputs"); unsigned i = sym<unsigned>("i"); MUST_ABORT_IF(i >= n, c.set_generator(1, i), "a generator index beyond the outputs must be refused"); }
// long messages: a fixed scrambled pattern with five arbitrary bytes anywhere
// @h h_enc_l reach=done shards=8
HARNESS h_enc_l() {
  static const struct { unsigned m, n; uint32_t g[4]; } K[] = {{3, 2, {017, 013}}, {6, 2, {0171, 0133}}, {8, 3, {0557, 0663, 0711}}, {14, 4, {046321, 051271, 063667, 070535}}, {7, 4, {0235, 0275, 0313, 0357}}, {20, 1, {04335721}}, {1, 8, {1, 2, 3, 2}}}; auto &k = K[CHOICE("code", 0, 6)]; static const int L[] = {9, 17, 33, 70}; size_t len = (size_t)L[CHOICE("len", 0, 3)], at = (size_t)CHOICE("at", 0, 3); at = at == 0 ? 0 : at == 1 ? len / 2 - 3 : at == 2 ? len - 5 : 3;
  ccode c(k.n, 1, k.m); uint32_t g[8]; for (unsigned j = 0; j < k.n; j++) { g[j] = k.g[j % 4] ^ (j > 3); c.set_generator(oct(g[j]), j); } Ref<uint8_t> x(len, 1); for (size_t i = 0; i < len; i++) x.a[i] = (uint8_t)((i * i * 7 + i / 3) % 5 % 2 * (i % 3 + 1)); for (size_t i = at; i < at + 5; i++) x.a[i] = sym<uint8_t>("x");
  auto mx = mk(x); auto y = c.encode(mx); CHECK(y.size() == len * k.n && y.no_cols() == 1, "encoded length"); if (y.size() != len * k.n) return; bool ok = true;
  for (size_t i = 0; i < len; i++) for (unsigned j = 0; j < k.n; j++) { unsigned e = 0; for (unsigned q = 0; q <= k.m && q <= i; q++) if ((g[j] >> (k.m - q)) & 1) e ^= (unsigned)(x.a[i - q] != 0); ok = ok & (y(i * k.n + j) == e); } CHECK(ok, "parity of the taps applied to the current and preceding bits"); eq(mx, x, "input unchanged"); REACH("done");
}
