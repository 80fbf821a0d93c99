// @bounds known state: 2..3 taps from 8 impulse responses, BPSK and a 3-symbol alphabet (2 taps), every start/end state, 1..4 (thorough ..5) symbols, every real received vector with |r| <= 1000; every two-tap impulse response up to 2 symbols; received vectors that are an encoding plus one arbitrary error (4 taps BPSK up to 4 symbols; 5 taps BPSK of 8 symbols with a small error; 3 taps with 3 symbols up to 3) or two (2 taps, 5..7 symbols); unknown states, two taps: 3..5 received values, any; noiseless recovery for all symbolic real taps (2 taps up to 4 symbols; 3 taps up to 3), known and unknown states, with non-zero impulse response
#include "sym.h"
#ifdef THOROUGH
#define NL 5
#else
#define NL 4
#endif
using susa::matrix;
// symbols of the state, oldest first
static void memory(unsigned s, unsigned t, unsigned p, const double *pam, double *o) { for (unsigned d = 0; d + 1 < t; d++) { o[t - 2 - d] = pam[s % p]; s /= p; } }
static double dist(const double *h, unsigned t, const double *seq, unsigned n, const double *r) { double e = 0; for (unsigned i = 0; i < n; i++) { double y = 0; for (unsigned k = 0; k < t; k++) y += h[k] * seq[i + t - 1 - k]; e += (y - r[i]) * (y - r[i]); } return e; }
static void ml(const double *h, unsigned t, const double *pam, unsigned p, unsigned s, unsigned l) {
  unsigned n = l + t - 1; matrix<double> mh(1, t), mp(p, 1); for (unsigned i = 0; i < t; i++) mh(i) = h[i]; for (unsigned i = 0; i < p; i++) mp(i) = pam[i]; susa::channel<double> ch(mh, mp);
  auto r = symref<double>("r", n, 1); for (unsigned i = 0; i < n; i++) ASSUME((r.a[i] <= 1000) & (r.a[i] >= -1000)); auto mr = mk(r); if (l < 3) BEFORE(ch.decode_mlse(fixed<double>(n, 1), s); ch.decode_mlse(fixed<double>(n + 1, 1, 1), 0); auto f = fixed<double>(l, 1); ch.encode_isi(f, 0)); auto y = ch.decode_mlse(mr, s); eq(mr, r, "received vector unchanged"); CHECK(y.size() == l, "decoded length"); if (y.size() != l) return;
  double q[16], st[4]; memory(s, t, p, pam, st); for (unsigned i = 0; i + 1 < t; i++) q[i] = q[n + i] = st[i]; for (unsigned i = 0; i < l; i++) { double v = y(i); bool k = false; for (unsigned j = 0; j < p; j++) k = k | (v == pam[j]); CHECK(k, "a symbol of the alphabet"); q[t - 1 + i] = v; } double d = dist(h, t, q, n, r.a);
  unsigned np = 1; for (unsigned i = 0; i < l; i++) np *= p; for (unsigned c = 0; c < np; c++) { unsigned v = c; for (unsigned i = 0; i < l; i++) { q[t - 1 + i] = pam[v % p]; v /= p; } CHECK(d <= dist(h, t, q, n, r.a) + 1e-9, "no other sequence is closer"); } REACH("done");
}
// received: a sequence's encoding plus symbolic errors on two samples
static void mle(const double *h, unsigned t, const double *pam, unsigned p, unsigned s, unsigned l, bool two) {
  unsigned n = l + t - 1; matrix<double> mh(1, t), mp(p, 1); for (unsigned i = 0; i < t; i++) mh(i) = h[i]; for (unsigned i = 0; i < p; i++) mp(i) = pam[i]; susa::channel<double> ch(mh, mp);
  double q[24], st[8]; memory(s, t, p, pam, st); for (unsigned i = 0; i + 1 < t; i++) q[i] = q[n + i] = st[i]; unsigned w = (unsigned)CHOICE("word", 0, two ? 3 : 1) * 0x9e3779b9u; for (unsigned i = 0; i < l; i++) { q[t - 1 + i] = pam[w % p]; w = w / p ^ w << 3; }
  Ref<double> r(n, 1); unsigned k = (unsigned)CHOICE("at", 0, (int)n - 1); double e = sym<double>("e"), f = 0; if (two) f = sym<double>("f");  ASSUME((e <= 9) & (e >= -9) & (f <= 9) & (f >= -9)); for (unsigned i = 0; i < n; i++) { double y = 0; for (unsigned j = 0; j < t; j++) y += h[j] * q[i + t - 1 - j]; r.a[i] = i == k ? y + e : i == (k + 2) % n ? y + f : y; }
  auto y = ch.decode_mlse(mk(r), s); CHECK(y.size() == l, "decoded length"); if (y.size() != l) return; for (unsigned i = 0; i < l; i++) { double v = y(i); bool in = false; for (unsigned j = 0; j < p; j++) in = in | (v == pam[j]); CHECK(in, "a symbol of the alphabet"); q[t - 1 + i] = v; } double d = dist(h, t, q, n, r.a);
  unsigned np = 1; for (unsigned i = 0; i < l; i++) np *= p; bool best = true; for (unsigned c = 0; c < np; c++) { unsigned v = c; for (unsigned i = 0; i < l; i++) { q[t - 1 + i] = pam[v % p]; v /= p; } best = best & (d <= dist(h, t, q, n, r.a) + 1e-9); } CHECK(best, "no other sequence is closer"); REACH("done");
}
static const double H4[][4] = {{1, 0.5, -0.3, 0.2}, {0.2, 1, 0, -0.7}};
static const double H2[][2] = {{1, 0.5}, {0.3, 1}, {1, -1}, {-0.7, 0.2}}, H3[][3] = {{0.5, 1, 0.25}, {1, -0.4, 0.3}, {0, 1, -0.5}, {1, 2, 1}}, BP[] = {-1, 1}, BPR[] = {1, -1}, P3[] = {-2, 0, 1};
// @h h_ml2 mode=real reach=done shards=8
HARNESS h_ml2() { unsigned k = (unsigned)CHOICE("h", 0, 3), s = (unsigned)CHOICE("state", 0, 1), l = (unsigned)CHOICE("l", 1, NL); ml(H2[k], 2, k & 1 ? BPR : BP, 2, s, l); }
// @h h_ml3 mode=real reach=done shards=8
HARNESS h_ml3() { unsigned k = (unsigned)CHOICE("h", 0, 3), s = (unsigned)CHOICE("state", 0, 3), l = (unsigned)CHOICE("l", 1, NL - 1); ml(H3[k], 3, k & 1 ? BPR : BP, 2, s, l); }
// @h h_mlp mode=real reach=done shards=8
HARNESS h_mlp() { unsigned k = (unsigned)CHOICE("h", 0, 1), s = (unsigned)CHOICE("state", 0, 2), l = (unsigned)CHOICE("l", 1, 2); ml(H2[k], 2, P3, 3, s, l); }
// any impulse response of two taps
// @h h_mlsym mode=real reach=done shards=8
HARNESS h_mlsym() { auto h = symref<double>("tap", 1, 2); for (int i = 0; i < 2; i++) ASSUME((h.a[i] <= 10) & (h.a[i] >= -10)); unsigned s = (unsigned)CHOICE("state", 0, 1), l = (unsigned)CHOICE("l", 1, NL - 2); ml(h.a, 2, BP, 2, s, l); }
// noiseless recovery, symbolic impulse response
static void clean(unsigned t, unsigned l, bool known) {
  auto h = symref<double>("tap", 1, t); bool nz = false; for (unsigned i = 0; i < t; i++) { nz = nz | (h.a[i] > 0.0001) | (h.a[i] < -0.0001); ASSUME((h.a[i] <= 10) & (h.a[i] >= -10)); } ASSUME(nz); bool rev = CHOICE("rev", 0, 1); const double *pam = rev ? BPR : BP; matrix<double> mp(2, 1); mp(0) = pam[0]; mp(1) = pam[1]; auto mh = mk(h); susa::channel<double> ch(mh, mp);
  Ref<double> x(l, 1); for (unsigned i = 0; i < l; i++) x.a[i] = pam[CHOICE("bit", 0, 1)]; auto mx = mk(x);
  if (known) { unsigned s = (unsigned)CHOICE("state", 0, 3); ASSUME(s < 1u << (t - 1)); auto y = ch.decode_mlse(ch.encode_isi(mx, s), s); eq(y, x, "a noiseless encoding is recovered (known state)"); }
  else { auto y = ch.decode_mlse(susa::conv(mx, mh)); eq(y, x, "a noiseless encoding is recovered (unknown state)"); } REACH("done");
}
// @h h_clean2 mode=real reach=done shards=8
HARNESS h_clean2() { clean(2, (unsigned)CHOICE("l", 1, NL), true); }
// @h h_clean3 mode=real reach=done shards=8
HARNESS h_clean3() { clean(3, (unsigned)CHOICE("l", 1, NL - 1), true); }
// @h h_unknown2 mode=real reach=done shards=8
HARNESS h_unknown2() { clean(2, (unsigned)CHOICE("l", 2, NL), false); }
// @h h_unknown3 mode=real reach=done shards=8
HARNESS h_unknown3() { clean(3, (unsigned)CHOICE("l", 3, NL), false); }
// longer memories and sequences
// @h h_mle4 mode=real reach=done shards=8
HARNESS h_mle4() { unsigned k = (unsigned)CHOICE("h", 0, 1), s = (unsigned)CHOICE("state", 0, 7), l = (unsigned)CHOICE("l", 2, NL); mle(H4[k], 4, k ? BPR : BP, 2, s, l, false); }
// @h h_mlep mode=real reach=done shards=8
HARNESS h_mlep() { unsigned k = (unsigned)CHOICE("h", 0, 1), s = (unsigned)CHOICE("state", 0, 8), l = (unsigned)CHOICE("l", 2, 3); mle(H3[k], 3, P3, 3, s, l, false); }
// @h h_mlel mode=real reach=done shards=8
HARNESS h_mlel() { unsigned k = (unsigned)CHOICE("h", 0, 3), s = (unsigned)CHOICE("state", 0, 1), l = (unsigned)CHOICE("l", 5, 7); mle(H2[k], 2, k & 1 ? BPR : BP, 2, s, l, true); }
// two taps, unknown states: the ends are weighted like the other samples
// @h h_mlu mode=real reach=done shards=8
HARNESS h_mlu() {
  unsigned k = (unsigned)CHOICE("h", 0, 3), n = (unsigned)CHOICE("n", 3, 5); const double *h = H2[k], *pam = k & 1 ? BPR : BP; matrix<double> mh(1, 2), mp(2, 1); for (unsigned i = 0; i < 2; i++) { mh(i) = h[i]; mp(i) = pam[i]; } susa::channel<double> ch(mh, mp); auto r = symref<double>("r", n, 1); for (unsigned i = 0; i < n; i++) ASSUME((r.a[i] <= 100) & (r.a[i] >= -100)); auto y = ch.decode_mlse(mk(r)); CHECK(y.size() == n - 1, "decoded length"); if (y.size() != n - 1) return;
  double q[8]; auto d = [&]() { double e = 0; for (unsigned i = 0; i < n; i++) { double v = 0; if (i < n - 1) v += h[0] * q[i]; if (i) v += h[1] * q[i - 1]; e += (v - r.a[i]) * (v - r.a[i]); } return e; }; for (unsigned i = 0; i + 1 < n; i++) { double v = y(i); CHECK((v == -1) | (v == 1), "a symbol of the alphabet"); q[i] = v; } double b = d();
  for (unsigned c = 0; c < 1u << (n - 1); c++) { for (unsigned i = 0; i + 1 < n; i++) q[i] = pam[(c >> i) & 1]; CHECK(b <= d() + 1e-9, "no other sequence is closer (unknown states)"); } REACH("done");
}
// sixteen states, noise below the decision distance
// @h h_five mode=real reach=done shards=8 timeout=150
HARNESS h_five() {
  static const double H[] = {1, 0.5, 0.3, 0.2, 0.1}; matrix<double> mh(1, 5), mp(2, 1); for (int i = 0; i < 5; i++) mh(i) = H[i]; mp(0) = -1; mp(1) = 1; susa::channel<double> ch(mh, mp); static const unsigned W[] = {0x1b, 0x2e, 0x74, 0xff, 0x8f, 0xd2, 0xed, 0x07}; unsigned w = W[CHOICE("word", 0, 7)], s = (unsigned)CHOICE("state", 0, 3) * 5, at = (unsigned)CHOICE("at", 0, 2) * 5;
  Ref<double> x(8, 1); for (int i = 0; i < 8; i++) x.a[i] = w >> i & 1 ? 1 : -1; auto mx = mk(x); auto y = ch.encode_isi(mx, s); CHECK(y.size() == 12, "length of the encoding"); if (y.size() != 12) return; double e = sym<double>("e"); ASSUME((e < 0.125) & (e > -0.125)); y(at) = y(at) + e; eq(ch.decode_mlse(y, s), x, "a slightly disturbed encoding is recovered"); REACH("done");
}
