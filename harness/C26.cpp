// @bounds 5..6 taps with up to 3 symbols, eight of the initial states and sequences of 1..2 (thorough 4) symbols; 2..4 taps (thorough 5), alphabets of 1..3 symbols (thorough 4), every initial state, sequences of 1..4 (thorough 6) symbols; ten longer cases (up to 17 taps, 20 symbols, sequences of 260) from four initial states each: symbolic taps, alphabet and samples, over 32-bit rings and exact reals
#include "sym.h"
#ifdef THOROUGH
#define NT 5
#define NP 4
#define NL 6
#define SC 256
#else
#define NT 4
#define NP 3
#define NL 4
#define SC 27
#endif
using susa::matrix;
template <class T> static void enc(int nt, int np, int nl, int t0 = 2) {
  size_t t = (size_t)CHOICE("taps", t0, nt), p = (size_t)CHOICE("symbols", 1, np), l = (size_t)CHOICE("length", 1, nl), ns = 1; for (size_t i = 1; i < t; i++) ns *= p; unsigned s; if (t0 > 4) { static const size_t P[] = {0, 1, 5, 2, 3}; int k = (int)CHOICE("state", 0, 7); s = (unsigned)(k < 3 ? P[k] : k == 3 ? ns - 1 : k == 4 ? ns / 2 : k == 5 ? ns / 3 : k == 6 ? ns - 2 : ns / 4 * 3); } else { s = (unsigned)CHOICE("state", 0, SC); ASSUME(s < ns); } bool col = CHOICE("colpam", 0, 1);
  auto h = symref<T>("tap", 1, t); auto a = col ? symref<T>("pam", p, 1) : symref<T>("pam", 1, p); auto x = symref<T>("x", l, 1); auto mh = mk(h); auto ma = mk(a); auto mx = mk(x); susa::channel<T> ch(mh, ma); BEFORE(auto f = fixed<T>(l + 1, 1); ch.encode_isi(f, (unsigned)(ns - 1 - s)); susa::channel<T> other(mh, ma); other.encode_isi(f, s)); auto y = ch.encode_isi(mx, s);
  // digit d of the state is the symbol d+1 steps back; the same symbols terminate the sequence
  T st[8]; unsigned v = s; for (size_t d = 0; d + 1 < t; d++) { st[d] = a.a[v % p]; v /= (unsigned)p; }
  CHECK(y.size() == l + t - 1, "input length plus channel memory"); if (y.size() != l + t - 1) return;
  auto at = [&](long i) -> T { return i < 0 ? st[-1 - i] : i < (long)l ? x.a[i] : st[(long)(l + t - 2) - i]; };
  for (size_t i = 0; i < l + t - 1; i++) { T e = T(0); for (size_t k = 0; k < t; k++) e += h.a[k] * at((long)i - (long)k); CHECK(same(y(i), e), "inner product of the taps with the current and preceding symbols"); } eq(mx, x, "input unchanged"); REACH("done");
}
// @h h_enc reach=done shards=8
HARNESS h_enc() { enc<int>(NT, NP, NL); }
// @h h_enc_d mode=real reach=done shards=8
HARNESS h_enc_d() { enc<double>(3, 2, 3); }
// @h h_enc_t reach=done shards=8
HARNESS h_enc_t() { enc<int>(6, 3, NL - 2, 5); }
// long sequences, many taps, larger alphabets
// @h h_enc_long reach=done shards=4
HARNESS h_enc_long() {
  static const unsigned Q[][3] = {{2, 2, 70}, {3, 4, 40}, {2, 16, 33}, {9, 2, 12}, {13, 2, 5}, {4, 3, 133}, {3, 2, 260}, {7, 3, 1}, {17, 2, 3}, {3, 20, 9}}; const unsigned *q = Q[CHOICE("case", 0, 9)]; size_t t = q[0], p = q[1], l = q[2]; unsigned ns = 1; for (size_t i = 1; i < t; i++) ns *= (unsigned)p;
  static const unsigned N[] = {0, 1, 2, 3, 5, 7}; int k = (int)CHOICE("state", 0, 3); unsigned s = k == 0 ? 0 : k == 1 ? ns - 1 : k == 2 ? (ns - 1) / (unsigned)p : ns * 2 / 3; (void)N;
  auto h = symref<int, 20>("tap", 1, t); auto a = symref<int, 20>("pam", p, 1); auto x = symref<int, 260>("x", l, 1); auto mh = mk(h); auto ma = mk(a); auto mx = mk(x); susa::channel<int> ch(mh, ma); auto y = ch.encode_isi(mx, s);
  int st[20]; unsigned v = s; for (size_t d = 0; d + 1 < t; d++) { st[d] = a.a[v % p]; v /= (unsigned)p; } CHECK(y.size() == l + t - 1, "input length plus channel memory"); if (y.size() != l + t - 1) return; bool ok = true;
  auto at = [&](long i) -> int { return i < 0 ? st[-1 - i] : i < (long)l ? x.a[i] : st[(long)(l + t - 2) - i]; };
  for (size_t i = 0; i < l + t - 1; i++) { int e = 0; for (size_t d = 0; d < t; d++) e += h.a[d] * at((long)i - (long)d); ok = ok & (y(i) == e); } CHECK(ok, "inner product of the taps with the current and preceding symbols"); eq(mx, x, "input unchanged"); REACH("done");
}
