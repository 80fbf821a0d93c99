// @bounds matrices of int8, uint8, char (every value, shapes up to 2x2 and row/column vectors of 3; thorough 2x3, 3x2), int16, int and unsigned (every value for 1x1, values up to four digits for shapes up to 2x2), complex<int8>, the empty matrix; fourteen larger shapes of up to 64 elements with one symbolic element; tables of double, float, 64-bit integer and complex values in six shapes; pairs, tuples of one to six integers, nested pairs
#include "sym.h"
#include <sstream>
static void num(std::string &s, long long v) { std::ostringstream o; o << v; s += o.str(); }
static void same_text(const std::string &a, const std::string &b, const char *m) { CHECK(a.size() == b.size(), m); if (a.size() != b.size()) return; bool ok = true; for (size_t i = 0; i < a.size(); i++) ok = ok & (a[i] == b[i]); CHECK(ok, m); }
template <class T> static void put(std::string &s, const T &v) { num(s, (long long)v); }
template <class U> static void put(std::string &s, const std::complex<U> &v) { s.push_back('('); num(s, (long long)v.real()); s.push_back(','); num(s, (long long)v.imag()); s.push_back(')'); }
template <class T> static void show(const Ref<T> &a, bool back) {
  susa::matrix<T> m = mk(a); if (a.n() == 1) BEFORE(std::stringstream u; u << fixed<T>(2, 3)); std::stringstream o; o << m; std::string t = o.str(), w("[");
  for (size_t i = 0; i < a.r; i++) { for (size_t j = 0; j < a.c; j++) { put(w, a.at(i, j)); if (j + 1 < a.c) w.push_back(' '); } if (i + 1 < a.r) { w.push_back('\n'); w.push_back(' '); } }
  w.push_back(']'); same_text(t, w, "printed text of the matrix"); eq(m, a, "printing leaves the matrix unchanged");
  if constexpr (std::is_integral<T>::value) { if (back) { susa::matrix<T> n(t); eq(n, a, "parsing the printed text gives back the matrix"); } }
  REACH("done");
}
#ifdef THOROUGH
static const int NS = 8;
#else
static const int NS = 6;
#endif
static const int SH[8][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}};
template <class T> static Ref<T> any(int ns, long long lo = 0, long long hi = -1) { int k = (int)CHOICE("shape", 0, ns - 1); auto a = symref<T>("x", SH[k][0], SH[k][1]); if constexpr (std::is_integral<T>::value) if (hi >= lo) for (size_t i = 0; i < a.n(); i++) ASSUME((a.a[i] >= (T)lo) & (a.a[i] <= (T)hi)); return a; }
// @h print_i8 reach=done shards=8
HARNESS print_i8() { show(any<int8_t>(NS), true); }
// @h print_u8 reach=done shards=8
HARNESS print_u8() { show(any<uint8_t>(NS), true); }
// plain char is printed as a number, like the other eight-bit types (reading it back is outside: a char is parsed as a character)
// @h print_char reach=done shards=8
HARNESS print_char() { show(any<char>(NS), false); }
// @h print_int reach=done shards=8
HARNESS print_int() { show(any<int>(4, -99, 9999), true); }
// @h print_uint reach=done shards=8
HARNESS print_uint() { show(any<unsigned>(3, 0, 9999), true); }
// larger shapes: one symbolic element, the others fixed
// @h print_shapes reach=done shards=8
HARNESS print_shapes() {
  static const int S[14][2] = {{1, 10}, {10, 1}, {3, 4}, {4, 3}, {1, 5}, {5, 1}, {2, 5}, {9, 2}, {3, 3}, {5, 5}, {1, 17}, {17, 1}, {4, 8}, {8, 8}}; int k = (int)CHOICE("shape", 0, 13); Ref<int> a(S[k][0], S[k][1]); for (size_t i = 0; i < a.n(); i++) a.a[i] = (int)((i * 37 + i * i * 5) % 201) - 100; size_t p = CHOICE("at", 0, 3); p = p == 0 ? 0 : p == 1 ? a.n() - 1 : p == 2 ? a.n() / 2 : a.r - 1; a.a[p] = sym<int8_t>("x"); show(a, true);
}
// @h print_i16 reach=done shards=8
HARNESS print_i16() { show(any<int16_t>(2), true); }
// @h print_wide reach=done
HARNESS print_wide() { show(any<int>(1), true); }
// @h print_wide_u reach=done
HARNESS print_wide_u() { show(any<unsigned>(1), true); }
// @h print_complex reach=done
HARNESS print_complex() { show(any<std::complex<int8_t>>(1), false); }
// @h print_complex_u reach=done
HARNESS print_complex_u() { show(any<std::complex<uint8_t>>(1), false); }
// @h print_empty reach=done
HARNESS print_empty() { susa::matrix<int> m; std::stringstream o; o << m; same_text(o.str(), "[]", "an empty matrix prints as []"); REACH("done"); }
static int val(const char *n) { return sym<int16_t>(n); }
// @h print_pair reach=done shards=8
HARNESS print_pair() { int a = val("a"), b = sym<int8_t>("b"); std::stringstream o; o << std::make_pair(a, b); std::string w("("); num(w, a); w += ", "; num(w, b); w += ")"; same_text(o.str(), w, "printed pair"); REACH("done"); }
// @h print_tuple reach=done shards=8
HARNESS print_tuple() {
  std::stringstream o; std::string w("("); int n = (int)CHOICE("arity", 1, 6); int a = val("a"), b = sym<int8_t>("b"), c = sym<int8_t>("c");
  if (n == 1) { o << std::make_tuple(a); num(w, a); } else if (n == 2) { o << std::make_tuple(a, b); num(w, a); w += ", "; num(w, b); } else if (n == 3) { o << std::make_tuple(a, b, c); num(w, a); w += ", "; num(w, b); w += ", "; num(w, c); }
  if (n > 3) { w = "("; num(w, a); static const char *T[] = {", 17, -4, 0", ", 17, -4, 0, 255", ", 17, -4, 0, 255, -1"}; w += T[n - 4]; if (n == 4) o << std::make_tuple(a, 17, -4, 0); else if (n == 5) o << std::make_tuple(a, 17, -4, 0, 255); else o << std::make_tuple(a, 17, -4, 0, 255, -1); }
  w += ")"; same_text(o.str(), w, "printed tuple"); REACH("done");
}
// other element types: decimal text as the stream writes a single element, read back unchanged when six digits suffice
template <class T> static void show_fixed(const std::vector<T> &v, bool back) {
  static const int S[6][2] = {{1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {4, 2}}; int k = (int)CHOICE("shape", 0, 5); size_t off = CHOICE("first", 0, 5); Ref<T> a(S[k][0], S[k][1]); for (size_t i = 0; i < a.n(); i++) a.a[i] = v[(i + off) % v.size()];
  susa::matrix<T> m = mk(a); std::ostringstream o; o << m; std::string w("["); for (size_t i = 0; i < a.r; i++) { for (size_t j = 0; j < a.c; j++) { std::ostringstream e; e << a.at(i, j); w += e.str(); if (j + 1 < a.c) w += " "; } if (i + 1 < a.r) w += "\n "; }
  w += "]"; same_text(o.str(), w, "printed text of the matrix"); eq(m, a, "printing leaves the matrix unchanged"); if constexpr (std::is_arithmetic<T>::value) if (back) { susa::matrix<T> n(o.str()); eq(n, a, "parsing the printed text gives back the matrix"); } o << 1.0 / 3; w += "0.333333"; same_text(o.str(), w, "printing leaves the stream as it was"); REACH("done");
}
// @h print_double reach=done
HARNESS print_double() { show_fixed<double>({0.25, -1.5, 0, 123456, -0.015625, 1e10, 7, 0.1}, true); }
// @h print_float reach=done
HARNESS print_float() { show_fixed<float>({0.25f, -1.5f, 0, 65536, -0.125f, 1e10f, 7, 0.75f}, true); }
// @h print_long reach=done
HARNESS print_long() { if (CHOICE("t", 0, 1)) show_fixed<long long>({0, -1, 9223372036854775807LL, -9223372036854775807LL - 1, 4294967296LL, 17, -2147483649LL, 1000000}, true); else show_fixed<unsigned long>({0, 1, 18446744073709551615UL, 4294967296UL, 17, 1000000, 255, 65536}, true); }
// @h print_complex_d reach=done
HARNESS print_complex_d() { show_fixed<std::complex<double>>({{0.25, -1}, {0, 0}, {-3, 1e10}, {0, -0.5}, {1.0 / 3, 2}, {7, 0}, {65, 66}}, false); }
// @h print_pair_mix reach=done
HARNESS print_pair_mix() { int a = sym<int8_t>("a"); std::ostringstream o; o << std::make_pair(2.5, a) << std::make_tuple(a, std::string("x y"), -0.25) << std::make_pair(std::make_pair(a, 1), 2) << 0.125; std::string w("(2.5, "); num(w, a); w += ")("; num(w, a); w += ", x y, -0.25)(("; num(w, a); w += ", 1), 2)0.125"; same_text(o.str(), w, "printed pair and tuple of mixed types"); REACH("done"); }
