// @bounds every string of up to 3 (quick) / 5 (thorough) arbitrary 8-bit characters (memory safety, shape, refusal and the value of integer tokens); every layout of shapes up to 2x3 / 3x2 / 3x3 (thorough) with the separators, row separators, brackets and blanks listed in the harness, symbolic one- and two-digit values with optional sign and decimals; rows of 130, 1400 and 7000 (35000 characters) numbers; literals with exponents, signs, leading points and zeros and extreme integers; assigned over existing matrices of several shapes; assertion-enabled and assertion-disabled builds
#include "sym.h"
#ifdef THOROUGH
#define LEN 5
#define MX 3
#else
#define LEN 3
#define MX 3
#endif
#ifdef SUSA_NASSERT
static const bool NA = true;
#else
static const bool NA = false;
#endif
using susa::matrix;
// reference tokenizer over arbitrary characters: rows end at ';' or newline, blanks are space, tab, CR, comma, brackets
struct Tok { size_t rows, cols, total; bool ragged; int val[16]; bool isint[16]; };
static bool blank(char c) { return (c == ' ') | (c == '\t') | (c == '\r') | (c == ',') | (c == '[') | (c == ']'); }
static void tok(const char *s, int n, Tok &t) {
  t.rows = 0; t.cols = 0; t.total = 0; t.ragged = false; size_t cur = 0; int i = 0;
  while (true) {
    if (i == n || (s[i] == ';') | (s[i] == '\n')) { if (t.rows == 0) t.cols = cur; else if (cur != t.cols) t.ragged = true; t.rows++; cur = 0; if (i == n) break; i++; continue; }
    if (blank(s[i])) { i++; continue; }
    bool neg = false, digits = true; int v = 0, nd = 0, j = i;
    if (s[j] == '-') { neg = true; j++; }
    while (j < n && !((s[j] == ';') | (s[j] == '\n') | blank(s[j]))) { if ((s[j] >= '0') & (s[j] <= '9')) { v = v * 10 + (s[j] - '0'); nd++; } else digits = false; j++; }
    t.val[t.total] = neg ? -v : v; t.isint[t.total] = digits && nd > 0; t.total++; cur++; i = j;
  }
}
template <class T> static void arbitrary(int n, bool over) {
  char s[LEN + 1]; for (int i = 0; i < n; i++) s[i] = (char)sym<uint8_t>("ch"); s[n] = 0;
  if (n >= LEN - 1) { // a complete case distinction on one character; each case is explored by a process of its own
    char c = s[1]; int cl[8] = {c == ';', c == '\n', (c == ' ') | (c == '\t'), (c == '\r') | (c == ','), (c == '[') | (c == ']'), c == '-', (c >= '0') & (c <= '9'), 0}; int any = 0; for (int i = 0; i < 7; i++) any = any | cl[i]; cl[7] = !any; ASSUME(cl[CHOICE("class", 0, 7)] != 0);
  }
  Tok t; tok(s, n, t); std::string str(s, (size_t)n); bool bad = t.ragged; matrix<T> m;
  if (over) { m = matrix<T>(2, 1); m(0) = 41; m(1) = 42; }
  if (NA) { if (over) m = str; else { matrix<T> q(str); m = q; } }
  else MUST_ABORT_IF(bad, if (over) m = str; else { matrix<T> q(str); m = q; }, "text with rows of different lengths must be refused");
  if (bad) { if (over) CHECK(m.size() == 0 || (m.no_rows() == 2 && m.no_cols() == 1 && m(0) == 41 && m(1) == 42), "refused text does not change the matrix"); else CHECK(m.size() == 0, "refused text gives no matrix"); REACH("refused"); return; }
  if (t.total == 0) { CHECK(m.size() == 0, "text without numbers gives an empty matrix"); return; }
  CHECK(m.no_rows() == t.rows && m.no_cols() == t.cols && m.size() == t.rows * t.cols, "shape of the parsed matrix");
  if (m.no_rows() != t.rows || m.no_cols() != t.cols) return;
  for (size_t i = 0; i < t.rows; i++) for (size_t j = 0; j < t.cols; j++) { size_t k = i * t.cols + j; T v = m(i, j); if (t.isint[k]) CHECK(v == (T)t.val[k], "parsed value"); }
  REACH("parsed");
}
// @h h_any reach=parsed,done shards=16 t_timeout=1500
HARNESS h_any() { arbitrary<int>((int)CHOICE("len", 0, LEN), false); REACH("done"); }
// @h h_any_over reach=parsed,done shards=16 t_timeout=1500
HARNESS h_any_over() { arbitrary<int>((int)CHOICE("len", 0, LEN), true); REACH("done"); }
// @h h_any_na reach=parsed,refused,done shards=16 t_timeout=1500 config=nassert
HARNESS h_any_na() { arbitrary<int>((int)CHOICE("len", 0, LEN), CHOICE("over", 0, 1)); REACH("done"); }
// @h h_any_d tier=thorough reach=parsed,done shards=16 timeout=1500
HARNESS h_any_d() { arbitrary<double>((int)CHOICE("len", 0, LEN - 1), false); REACH("done"); }

// layouts
static const char *SEP[] = {" ", ",", "\t", ", ", "  ", "\t ,"};
static const char *ROW[] = {";", "\n", " ; ", "\r\n", "];[", "\t\n "};
static const char *PRE[] = {"", "[", " [ ", "\t["};
static const char *POST[] = {"", "]", " ] ", ","};
template <class T> struct Num;
static int digit() { uint8_t d = sym<uint8_t>("digit"); ASSUME(d < 10); return d; }
template <> struct Num<int> { static int gen(std::string &s, int form) { int a = digit(), v = a; if (form & 1) s += '-'; s += (char)('0' + a); if (form & 2) { int b = digit(); s += (char)('0' + b); v = 10 * a + b; } return form & 1 ? -v : v; } };
template <> struct Num<uint8_t> { static uint8_t gen(std::string &s, int form) { int a = digit(), v = a; s += (char)('0' + a); if (form & 2) { int b = digit(); s += (char)('0' + b); v = 10 * a + b; } return (uint8_t)v; } };
template <> struct Num<int8_t> { static int8_t gen(std::string &s, int form) { return (int8_t)Num<int>::gen(s, form); } };
template <> struct Num<double> { static double gen(std::string &s, int form) { int a = digit(); double v = a; if (form & 1) s += '-'; s += (char)('0' + a); if (form & 2) { int b = digit(); s += '.'; s += (char)('0' + b); v = (10 * a + b) / 10.0; } return form & 1 ? -v : v; } };
template <> struct Num<float> { static float gen(std::string &s, int form) { int a = digit(); float v = (float)a; if (form & 1) s += '-'; s += (char)('0' + a); if (form & 2) { s += ".5"; v = v + 0.5f; } return form & 1 ? -v : v; } };
template <class T> static void layout(size_t r, size_t c, const char *sep, const char *row, const char *pre, const char *post, bool over, int forms) {
  BEFORE(matrix<T> u("[1 2 3;4 5 6]"); u = std::string("7,8\n9 1"); if (NA) u = "1 2;3"); std::string s(pre); Ref<T> e(r, c); for (size_t i = 0; i < r; i++) { if (i) s += row; for (size_t j = 0; j < c; j++) { if (j) s += sep; e.at(i, j) = Num<T>::gen(s, (int)((i * c + j + (size_t)forms) & 3)); } } s += post;
  if (over) { int k = (int)CHOICE("old", 0, 2); matrix<T> m; if (k) m = matrix<T>(k == 1 ? c : r, k == 1 ? r : c + 1); if (CHOICE("cstr", 0, 1)) m = s.c_str(); else m = s; eq(m, e, "assigned text"); }
  else { matrix<T> m(s); eq(m, e, "constructed from text"); }
}
template <class T> static void layouts(bool over) {
  size_t r, c; shape("r", "c", r, c, 1, MX);
#ifndef THOROUGH
  ASSUME(r * c <= (over ? 4 : 6));
#endif
  int k = (int)CHOICE("sep", 0, 5), l = (int)CHOICE("row", 0, 5), p = (int)CHOICE("br", 0, 3); if (c == 1) ASSUME(k == 0); if (r == 1) ASSUME(l == 0);
  layout<T>(r, c, SEP[k], ROW[l], PRE[p], POST[p], over, (int)CHOICE("forms", 0, 1) * 3); REACH("done");
}
// @h h_layout reach=done shards=8
HARNESS h_layout() { layouts<int>(false); }
// @h h_layout_over reach=done shards=8
HARNESS h_layout_over() { layouts<int>(true); }
// @h h_layout_i8 reach=done shards=8 tier=thorough
HARNESS h_layout_i8() { layouts<int8_t>(false); }
// @h h_layout_d reach=done shards=8 tier=thorough mode=real
HARNESS h_layout_d() { layouts<double>(true); }
template <class T> static void few() { size_t r = (size_t)CHOICE("r", 1, 2), c = (size_t)CHOICE("c", 1, 2); int k = (int)CHOICE("k", 0, 3); layout<T>(r, c, SEP[k], ROW[k], PRE[k], POST[k], CHOICE("over", 0, 1), (int)CHOICE("forms", 0, 3)); REACH("done"); }
// @h h_types reach=done shards=8
HARNESS h_types() { if (CHOICE("type", 0, 1)) few<uint8_t>(); else few<int8_t>(); }
// @h h_ftypes reach=done shards=8 mode=real
HARNESS h_ftypes() { if (CHOICE("type", 0, 1)) few<double>(); else few<float>(); }
// a row longer than any fixed line buffer is read in full
// @h h_long reach=done shards=3 maxsteps=400000000
HARNESS h_long() {
  static const int N[] = {130, 1400, 7000}; size_t n = (size_t)N[CHOICE("n", 0, 2)]; std::string s; for (size_t i = 0; i < n; i++) { s += "0000"; if (i + 1 < n) s += ' '; } size_t k = n - 1; int a = digit(), b = digit(); s[k * 5 + 2] = (char)('0' + a); s[k * 5 + 3] = (char)('0' + b); s[3] = (char)('0' + b);
  matrix<int> m(s); CHECK(m.no_rows() == 1 && m.no_cols() == n, "long row: shape"); CHECK(m(k) == 10 * a + b && m(0) == b, "long row: values"); for (size_t i = 1; i < k; i++) CHECK(m(i) == 0, "long row: values"); REACH("done");
}
// rows of different lengths
static void ragged() {
  size_t r = (size_t)CHOICE("r", 2, 3); std::string s; size_t len[3], n = 0; bool bad = false; for (size_t i = 0; i < r; i++) { len[i] = (size_t)CHOICE("len", 0, 3); n += len[i]; if (i) s += CHOICE("nl", 0, 1) ? '\n' : ';'; for (size_t j = 0; j < len[i]; j++) { if (j) s += ' '; s += (char)('0' + digit()); } if (len[i] != len[0]) bad = true; }
  ASSUME(bad); matrix<int> m(1, 2); m(0) = 7; m(1) = 8; if (NA) m = s; else MUST_ABORT_IF(true, m = s, "rows of different lengths must be refused");
  CHECK(m.size() == 0 || (m.size() == 2 && m.no_rows() == 1 && m(0) == 7 && m(1) == 8), "refused text does not change the matrix"); REACH("done");
}
// @h h_ragged
HARNESS h_ragged() { ragged(); }
// @h h_ragged_na reach=done config=nassert
HARNESS h_ragged_na() { ragged(); }
// literals of every form
// @h h_numbers reach=done shards=2
HARNESS h_numbers() {
  int k = (int)CHOICE("sep", 0, 3); const char *sep[] = {" ", ",", "\t", " , "}; auto join = [&](std::initializer_list<const char *> l) { std::string s; for (const char *t : l) { if (!s.empty()) s += sep[k]; s += t; } return s; };
  { matrix<double> m(join({"1e3", "-2.5e-1", "+.5", "5.", "1E2", "100000000000", "-0.0", "12.25", "-.125", "1e+2", "0.5E-1", "000012"})); const double v[] = {1e3, -.25, .5, 5, 100, 1e11, 0, 12.25, -.125, 100, .05, 12}; CHECK(m.no_rows() == 1 && m.no_cols() == 12, "shape"); bool ok = true; for (int i = 0; i < 12; i++) ok = ok & (m(i) - v[i] < 1e-15) & (v[i] - m(i) < 1e-15); CHECK(ok, "real literals"); }
  { matrix<int> m(join({"2147483647", "-2147483648", "+7", "007", "-0", "-00012", "1000000000"})); const int v[] = {2147483647, (int)0x80000000, 7, 7, 0, -12, 1000000000}; CHECK(m.no_rows() == 1 && m.no_cols() == 7, "shape"); bool ok = true; for (int i = 0; i < 7; i++) ok = ok & (m(i) == v[i]); CHECK(ok, "integer literals"); }
  { matrix<long> m(join({"9223372036854775807", "-9223372036854775807", "4294967296"})); bool ok = (m.no_cols() == 3) & (m(0) == 9223372036854775807l) & (m(1) == -9223372036854775807l) & (m(2) == 4294967296l); CHECK(ok, "wide integer literals"); }
  { matrix<int8_t> m(join({"127", "-128", "+1", "65"})); bool ok = (m.no_cols() == 4) & (m(0) == 127) & (m(1) == -128) & (m(2) == 1) & (m(3) == 65); CHECK(ok, "8-bit literals"); }
  { matrix<uint8_t> m(join({"255", "0", "48"})); bool ok = (m.no_cols() == 3) & (m(0) == 255) & (m(1) == 0) & (m(2) == 48); CHECK(ok, "unsigned 8-bit literals"); }
  { matrix<unsigned> m(join({"4294967295", "0", "65536"})); bool ok = (m.no_cols() == 3) & (m(0) == 4294967295u) & (m(1) == 0) & (m(2) == 65536); CHECK(ok, "unsigned literals"); }
  REACH("done");
}
