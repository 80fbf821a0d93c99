// A small stand-in for the C++ stream library, used only for the bitcode that
// is executed symbolically (libstdc++'s streams need compiled locale objects).
// It implements the subset of behaviour documented for iostreams in the "C"
// locale: string buffers, formatted insertion / extraction of the arithmetic
// types, getline with its buffer limit, and the usual manipulators.
#ifndef SYM_STREAM_H
#define SYM_STREAM_H
#include <iosfwd>
#include <bits/localefwd.h>
#include <string>
#include <cstddef>
#include <limits>
#include <stdexcept>
#include <type_traits>
extern "C" bool __sym_is_symbolic(unsigned long long) noexcept;
extern "C" unsigned long long __sym_digit(unsigned long long, int) noexcept;
extern "C" void __sym_assume(bool) noexcept;
extern "C" int __sym_fmt_double(double, int prec, int flags, char *buf);
namespace std {
class locale { public: locale() {} static locale classic() { return locale(); } };
class ios_base {
public:
  typedef unsigned iostate; typedef unsigned fmtflags; typedef unsigned openmode; typedef int seekdir;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr fmtflags dec = 1, hex = 2, oct = 4, basefield = 7, fixed = 8, scientific = 16, floatfield = 24, boolalpha = 32, showpoint = 64, showpos = 128, left = 256, right = 512, internal = 1024, adjustfield = 1792, skipws = 2048, uppercase = 4096, showbase = 8192, unitbuf = 16384;
  static constexpr openmode in = 1, out = 2, app = 4, ate = 8, trunc = 16, binary = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  class failure : public std::runtime_error { public: explicit failure(const std::string &s) : std::runtime_error(s) {} };
  fmtflags _fl = dec | skipws; int _prec = 6; int _w = 0; iostate _st = 0;
  fmtflags flags() const { return _fl; }
  fmtflags flags(fmtflags f) { fmtflags o = _fl; _fl = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = _fl; _fl |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = _fl; _fl = (_fl & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { _fl &= ~f; }
  streamsize precision() const { return _prec; }
  streamsize precision(streamsize p) { int o = _prec; _prec = (int)p; return o; }
  streamsize width() const { return _w; }
  streamsize width(streamsize p) { int o = _w; _w = (int)p; return o; }
  locale getloc() const { return locale(); }
  locale imbue(const locale &) { return locale(); }
  static bool sync_with_stdio(bool = true) { return true; }
};
template <typename C, typename T> class basic_streambuf {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_string<C, T> _s; size_t _g = 0; bool _sink = false;
  int_type sgetc() { return _g < _s.size() ? T::to_int_type(_s[_g]) : T::eof(); }
  int_type sbumpc() { if (_g < _s.size()) return T::to_int_type(_s[_g++]); return T::eof(); }
  int_type snextc() { if (T::eq_int_type(sbumpc(), T::eof())) return T::eof(); return sgetc(); }
  int_type sputc(C c) { if (!_sink) _s.push_back(c); return T::to_int_type(c); }
  streamsize sputn(const C *p, streamsize n) { if (!_sink) _s.append(p, (size_t)n); return n; }
  int_type sungetc() { if (_g) return T::to_int_type(_s[--_g]); return T::eof(); }
  streamsize in_avail() { return (streamsize)(_s.size() - _g); }
  int pubsync() { return 0; }
};
template <typename C, typename T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_streambuf<C, T> *_sb = nullptr; C _fill = C(' ');
  basic_ios() {}
  explicit basic_ios(basic_streambuf<C, T> *sb) : _sb(sb) {}
  void init(basic_streambuf<C, T> *sb) { _sb = sb; _st = 0; }
  iostate rdstate() const { return _st; }
  void clear(iostate s = goodbit) { _st = s; }
  void setstate(iostate s) { _st |= s; }
  bool good() const { return _st == 0; }
  bool eof() const { return (_st & eofbit) != 0; }
  bool fail() const { return (_st & (failbit | badbit)) != 0; }
  bool bad() const { return (_st & badbit) != 0; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  basic_streambuf<C, T> *rdbuf() const { return _sb; }
  basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *s) { auto *o = _sb; _sb = s; _st = 0; return o; }
  C fill() const { return _fill; }
  C fill(C c) { C o = _fill; _fill = c; return o; }
  basic_ios &copyfmt(const basic_ios &o) { _fl = o._fl; _prec = o._prec; _w = o._w; _fill = o._fill; return *this; }
  C widen(char c) const { return C(c); }
  char narrow(C c, char) const { return (char)c; }
  void *tie() const { return nullptr; }
};
template <typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef basic_ios<C, T> _Ios; typedef basic_ostream _Self; typedef C char_type; typedef T traits_type;
  basic_ostream() {}
  explicit basic_ostream(basic_streambuf<C, T> *sb) { this->init(sb); }
  virtual ~basic_ostream() {}
  class sentry { bool ok; public: explicit sentry(basic_ostream &o) : ok(o.good()) {} explicit operator bool() const { return ok; } };
  _Self &put(C c) { if (this->_sb) this->_sb->sputc(c); return *this; }
  _Self &write(const C *p, streamsize n) { if (this->_sb) this->_sb->sputn(p, n); return *this; }
  _Self &flush() { return *this; }
  _Self &_pad(const C *p, size_t n) {
    if (this->_st) return *this;
    int w = this->_w; this->_w = 0;
    if (!this->_sb || this->_sb->_sink) return *this;
    size_t k = (size_t)w > n && w > 0 ? (size_t)w - n : 0; bool lft = (this->_fl & ios_base::adjustfield) == ios_base::left;
    if (!lft) for (size_t i = 0; i < k; i++) this->_sb->sputc(this->_fill);
    this->_sb->sputn(p, (streamsize)n);
    if (lft) for (size_t i = 0; i < k; i++) this->_sb->sputc(this->_fill);
    return *this;
  }
  _Self &_uint(unsigned long long v, bool neg) {
    if (!this->_sb || this->_sb->_sink) { this->_w = 0; return *this; }
    C b[72]; int n = 72; unsigned base = (this->_fl & ios_base::basefield) == ios_base::hex ? 16 : (this->_fl & ios_base::basefield) == ios_base::oct ? 8 : 10;
    if (base == 10 && __sym_is_symbolic(v)) { // the digits are the unique solution of v = sum d_i 10^i
      int k = 1; unsigned long long p = 10, sum = 0; while (k < 20 && v >= p) { k++; p *= 10; }
      n -= k; for (int i = k; i-- > 0;) { unsigned long long d = __sym_digit(v, i); __sym_assume(d <= 9); sum = sum * 10 + d; b[n + k - 1 - i] = C('0' + (char)d); }
      __sym_assume((unsigned)sum == (unsigned)v); __sym_assume(sum == v); // the first equation is implied and only helps the solver
    } else do { unsigned d = (unsigned)(v % base); v /= base; b[--n] = C(d < 10 ? '0' + d : ((this->_fl & ios_base::uppercase) ? 'A' : 'a') + (d - 10)); } while (v);
    if (neg) b[--n] = C('-'); else if ((this->_fl & ios_base::showpos) && base == 10) b[--n] = C('+');
    return _pad(b + n, 72 - n);
  }
  template <typename I> _Self &_sint(I v) {
    if ((this->_fl & ios_base::basefield) != ios_base::dec) return _uint((unsigned long long)(typename make_unsigned<I>::type)v, false);
    if (v < 0) return _uint(0ull - (unsigned long long)(long long)v, true);
    return _uint((unsigned long long)v, false);
  }
  _Self &operator<<(short v) { return _sint(v); }
  _Self &operator<<(int v) { return _sint(v); }
  _Self &operator<<(long v) { return _sint(v); }
  _Self &operator<<(long long v) { return _sint(v); }
  _Self &operator<<(unsigned short v) { return _uint(v, false); }
  _Self &operator<<(unsigned int v) { return _uint(v, false); }
  _Self &operator<<(unsigned long v) { return _uint(v, false); }
  _Self &operator<<(unsigned long long v) { return _uint(v, false); }
  _Self &operator<<(bool v) {
    if (!(this->_fl & ios_base::boolalpha)) return _uint(v, false);
    return v ? _pad("true", 4) : _pad("false", 5);
  }
  _Self &operator<<(double v) {
    if (!this->_sb || this->_sb->_sink) { this->_w = 0; return *this; }
    char b[400]; unsigned ff = this->_fl & ios_base::floatfield; int n = __sym_fmt_double(v, this->_prec, ff == ios_base::fixed ? 1 : ff == ios_base::scientific ? 2 : 0, b);
    return _pad(b, (size_t)n);
  }
  _Self &operator<<(float v) { return *this << (double)v; }
  _Self &operator<<(long double v) { return *this << (double)v; }
  _Self &operator<<(const void *p) { this->setf(ios_base::hex, ios_base::basefield); _uint((unsigned long long)p, false); this->setf(ios_base::dec, ios_base::basefield); return *this; }
  _Self &operator<<(nullptr_t) { return _pad("nullptr", 7); }
  _Self &operator<<(basic_streambuf<C, T> *s) { while (s->_g < s->_s.size()) put(s->_s[s->_g++]); return *this; }
  _Self &operator<<(_Self &(*f)(_Self &)) { return f(*this); }
  _Self &operator<<(_Ios &(*f)(_Ios &)) { f(*this); return *this; }
  _Self &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
};
template <typename C, typename T> inline basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, const C *s, streamsize n) { return o._pad(s, (size_t)n); }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, C c) { return o._pad(&c, 1); }
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { return o._pad(&c, 1); }
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char d = (char)c; return o._pad(&d, 1); }
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char d = (char)c; return o._pad(&d, 1); }
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o._pad(s, T::length(s)); }
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const signed char *s) { return o << (const char *)s; }
template <typename T> inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const unsigned char *s) { return o << (const char *)s; }
template <typename O, typename V, typename = typename enable_if<!is_lvalue_reference<O>::value && is_base_of<ios_base, O>::value>::type> inline auto operator<<(O &&o, const V &v) -> decltype(static_cast<O &>(o) << v, static_cast<O &>(o)) { static_cast<O &>(o) << v; return static_cast<O &>(o); }
template <typename C, typename T> inline basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put(C('\n')); }
template <typename C, typename T> inline basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(C()); }
template <typename C, typename T> inline basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; }
inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }

inline bool __sym_space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
template <typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef basic_ios<C, T> _Ios; typedef std::ios_base ios_base; typedef basic_istream _Self; typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
  streamsize _gc = 0;
  basic_istream() {}
  explicit basic_istream(basic_streambuf<C, T> *sb) { this->init(sb); }
  virtual ~basic_istream() {}
  class sentry { bool ok; public:
    explicit sentry(basic_istream &i, bool noskip = false) : ok(false) {
      if (i.good() && !noskip && (i._fl & ios_base::skipws)) i._ws();
      if (i.good() && i._sb) ok = true; else i.setstate(ios_base::failbit);
    }
    explicit operator bool() const { return ok; } };
  void _ws() {
    while (true) { int_type c = this->_sb->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit | ios_base::failbit); return; } if (!__sym_space((int)c)) return; this->_sb->sbumpc(); }
  }
  streamsize gcount() const { return _gc; }
  int_type get() { _gc = 0; sentry s(*this, true); if (!s) return T::eof(); int_type c = this->_sb->sbumpc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit | ios_base::failbit); else _gc = 1; return c; }
  _Self &get(C &c) { int_type i = get(); if (!T::eq_int_type(i, T::eof())) c = T::to_char_type(i); return *this; }
  int_type peek() { _gc = 0; sentry s(*this, true); if (!s) return T::eof(); int_type c = this->_sb->sgetc(); if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit); return c; }
  _Self &unget() { this->_st &= ~ios_base::eofbit; if (T::eq_int_type(this->_sb->sungetc(), T::eof())) this->setstate(ios_base::badbit); return *this; }
  _Self &putback(C c) { (void)c; return unget(); }
  _Self &ignore(streamsize n = 1, int_type d = T::eof()) {
    _gc = 0; sentry s(*this, true); if (!s) return *this;
    while (_gc < n) { int_type c = this->_sb->sbumpc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; } _gc++; if (T::eq_int_type(c, d)) break; }
    return *this;
  }
  _Self &read(C *p, streamsize n) { _gc = 0; sentry s(*this, true); if (!s) return *this; while (_gc < n) { int_type c = this->_sb->sbumpc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit | ios_base::failbit); break; } p[_gc++] = T::to_char_type(c); } return *this; }
  _Self &getline(C *p, streamsize n) { return getline(p, n, C('\n')); }
  _Self &getline(C *p, streamsize n, C delim) {
    _gc = 0; streamsize k = 0; sentry s(*this, true);
    if (s) {
      while (true) {
        int_type c = this->_sb->sgetc();
        if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; }
        if (T::to_char_type(c) == delim) { this->_sb->sbumpc(); _gc++; break; }
        if (k + 1 >= n) { this->setstate(ios_base::failbit); break; }
        p[k++] = T::to_char_type(c); this->_sb->sbumpc(); _gc++;
      }
    }
    if (n > 0) p[k] = C();
    if (!_gc) this->setstate(ios_base::failbit);
    return *this;
  }
  template <typename I> _Self &_int(I &out) {
    sentry s(*this); if (!s) return *this;
    auto *b = this->_sb; bool neg = false; int_type c = b->sgetc(); unsigned base = (this->_fl & ios_base::basefield) == ios_base::hex ? 16 : (this->_fl & ios_base::basefield) == ios_base::oct ? 8 : 10;
    if (c == '-' || c == '+') { neg = c == '-'; c = b->snextc(); }
    unsigned long long v = 0; bool any = false, over = false; int nd = 0;
    while (!T::eq_int_type(c, T::eof())) {
      unsigned d; if (c >= '0' && c <= '9') d = (unsigned)c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = (unsigned)c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = (unsigned)c - 'A' + 10; else break;
      if (d >= base) break;
      if (nd < (base == 16 ? 15 : 19)) v = v * base + d; else if (v > (~0ull - d) / base) over = true; else v = v * base + d;
      any = true; nd++; c = b->snextc();
    }
    if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit);
    if (!any) { out = 0; this->setstate(ios_base::failbit); return *this; }
    if (is_signed<I>::value) {
      unsigned long long mx = (unsigned long long)numeric_limits<I>::max() + (neg ? 1 : 0);
      if (over || v > mx) { out = neg ? numeric_limits<I>::min() : numeric_limits<I>::max(); this->setstate(ios_base::failbit); }
      else out = neg ? (I)(0ull - v) : (I)v;
    } else {
      if (over || v > (unsigned long long)numeric_limits<I>::max()) { out = numeric_limits<I>::max(); this->setstate(ios_base::failbit); }
      else out = neg ? (I)(0ull - v) : (I)v;
    }
    return *this;
  }
  template <typename F> _Self &_flt(F &out) {
    sentry s(*this); if (!s) return *this;
    auto *b = this->_sb; bool neg = false, any = false, bad = false; int_type c = b->sgetc();
    if (c == '-' || c == '+') { neg = c == '-'; c = b->snextc(); }
    unsigned long long m = 0; int e10 = 0, nd = 0;
    while (c >= '0' && c <= '9') { if (nd < 18) { m = m * 10 + (unsigned)(c - '0'); if (m) nd++; } else e10++; any = true; c = b->snextc(); }
    if (c == '.') { c = b->snextc(); while (c >= '0' && c <= '9') { if (nd < 18) { m = m * 10 + (unsigned)(c - '0'); e10--; if (m) nd++; } any = true; c = b->snextc(); } }
    if (any && (c == 'e' || c == 'E')) {
      c = b->snextc(); bool en = false; int ev = 0, ed = 0; if (c == '-' || c == '+') { en = c == '-'; c = b->snextc(); }
      while (c >= '0' && c <= '9') { if (ev < 100000) ev = ev * 10 + (int)(c - '0'); ed++; c = b->snextc(); }
      if (!ed) bad = true; e10 += en ? -ev : ev;
    }
    if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit);
    if (!any || bad) { out = 0; this->setstate(ios_base::failbit); return *this; }
    double v = (double)m; double p = 1; int k = e10 < 0 ? -e10 : e10; if (k > 400) k = 400; if (m == 0) k = 0;
    for (int i = 0; i < k; i++) p *= 10.0;
    v = e10 < 0 ? v / p : v * p;
    out = (F)(neg ? -v : v); return *this;
  }
  _Self &operator>>(short &v) { return _int(v); }
  _Self &operator>>(int &v) { return _int(v); }
  _Self &operator>>(long &v) { return _int(v); }
  _Self &operator>>(long long &v) { return _int(v); }
  _Self &operator>>(unsigned short &v) { return _int(v); }
  _Self &operator>>(unsigned int &v) { return _int(v); }
  _Self &operator>>(unsigned long &v) { return _int(v); }
  _Self &operator>>(unsigned long long &v) { return _int(v); }
  _Self &operator>>(bool &v) { long l = 0; _int(l); if (l == 0) v = false; else { v = true; if (l != 1) this->setstate(ios_base::failbit); } return *this; }
  _Self &operator>>(double &v) { return _flt(v); }
  _Self &operator>>(float &v) { return _flt(v); }
  _Self &operator>>(long double &v) { double d = 0; _flt(d); v = d; return *this; }
  _Self &operator>>(_Self &(*f)(_Self &)) { return f(*this); }
  _Self &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
};
template <typename C, typename T> inline basic_istream<C, T> &operator>>(basic_istream<C, T> &i, C &c) { typename basic_istream<C, T>::sentry s(i); if (s) { auto v = i._sb->sbumpc(); if (T::eq_int_type(v, T::eof())) i.setstate(ios_base::eofbit | ios_base::failbit); else c = T::to_char_type(v); } return i; }
template <typename T> inline basic_istream<char, T> &operator>>(basic_istream<char, T> &i, signed char &c) { char d = (char)c; i >> d; c = (signed char)d; return i; }
template <typename T> inline basic_istream<char, T> &operator>>(basic_istream<char, T> &i, unsigned char &c) { char d = (char)c; i >> d; c = (unsigned char)d; return i; }
template <typename I, typename V, typename = typename enable_if<!is_lvalue_reference<I>::value && is_base_of<ios_base, I>::value>::type> inline auto operator>>(I &&i, V &&v) -> decltype(static_cast<I &>(i) >> static_cast<V &&>(v), static_cast<I &&>(i)) { static_cast<I &>(i) >> static_cast<V &&>(v); return static_cast<I &&>(i); }
template <typename C, typename T> inline basic_istream<C, T> &ws(basic_istream<C, T> &i) { while (true) { auto c = i._sb->sgetc(); if (T::eq_int_type(c, T::eof())) { i.setstate(ios_base::eofbit); return i; } if (!__sym_space((int)c)) return i; i._sb->sbumpc(); } }
template <> inline basic_istream<char> &getline(basic_istream<char> &in, basic_string<char> &s, char delim) {
  bool any = false; basic_istream<char>::sentry c(in, true);
  if (c) {
    s.erase();
    while (true) {
      int v = in._sb->sgetc(); if (v == char_traits<char>::eof()) { in.setstate(ios_base::eofbit); break; }
      any = true; in._sb->sbumpc(); if ((char)v == delim) break; s.push_back((char)v);
    }
  }
  if (!any) in.setstate(ios_base::failbit);
  return in;
}
#ifndef SYM_NO_STRING_EXTRACT
template <> inline basic_istream<char> &operator>>(basic_istream<char> &in, basic_string<char> &s) {
  basic_istream<char>::sentry c(in);
  if (c) {
    s.erase();
    while (true) { int v = in._sb->sgetc(); if (v == char_traits<char>::eof()) { in.setstate(ios_base::eofbit); break; } if (__sym_space(v)) break; s.push_back((char)v); in._sb->sbumpc(); }
    if (s.empty()) in.setstate(ios_base::failbit);
  }
  return in;
}
#endif
template <typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_iostream() {} explicit basic_iostream(basic_streambuf<C, T> *s) { this->init(s); } };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C, T> {
public:
  basic_stringbuf() {}
  explicit basic_stringbuf(const basic_string<C, T, A> &s, ios_base::openmode = 3) { this->_s = s; }
  basic_string<C, T, A> str() const { return this->_s; }
  void str(const basic_string<C, T, A> &s) { this->_s = s; this->_g = 0; }
};
#define SYM_SS(NAME, BASE)                                                                                                              \
  template <typename C, typename T, typename A> class NAME : public BASE<C, T> {                                                       \
    basic_stringbuf<C, T, A> _b;                                                                                                         \
  public:                                                                                                                               \
    NAME() { this->init(&_b); }                                                                                                        \
    explicit NAME(ios_base::openmode) { this->init(&_b); }                                                                             \
    explicit NAME(const basic_string<C, T, A> &s, ios_base::openmode = 3) : _b(s) { this->init(&_b); }                                  \
    NAME(const NAME &) = delete;                                                                                                       \
    basic_string<C, T, A> str() const { return _b.str(); }                                                                             \
    void str(const basic_string<C, T, A> &s) { _b.str(s); }                                                                            \
    basic_stringbuf<C, T, A> *rdbuf() const { return const_cast<basic_stringbuf<C, T, A> *>(&_b); }                                     \
  };
SYM_SS(basic_stringstream, basic_iostream)
SYM_SS(basic_istringstream, basic_istream)
SYM_SS(basic_ostringstream, basic_ostream)
_GLIBCXX_END_NAMESPACE_CXX11
#undef SYM_SS
#define SYM_FS(NAME, BASE)                                                                                                              \
  template <typename C, typename T> class NAME : public BASE<C, T> {                                                                   \
  public:                                                                                                                               \
    NAME() {}                                                                                                                           \
    explicit NAME(const char *, ios_base::openmode = 0) { this->setstate(ios_base::failbit); }                                          \
    explicit NAME(const std::string &, ios_base::openmode = 0) { this->setstate(ios_base::failbit); }                                   \
    bool is_open() const { return false; }                                                                                              \
    void open(const char *, ios_base::openmode = 0) { this->setstate(ios_base::failbit); }                                              \
    void open(const std::string &, ios_base::openmode = 0) { this->setstate(ios_base::failbit); }                                       \
    void close() {}                                                                                                                     \
  };
SYM_FS(basic_fstream, basic_iostream)
SYM_FS(basic_ifstream, basic_istream)
SYM_FS(basic_ofstream, basic_ostream)
#undef SYM_FS
inline ostream &__sym_sink() { static streambuf b; static ostream o(&b); b._sink = true; return o; }
static ostream &cout = __sym_sink();
static ostream &cerr = __sym_sink();
static ostream &clog = __sym_sink();
inline istream &__sym_src() { static streambuf b; static istream i(&b); return i; }
static istream &cin = __sym_src();
struct _Setp { int n; }; struct _Setw { int n; }; struct _Setf { char c; };
inline _Setp setprecision(int n) { return {n}; }
inline _Setw setw(int n) { return {n}; }
inline _Setf setfill(char c) { return {c}; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setp s) { o.precision(s.n); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setw s) { o.width(s.n); return o; }
template <typename C, typename T> inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setf s) { o.fill(s.c); return o; }
template <typename C, typename T> class istreambuf_iterator : public iterator<input_iterator_tag, C, ptrdiff_t, C *, C> {
  mutable basic_streambuf<C, T> *_b = nullptr;
public:
  typedef basic_istream<C, T> istream_type; typedef basic_streambuf<C, T> streambuf_type;
  istreambuf_iterator() {}
  istreambuf_iterator(istream_type &i) : _b(i.rdbuf()) {}
  istreambuf_iterator(streambuf_type *b) : _b(b) {}
  C operator*() const { return T::to_char_type(_b->sgetc()); }
  istreambuf_iterator &operator++() { _b->sbumpc(); return *this; }
  istreambuf_iterator operator++(int) { istreambuf_iterator t = *this; _b->sbumpc(); return t; }
  bool _end() const { return !_b || T::eq_int_type(_b->sgetc(), T::eof()); }
  bool equal(const istreambuf_iterator &o) const { return _end() == o._end(); }
};
template <typename C, typename T> inline bool operator==(const istreambuf_iterator<C, T> &a, const istreambuf_iterator<C, T> &b) { return a.equal(b); }
template <typename C, typename T> inline bool operator!=(const istreambuf_iterator<C, T> &a, const istreambuf_iterator<C, T> &b) { return !a.equal(b); }
template <typename C, typename T> class ostreambuf_iterator : public iterator<output_iterator_tag, void, void, void, void> {
  basic_streambuf<C, T> *_b;
public:
  ostreambuf_iterator(basic_ostream<C, T> &o) : _b(o.rdbuf()) {}
  ostreambuf_iterator &operator=(C c) { _b->sputc(c); return *this; }
  ostreambuf_iterator &operator*() { return *this; } ostreambuf_iterator &operator++() { return *this; } ostreambuf_iterator &operator++(int) { return *this; }
};
} // namespace std
#endif
