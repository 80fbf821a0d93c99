#ifndef SYM_OSTREAM_INSERT
#define SYM_OSTREAM_INSERT
#include <iosfwd>
namespace std { template <typename C, typename T> basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, const C *s, streamsize n); }
#endif
