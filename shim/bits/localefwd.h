#ifndef SYM_LOCALEFWD
#define SYM_LOCALEFWD
#include <iosfwd>
#include <cctype>
namespace std {
class locale;
struct ctype_base { enum mask { space = 1 }; };
template <typename C> class ctype : public ctype_base { public: bool is(mask, C c) const { return c == ' ' || (c >= 9 && c <= 13); } };
template <typename F> const F &use_facet(const locale &) { static F f; return f; }
}
#endif
