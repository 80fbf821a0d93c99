#include <iosfwd>
