// @bounds every broken-down local time of the years 2000..2099 (seconds up to 60); every sequence of up to four chronometer calls with every non-decreasing 62-bit nanosecond clock reading
// @assumes the clock, time() and localtime() are the environment: they are replaced by functions returning arbitrary values
#include "sym.h"
#include <chrono>
#include <ctime>
static std::tm now_tm; static int64_t clock_now; static int clock_reads;
extern "C" time_t time(time_t *t) noexcept { if (t) *t = 77; return 77; }
extern "C" struct tm *localtime(const time_t *) noexcept { return &now_tm; }
extern "C" struct tm *localtime_r(const time_t *, struct tm *r) noexcept { *r = now_tm; return r; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { clock_reads++; return system_clock::time_point(system_clock::duration(clock_now)); }
steady_clock::time_point steady_clock::now() noexcept { clock_reads++; return steady_clock::time_point(steady_clock::duration(clock_now)); }
} } }
static int field(const char *n, int lo, int hi) { int v = sym<int>(n); ASSUME((v >= lo) & (v <= hi)); return v; }
static void two(const std::string &s, size_t p, int v, const char *m) { CHECK((s[p] == (char)('0' + v / 10)) & (s[p + 1] == (char)('0' + v % 10)), m); }
// @h stamp reach=done
HARNESS stamp() {
  int y = field("year", 0, 99), mo = field("month", 1, 12), d = field("day", 1, 31), h = field("hour", 0, 23), mi = field("minute", 0, 59), s = field("second", 0, 60);
  now_tm.tm_year = 100 + y; now_tm.tm_mon = mo - 1; now_tm.tm_mday = d; now_tm.tm_hour = h; now_tm.tm_min = mi; now_tm.tm_sec = s; now_tm.tm_wday = sym<int>("wday"); now_tm.tm_yday = sym<int>("yday"); now_tm.tm_isdst = sym<int>("dst");
  std::string t = susa::timestamp(); CHECK(t.size() == 14, "fourteen characters"); if (t.size() != 14) return;
  CHECK(t[0] == '2' && t[1] == '0', "century"); two(t, 2, y, "year"); two(t, 4, mo, "month"); two(t, 6, d, "day"); two(t, 8, h, "hour"); two(t, 10, mi, "minute"); two(t, 12, s, "second"); REACH("done");
}
// @h elapsed reach=done
HARNESS elapsed() {
  clock_now = sym<int64_t>("t0"); ASSUME((clock_now >= 0) & (clock_now < ((int64_t)1 << 62))); int64_t start = clock_now; susa::tic();
  for (int k = 0; k < 3; k++) {
    int64_t t = sym<int64_t>("t"); ASSUME((t >= clock_now) & (t < ((int64_t)1 << 62))); clock_now = t;
    int what = (int)CHOICE("call", 0, 2);
    if (what == 0) { susa::tic(); start = t; }
    else if (what == 1) { double e = susa::toc(); CHECK(e == (double)((t - start) / 1000000) / 1000.0, "elapsed whole milliseconds since the last start, in seconds"); REACH("done"); }
    else susa::toc_print();
  }
}
