// Time conversions over every representable timestamp; FormatTime against what put_time writes.
#include <assert.h>
#include "sa.h"
#include <amtl/am-time.h>
using namespace ke;
using namespace std::chrono;
struct tm; extern "C" { char sa_put_text[400]; }
static const tm* g_tm; static char g_fmt[4]; static size_t g_len; static int g_calls;
extern "C" size_t sa_put_time(const tm* t, const char* f) {
    sa_assert(t->tm_year == g_tm->tm_year && t->tm_sec == g_tm->tm_sec && t->tm_isdst == g_tm->tm_isdst, "formats-the-given-time");
    for (int i = 0; i < 4; i++) { sa_assert(f[i] == g_fmt[i], "uses-the-given-format"); if (!f[i]) break; }
    g_calls++;
    return g_len;
}
struct Tick { typedef nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<Tick> time_point; };
struct Micro { typedef microseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<Micro> time_point; };
struct Sec { typedef seconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<Sec> time_point; };
static inline timespec any(int64_t& s, int64_t& n) {
    s = int64_t(sa_u64()); n = int64_t(sa_u64());
    sa_assume(s >= -9223372036LL && s < 9223372036LL && n >= 0 && n < 1000000000LL);
    timespec ts; ts.tv_sec = s; ts.tv_nsec = n; return ts;
}
extern "C" {
void w_duration() { int64_t s, n; timespec ts = any(s, n); nanoseconds d = TimespecToDuration(ts); sa_assert(d.count() == s * 1000000000LL + n, "same-instant"); sa_reach("end"); }
void w_point() { int64_t s, n; timespec ts = any(s, n); time_point<Tick, nanoseconds> p = TimespecToTimePoint<Tick>(ts); sa_assert(p.time_since_epoch().count() == s * 1000000000LL + n, "same-instant"); sa_reach("end"); }
void w_point_system() { int64_t s, n; timespec ts = any(s, n); time_point<system_clock, nanoseconds> p = TimespecToTimePoint<system_clock>(ts); sa_assert(p.time_since_epoch().count() == s * 1000000000LL + n, "same-instant"); sa_reach("end"); }
void w_point_steady() { int64_t s, n; timespec ts = any(s, n); time_point<steady_clock, nanoseconds> p = TimespecToTimePoint<steady_clock>(ts); sa_assert(p.time_since_epoch().count() == s * 1000000000LL + n, "same-instant"); sa_reach("end"); }
// a coarser clock: the same instant but for less than one tick
void w_point_micro() { int64_t s, n; timespec ts = any(s, n); int64_t e = TimespecToTimePoint<Micro>(ts).time_since_epoch().count() - (s * 1000000000LL + n); sa_assert(e > -1000 && e < 1000, "same-instant"); sa_reach("end"); }
void w_point_sec() { int64_t s, n; timespec ts = any(s, n); int64_t e = TimespecToTimePoint<Sec>(ts).time_since_epoch().count() - (s * 1000000000LL + n); sa_assert(e > -1000000000LL && e < 1000000000LL, "same-instant"); sa_reach("end"); }
void w_epoch() {
    int64_t v = int64_t(sa_u64()); int i = sa_int();
    sa_assert(EpochValueToTimePoint<system_clock::time_point>(v).time_since_epoch().count() == v, "counts-ticks-from-the-epoch");
    sa_assert(EpochValueToTimePoint<system_clock::time_point>(i).time_since_epoch().count() == i, "counts-ticks-from-the-epoch");
    sa_assert(EpochValueToTimePoint<Micro::time_point>(v).time_since_epoch().count() == v, "counts-ticks-from-the-epoch");
    sa_assert((EpochValueToTimePoint<time_point<system_clock, seconds>>(v).time_since_epoch().count()) == v, "counts-ticks-from-the-epoch");
    sa_reach("end");
}
}
static_assert(TimespecToDuration(timespec{3, 7}) == nanoseconds(3000000007LL), "usable in constant expressions");
static_assert(TimespecToTimePoint<Tick>(timespec{3, 7}).time_since_epoch() == nanoseconds(3000000007LL), "usable in constant expressions");
static_assert(EpochValueToTimePoint<Tick::time_point>(5).time_since_epoch() == nanoseconds(5), "usable in constant expressions");
static_assert(std::is_same<decltype(TimespecToTimePoint<system_clock>(timespec{})), time_point<system_clock, nanoseconds>>::value, "a time point of the clock");
static_assert(std::is_same<decltype(EpochValueToTimePoint<Micro::time_point>(5)), Micro::time_point>::value, "a time point of the type asked for");
template <int LEN> static inline void format(bool as_string) {
    { sa_malloc_ok();
      tm t = {}; t.tm_year = sa_int(); t.tm_sec = sa_int(); t.tm_isdst = sa_int();
      g_tm = &t; g_calls = 0; g_len = LEN;
      g_fmt[0] = '%'; g_fmt[1] = char(sa_u8()); g_fmt[2] = char(sa_u8()); g_fmt[3] = 0;
      sa_assume(g_fmt[1] != 0 && g_fmt[2] != 0);
      char f[4] = {g_fmt[0], g_fmt[1], g_fmt[2], 0};
      for (int i = 0; i < LEN; i++) { if (i < 3) { sa_put_text[i] = char(sa_u8()); sa_assume(sa_put_text[i] != 0); } else sa_put_text[i] = 'x'; }
      std::string fs(f);
      std::string s = as_string ? FormatTime(t, fs) : FormatTime(t, f);
      sa_assert(g_calls == 1, "formats-once");
      sa_assert(s.size() == LEN, "whole-text");
      for (int i = 0; i < LEN && size_t(i) < s.size(); i++) sa_assert(s[i] == sa_put_text[i], "whole-text"); }
    sa_clean("no-leak"); sa_reach("end");
}
extern "C" {
void w_format_0() { format<0>(sa_bool()); }
void w_format_3() { format<3>(sa_bool()); }
void w_format_20() { format<20>(sa_bool()); }
void w_format_300() { format<300>(sa_bool()); }
}
