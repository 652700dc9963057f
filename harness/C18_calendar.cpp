// calendar dates and clock times
//@ inline 1000
//@ h date_of_day unwind=2
//@ h next_day unwind=2 tier=thorough
//@ h leap unwind=2
//@ h month_length unwind=2
//@ h validity unwind=2
//@ h year_arith unwind=2
//@ h clock_ms unwind=2
//@ h clock_s unwind=2
//@ h clock_small unwind=2
//@ h clock_us unwind=2
//@ h clock_u32 unwind=2
#include "verif.h"
#include <estd/chrono.h>
using namespace estd; using namespace estd::chrono;
struct unix_clock { typedef int32_t rep; typedef ratio<86400> period; typedef chrono::days duration; typedef chrono::time_point<unix_clock> time_point; };
template <> struct estd::chrono::internal::clock_traits<unix_clock> : estd::chrono::internal::unix_epoch_clock_traits {};
typedef estd::chrono::internal::year_month_day<unix_clock> YMD;
static const unsigned short before[12] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
static const unsigned char length[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static bool leap_year(unsigned y) { return (y & 3) == 0 && (y % 100u != 0 || (y & 15) == 0); }
#ifdef VERIF_THOROUGH
enum : unsigned { Y0 = 1600, Y1 = 2400 };
#else
enum : unsigned { Y0 = 1899, Y1 = 2102 };
#endif
extern "C" void date_of_day()
{
    unsigned short y = verif_u16(); unsigned char m = verif_u8(), d = verif_u8();
    verif_assume(y >= Y0 && y <= Y1 && m >= 1 && m <= 12 && d >= 1 && d <= length[m - 1] + (m == 2 && leap_year(y)));
    unsigned short p = y - 1; int n = 365 * ((int)y - 1970) + (p / 4 - p / 100 + p / 400 - 477) + before[m - 1] + (m > 2 && leap_year(y)) + d - 1;
    YMD v{time_point<unix_clock, days>{days(n)}};
    CHECK((int)v.year() == y, "year of a day"); CHECK((unsigned)v.month() == m, "month of a day"); CHECK((unsigned)v.days() == d, "day of the month");
    verif_reach("date");
}
// one day on is the next date
extern "C" void next_day()
{
    int n = verif_i32(); verif_assume(n >= -40000 && n <= 40000);
    YMD a{time_point<unix_clock, days>{days(n)}}, b{time_point<unix_clock, days>{days(n + 1)}};
    int y = a.year(); unsigned m = a.month(), d = a.days();
    CHECK(m >= 1 && m <= 12 && d >= 1 && d <= length[m - 1] + (m == 2 && leap_year((unsigned)y)), "a date of the calendar");
    bool last = d == length[m - 1] + (m == 2 && leap_year((unsigned)y));
    if(!last) CHECK((int)b.year() == y && b.month() == m && b.days() == d + 1, "next day");
    else if(m < 12) CHECK((int)b.year() == y && b.month() == m + 1 && b.days() == 1, "next month");
    else CHECK((int)b.year() == y + 1 && b.month() == 1 && b.days() == 1, "next year");
    verif_reach("next");
}
extern "C" void leap()
{
    int16_t v = verif_i16(); verif_assume(v != -32768); year y(v); int u = v < 0 ? -v : v;
    CHECK(y.is_leap() == leap_year((unsigned)u), "leap years"); CHECK(y.ok() && (int)y == v && y.value() == v, "year"); CHECK(year::min() <= y && y <= year::max(), "limits");
    verif_reach("leap");
}
extern "C" void month_length()
{
    uint16_t y = verif_u16(); uint8_t m = verif_u8(); verif_assume(y >= 1 && y <= 32767 && m >= 1 && m <= 12);
    typedef estd::chrono::internal::month_day_last<unix_clock> mdl; mdl md{month(m)}; estd::chrono::internal::year_month_day_last<unix_clock> l{year(y), md};
    CHECK((unsigned)l.day() == length[m - 1] + (m == 2 && leap_year(y)), "last day of a month"); CHECK(l.ok() && (int)l.year() == y && md.ok() && md.month() == m, "fields");
    verif_reach("last");
}
extern "C" void validity()
{
    uint8_t m = verif_u8(), d = verif_u8(); int16_t y = verif_i16();
    CHECK(month(m).ok() == (m >= 1 && m <= 12) && day(d).ok() == (d >= 1 && d <= 31) && year(y).ok() == (y != -32768), "range of fields");
    estd::chrono::internal::year_month_day<void> v{year(y), month(m), day(d)}; CHECK(v.year() == y && v.month() == m && v.day() == d, "fields"); CHECK(v.ok() == (m >= 1 && m <= 12 && d >= 1 && d <= 31 && y != -32768), "date fields in range");
    CHECK(January == 1 && February == 2 && March == 3 && April == 4 && May == 5 && June == 6 && July == 7 && August == 8 && September == 9 && October == 10 && November == 11 && December == 12, "names");
    verif_reach("valid");
}
extern "C" void year_arith()
{
    int16_t a = verif_i16(), b = verif_i16(); verif_assume(a + b >= -32767 && a + b <= 32767 && a - b >= -32767 && a - b <= 32767);
    year y(a); year z(b); CHECK((int)(y + years(b)) == a + b && (int)(years(b) + y) == a + b, "years added"); CHECK(&(y += z) == &y && (int)y == a + b, "+="); y -= z; CHECK((int)y == a, "-=");
    day d(verif_below(20)); day e(verif_below(10)); unsigned s = d; d += e; CHECK((unsigned)d == s + e, "days added"); d -= e; CHECK(d == s, "days taken");
    verif_reach("year arith");
}
template <class D, long PER> static void hms(unsigned maxh)
{
    unsigned char h = verif_u8(), m = verif_below(60), s = verif_below(60); unsigned u = verif_below(PER); bool neg = verif_bool();
    verif_assume(h <= maxh); if(!numeric_limits<typename D::rep>::is_signed) verif_assume(!neg);
    long a = ((h * 60L + m) * 60 + s) * PER + u, c = neg ? -a : a; verif_assume(a <= (long)numeric_limits<typename D::rep>::max());
    hh_mm_ss<D> v{D(c)};
    CHECK(v.is_negative() == (c < 0), "sign"); CHECK(v.hours().count() == h, "hours"); CHECK(v.minutes().count() == m, "minutes"); CHECK(v.seconds().count() == s, "seconds"); CHECK(v.subseconds().count() == u, "rest");
    CHECK(v.to_duration().count() == c && v.operator D().count() == c, "the duration itself");
}
#ifdef VERIF_THOROUGH
enum : unsigned { H = 255, HM = 30 };
#else
enum : unsigned { H = 30, HM = 6 };
#endif
extern "C" void clock_ms() { hms<milliseconds, 1000>(HM); verif_reach("ms"); }
extern "C" void clock_s() { hms<seconds, 1>(255); verif_reach("s"); }
extern "C" void clock_us() { hms<microseconds, 1000000>(1); verif_reach("us"); }
extern "C" void clock_small() { hms<duration<int16_t, milli>, 1000>(0); verif_reach("small"); }
extern "C" void clock_u32() { hms<duration<uint32_t, deci>, 10>(H); verif_reach("u32"); }
