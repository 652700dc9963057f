// durations, time points and units: exact arithmetic across periods
//@ inline 1000
//@ h finer unwind=2
//@ h coarser unwind=2
//@ h fractional unwind=2
//@ h round_trip unwind=2
//@ h compare unwind=2
//@ h compare_fraction unwind=2
//@ h sums unwind=2
//@ h assign_ops unwind=2
//@ h absolute unwind=2
//@ h points unwind=2
//@ h std_interop unwind=2
//@ h units_convert unwind=2
//@ h units_arith unwind=2
//@ h units_projected unwind=2
//@ h units_percent unwind=2
//@ h promoted unwind=2
//@ h ratios unwind=2
#include "verif.h"
#include <estd/chrono.h>
#include <estd/internal/units/base.h>
#include <estd/internal/units/operators.hpp>
#include <estd/internal/units/percent.h>
#include <estd/internal/units/bytes.h>
using namespace estd; using namespace estd::chrono;
struct test_clock { typedef int64_t rep; typedef ratio<1, 15> period; typedef chrono::duration<rep, period> duration; typedef chrono::time_point<test_clock> time_point; };
typedef duration<int64_t, ratio<1, 15>> ticks;
#ifdef VERIF_THOROUGH
enum : long { LIM = 1000000000000L, RT = 1000000 };
#else
enum : long { LIM = 2000000000L, RT = 100000 };
#endif
static long pick(long lim = LIM) { long v = verif_i64(); verif_assume(v >= -lim && v <= lim); return v; }
template <class To, class From> static void exact(long lim, long n)
{
    long c = pick(lim); verif_assume(numeric_limits<typename From::rep>::is_signed || c >= 0); From f(c); To t(f); To t2 = duration_cast<To>(f);
    CHECK((long)t.count() == c * n && t2.count() == t.count(), "conversion to a finer period is exact");
}
extern "C" void finer()
{
    exact<milliseconds, seconds>(LIM, 1000); exact<seconds, minutes>(100000000, 60); exact<minutes, hours>(30000000, 60); exact<hours, days>(80000000, 24); exact<days, weeks>(300000000, 7);
    exact<nanoseconds, milliseconds>(LIM, 1000000); exact<microseconds, hours>(2000000, 3600000000L); exact<milliseconds, days>(2000000, 86400000L);
    exact<duration<uint32_t, deci>, duration<uint32_t>>(400000000, 10);
    verif_reach("finer");
}
// result is p / den rounded towards zero
static bool is_trunc(long q, long p, long den) { long r = p - q * den; return p >= 0 ? (r >= 0 && r < den) : (r <= 0 && r > -den); }
template <class To, class From> static void trunc_to(long lim, long num, long den)
{
    long c = pick(lim); From f(c); To t(f); CHECK(is_trunc((long)t.count(), c * num, den), "conversion to a coarser period truncates"); CHECK(duration_cast<To>(f) == t, "duration_cast");
}
extern "C" void coarser()
{
    unsigned k = verif_below(6);
    switch(k)
    {
        case 0: trunc_to<seconds, milliseconds>(LIM, 1, 1000); break;
        case 1: trunc_to<minutes, seconds>(LIM, 1, 60); break;
        case 2: trunc_to<days, hours>(LIM, 1, 24); break;
        case 3: trunc_to<milliseconds, nanoseconds>(LIM, 1, 1000000); break;
        case 4: trunc_to<hours, milliseconds>(LIM, 1, 3600000); break;
        case 5: trunc_to<weeks, days>(LIM, 1, 7); break;
    }
    verif_reach("coarser");
}
extern "C" void fractional()
{
    if(verif_bool()) trunc_to<milliseconds, ticks>(LIM, 200, 3); else trunc_to<ticks, milliseconds>(LIM, 3, 200);
    verif_reach("fractional");
}
extern "C" void round_trip()
{
    long c = pick(RT); unsigned k = verif_below(3);
    if(k == 0) { seconds s(c); milliseconds m(s); CHECK(seconds(m) == s && m == s, "s - ms - s"); }
    else if(k == 1) { hours h(c); seconds s(h); CHECK(hours(s).count() == c && s == h, "h - s - h"); }
    else { weeks w(c); days d(w); CHECK(weeks(d).count() == c && d == w, "w - d - w"); }
    verif_reach("round trip");
}
// a is ka, b is kb per count of a common unit
template <class A, class B> static void cmp(long la, long ka, long lb, long kb)
{
    long x = pick(la), y = pick(lb); verif_assume(numeric_limits<typename B::rep>::is_signed || y >= 0); A a(x); B b(y); long p = x * ka, q = y * kb;
    CHECK((a == b) == (p == q) && (a != b) == (p != q), "equality is of the times");
    CHECK((a < b) == (p < q) && (a > b) == (p > q), "order is of the times");
    CHECK((a <= b) == (p <= q) && (a >= b) == (p >= q), "weak order is of the times");
}
extern "C" void compare()
{
    cmp<seconds, milliseconds>(LIM, 1000, LIM, 1); cmp<milliseconds, seconds>(LIM, 1, LIM, 1000); cmp<minutes, seconds>(2000000000, 60, LIM, 1); cmp<hours, days>(80000000, 1, 80000000, 24);
    cmp<duration<int8_t, milli>, milliseconds>(127, 1, LIM, 1); cmp<milliseconds, duration<uint16_t, milli>>(LIM, 1, 32000, 1);
    verif_reach("compare");
}
extern "C" void compare_fraction() { cmp<ticks, milliseconds>(LIM, 200, LIM, 3); cmp<milliseconds, ticks>(LIM, 3, LIM, 200); verif_reach("compare fraction"); }
template <class A, class B, long KA, long KB, long KC> static void sum(long la, long lb)
{
    long x = pick(la), y = pick(lb); A a(x); B b(y);
    auto s = a + b; auto d = a - b;
    CHECK((long)s.count() * KC == x * KA + y * KB, "sum is exact"); CHECK((long)d.count() * KC == x * KA - y * KB, "difference is exact");
}
extern "C" void sums()
{
    sum<seconds, milliseconds, 1000, 1, 1>(LIM, LIM); sum<hours, days, 1, 24, 1>(1000000000, 40000000); sum<ticks, milliseconds, 200, 3, 1>(LIM, LIM); sum<minutes, minutes, 1, 1, 1>(1000000000, 1000000000);
    sum<duration<int8_t, milli>, seconds, 1, 1000, 1>(127, LIM); sum<duration<uint8_t, micro>, duration<int16_t, micro>, 1, 1, 1>(0, 32000);
    unsigned char u = verif_u8(); int16_t w = verif_i16(); verif_assume(w >= -32000 && w <= 32000);
    CHECK((duration<uint8_t, micro>(u) + duration<int16_t, micro>(w)).count() == u + w, "mixed signs");
    long x = pick(); int m = verif_i16(); CHECK((seconds(x) * m).count() == x * m, "multiple");
    verif_reach("sums");
}
extern "C" void assign_ops()
{
    long x = pick(), y = pick(); int m = verif_i16(); milliseconds a(x);
    unsigned k = verif_below(6);
    switch(k)
    {
        case 0: CHECK(&(a += milliseconds(y)) == &a && a.count() == x + y, "+="); break;
        case 1: CHECK(&(a -= milliseconds(y)) == &a && a.count() == x - y, "-="); break;
        case 2: CHECK(&(a *= m) == &a && a.count() == x * m, "*="); break;
        case 3: a += seconds(y); CHECK(a.count() == x + y * 1000, "+= of another period"); break;
        case 4: CHECK((-a).count() == -x && (+a).count() == x && a.count() == x, "unary"); break;
        case 5: a -= seconds(y); CHECK(a.count() == x - y * 1000, "-= of another period"); break;
    }
    milliseconds c(a); CHECK(c == a, "copy"); a = seconds(y); CHECK(a.count() == y * 1000, "assignment of another period");
    long z = verif_i64(); CHECK(seconds::zero().count() == 0 && seconds::min().count() <= z && seconds::max().count() >= z, "limits");
    CHECK(days::min().count() == -2147483647 - 1 && days::max().count() == 2147483647, "limits of a small representation");
    verif_reach("assign");
}
extern "C" void absolute()
{
    long x = pick(); milliseconds a(x); auto b = abs(a); CHECK(b.count() == (x < 0 ? -x : x), "abs");
    int8_t s = verif_i8(); verif_assume(s != -128); duration<int8_t, milli> c(s); CHECK(abs(c).count() == (s < 0 ? -s : s), "abs of 8 bits");
    uint16_t u = verif_u16(); CHECK(chrono::abs(duration<uint16_t, milli>(u)).count() == u, "abs of unsigned");
    verif_reach("abs");
}
extern "C" void points()
{
    typedef test_clock::time_point tp;
    long x = pick(), y = pick(), z = pick(); tp a{ticks(x)}, b{ticks(y)}; CHECK(tp().time_since_epoch().count() == 0, "epoch");
    CHECK((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a >= b) == (x >= y), "order");
    CHECK((a - b).count() == x - y, "difference");
    CHECK((a + ticks(z)).time_since_epoch().count() == x + z && (a - ticks(z)).time_since_epoch().count() == x - z, "shifted");
    CHECK((a + ticks(z)) - ticks(z) == a, "there and back"); CHECK(a + (b - a) == b, "difference leads there");
    tp c(a); c += ticks(z); CHECK(c.time_since_epoch().count() == x + z && c - a == ticks(z), "+="); c -= ticks(z); CHECK(c == a, "-=");
    // another resolution
    time_point<test_clock, seconds> s{seconds(y)}; tp d(s); CHECK(d.time_since_epoch().count() == y * 15, "finer point"); CHECK((a < s) == (x < y * 15) && (a == s) == (x == y * 15) && (s > a) == (y * 15 > x), "order across resolutions"); CHECK((a - s).count() == x - y * 15, "difference across resolutions");
    CHECK(tp::min().time_since_epoch() == ticks::min(), "min");
    verif_reach("points");
}
extern "C" void std_interop()
{
    long x = pick(); int y = verif_i32();
    milliseconds a(std::chrono::seconds{x}); CHECK(a.count() == x * 1000, "from std");
    std::chrono::milliseconds b = a; CHECK(b.count() == a.count(), "to std");
    seconds s(std::chrono::milliseconds{x}); CHECK(is_trunc(s.count(), x, 1000), "from finer std");
    CHECK(chrono::duration_cast<seconds>(std::chrono::minutes{y}).count() == 60L * y, "duration_cast from std");
    std::chrono::time_point<std::chrono::steady_clock, std::chrono::milliseconds> p{std::chrono::milliseconds{x}};
    CHECK((p + milliseconds(y)).time_since_epoch().count() == x + y && (p - milliseconds(y)).time_since_epoch().count() == x - y, "std point shifted");
    verif_reach("std");
}
using namespace estd::internal::units;
struct deg_tag {};
template <class R, class P = ratio<1>, class F = passthrough<R>> using deg = unit_base<R, P, deg_tag, F>;
extern "C" void units_convert()
{
    uint32_t n = verif_u32(); verif_assume(n < 4000000);
    kilobytes<uint32_t> k(n); bytes<uint32_t> b(k); CHECK(b.count() == n * 1024, "kilobytes in bytes"); CHECK(kilobytes<uint32_t>(b).count() == n && b == k, "and back");
    bytes<uint32_t> c(n); CHECK(kilobytes<uint32_t>(c).count() == n / 1024, "bytes in whole kilobytes"); CHECK(megabytes<uint32_t>(c).count() == n >> 20, "bytes in whole megabytes");
    int16_t t = verif_i16(); percent<int16_t, ratio<1, 10>> p(t); CHECK(is_trunc(percent<int>(p).count(), t, 10), "tenths of percent");
    percent<int16_t, ratio<100, 1024>> adc(t); CHECK(is_trunc(percent<int>(adc).count(), t * 100L, 1024), "ratio that is not a power of ten");
    percent<int> q(0); q = p; CHECK(is_trunc(q.count(), t, 10), "assignment converts");
    verif_reach("units");
}
extern "C" void units_arith()
{
    int16_t x = verif_i16(), y = verif_i16(); typedef deg<int32_t, ratio<1, 10>> tenth; typedef deg<int32_t> whole;
    tenth a(x); whole b(y); long q = 10L * y;
    CHECK((a + b).count() == x + q && (a - b).count() == x - q && (b + a).count() == x + q && (b - a).count() == q - x, "sum across ratios");
    CHECK((a == b) == (x == q) && (a != b) == (x != q) && (a < b) == (x < q) && (a > b) == (x > q) && (a <= b) == (x <= q) && (a >= b) == (x >= q), "order across ratios");
    tenth c(a); c += b; CHECK(c.count() == x + q, "+= of a coarser unit"); c -= b; CHECK(c == a, "-= of a coarser unit");
    c += tenth(y); CHECK(c.count() == x + y, "+="); c -= tenth(y); CHECK(c.count() == x, "-="); ++c; CHECK(c.count() == x + 1, "++"); CHECK((-c).count() == -x - 1, "negation");
    whole d(y); d += x; CHECK(d.count() == x + y, "+= of a number"); d -= x; CHECK(d.count() == y, "-= of a number"); CHECK((d == x) == (y == x) && (d < x) == (y < x) && (d > x) == (y > x), "comparison with a number");
    verif_reach("units arith");
}
extern "C" void units_projected()
{
    // a raw byte that stands for -40 .. 215 degrees
    typedef deg<uint8_t, ratio<1>, subtractor<int16_t, 40>> raw; typedef deg<int16_t> plain; typedef deg<int16_t, ratio<1, 10>> tenth;
    uint8_t r = verif_u8(); raw a(r); CHECK(a.root_count() == r && a.count() == r - 40, "projection");
    plain p(a); CHECK(p.count() == r - 40, "projected to plain"); raw b(p); CHECK(b.root_count() == r && b.count() == r - 40, "plain to projected");
    tenth t(a); CHECK(t.count() == 10 * (r - 40), "projected to finer"); raw c(t); CHECK(c == a, "finer to projected");
    raw d(0); d = p; CHECK(d == a, "assigned plain"); d = raw(0); d = t; CHECK(d == a, "assigned finer");
    typedef deg<uint16_t, ratio<1>, adder<int32_t, 1000>> up; up u(r); CHECK(u.count() == r + 1000, "adder"); plain pu(deg<int16_t>((int16_t)u.count())); up v{deg<int32_t>(u.count())}; CHECK(v.root_count() == r, "adder reversed"); (void)pu;
    verif_reach("projected");
}
extern "C" void units_percent()
{
    uint8_t p = verif_u8(); int16_t lo = verif_i16(), hi = verif_i16(); verif_assume(p <= 100 && lo >= -100 && hi >= lo && hi <= 100);
    auto v = get_from_percent(percent<int>(p), deg<int>(lo), deg<int>(hi));
    CHECK(is_trunc(v.count() - lo, (long)(hi - lo) * p, 100), "share of a range"); CHECK(v >= deg<int>(lo) && v <= deg<int>(hi), "inside the range");
    auto w = get_from_percent(percent<int, ratio<1, 10>>(p), deg<int>(hi < 0 ? 0 : hi)); CHECK(is_trunc(w.count(), (long)(hi < 0 ? 0 : hi) * p, 1000), "tenths of percent of a maximum");
    verif_reach("percent");
}
template <class A, class B> static void prom()
{
    typedef typename promoted_type<A, B>::type T; typedef typename promoted_type<B, A>::type U;
    uint64_t r = verif_u64(); A a = (A)r; B b = (B)r;
    CHECK((T)a == a && ((T)a < 0) == (a < 0) && (T)b == b && ((T)b < 0) == (b < 0), "every value fits the promoted type");
    CHECK((U)a == a && ((U)a < 0) == (a < 0) && (U)b == b && ((U)b < 0) == (b < 0), "either way round");
}
extern "C" void promoted()
{
    prom<int8_t, int8_t>(); prom<int8_t, uint8_t>(); prom<uint8_t, int16_t>(); prom<int16_t, uint16_t>(); prom<int8_t, int64_t>(); prom<uint16_t, int32_t>(); prom<uint32_t, int32_t>(); prom<uint32_t, int64_t>(); prom<int16_t, int32_t>(); prom<uint8_t, uint16_t>();
    verif_reach("promoted");
}
template <class R, long N, long D> static bool is_ratio() { return R::type::num == N && R::type::den == D; }
extern "C" void ratios()
{
    // the factors are compile-time constants: what is free is the count they are applied to
    int16_t c = verif_i16(); typedef ratio<6, 4> a; typedef ratio<10, 15> b;
    CHECK((is_ratio<a, 3, 2>()) && (is_ratio<b, 2, 3>()), "reduced");
    CHECK((is_ratio<detail::ratio_multiply<a, b>, 1, 1>()) && (is_ratio<detail::ratio_divide<a, b>, 9, 4>()) && (is_ratio<detail::ratio_add<a, b>, 13, 6>()), "ratio arithmetic");
    CHECK((is_ratio<detail::ratio_divide<milli, micro>, 1000, 1>()) && (is_ratio<detail::ratio_divide<ratio<60>, ratio<3600>>, 1, 60>()), "ratio of periods");
    CHECK((estd::internal::gcd<24, 18>::value == 6) && (estd::internal::gcd<18, 24>::value == 6) && (estd::internal::gcd<7, 0>::value == 7) && (estd::internal::lcm<4, 6>::value == 12) && (estd::internal::lcm<15, 1000>::value == 3000), "gcd and lcm");
    // unreduced periods mean the same
    CHECK((duration<int32_t, ratio<10, 20>>(c) == duration<int32_t, ratio<1, 2>>(c)), "unreduced period"); CHECK((seconds(duration<int32_t, ratio<120, 2>>(c)).count() == 60L * c), "unreduced conversion");
    verif_reach("ratio");
}
