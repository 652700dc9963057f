// Units on streams
//@ h count_signed unwind=10
//@ h count_unsigned unwind=12
//@ h count_double unwind=10
//@ h count_fraction unwind=10
//@ h count_large unwind=14
//@ h abbrev unwind=10
//@ h names_up unwind=10
//@ h names_down unwind=10
//@ h names_bytes unwind=10
//@ h percents unwind=10
//@ h base_of unwind=10
#include "verif.h"
#include <estd/sstream.h>
#include <estd/internal/units/ostream.h>
#include <estd/internal/units/bytes.h>
#include <estd/internal/units/percent.h>
using namespace estd::internal::units;
struct volt_tag {};
template <class Rep, class Period = estd::ratio<1> > using volt = unit_base<Rep, Period, volt_tag, passthrough<Rep> >;
namespace estd { namespace internal { namespace units {
template <> struct traits<volt_tag> { static constexpr const char* name() { return "volt"; } static constexpr const char* abbrev() { return "V"; } };
}}}
// a stream buffer which keeps what it is given
struct keep : estd::internal::impl::streambuf_base<estd::char_traits<char> >
{
    typedef char char_type;
    char b[24]; unsigned n;
    keep() : n(0) {}
    int_type sputc(char c) { CHECK(n < 24, "text is short"); b[n++] = c; return (unsigned char)c; }
    estd::streamsize xsputn(const char* s, estd::streamsize k)
    {
        CHECK(k >= 0 && k <= 12 && n + k <= 24, "text is short");
        for(int i = 0; i < k; ++i) b[n + i] = s[i];
        n += k;
        return k;
    }
    unsigned size() const { return n; }
    char operator[](unsigned i) const { return b[i]; }
};
typedef estd::detail::basic_ostream<estd::detail::streambuf<keep> > os32;
// what is in the stream is the digits of a value, as read back, then 'rest'
template <class S> static bool text(const S& s, unsigned from, const char* rest)
{
    unsigned n = s.size(), k = 0;
    while(rest[k]) ++k;
    if(n != from + k) return false;
    for(unsigned i = 0; i < k; ++i) if(s[from + i] != rest[i]) return false;
    return true;
}
// reads [-]digits, returns how many characters
template <class S> static unsigned number(const S& s, int& v, bool& neg)
{
    unsigned i = 0, n = s.size(); v = 0; neg = false;
    if(n && s[0] == '-') { neg = true; i = 1; }
    unsigned first = i;
    for(; i < n && i < 7 && s[i] >= '0' && s[i] <= '9'; ++i) v = v * 10 + (s[i] - '0');
    CHECK(i > first, "there are digits");
    CHECK(s[first] != '0' || i == first + 1, "no leading zeros");
    if(neg) v = -v;
    return i;
}
extern "C" void count_signed()
{
    os32 o; auto& s = *o.rdbuf();
    int16_t x = verif_i16(); int v; bool neg;
    o << estd::put_unit(volt<int16_t>(x));
    unsigned n = number(s, v, neg);
    CHECK(v == x && neg == (x < 0), "count");
    CHECK(text(s, n, "V"), "no space before an abbreviation");
    verif_reach("signed");
}
extern "C" void count_unsigned()
{
    os32 o; auto& s = *o.rdbuf();
    uint16_t x = verif_u16(); int v; bool neg;
    o << estd::put_unit(volt<uint16_t, estd::milli>(x), false);
    unsigned n = number(s, v, neg);
    CHECK(v == x && !neg, "count");
    CHECK(text(s, n, " millivolt"), "a space before a name");
    verif_reach("unsigned");
}
// hundredths: whole part, point, two digits, dropping the rest
static void hundredths(double d, int h, const char* unit)
{
    os32 o; auto& s = *o.rdbuf();
    int v; bool neg;
    o << estd::put_unit(volt<double>(d));
    unsigned n = number(s, v, neg);
    CHECK(v == h / 100, "whole part");
    CHECK(neg == (h < 0), "sign");
    int f = h % 100; if(f < 0) f = -f;
    char t[6] = { '.', (char)('0' + f / 10), (char)('0' + f % 10), 'V', 0 };
    CHECK(text(s, n, t), "two digits after the point");
    verif_reach("double");
}
extern "C" void count_double()
{
    int q = verif_i16();        // quarters
    hundredths(q / 4.0, q * 25, "V");
}
extern "C" void count_fraction()
{
    int q = verif_i8();         // 1/64ths around zero: fractions finer than hundredths are dropped
    hundredths(q / 64.0, q * 100 / 64, "V");
}
// large counts: whole parts beyond 32 bits, and hundredths of them
static void large(double base, unsigned q, const char* whole)
{
    os32 o; auto& s = *o.rdbuf();
    o << estd::put_unit(volt<double>(base < 0 ? base - q / 4.0 : base + q / 4.0));
    unsigned k = 0; while(whole[k]) ++k;
    CHECK(s.n == k + 4, "length");
    unsigned i = verif_below(12);
    if(i < k) CHECK(s[i] == whole[i], "whole part");
    CHECK(s[k] == '.' && s[k + 1] == (char)('0' + (q * 25) / 10) && s[k + 2] == (char)('0' + (q * 25) % 10) && s[k + 3] == 'V', "two digits after the point");
    verif_reach("large");
}
extern "C" void count_large()
{
    unsigned q = verif_below(4);
    large(-3000000000.0, q, "-3000000000");
}
template <class U> static void one(U u, unsigned x, unsigned op, const char* ab, const char* full)
{
    os32 o; auto& s = *o.rdbuf();
    switch(op)
    {
        case 0: o << estd::put_unit(u); break;
        case 1: o << estd::put_unit(u, false); break;
        case 2: write(o, u); break;
        case 3: write_abbrev(o, u); break;
        default: write_abbrev(o, u, true);
    }
    CHECK(s.n > 0 && s[0] == (char)('0' + x), "count");
    if(op == 1 || op == 2) CHECK(s[1] == ' ' && text(s, 2, full), "in full");
    else if(op == 4) CHECK(s[1] == ' ' && text(s, 2, ab), "abbreviated with a space");
    else CHECK(text(s, 1, ab), "abbreviated");
}
template <class P, bool all = false> static void prefix(const char* ab, const char* full)
{
    uint8_t x = 7;
    if(all) { x = verif_u8(); verif_assume(x < 10); }
    volt<unsigned, P> u(x);
    for(unsigned op = 0; op < (all ? 5 : 2); ++op) one(u, x, op, ab, full);
}
extern "C" void abbrev() { prefix<estd::ratio<1>, true>("V", "volt"); prefix<estd::kilo, true>("kV", "kilovolt"); verif_reach("prefix"); }
extern "C" void names_up()
{
    prefix<estd::deca>("daV", "decavolt"); prefix<estd::mega>("MV", "megavolt"); prefix<estd::giga>("GV", "gigavolt"); prefix<estd::tera>("TV", "teravolt");
    verif_reach("names");
}
extern "C" void names_down()
{
    prefix<estd::deci>("dV", "decivolt"); prefix<estd::centi>("cV", "centivolt"); prefix<estd::milli>("mV", "millivolt");
    prefix<estd::micro>("uV", "microvolt"); prefix<estd::nano>("nV", "nanovolt");
    verif_reach("names");
}
extern "C" void names_bytes()
{
    unsigned x = 7;
    for(unsigned op = 0; op < 2; ++op)
    {
        one(bytes<unsigned>(x), x, op, "B", "bytes");
        one(kilobytes<unsigned>(x), x, op, "kB", "kilobytes");
        one(megabytes<unsigned>(x), x, op, "MB", "megabytes");
        one(gigabytes<unsigned>(x), x, op, "GB", "gigabytes");
        one(percent<unsigned>(x), x, op, "%", "percent");
    }
    verif_reach("bytes");
}
extern "C" void percents()
{
    os32 o; auto& s = *o.rdbuf();
    uint8_t p = verif_u8(); int v; bool neg;
    o << estd::put_unit(percent<unsigned>(p));
    unsigned n = number(s, v, neg);
    CHECK(v == p && text(s, n, "%"), "percent");
    verif_reach("percent");
}
extern "C" void base_of()
{
    os32 o; auto& s = *o.rdbuf();
    uint8_t x = verif_u8(); int v; bool neg;
    o << estd::hex;
    o << estd::put_unit(volt<double>(x));
    unsigned n = number(s, v, neg);
    CHECK(v == x && text(s, n, ".00V"), "fractions are decimal whatever the base");
    verif_reach("base");
}
