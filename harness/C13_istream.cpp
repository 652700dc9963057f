// input streams and number extraction against a small reference reader
//@ inline 1000
//@ h num_u8 unwind=6
//@ h num_i8 unwind=7
//@ h num_i16 unwind=8 tier=thorough timeout=1500
//@ h num_hex unwind=6
//@ h num_oct unwind=6
//@ h range_i8 unwind=7
//@ h range_i16 unwind=8
//@ h range_u16 unwind=7
//@ h range_hex unwind=7
//@ h range_float unwind=7 tier=thorough timeout=1500
//@ h bool_num unwind=7
//@ h bool_alpha unwind=9
//@ h two_numbers unwind=6 unwind_thorough=7
//@ h word unwind=9
//@ h character unwind=9
//@ h unformatted unwind=8
//@ h get_line unwind=8
//@ h lines unwind=8
//@ h ignore_delim unwind=8
//@ h char_class unwind=4
//@ h sized unwind=8 tier=thorough timeout=1500
#include "verif.h"
#include <estd/istream.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/span.h>
#include <estd/limits.h>
using namespace estd;
typedef detail::basic_ispanstream<const char> isp;
typedef std::char_traits<char> tr;
static unsigned none = 0;
static char ch() { return (char)verif_u8(); }
static bool sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int dig(char c, int base)
{
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
    return d < base ? d : -1;
}
// what reading one number out of d[p..n) has to do
struct Num { long v; bool fail; bool eof; unsigned p; };
static Num expect(const char* d, unsigned p, unsigned n, unsigned N, int base, bool sgn, long lo, long hi, bool skip)
{
    Num r = {0, false, false, p};
    bool inws = skip, neg = false, first = true, over = false, done = false; unsigned nd = 0; long acc = 0;
    for(unsigned i = 0; i < N; ++i) if(i >= p && i < n && !done)
    {
        char c = d[i]; int g = dig(c, base);
        if(inws && sp(c)) { r.p = i + 1; continue; }
        inws = false;
        if(first && sgn && c == '-') { neg = true; first = false; r.p = i + 1; continue; }
        first = false;
        if(g < 0) { done = true; continue; }
        ++nd; r.p = i + 1;
        if(!over) { acc = acc * base + (neg ? -g : g); if(acc < lo || acc > hi) over = true; }
    }
    r.fail = nd == 0 || over;
    r.v = nd == 0 ? 0 : over ? (neg ? lo : hi) : acc;
    r.eof = !done;
    return r;
}
template <class T, unsigned N> static void num(int base, unsigned mode)
{
    char d[N]; for(unsigned i = 0; i < N; ++i) d[i] = ch();
    unsigned n = verif_upto(N);
    isp in(span<const char>(d, n));
    if(mode == 1) in >> hex;
    if(mode == 2) in.setf(ios_base::oct, ios_base::basefield);
    T v = 1; in >> v;
    Num r = expect(d, 0, n, N, base, estd::is_signed<T>::value, estd::numeric_limits<T>::min(), estd::numeric_limits<T>::max(), true);
    CHECK((long)v == r.v, "value");
    CHECK(in.fail() == r.fail, "failure");
    if(!r.fail) CHECK(in.eof() == r.eof, "end of input");
    CHECK(!in.bad(), "never bad");
    if(!(r.fail && r.eof)) CHECK((unsigned)(in.rdbuf()->gptr() - d) == r.p, "stops at the first character which is no part of the number");
}
extern "C" void num_u8() { num<uint8_t, 4>(10, 0); verif_reach("u8"); }
extern "C" void num_i8() { num<int8_t, 5>(10, 0); verif_reach("i8"); }
extern "C" void num_i16() { num<int16_t, 7>(10, 0); verif_reach("i16"); }
extern "C" void num_hex() { num<uint8_t, 3>(16, 1); verif_reach("hex"); }
extern "C" void num_oct() { num<uint8_t, 4>(8, 2); verif_reach("oct"); }
extern "C" void sized() { num<int32_t, 7>(10, 0); verif_reach("i32"); }
// the facet over a plain range
template <class T, unsigned N> static void range(int base, ios_base::fmtflags fl)
{
    char d[N]; for(unsigned i = 0; i < N; ++i) d[i] = ch();
    unsigned n = verif_upto(N);
    isp fmt(span<const char>(d, none)); fmt.setf(fl, ios_base::basefield);
    num_get<char, const char*> g;
    ios_base::iostate st = ios_base::goodbit; T v = 1;
    const char* e = g.get(d, d + n, fmt, st, v);
    Num r = expect(d, 0, n, N, base, estd::is_signed<T>::value, estd::numeric_limits<T>::min(), estd::numeric_limits<T>::max(), false);
    CHECK((long)v == r.v, "value");
    CHECK(!!(st & ios_base::failbit) == r.fail, "failure");
    CHECK(!!(st & ios_base::eofbit) == r.eof, "end of input");
    CHECK(e == d + r.p, "end");
}
extern "C" void range_i8() { range<int8_t, 5>(10, ios_base::dec); verif_reach("i8"); }
extern "C" void range_i16() { range<int16_t, 7>(10, ios_base::dec); verif_reach("i16"); }
extern "C" void range_u16() { range<uint16_t, 6>(10, ios_base::dec); verif_reach("u16"); }
extern "C" void range_hex() { range<int8_t, 4>(16, ios_base::hex); verif_reach("hex"); }
extern "C" void range_float()
{
    char d[4]; for(unsigned i = 0; i < 4; ++i) d[i] = ch();
    unsigned n = verif_upto(4); verif_assume(n > 0);
    bool neg = d[0] == '-'; unsigned s = neg, dots = 0, digs = 0; float num = 0, den = 1;
    for(unsigned i = 0; i < 4; ++i) if(i >= s && i < n)
    {
        if(d[i] == '.') { ++dots; verif_assume(dots < 2); }
        else { int g = dig(d[i], 10); verif_assume(g >= 0); ++digs; num = num * 10 + (neg ? -g : g); if(dots) den *= 10; }
    }
    verif_assume(digs && d[s] != '.');
    isp fmt(span<const char>(d, none));
    num_get<char, const char*> g; ios_base::iostate st = ios_base::goodbit; float v = 1;
    g.get(d, d + n, fmt, st, v);
    CHECK(v == num / den && st == ios_base::eofbit, "value");
    verif_reach("float");
}
extern "C" void bool_num()
{
    char d[2] = {ch(), ch()}; unsigned n = verif_upto(2);
    isp fmt(span<const char>(d, none)); num_get<char, const char*> g; ios_base::iostate st = ios_base::goodbit; bool v = verif_bool();
    const char* e = g.get(d, d + n, fmt, st, v);
    if(n == 0) CHECK(!v && (st & ios_base::failbit), "empty");
    else { CHECK(v == (d[0] != '0') && !!(st & ios_base::failbit) == (d[0] != '0' && d[0] != '1') && e == d + 1, "0 or 1"); }
    verif_reach("bool");
}
extern "C" void bool_alpha()
{
    char d[6]; for(unsigned i = 0; i < 6; ++i) d[i] = ch();
    unsigned n = verif_upto(6);
    isp fmt(span<const char>(d, none)); fmt.setf(ios_base::boolalpha);
    num_get<char, const char*> g; ios_base::iostate st = ios_base::goodbit; bool v = verif_bool();
    const char* e = g.get(d, d + n, fmt, st, v);
    static const char t[] = "true", f[] = "false";
    bool ist = n >= 4, isf = n >= 5;
    for(unsigned i = 0; i < 4; ++i) if(d[i] != t[i]) ist = false;
    for(unsigned i = 0; i < 5; ++i) if(d[i] != f[i]) isf = false;
    CHECK(!(st & ios_base::failbit) == (ist || isf), "accepts exactly the two names");
    CHECK(v == ist, "value");
    if(ist) CHECK(e == d + 4, "end"); if(isf) CHECK(e == d + 5, "end");
    verif_reach("alpha");
}
#ifdef VERIF_THOROUGH
enum : unsigned { W2 = 5 };
#else
enum : unsigned { W2 = 4 };
#endif
extern "C" void two_numbers()
{
    char d[W2]; for(unsigned i = 0; i < W2; ++i) d[i] = ch();
    isp in(span<const char>(d, (unsigned)W2));
    uint8_t a = 1, b = 1;
    Num r = expect(d, 0, W2, W2, 10, false, 0, 255, true); verif_assume(!r.fail && !r.eof);
    in >> a; CHECK(a == r.v && in.good(), "first");
    Num q = expect(d, r.p, W2, W2, 10, false, 0, 255, true);
    in >> b; CHECK((long)b == q.v && in.fail() == q.fail, "second");
    verif_reach("two");
}
// in >> string : skips blanks, takes everything up to the next blank
extern "C" void word()
{
    char d[6]; for(unsigned i = 0; i < 6; ++i) { d[i] = ch(); verif_assume(d[i] != 0); }
    unsigned n = verif_upto(6);
    isp in(span<const char>(d, n));
    layer1::string<8> s = "x"; in >> s;
    unsigned a = 0, b; while(a < n && sp(d[a])) ++a; b = a; while(b < n && !sp(d[b])) ++b;
    CHECK(s.size() == b - a, "length");
    unsigned i = verif_below(6); if(i < b - a) CHECK(s.data()[i] == d[a + i], "content");
    CHECK(in.fail() == (a == b) && in.eof() == (b == n), "state");
    CHECK(in.rdbuf()->gptr() == d + b, "stops at the blank");
    verif_reach("word");
}
extern "C" void character()
{
    char d[4]; for(unsigned i = 0; i < 4; ++i) d[i] = ch();
    unsigned n = verif_upto(4);
    isp in(span<const char>(d, n));
    char c = '?'; in >> c;
    unsigned a = 0; while(a < n && sp(d[a])) ++a;
    if(a < n) CHECK(c == d[a] && in.good() && in.rdbuf()->gptr() == d + a + 1, "next non blank");
    else CHECK(c == '?' && in.fail() && in.eof(), "none left");
    verif_reach("char");
}
extern "C" void unformatted()
{
    char d[5]; for(unsigned i = 0; i < 5; ++i) d[i] = ch();
    unsigned n = verif_upto(5), p = 0;
    isp in(span<const char>(d, n));
    for(unsigned s = 0; s < 3; ++s)
    {
        in.clear();
        unsigned op = verif_below(7), k = verif_upto(4), t = k < n - p ? k : n - p;
        char o[5]; for(unsigned i = 0; i < 5; ++i) o[i] = '?';
        int here = p < n ? (int)(unsigned char)d[p] : (int)tr::eof();
        if(op == 0) { CHECK(in.get() == here && in.gcount() == (p < n), "get"); CHECK(in.fail() == (p == n) && in.eof() == (p == n), "get state"); if(p < n) ++p; }
        else if(op == 1) { CHECK(in.peek() == here, "peek"); CHECK(in.gcount() == 0, "peek extracts nothing"); }
        else if(op == 2 || op == 3)
        {
            if(op == 2) { in.read(o, k); CHECK(in.fail() == (t < k) && in.eof() == (t < k), "read state"); }
            else CHECK(in.readsome(o, k) == (long)t && !in.fail(), "readsome");
            CHECK(in.gcount() == (long)t, "gcount");
            for(unsigned i = 0; i < 5; ++i) CHECK(o[i] == (i < t ? d[p + i] : '?'), "block");
            p += t;
        }
        else if(op == 4) { in.ignore(k); CHECK(in.gcount() == (long)t && in.eof() == (t < k), "ignore"); p += t; }
        else if(op == 5) { in.unget(); CHECK(in.bad() == (p == 0) && in.gcount() == 0, "unget"); if(p) --p; }
        else { in.seekg((long)k - (long)p, ios_base::cur); verif_assume(k <= n); p = k; }
        CHECK(in.rdbuf()->gptr() == d + p, "position");
    }
    verif_reach("unformatted");
}
extern "C" void get_line()
{
    char d[5], o[7]; for(unsigned i = 0; i < 5; ++i) d[i] = ch();
    char old = ch(); for(unsigned i = 0; i < 7; ++i) o[i] = old;
    unsigned n = verif_upto(5), cap = verif_upto(6); verif_assume(cap > 0);
    char dl = ch();
    isp in(span<const char>(d, n));
    in.getline(o, cap, dl);
    unsigned L = 0; while(L < n && d[L] != dl) ++L;
    bool found = L < n, fits = L < cap;
    unsigned k = fits ? L : cap - 1;
    CHECK(o[k] == 0, "terminated");
    for(unsigned i = 0; i < 7; ++i) if(i < k) CHECK(o[i] == d[i], "content"); else if(i > k) CHECK(o[i] == old, "nothing outside the buffer");
    unsigned used = k + (found && fits);
    CHECK(in.rdbuf()->gptr() == d + used && in.gcount() == (long)used, "consumed");
    CHECK(in.fail() == (!fits || (n == 0)), "fails when the line does not fit, or there is none");
    CHECK(in.eof() == (fits && !found), "end of input");
    verif_reach("getline");
}
// all lines, nothing lost in between
extern "C" void lines()
{
    char d[5]; for(unsigned i = 0; i < 5; ++i) d[i] = ch();
    isp in(span<const char>(d, 5u));
    char o[6]; unsigned p = 0, k = 0;
    for(; k < 6; ++k)
    {
        in.getline(o, 6);
        if(in.fail()) break;
        unsigned L = p; while(L < 5 && d[L] != '\n') ++L;
        unsigned i = verif_below(5); if(p + i < L) CHECK(o[i] == d[p + i], "line content");
        CHECK(o[L - p] == 0, "line length");
        p = L < 5 ? L + 1 : 5;
    }
    CHECK(p == 5 && in.eof(), "the whole input was read");
    verif_reach("lines");
}
extern "C" void ignore_delim()
{
    char d[5]; for(unsigned i = 0; i < 5; ++i) d[i] = ch();
    unsigned n = verif_upto(5), k = verif_upto(6); char dl = ch();
    isp in(span<const char>(d, n));
    in.ignore(k, (unsigned char)dl);
    unsigned u = 0; bool hit = false; while(u < n && u < k && !hit) hit = d[u++] == dl;
    CHECK(in.rdbuf()->gptr() == d + u && in.gcount() == (long)u, "consumed");
    CHECK(in.eof() == (!hit && u < k), "end of input");
    verif_reach("ignore");
}
extern "C" void char_class()
{
    typedef locale::classic_type L; typedef ctype<char, L> ct;
    char c = ch(); bool U = c >= 'A' && c <= 'Z', W = c >= 'a' && c <= 'z', D = c >= '0' && c <= '9', X = D || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f');
    CHECK(ct::isspace(c) == sp(c) && estd::isspace(c, L()) == sp(c), "space");
    CHECK(ct::isupper(c) == U && ct::islower(c) == W, "case");
    CHECK(!!estd::isupper(c) == U && !!estd::islower(c) == W && !!estd::isalpha(c) == (U || W) && !!estd::isdigit(c) == D, "cctype");
    unsigned m = 0; bool e = false;
    if(verif_bool()) { m |= ct::space; e |= sp(c); } if(verif_bool()) { m |= ct::digit; e |= D; } if(verif_bool()) { m |= ct::xdigit; e |= X; }
    if(verif_bool()) { m |= ct::upper; e |= U; } if(verif_bool()) { m |= ct::lower; e |= W; } if(verif_bool()) { m |= ct::alpha; e |= U || W; }
    CHECK(ct::is(m, c) == e, "any of the requested classes");
    verif_reach("class");
}
