// locale facets: number and bool conversion between text and values, character classes, names
//@ inline 1000
//@ link estd/ext/willemt/bipbuffer/bipbuffer.c
//@ h put_i16_dec unwind=18
//@ h put_i16_hex unwind=18
//@ h put_i16_oct unwind=18
//@ h put_u8_pad unwind=22
//@ h put_i64_hex unwind=30 tier=thorough timeout=1500
//@ h put_bool unwind=8
//@ h integer_core unwind=18
//@ h get_i8 unwind=8
//@ h get_u8 unwind=8
//@ h get_i16 unwind=9 tier=thorough timeout=1500
//@ h get_flags unwind=8
//@ h get_streambuf unwind=8
//@ h get_zero_base unwind=4
//@ h get_bool_num unwind=4
//@ h get_bool_alpha unwind=9
//@ h step_chars unwind=9
//@ h step_split unwind=9
//@ h step_bool unwind=9
//@ h pick unwind=8
//@ h cls unwind=4
//@ h digits unwind=4
//@ h names unwind=8
#include "verif.h"
#include <estd/iterator.h>
#include <estd/locale.h>
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/sstream.h>
#include <estd/string.h>
#include <estd/internal/locale/money.h>
using namespace estd;
typedef estd::detail::basic_istream<layer1::stringbuf<16>> fmt_type;
typedef internal::locale<internal::locale_code::fr_FR, internal::encodings::UTF8> fr_type;
static char any() { return (char)verif_u8(); }
static void setbase(ios_base& f, unsigned base) { f.setf(base == 10 ? ios_base::dec : base == 16 ? ios_base::hex : ios_base::oct, ios_base::basefield); }
static unsigned pickbase() { unsigned k = verif_below(3); return k == 0 ? 10 : k == 1 ? 16 : 8; }
static int dig(char c, unsigned base)
{
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
    return d < (int)base ? d : -1;
}
template <class T, class A = unsigned> static void shows(const char* p, unsigned n, T v, unsigned base, bool upper, unsigned maxd)
{
    CHECK(n >= 1 && n <= maxd + 1, "length");
    bool neg = v < 0; unsigned i = neg ? 1 : 0;
    if(neg) CHECK(p[0] == '-', "sign");
    CHECK(n > i, "digits");
    CHECK(n == i + 1 || p[i] != '0', "no leading zero");
    A acc = 0;
    for(unsigned k = 0; k < maxd; ++k, ++i) if(i < n)
    {
        char c = p[i]; int d = dig(c, base);
        CHECK(d >= 0, "digit of the base");
        CHECK(d < 10 || (c >= 'a') == !upper, "letter case");
        acc = acc * base + (unsigned)d;
    }
    CHECK(acc == (A)(neg ? -v : v), "value");
}
// ---- writing
static void put_i16(unsigned base)
{
    ios_base fmt; bool up = verif_bool();
    setbase(fmt, base); if(up) fmt.setf(ios_base::uppercase);
    int16_t v = verif_i16(); verif_assume(base == 10 || v >= 0);
    char b[12]; char old = any(); for(char& c : b) c = old;
    char* e = num_put<char, char*>::put(b, fmt, ' ', v);
    CHECK(e > b && e <= b + 7, "end");
    shows<long>(b, e - b, v, base, up, 6);
    CHECK(*e == old, "nothing further");
    verif_reach("put_i16");
}
extern "C" void put_i16_dec() { put_i16(10); }
extern "C" void put_i16_hex() { put_i16(16); }
extern "C" void put_i16_oct() { put_i16(8); }
extern "C" void put_u8_pad()
{
    ios_base fmt; unsigned base = pickbase(), adj = verif_below(3); setbase(fmt, base);
    fmt.setf(adj == 1 ? ios_base::left : adj == 2 ? ios_base::right : ios_base::fmtflags(0), ios_base::adjustfield);
    unsigned w = verif_upto(12); fmt.width(w);
    uint8_t v = verif_u8(); char f = any();
    char b[16]; char old = any(); for(char& c : b) c = old;
    char* e = num_put<char, char*>::put(b, fmt, f, v);
    unsigned len = v < base ? 1 : v < base * base ? 2 : 3, n = w > len ? w : len, pad = n - len;
    CHECK(e == b + n, "end");
    shows<int>(adj == 1 ? b : b + pad, len, v, base, false, 3);
    unsigned i = verif_below(16);
    if(i >= n) CHECK(b[i] == old, "nothing further");
    else if(adj == 1 ? i >= len : i < pad) CHECK(b[i] == f, "fill");
    verif_reach("put_u8_pad");
}
extern "C" void put_i64_hex()
{
    ios_base fmt; setbase(fmt, 16); bool up = verif_bool(); if(up) fmt.setf(ios_base::uppercase);
    int64_t v = verif_i64(); verif_assume(v >= 0);
    char b[26];
    char* e = num_put<char, char*>::put(b, fmt, ' ', v);
    shows<long long, unsigned long long>(b, e - b, v, 16, up, 16);
    verif_reach("put_i64_hex");
}
extern "C" void put_bool()
{
    ios_base fmt; bool v = verif_bool(), alpha = verif_bool(); if(alpha) fmt.setf(ios_base::boolalpha);
    char b[8]; char old = any(); for(char& c : b) c = old;
    char* e = num_put<char, char*>::put(b, fmt, ' ', v);
    const char* s = alpha ? (v ? "true" : "false") : (v ? "1" : "0"); unsigned n = alpha ? (v ? 4 : 5) : 1;
    CHECK(e == b + n, "end");
    unsigned i = verif_below(8); CHECK(b[i] == (i < n ? s[i] : old), "text");
    verif_reach("put_bool");
}
extern "C" void integer_core()
{
    ios_base fmt; unsigned base = pickbase(); setbase(fmt, base); bool up = verif_bool(); if(up) fmt.setf(ios_base::uppercase);
    char b[12]; uint16_t v = verif_u16();
    auto r = internal::integer_put<>::to_chars(b, b + 12, fmt, v);
    CHECK(r.ptr >= b && r.ptr < b + 12, "start");
    CHECK(r.ec == 0, "no error");
    shows<long>(r.ptr, b + 12 - r.ptr, v, base, up, 6);
    verif_reach("integer_core");
}
// ---- reading: one value as the standard describes it
template <class T> struct expect { unsigned end; int state; T v; };
template <class T, unsigned N> static expect<T> oracle(const char* p, unsigned n, unsigned base)
{
    expect<T> x; x.state = 0; x.v = 0; unsigned i = 0; bool neg = false, some = false, over = false; long acc = 0;
    const long hi = numeric_limits<T>::max(), lo = numeric_limits<T>::min();
    if(lo < 0 && n && p[0] == '-') { neg = true; i = 1; }
    bool stop = false;
    for(unsigned k = 0; k < N; ++k) if(!stop && i < n)
    {
        int d = dig(p[i], base);
        if(d < 0) stop = true;
        else
        {
            some = true; ++i;
            if(!over) { acc = acc * (long)base + (neg ? -d : d); if(acc > hi || acc < lo) { over = true; acc = neg ? lo : hi; } }
        }
    }
    x.end = i;
    if(i == n) x.state |= ios_base::eofbit;
    if(!some || over) x.state |= ios_base::failbit;
    x.v = (T)(some ? acc : 0);
    return x;
}
template <class T, unsigned N> static void get_one()
{
    fmt_type fmt; unsigned base = pickbase(); setbase(fmt, base);
    char b[N]; unsigned n = verif_upto(N); for(char& c : b) c = any();
    ios_base::iostate st = ios_base::goodbit; T v = (T)verif_u8();
    const char* e = num_get<char, const char*>().get(b, b + n, fmt, st, v);
    expect<T> x = oracle<T, N>(b, n, base);
    CHECK(e == b + x.end, "stops at the first character that is not part of the number");
    CHECK(v == x.v, "value"); CHECK(st == x.state, "state");
    verif_reach("get");
}
extern "C" void get_i8() { get_one<int8_t, 4>(); }
extern "C" void get_u8() { get_one<uint8_t, 4>(); }
extern "C" void get_i16() { get_one<int16_t, 6>(); }
extern "C" void get_flags()
{
    char b[4]; unsigned n = verif_upto(4), base = pickbase(); for(char& c : b) c = any();
    ios_base f; setbase(f, base); ios_base::iostate st = ios_base::goodbit; int16_t v = 7;
    const char* e = use_facet<num_get<char, const char*> >(locale::classic()).get(b, b + n, f.flags() & ios_base::basefield, st, v);
    expect<int16_t> x = oracle<int16_t, 4>(b, n, base);
    CHECK(e == b + x.end, "end"); CHECK(v == x.v, "value"); CHECK(st == x.state, "state");
    verif_reach("get_flags");
}
extern "C" void get_streambuf()
{
    typedef layer1::stringbuf<8> sb; char b[5]; unsigned n = verif_upto(3);
    for(unsigned i = 0; i < 5; ++i) { b[i] = any(); verif_assume(b[i] != 0); }
    b[n] = 0; sb s(b); typedef istreambuf_iterator<sb> it;
    fmt_type fmt; ios_base::iostate st = ios_base::goodbit; int16_t v = 7;
    auto f = use_facet<num_get<sb> >(fmt.getloc());
    it e = f.get(it(s), it(), fmt, st, v);
    expect<int16_t> x = oracle<int16_t, 3>(b, n, 10);
    CHECK(v == x.v, "value"); CHECK(st == x.state, "state");
    CHECK((e == it()) == (x.end == n), "at the end");
    if(x.end < n) CHECK((char)*e == b[x.end], "stops at the first other character");
    verif_reach("get_streambuf");
}
extern "C" void get_zero_base()
{
    fmt_type fmt; fmt.setf(ios_base::fmtflags(0), ios_base::basefield);
    char b[2] = { any(), any() }; ios_base::iostate st = ios_base::goodbit; int v = 0;
    const char* e = num_get<char, const char*>().get(b, b + 2, fmt, st, v);
    if(dig(b[0], 8) < 0) CHECK(st & ios_base::failbit, "fails"); 
    CHECK(e >= b && e <= b + 2, "inside");
    verif_reach("get_zero_base");
}
extern "C" void get_bool_num()
{
    fmt_type fmt; char c = any(); unsigned n = verif_upto(1); ios_base::iostate st = ios_base::goodbit; bool v = verif_bool();
    const char* e = num_get<char, const char*>().get(&c, &c + n, fmt, st, v);
    CHECK(e == &c + n, "end");
    if(!n) { CHECK(!v, "false"); CHECK(st == (ios_base::eofbit | ios_base::failbit), "state"); }
    else if(c == '0') { CHECK(!v, "0"); CHECK(st == ios_base::goodbit, "good"); }
    else { CHECK(v, "one"); CHECK(st == (c == '1' ? ios_base::goodbit : ios_base::failbit), "state"); }
    verif_reach("get_bool_num");
}
static int prefix(const char* b, unsigned n, const char* s) { unsigned i = 0; for(; i < 5 && s[i]; ++i) if(i >= n || b[i] != s[i]) return 0; return (int)i; }
extern "C" void get_bool_alpha()
{
    fmt_type fmt; fmt.setf(ios_base::boolalpha);
    char b[6]; unsigned n = verif_upto(6); for(char& c : b) c = any();
    ios_base::iostate st = ios_base::goodbit; bool v = verif_bool();
    const char* e = num_get<char, const char*>().get(b, b + n, fmt, st, v);
    int t = prefix(b, n, "true"), f = prefix(b, n, "false");
    CHECK(e >= b && e <= b + n, "inside");
    if(t) { CHECK(v, "true"); CHECK(e == b + 4, "after it"); CHECK(st == ios_base::goodbit, "good"); verif_reach("true"); }
    else if(f) { CHECK(!v, "false"); CHECK(e == b + 5, "after it"); CHECK(st == ios_base::goodbit, "good"); verif_reach("false"); }
    else { CHECK(!v, "false when it fails"); CHECK(st & ios_base::failbit, "fails"); }
}
// ---- reading one character at a time
extern "C" void step_chars()
{
    char b[5]; for(char& c : b) c = any();
    ios_base::iostate st = ios_base::goodbit; int8_t v = 7; iterated::num_get<10, char, locale::classic_type> g;
    unsigned i = 0; bool done = false;
    for(; i < 5; ++i) { done = g.get(b[i], st, v); if(done) break; }
    expect<int8_t> x = oracle<int8_t, 5>(b, 5, 10);
    CHECK(i == x.end || !(x.end == 1 && b[0] == '-') , "position");
    CHECK(done == (i < 5), "done at the first other character");
    CHECK(i == x.end, "position");
    CHECK(v == x.v, "value"); CHECK((st & ios_base::failbit) == (x.state & ios_base::failbit) || (x.end == 5), "state");
    verif_reach("step_chars");
}
extern "C" void step_split()
{
    // the number arrives in two pieces
    char b[4]; for(char& c : b) c = any(); unsigned n = verif_upto(4), k = verif_upto(4); verif_assume(k <= n);
    ios_base::iostate st = ios_base::goodbit; uint8_t v = 7; iterated::num_get<16, char, locale::classic_type> g;
    const char* p = b; const char* const c0 = b; bool done = false;
    for(unsigned j = 0; j < 4 && p != b + k && !done; ++j) done = g.get(p, c0 + k, st, v);
    for(unsigned j = 0; j < 5 && !done; ++j) done = g.get(p, c0 + n, st, v);
    CHECK(done, "done");
    expect<uint8_t> x = oracle<uint8_t, 4>(b, n, 16);
    if(x.end > 0) CHECK(v == x.v, "value as in one piece");
    if(n > 0) { CHECK(st == x.state, "state as in one piece"); CHECK(p == b + x.end + (x.end < n ? 1 : 0), "consumed"); }
    verif_reach("step_split");
}
extern "C" void step_bool()
{
    char b[5]; for(char& c : b) c = any();
    ios_base::iostate st = ios_base::goodbit; bool v = verif_bool(), done = false; iterated::bool_get<char, locale::classic_type, true> g;
    unsigned i = 0; for(; i < 5 && !done; ++i) done = g.get(b[i], st, v);
    CHECK(done, "decided within five characters");
    int t = prefix(b, 5, "true"), f = prefix(b, 5, "false");
    if(t) { CHECK(v && i == 4 && st == ios_base::goodbit, "true"); }
    else if(f) { CHECK(!v && i == 5 && st == ios_base::goodbit, "false"); }
    else CHECK(!v && st == ios_base::failbit, "fails");
    verif_reach("step_bool");
}
extern "C" void pick()
{
    // first letters differ
    static const char* const w[3] = { "red", "go", "x" };
    char b[4]; unsigned n = verif_upto(4); for(char& c : b) c = any();
    const char* p = b; int r = internal::chooser::choose(w, p, (const char*)b + n);
    int e = prefix(b, n, "red") ? 0 : prefix(b, n, "go") ? 1 : prefix(b, n, "x") ? 2 : -1;
    CHECK(r == e, "the word the text starts with");
    if(e >= 0) CHECK(p == b + (e == 0 ? 3 : e == 1 ? 2 : 1), "just past it");
    CHECK(p >= b && p <= b + n, "inside");
    verif_reach("pick");
}
// ---- characters and names
extern "C" void cls()
{
    char c = any(); typedef estd::ctype<char, locale::classic_type> ct;
    bool sp = c == ' ' || (c >= 9 && c <= 13), dg = c >= '0' && c <= '9', up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z';
    bool xd = dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    CHECK(estd::isspace(c, locale::classic()) == sp, "isspace");
    CHECK(ct::is(ct::space, c) == sp, "space"); CHECK(ct::is(ct::digit, c) == dg, "digit"); CHECK(ct::is(ct::xdigit, c) == xd, "xdigit");
    CHECK(ct::is(ct::upper, c) == up, "upper"); CHECK(ct::is(ct::lower, c) == lo, "lower");
    CHECK(ct::is(ct::alpha, c) == (up || lo), "alpha"); CHECK(ct::is(ct::alnum, c) == (up || lo || dg), "alnum");
    CHECK(ct::widen(c) == c, "widen");
    verif_reach("cls");
}
extern "C" void digits()
{
    typedef cbase<char, 10, locale::classic_type> c10; typedef cbase<char, 16, locale::classic_type> c16; typedef cbase<char, 8, locale::classic_type> c8; typedef cbase<char, 36, locale::classic_type> c36;
    char c = any();
    CHECK(c10::is_in_base(c) == (dig(c, 10) >= 0), "10"); CHECK(c8::is_in_base(c) == (dig(c, 8) >= 0), "8"); CHECK(c16::is_in_base(c) == (dig(c, 16) >= 0), "16");
    auto a = c10::from_char(c); CHECK(a.has_value() == (dig(c, 10) >= 0), "10"); if(a.has_value()) CHECK(a.value() == dig(c, 10), "10 value");
    auto o = c8::from_char(c); CHECK(o.has_value() == (dig(c, 8) >= 0), "8"); if(o.has_value()) CHECK(o.value() == dig(c, 8), "8 value");
    auto h = c16::from_char(c); CHECK(h.has_value() == (dig(c, 16) >= 0), "16"); if(h.has_value()) CHECK(h.value() == dig(c, 16), "16 value");
    unsigned v = verif_below(36); c36 z; char t = z.to_char(v); auto r = c36::from_char(t);
    CHECK(r.has_value() && (unsigned)r.value() == v, "round trip");
    verif_reach("digits");
}
static bool same(layer2::const_string s, const char* e) { unsigned n = 0; while(n < 6 && e[n]) ++n; return s.size() == n && prefix(s.data(), n, e) == (int)n; }
extern "C" void names()
{
    bool v = verif_bool();
    auto a = use_facet<numpunct<char> >(locale::classic());
    CHECK(same(v ? a.truename() : a.falsename(), v ? "true" : "false"), "classic");
    auto f = use_facet<numpunct<char> >(fr_type());
    CHECK(same(v ? f.truename() : f.falsename(), v ? "vrai" : "faux"), "french");
    CHECK(a.decimal_point() == '.' && a.thousands_sep() == ',', "punctuation");
    typedef internal::locale<internal::locale_code::en_US, internal::encodings::UTF8> us;
    auto m = use_facet<moneypunct<char, false> >(us());
    CHECK(m.curr_symbol().size() == 1 && m.curr_symbol().data()[0] == '$' && m.decimal_point() == '.', "dollar");
    auto mi = use_facet<moneypunct<char, true> >(us());
    CHECK(prefix(mi.curr_symbol().data(), 4, "USD ") == 4, "usd");
    verif_reach("names");
}
