// formatted and unformatted output against the text a reader expects
//@ inline 1000
//@ link estd/ext/willemt/bipbuffer/bipbuffer.c
//@ h dec_u8 unwind=17
//@ h dec_i16 unwind=17
//@ h dec_i32 unwind=17 tier=thorough timeout=2000 cost=4
//@ h hex_u32 unwind=17
//@ h oct_u16 unwind=17
//@ h set_base unwind=17
//@ h hex_i8 unwind=17
//@ h pad_int unwind=19
//@ h pad_char unwind=19
//@ h put_seq unwind=11
//@ h text unwind=11
//@ h span_bound unwind=8
//@ h span_int unwind=8
//@ h state unwind=4
//@ h flags unwind=4
//@ h flush_unit unwind=5
//@ h flush_plain unwind=5
//@ h num_put unwind=19
#include "verif.h"
#include <estd/ostream.h>
#include <estd/istream.h>
#include <estd/string.h>
#include <estd/sstream.h>
#include <estd/iomanip.h>
using namespace estd;
typedef layer1::ostringstream<24> os24;
static char ch() { char c = (char)verif_u8(); verif_assume(c != 0); return c; }
// text [p, p+n) is the canonical rendering of v in that base
template <class T> static void shows(const char* p, unsigned n, T v, unsigned base, bool upper, unsigned maxd)
{
    CHECK(n >= 1 && n <= maxd + 1, "length");
    bool neg = v < 0;
    unsigned i = 0;
    if(neg) { CHECK(p[0] == '-', "sign"); i = 1; }
    CHECK(n > i, "has digits");
    CHECK(n == i + 1 || p[i] != '0', "no leading zero");
    long long acc = 0;
    for(unsigned k = 0; k < maxd; ++k, ++i) if(i < n)
    {
        char c = p[i];
        unsigned d = c >= '0' && c <= '9' ? c - '0' : upper && c >= 'A' && c <= 'F' ? c - 'A' + 10 : !upper && c >= 'a' && c <= 'f' ? c - 'a' + 10 : 99;
        CHECK(d < base, "digit");
        acc = acc * base + d;
    }
    CHECK(acc == (neg ? -(long long)v : (long long)v), "value");
}
extern "C" void dec_u8() { os24 o; uint8_t v = verif_u8(); o << v; shows<int>(o.rdbuf()->str().data(), o.rdbuf()->str().size(), v, 10, false, 3); CHECK(o.good(), "good"); verif_reach("u8"); }
extern "C" void dec_i16() { os24 o; int16_t v = verif_i16(); o << v; shows<int>(o.rdbuf()->str().data(), o.rdbuf()->str().size(), v, 10, false, 5); CHECK(o.good(), "good"); verif_reach("i16"); }
extern "C" void dec_i32() { os24 o; int32_t v = verif_i32(); o << v; shows<long>(o.rdbuf()->str().data(), o.rdbuf()->str().size(), v, 10, false, 10); CHECK(o.good(), "good"); verif_reach("i32"); }
extern "C" void hex_u32()
{
    os24 o; uint32_t v = verif_u32(); bool up = verif_bool();
    o << hex; if(up) o.setf(ios_base::uppercase);
    o << v; shows<long>(o.rdbuf()->str().data(), o.rdbuf()->str().size(), v, 16, up, 8);
    CHECK(o.good(), "good"); verif_reach("hex");
}
extern "C" void hex_i8()
{
    os24 o; uint8_t v = verif_u8();
    o << hex << v << ' '; unsigned n = o.rdbuf()->str().size();
    CHECK(n == (v < 16 ? 2u : 3u) && o.rdbuf()->str().data()[n - 1] == ' ', "length");
    shows<int>(o.rdbuf()->str().data(), n - 1, v, 16, false, 2);
    // and back to decimal
    o << dec << (uint8_t)(v & 7); CHECK(o.rdbuf()->str().size() == n + 1 && o.rdbuf()->str().data()[n] == '0' + (v & 7), "decimal again");
    verif_reach("hex8");
}
extern "C" void set_base()
{
    os24 o; unsigned was = verif_below(3), b = verif_below(3); static const int bs[3] = { 8, 10, 16 };
    if(was == 0) o << oct; else if(was == 1) o << dec; else o << hex;
    o << setbase(bs[b]); CHECK((o.flags() & ios_base::basefield) == (b == 0 ? ios_base::oct : b == 1 ? ios_base::dec : ios_base::hex), "the base asked for");
    CHECK((o.flags() & ios_base::adjustfield) == ios_base::right, "nothing else changes");
    uint8_t v = verif_u8(); o << (uint16_t)v; shows<int>(o.rdbuf()->str().data(), o.rdbuf()->str().size(), v, bs[b], false, 3); if(was == 2 && b == 1) verif_reach("base");
}
extern "C" void oct_u16()
{
    os24 o; uint16_t v = verif_u16(); o << setbase(8) << v;
    shows<int>(o.rdbuf()->str().data(), o.rdbuf()->str().size(), v, 8, false, 6); verif_reach("oct");
}
// width, fill and side apply to the next number only
extern "C" void pad_int()
{
    os24 o; unsigned w = verif_upto(15); char f = (char)(' ' + verif_below(64));
    uint8_t v = verif_u8(); int x = verif_bool() ? (int)v : -(int)v;
    bool left = verif_bool();
    if(left) o.setf(ios_base::left, ios_base::adjustfield);
    o << setfill(f) << setw(w);
    CHECK(o.fill() == f && o.width() == (long)w, "set");
    o << (int16_t)x;
    unsigned a = x < 0 ? -x : x, len = (a > 99 ? 3 : a > 9 ? 2 : 1) + (x < 0), n = w > len ? w : len;
    const char* p = o.rdbuf()->str().data();
    CHECK(o.rdbuf()->str().size() == n, "padded length");
    CHECK(o.width() == 0, "width resets");
    for(unsigned i = 0; i < 15; ++i) if(i < n - len) CHECK(p[left ? len + i : i] == f, "fill");
    shows<int>(left ? p : p + (n - len), len, x, 10, false, 3);
    o << (uint8_t)7; CHECK(o.rdbuf()->str().size() == n + 1, "the next number is not padded");
    verif_reach("pad");
}
extern "C" void pad_char()
{
    os24 o; unsigned w = verif_upto(15); char f = (char)(' ' + verif_below(64)), c = ch();
    o << setfill(f) << setw(w) << c;
    unsigned n = w > 1 ? w : 1;
    const char* p = o.rdbuf()->str().data();
    CHECK(o.rdbuf()->str().size() == n && o.width() == 0, "padded length");
    for(unsigned i = 0; i < 15; ++i) if(i < n - 1) CHECK(p[i] == f, "fill");
    CHECK(p[n - 1] == c, "character");
    verif_reach("padc");
}
// any mixture of put, write, character, C string and string
extern "C" void put_seq()
{
    os24 o; char e[12]; unsigned n = 0;
    for(unsigned s = 0; s < 3; ++s)
    {
        char d[4]; for(unsigned i = 0; i < 3; ++i) d[i] = ch();
        unsigned k = verif_upto(3), op = verif_below(4); d[3] = 0;
        if(op == 0) { o.put(d[0]); k = 1; }
        else if(op == 1) { o << d[0]; k = 1; }
        else if(op == 2) o.write(d, k);
        else { d[k] = 0; o << (const char*)d; }
        for(unsigned i = 0; i < 3; ++i) if(i < k) e[n + i] = d[i];
        n += k;
        CHECK((unsigned long)o.tellp() == n, "tellp");
    }
    CHECK(o.rdbuf()->str().size() == n && o.good(), "length");
    unsigned i = verif_below(9); if(i < n) CHECK(o.rdbuf()->str().data()[i] == e[i], "in order");
    verif_reach("seq");
}
extern "C" void text()
{
    os24 o; layer1::string<6> s; layer1::string<6, false> t; char a[5], b[5];
    for(unsigned i = 0; i < 5; ++i) { a[i] = ch(); b[i] = ch(); }
    unsigned na = verif_upto(5), nb = verif_upto(5);
    s.append(a, na); t.append(b, nb);
    o << s << t;
    CHECK(o.rdbuf()->str().size() == na + nb, "length");
    unsigned i = verif_below(10); if(i < na + nb) CHECK(o.rdbuf()->str().data()[i] == (i < na ? a[i] : b[i - na]), "content");
    verif_reach("text");
}
// a full span makes the stream fail, and nothing is written outside
extern "C" void span_bound()
{
    char buf[7], old[7], e[12]; for(unsigned i = 0; i < 7; ++i) buf[i] = old[i] = ch();
    unsigned cap = verif_upto(5), n = 0; bool bad = false;
    detail::ospanstream o(span<char>(buf + 1, cap));
    for(unsigned s = 0; s < 2; ++s)
    {
        char d[5]; for(unsigned i = 0; i < 4; ++i) d[i] = ch(); d[4] = 0;
        unsigned k = verif_upto(4), op = verif_below(4);
        if(op == 0) { o.put(d[0]); k = 1; }
        else if(op == 1) { o << d[0]; k = 1; }
        else if(op == 2) o.write(d, k);
        else { d[k] = 0; o << (const char*)d; }
        unsigned t = k < cap - n ? k : cap - n;
        for(unsigned i = 0; i < 4; ++i) if(i < t) e[n + i] = d[i];
        n += t; if(t < k) bad = true;
        CHECK(o.fail() == bad, "fails exactly when something did not fit");
    }
    for(unsigned i = 0; i < 7; ++i) CHECK(buf[i] == (i >= 1 && i < 1 + n ? e[i - 1] : old[i]), "what fit, in order, and nothing outside");
    verif_reach("bound");
}
extern "C" void span_int()
{
    char buf[7], old[7]; for(unsigned i = 0; i < 7; ++i) buf[i] = old[i] = ch();
    unsigned cap = verif_upto(5);
    detail::ospanstream o(span<char>(buf + 1, cap));
    int16_t v = verif_i16(); verif_assume(v > -1000 && v < 1000);
    o << v;
    unsigned a = v < 0 ? -v : v, len = (a > 99 ? 3 : a > 9 ? 2 : 1) + (v < 0);
    CHECK(o.fail() == (len > cap), "fails when it does not fit");
    if(len <= cap) shows<int>(buf + 1, len, v, 10, false, 3);
    for(unsigned i = 0; i < 7; ++i) if(i < 1 || i >= 1 + cap || (len <= cap && i >= 1 + len)) CHECK(buf[i] == old[i], "nothing outside");
    verif_reach("span_int");
}
extern "C" void state()
{
    os24 o; unsigned m = 0;
    CHECK(o.good() && !o.fail() && !o.bad() && !o.eof() && (bool)o && o.rdstate() == ios_base::goodbit, "fresh");
    for(unsigned s = 0; s < 3; ++s)
    {
        unsigned b = verif_below(8);
        if(verif_bool()) { o.setstate((ios_base::iostate)b); m |= b; } else { o.clear((ios_base::iostate)b); m = b; }
        CHECK(o.rdstate() == m && o.good() == (m == 0) && o.bad() == !!(m & ios_base::badbit) && o.eof() == !!(m & ios_base::eofbit), "state");
        CHECK(o.fail() == !!(m & (ios_base::badbit | ios_base::failbit)) && (bool)o == !o.fail(), "fail");
    }
    o.clear(); CHECK(o.good(), "cleared");
    verif_reach("state");
}
extern "C" void flags()
{
    os24 o; unsigned m = o.flags();
    CHECK((m & ios_base::basefield) == ios_base::dec && (m & ios_base::adjustfield) == ios_base::right, "defaults");
    unsigned w = verif_upto(15), st = verif_below(8); o.width(w); o.setstate((ios_base::iostate)st);
    for(unsigned s = 0; s < 2; ++s)
    {
        unsigned f = verif_u8(), g = verif_u8(), op = verif_below(4), r;
        if(op == 0) { r = o.setf(f); CHECK(r == m, "prior"); m |= f; }
        else if(op == 1) { r = o.setf(f & g, g); CHECK(r == m, "prior"); m = (m & ~g & 255) | (f & g); }
        else if(op == 2) { r = o.unsetf(f); CHECK(r == m, "prior"); m &= ~f & 255; }
        else { r = o.flags(f); CHECK(r == m, "prior"); m = f; }
        CHECK(o.flags() == m, "flags");
    }
    CHECK(o.width() == (long)w && o.rdstate() == st, "width and state are independent");
    CHECK(o.width(3) == (long)w && o.width() == 3, "width returns the prior one");
    verif_reach("flags");
}
// endl, flush and unitbuf reach the device behind a buffer
typedef detail::streambuf<internal::impl::out_span_streambuf<char> > ob;
template <bool unit> static void flush_t(unsigned op)
{
    char out[8]; ob back(span<char>(out, 8));
    detail::basic_ostream<internal::out_bipbuf_streambuf<ob&, 4> > o(back);
    char a = ch(), b = ch();
    if(unit) o.setf(ios_base::unitbuf);
    o.put(a); CHECK((unsigned)back.pos() == (unit ? 1u : 0u), "unitbuf flushes at once, otherwise it stays buffered");
    if(op) { o << endl; CHECK(back.pos() == 2 && out[0] == a && out[1] == '\n', "endl"); }
    else { o << b; o.flush(); CHECK(back.pos() == 2 && out[0] == a && out[1] == b, "flush"); }
    CHECK(o.good(), "good");
}
extern "C" void flush_unit() { flush_t<true>(verif_below(2)); verif_reach("unit"); }
extern "C" void flush_plain() { flush_t<false>(verif_below(2)); verif_reach("plain"); }
extern "C" void num_put()
{
    os24 fmt; unsigned w = verif_upto(10), base = verif_below(3); char f = ch(); bool left = verif_bool();
    fmt.setf(base == 0 ? ios_base::dec : base == 1 ? ios_base::hex : ios_base::oct, ios_base::basefield);
    if(left) fmt.setf(ios_base::left, ios_base::adjustfield);
    fmt.width(w);
    char buf[14], old = ch(); for(unsigned i = 0; i < 14; ++i) buf[i] = old;
    uint8_t v = verif_u8();
    estd::num_put<char, char*> n;
    char* e = n.put(buf, fmt, f, v);
    unsigned b = base == 0 ? 10 : base == 1 ? 16 : 8, len = v < b ? 1 : v < b * b ? 2 : 3, t = w > len ? w : len;
    CHECK(e == buf + t, "end");
    shows<int>(left ? buf : buf + (t - len), len, v, b, false, 3);
    for(unsigned i = 0; i < 10; ++i) if(i < t - len) CHECK(buf[left ? len + i : i] == f, "fill");
    CHECK(buf[t] == old, "no further");
    verif_reach("num_put");
}
