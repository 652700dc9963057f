// stream buffers against an array and a cursor
//@ inline 1000
//@ h ospan unwind=9
//@ h ospan_wide unwind=9
//@ h ospan_seek unwind=8
//@ h ispan unwind=8
//@ h ispan_seek unwind=8
//@ h ispan_read unwind=8
//@ h sbuf_write unwind=10
//@ h sbuf_read unwind=10
//@ h osbuf unwind=10
//@ h buffered_string unwind=11
//@ h buffered_bip unwind=10
//@ h buffered_bip_ring unwind=5
//@ h in_bip unwind=6
//@ h virtual_out unwind=10
//@ h iterate unwind=8
//@ link estd/ext/willemt/bipbuffer/bipbuffer.c
#include "verif.h"
#include <estd/istream.h>
#include <estd/ostream.h>
#include <estd/string.h>
#include <estd/sstream.h>
using namespace estd;
typedef detail::streambuf<internal::impl::in_span_streambuf<const char> > ispanb;
typedef detail::streambuf<internal::impl::out_span_streambuf<char> > ospanb;
typedef std::char_traits<char> tr;
static char ch() { return (char)verif_u8(); }
static int ic(char c) { return (unsigned char)c; }
// one write of a character or of a block; e/n: everything accepted so far
template <class SB> static void put_some(SB& sb, char* e, unsigned& n, unsigned room, unsigned maxk, bool nz = false)
{
    char d[5]; for(unsigned i = 0; i < maxk; ++i) { d[i] = ch(); if(nz) verif_assume(d[i] != 0); }
    if(verif_bool())
    {
        int r = sb.sputc(d[0]);
        if(room) { CHECK(r != tr::eof(), "sputc accepts while there is room"); e[n++] = d[0]; }
        else CHECK(r == tr::eof(), "sputc reports a full buffer");
    }
    else
    {
        unsigned k = verif_upto(maxk), t = k < room ? k : room;
        long w = sb.sputn(d, k);
        CHECK(w == (long)t, "sputn returns what fit");
        for(unsigned i = 0; i < maxk; ++i) if(i < t) e[n + i] = d[i];
        n += t;
    }
}
extern "C" void ospan()
{
    char buf[8], old[8], e[8]; for(unsigned i = 0; i < 8; ++i) buf[i] = old[i] = ch();
    unsigned cap = verif_upto(5), n = 0;
    ospanb sb(span<char>(buf + 1, cap));
    for(unsigned s = 0; s < 3; ++s) put_some(sb, e, n, cap - n, 5);
    CHECK((unsigned)sb.pos() == n, "position");
    CHECK(sb.pbase() == buf + 1 && sb.pptr() == buf + 1 + n && sb.epptr() == buf + 1 + cap, "put area");
    for(unsigned i = 0; i < 8; ++i) CHECK(buf[i] == (i >= 1 && i < 1 + n ? e[i - 1] : old[i]), "bytes in order, nothing outside");
    verif_reach("ospan");
}
extern "C" void ospan_wide()
{
    uint32_t buf[5], old[5], e[5]; for(unsigned i = 0; i < 5; ++i) buf[i] = old[i] = verif_u32();
    unsigned cap = verif_upto(3), n = 0;
    detail::streambuf<internal::impl::out_span_streambuf<uint32_t> > sb(span<uint32_t>(buf + 1, cap));
    for(unsigned s = 0; s < 2; ++s)
    {
        uint32_t d[4]; for(unsigned i = 0; i < 4; ++i) d[i] = verif_u32();
        unsigned k = verif_upto(4), room = cap - n, t = k < room ? k : room;
        long w = sb.sputn(d, k);
        CHECK(w == (long)t, "sputn returns what fit");
        for(unsigned i = 0; i < 4; ++i) if(i < t) e[n + i] = d[i];
        n += t;
    }
    uint32_t x = verif_u32(); sb.sputc(x); if(n < cap) e[n++] = x;
    for(unsigned i = 0; i < 5; ++i) CHECK(buf[i] == (i >= 1 && i < 1 + n ? e[i - 1] : old[i]), "elements in order, nothing outside");
    CHECK((unsigned)sb.pos() == n, "position");
    verif_reach("wide");
}
extern "C" void ospan_seek()
{
    char buf[5], e[5]; for(unsigned i = 0; i < 5; ++i) buf[i] = e[i] = ch();
    ospanb sb(span<char>(buf, 5));
    unsigned p = 0;
    for(unsigned s = 0; s < 2; ++s)
    {
        unsigned q = verif_upto(5), w = verif_below(3); long r;
        if(w == 0) r = sb.pubseekoff(q, ios_base::beg, ios_base::out);
        else if(w == 1) r = sb.pubseekoff((long)q - (long)p, ios_base::cur, ios_base::out);
        else r = sb.pubseekoff((long)q - 5, ios_base::end, ios_base::out);
        CHECK(r == (long)q, "seek returns the new position");
        p = q;
        char c = ch(); int x = sb.sputc(c);
        CHECK((x == tr::eof()) == (p == 5), "sputc at the end");
        if(p < 5) e[p++] = c;
    }
    for(unsigned i = 0; i < 5; ++i) CHECK(buf[i] == e[i], "content after seeks");
    verif_reach("oseek");
}
template <class SB> static void get_some(SB& sb, const char* d, unsigned n, unsigned& p, bool unget)
{
    unsigned op = verif_below(5);
    int here = p < n ? ic(d[p]) : (int)tr::eof();
    if(op == 0) { CHECK(sb.sgetc() == here, "sgetc peeks"); CHECK(sb.sgetc() == here, "sgetc does not advance"); }
    else if(op == 1) { CHECK(sb.sbumpc() == here, "sbumpc"); if(p < n) ++p; }
    else if(op == 2)
    {
        int r = sb.snextc();
        if(p < n) { ++p; CHECK(r == (p < n ? ic(d[p]) : (int)tr::eof()), "snextc"); }
        else CHECK(r == tr::eof(), "snextc at the end");
    }
    else if(op == 3)
    {
        char o[5]; for(unsigned i = 0; i < 5; ++i) o[i] = '?';
        unsigned k = verif_upto(4), t = k < n - p ? k : n - p;
        CHECK(sb.sgetn(o, k) == (long)t, "sgetn returns what was there");
        for(unsigned i = 0; i < 5; ++i) if(i < t) CHECK(o[i] == d[p + i], "sgetn content"); else CHECK(o[i] == '?', "sgetn writes no more");
        p += t;
    }
    else if(unget)
    {
        int r = sb.sungetc();
        if(p) { --p; CHECK(r == ic(d[p]), "sungetc steps back"); }
        else CHECK(r == tr::eof(), "sungetc at the start");
    }
    long a = sb.in_avail();
    CHECK(p < n ? a == (long)(n - p) : a <= 0, "in_avail");
}
extern "C" void ispan()
{
    char d[5]; for(unsigned i = 0; i < 5; ++i) d[i] = ch();
    unsigned n = verif_upto(5), p = 0;
    ispanb sb(span<const char>(d, n));
    for(unsigned s = 0; s < 4; ++s) get_some(sb, d, n, p, true);
    CHECK(sb.eback() == d && sb.gptr() == d + p && sb.egptr() == d + n, "get area");
    verif_reach("ispan");
}
extern "C" void ispan_read()
{
    char d[5]; for(unsigned i = 0; i < 5; ++i) d[i] = ch();
    unsigned n = verif_upto(5);
    ispanb sb(span<const char>(d, n));
    unsigned k = 0;
    for(; k < 6; ++k) { int c = sb.sbumpc(); if(c == tr::eof()) break; CHECK(k < n && c == ic(d[k]), "each byte once, in order"); }
    CHECK(k == n, "all bytes");
    CHECK(sb.sgetc() == tr::eof() && sb.in_avail() == -1, "end reported");
    verif_reach("ispan_read");
}
extern "C" void ispan_seek()
{
    char d[5]; for(unsigned i = 0; i < 5; ++i) d[i] = ch();
    ispanb sb(span<const char>(d, 5));
    unsigned p = 0;
    for(unsigned s = 0; s < 2; ++s)
    {
        unsigned q = verif_upto(5); long r;
        if(verif_bool()) r = sb.pubseekoff(q, ios_base::beg);
        else r = sb.pubseekoff((long)q - (long)p, ios_base::cur);
        CHECK(r == (long)q, "seek returns the new position"); p = q;
        get_some(sb, d, 5, p, true);
    }
    CHECK((long)sb.pubseekoff(0, ios_base::beg, ios_base::out) == (long)(unsigned short)-1 || (long)sb.pubseekoff(0, ios_base::beg, ios_base::out) == -1, "an out seek is refused");
    CHECK(sb.gptr() == d + p, "and moves nothing");
    verif_reach("iseek");
}
extern "C" void sbuf_write()
{
    layer1::stringbuf<8> sb; char e[8]; unsigned n = 0;
    for(unsigned s = 0; s < 2; ++s)
    {
        char x[3]; for(unsigned i = 0; i < 3; ++i) { x[i] = ch(); verif_assume(x[i] != 0); }
        if(verif_bool()) { CHECK(sb.sputc(x[0]) == ic(x[0]), "sputc"); e[n++] = x[0]; }
        else { unsigned k = verif_upto(3); CHECK(sb.sputn(x, k) == (long)k, "sputn"); for(unsigned i = 0; i < 3; ++i) if(i < k) e[n + i] = x[i]; n += k; }
    }
    CHECK(sb.str().size() == n, "length");
    for(unsigned i = 0; i < 7; ++i) if(i < n) CHECK(sb.str().data()[i] == e[i], "content");
    // and it reads back the same
    unsigned p = 0;
    get_some(sb, e, n, p, true); get_some(sb, e, n, p, true);
    verif_reach("sbuf_write");
}
extern "C" void sbuf_read()
{
    char d[5]; for(unsigned i = 0; i < 5; ++i) { d[i] = ch(); verif_assume(d[i] != 0); }
    unsigned n = verif_upto(5), p = 0;
    layer1::stringbuf<8> sb; sb.sputn(d, n);
    for(unsigned s = 0; s < 2; ++s) get_some(sb, d, n, p, true);
    unsigned q = verif_upto(n);
    unsigned w = verif_below(3);
    long r = w == 0 ? sb.pubseekoff(q, ios_base::beg, ios_base::in) : w == 1 ? sb.pubseekoff((long)q - (long)p, ios_base::cur, ios_base::in) : sb.pubseekoff((long)q - (long)n, ios_base::end, ios_base::in);
    CHECK(r == (long)q, "seek"); p = q;
    get_some(sb, d, n, p, true);
    sb.clear();
    CHECK(sb.sgetc() == tr::eof() && sb.str().size() == 0, "cleared");
    char c = ch(); verif_assume(c); sb.sputc(c);
    CHECK(sb.sbumpc() == ic(c) && sb.sgetc() == tr::eof(), "usable after clear");
    verif_reach("sbuf_read");
}
extern "C" void osbuf()
{
    layer1::basic_out_stringbuf<char, 8> sb; char e[8]; unsigned n = 0;
    for(unsigned s = 0; s < 3; ++s)
    {
        char x[2]; for(unsigned i = 0; i < 2; ++i) { x[i] = ch(); verif_assume(x[i] != 0); }
        if(verif_bool()) { sb.sputc(x[0]); e[n++] = x[0]; }
        else { unsigned k = verif_upto(2); sb.sputn(x, k); for(unsigned i = 0; i < 2; ++i) if(i < k) e[n + i] = x[i]; n += k; }
        CHECK((unsigned long)sb.pubseekoff(0, ios_base::cur, ios_base::out) == n, "tell");
    }
    CHECK(sb.str().size() == n, "length");
    for(unsigned i = 0; i < 7; ++i) if(i < n) CHECK(sb.str().data()[i] == e[i], "content");
    verif_reach("osbuf");
}
// a small buffer in front of a larger sink: after a sync the sink holds exactly what was accepted
template <class SB, class BACK> static void buffered(SB& sb, BACK& back, unsigned steps, unsigned maxk)
{
    char e[10]; unsigned n = 0;
    for(unsigned s = 0; s < steps; ++s)
    {
        char d[5]; for(unsigned i = 0; i < maxk; ++i) d[i] = ch();
        unsigned op = verif_below(3);
        if(op == 0) { CHECK(sb.sputc(d[0]) != tr::eof(), "sputc accepts"); e[n++] = d[0]; }
        else if(op == 1)
        {
            unsigned k = verif_upto(maxk);
            long w = sb.sputn(d, k);
            CHECK(w >= 0 && w <= (long)k && (k == 0 || w > 0), "sputn returns what it took");
            for(unsigned i = 0; i < maxk; ++i) if((long)i < w) e[n + i] = d[i];
            n += (unsigned)w;
        }
        else sb.pubsync();
    }
    sb.pubsync();
    CHECK((unsigned)back.pos() == n, "everything accepted reached the sink, once");
    unsigned i = verif_below(10); if(i < n) CHECK(back.pbase()[i] == e[i], "in order");
}
extern "C" void buffered_string()
{
    char out[10];
    ospanb back(span<char>(out, 10));
    internal::out_buffered_stringbuf<ospanb&, 3> sb(back);
    buffered(sb, back, 2, 5);
    verif_reach("buffered_string");
}
extern "C" void buffered_bip()
{
    char out[10];
    ospanb back(span<char>(out, 10));
    internal::out_bipbuf_streambuf<ospanb&, 3> sb(back);
    buffered(sb, back, 2, 4);
    verif_reach("buffered_bip");
}
// both regions of the ring in use: the buffer handed over already holds data
extern "C" void buffered_bip_ring()
{
    char out[10], e[10]; unsigned n = 0;
    ospanb back(span<char>(out, 10));
    layer1::bipbuf<4> bb;
    char x[4]; for(unsigned i = 0; i < 4; ++i) x[i] = ch();
    unsigned a = verif_upto(4), b = verif_upto(4); verif_assume(b <= a);
    bb.offer((const unsigned char*)x, a); if(b) bb.poll(b);
    for(unsigned i = 0; i < 4; ++i) if(i >= b && i < a) e[n++] = x[i];
    internal::out_bipbuf_streambuf<ospanb&, 0> sb(bb.native(), back);
    for(unsigned s = 0; s < 2; ++s)
    {
        char c = ch();
        CHECK(sb.sputc(c) != tr::eof(), "sputc accepts"); e[n++] = c;
    }
    CHECK(sb.pubsync() == 0, "sync succeeds");
    CHECK((unsigned)back.pos() == n, "everything reached the sink, once");
    unsigned i = verif_below(8); if(i < n) CHECK(out[i] == e[i], "in order");
    verif_reach("ring");
}
extern "C" void in_bip()
{
    char d[5]; for(unsigned i = 0; i < 5; ++i) d[i] = ch();
    unsigned n = verif_upto(5), p = 0;
    typedef detail::streambuf<internal::impl::in_span_streambuf<char> > srcb;
    srcb src(span<char>(d, n));
    internal::in_bipbuf_streambuf<srcb&, 3> sb(src);
    for(unsigned s = 0; s < 3; ++s)
    {
        int here = p < n ? ic(d[p]) : (int)tr::eof();
        unsigned op = verif_below(3);
        if(op == 0) CHECK(sb.sgetc() == here, "sgetc");
        else if(op == 1) { CHECK(sb.sbumpc() == here, "sbumpc"); if(p < n) ++p; }
        else
        {
            if(p < n) CHECK(sb.sgetc() == here, "fill");
            char o[3]; unsigned k = verif_upto(3);
            long r = sb.sgetn(o, k);
            CHECK(r >= 0 && r <= (long)k && p + r <= n, "sgetn amount");
            if(k && p < n) CHECK(r > 0, "sgetn gets something");
            for(unsigned i = 0; i < 3; ++i) if((long)i < r) CHECK(o[i] == d[p + i], "sgetn content");
            p += r;
        }
    }
    verif_reach("in_bip");
}
extern "C" void virtual_out()
{
    char e[6]; unsigned n = 0;
    typedef layer1::stringbuf<8> backb;
    backb back;
    internal::basic_streambuf_wrapped<backb&> w(back);
    basic_streambuf<char>& sb = w;
    for(unsigned s = 0; s < 2; ++s) put_some(sb, e, n, 7 - n, 3, true);
    CHECK(back.str().size() == n, "length");
    for(unsigned i = 0; i < 6; ++i) if(i < n) CHECK(back.str().data()[i] == e[i], "content");
    verif_reach("virtual");
}
extern "C" void iterate()
{
    char d[4]; for(unsigned i = 0; i < 4; ++i) d[i] = ch();
    unsigned n = verif_upto(4);
    verif_assume(n > 0);
    ispanb sb(span<const char>(d, n));
    istreambuf_iterator<ispanb> it(sb), end;
    unsigned k = 0;
    bool post = verif_bool();
    for(; it != end && k < 5; ++k)
    {
        CHECK(k < n, "bounded");
        if(post) { auto pr = it++; CHECK(*pr == d[k], "postfix value"); }
        else { CHECK((char)*it == d[k], "value"); ++it; }
    }
    CHECK(k == n, "every character once");
    {
        ispanb s2(span<const char>(d, n)); istreambuf_iterator<ispanb> a(s2), b(&s2), e;
        CHECK(a == b && !(a != b), "two which are not at the end are equal"); CHECK(a != e && !(a == e) && e != a, "end is another");
        CHECK(it == end && it == e, "two at the end are equal"); ispanb s0(span<const char>(d + n, size_t(0))); istreambuf_iterator<ispanb> z(s0); CHECK(z == e, "nothing to read is the end");
        if(n > 1) { auto p = a++; CHECK((char)*p == d[0] && *p++ == d[1], "a postfix value moves on"); }
        ++e; e++; CHECK(e == end, "the end stays");
    }
    verif_reach("iterate");
}
