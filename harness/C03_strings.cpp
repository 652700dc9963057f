// mutating operations of fixed-storage strings against a character-array reference
//@ h l1_append unwind=10
//@ h l1_insert unwind=10
//@ h l1_erase unwind=10
//@ h l1_assign unwind=10
//@ h l1_misc unwind=10
//@ h l1u_append unwind=10
//@ h l1u_insert unwind=10
//@ h l1u_erase unwind=10
//@ h l1u_misc unwind=10
//@ h l2_append unwind=10
//@ h l2_insert unwind=10
//@ h l2_erase unwind=10
//@ h l3_append unwind=10
//@ h l3_insert unwind=10
//@ h l3_erase unwind=10
//@ h l3u_append unwind=10
//@ h l3u_insert unwind=10
//@ h l3u_erase unwind=10
//@ h l1u_assign unwind=10
//@ h l2_assign unwind=10
//@ h l2_misc unwind=10
//@ h l3_assign unwind=10
//@ h l3_misc unwind=10
//@ h l3u_assign unwind=10
//@ h l3u_misc unwind=10
//@ h l3_view unwind=10
//@ h l1_seq2 unwind=10 cost=9 tier=thorough timeout=900
//@ h l1u_seq2 unwind=10 cost=9 tier=thorough timeout=900
#include "verif.h"
#include <estd/string.h>
#include <estd/string_view.h>

static const unsigned CAP = 7;                  // usable characters

struct Ref
{
    char c[CAP]; unsigned n;
    void append(const char* s, unsigned k) { for(unsigned i = 0; i < k; ++i) c[n + i] = s[i]; n += k; }
    void insert(unsigned at, const char* s, unsigned k)
    {
        for(unsigned i = n; i > at; --i) c[i - 1 + k] = c[i - 1];
        for(unsigned i = 0; i < k; ++i) c[at + i] = s[i];
        n += k;
    }
    void erase(unsigned at, unsigned k)
    {
        if(k > n - at) k = n - at;
        for(unsigned i = at; i + k < n; ++i) c[i] = c[i + k];
        n -= k;
    }
};
template <bool Z> static char ch() { char c = (char)verif_u8(); if(Z) verif_assume(c != 0); return c; }
// a C string of up to K characters
template <unsigned K> static unsigned cstr(char* s)
{
    unsigned n = verif_upto(K);
    for(unsigned i = 0; i < K; ++i) s[i] = i < n ? ch<true>() : 0;
    s[K] = 0;
    return n;
}
template <bool Z, unsigned K> static unsigned chars(char* s)
{
    unsigned n = verif_upto(K);
    for(unsigned i = 0; i < K; ++i) s[i] = ch<Z>();
    return n;
}
// Z: tracked by null termination
template <bool Z, class S> static void same(S& s, const Ref& r)
{
    CHECK(s.size() == r.n, "size");
    CHECK(s.length() == r.n, "length");
    CHECK(s.max_size() == CAP, "room for the terminator is not counted");
    CHECK(s.empty() == (r.n == 0), "empty");
    const char* d = s.clock();
    for(unsigned i = 0; i < CAP; ++i) if(i < r.n) CHECK(d[i] == r.c[i], "content");
    if(Z) CHECK(d[r.n] == 0, "terminated");
    s.cunlock();
    for(unsigned i = 0; i < CAP; ++i) if(i < r.n) CHECK(s[i] == r.c[i], "element access");
    if(r.n) { CHECK(s.front() == r.c[0], "front"); CHECK(s.back() == r.c[r.n - 1], "back"); }
    auto e = s.end();
    unsigned k = 0;
    auto it = s.begin(); for(; it != e && k < CAP; ++it, ++k) CHECK(*it == r.c[k], "iteration");
    CHECK(!(it != e) && k == r.n, "iteration length");
}
template <bool Z, class S> static void init(S& s, Ref& r)
{
    r.n = verif_upto(CAP);
    for(unsigned i = 0; i < CAP; ++i) r.c[i] = ch<Z>();
    s.append(r.c, (typename S::size_type)r.n);
    same<Z>(s, r);
}
template <bool Z, class S> static void op_append(S& s, Ref& r, unsigned which)
{
    char a[5];
    switch(which)
    {
        case 0: { char c = ch<Z>(); verif_assume(r.n < CAP); s += c; r.append(&c, 1); break; }
        case 1: { char c = ch<Z>(); verif_assume(r.n < CAP); s.push_back(c); r.append(&c, 1); break; }
        case 2: { unsigned k = cstr<4>(a); verif_assume(r.n + k <= CAP); s += (const char*)a; r.append(a, k); break; }
        case 3: { unsigned k = cstr<4>(a); verif_assume(r.n + k <= CAP); s.append((const char*)a); r.append(a, k); break; }
        case 4: { unsigned k = chars<Z, 4>(a); verif_assume(r.n + k <= CAP); s.append(a, k); r.append(a, k); break; }
        case 5: { unsigned k = chars<Z, 4>(a); verif_assume(r.n + k <= CAP); s.append(estd::string_view(a, k)); r.append(a, k); break; }
        case 6: { unsigned k = verif_upto(4); char c = ch<Z>(); verif_assume(r.n + k <= CAP); s.append(k, c);
                  for(unsigned i = 0; i < k; ++i) r.append(&c, 1); break; }
        default: { unsigned k = cstr<4>(a); estd::layer1::string<6> o((const char*)a); verif_assume(r.n + k <= CAP); s += o; r.append(a, k); break; }
    }
}
template <bool Z, class S> static void op_insert(S& s, Ref& r, unsigned which)
{
    char a[5];
    unsigned at = verif_upto(CAP); verif_assume(at <= r.n);
    unsigned k;
    switch(which)
    {
        case 0: k = chars<Z, 4>(a); verif_assume(r.n + k <= CAP); s.insert(at, (const char*)a, k); break;
        case 1: k = cstr<4>(a); verif_assume(r.n + k <= CAP); s.insert(at, (const char*)a); break;
        case 2: k = chars<Z, 4>(a); verif_assume(r.n + k <= CAP); s.insert(at, estd::string_view(a, k)); break;
        case 3: k = 1; a[0] = ch<Z>(); verif_assume(r.n < CAP); s.insert(s.begin() + (int)at, a[0]); break;
        case 5: { k = cstr<4>(a); estd::layer1::string<6> o((const char*)a); verif_assume(r.n + k <= CAP); s.insert(at, o); break; }
        case 6: { k = chars<Z, 4>(a); verif_assume(r.n + k <= CAP); auto i = s.insert(s.begin() + (int)at, (const char*)a, (const char*)a + k); if(k) CHECK(*i == a[0], "insert returns the position"); break; }
        default: k = 1; { a[0] = ch<Z>(); char c = a[0]; verif_assume(r.n < CAP); s.insert(s.begin() + (int)at, (char&&)c); } break;
    }
    r.insert(at, a, k);
}
template <bool Z, class S> static void op_erase(S& s, Ref& r, unsigned which)
{
    unsigned at = verif_upto(CAP); verif_assume(at <= r.n);
    unsigned k = verif_upto(CAP + 1);
    switch(which)
    {
        case 0: s.erase(at, k); r.erase(at, k); break;
        case 1: s.erase(at); r.erase(at, CAP); break;
        case 2: s.erase(); r.n = 0; break;
        case 3: s.clear(); r.n = 0; break;
        default: verif_assume(r.n > 0); s.pop_back(); --r.n; break;
    }
}
template <class S> static void assign_text(S& s, const char* t) { s = t; }
typedef estd::layer3::basic_string<char, true> L3;
typedef estd::layer3::basic_string<char, false> L3U;
static void assign_text(L3& s, const char* t) { s = estd::layer1::string<8>(t); }     // has no assignment of a C string
static void assign_text(L3U& s, const char* t) { s = estd::string_view(t, strlen(t)); }
template <bool Z, class S> static void op_assign(S& s, Ref& r, unsigned which)
{
    char a[CAP + 1];
    switch(which)
    {
        case 0: { unsigned k = cstr<CAP>(a); assign_text(s, (const char*)a); r.n = 0; r.append(a, k); break; }
        case 1: { unsigned k = chars<Z, CAP>(a); s = estd::string_view(a, k); r.n = 0; r.append(a, k); break; }
        default: { unsigned k = cstr<CAP>(a); estd::layer1::string<8> o((const char*)a); s = o; r.n = 0; r.append(a, k); break; }
    }
}
template <bool Z, class S> static void op_misc(S& s, Ref& r, unsigned which)
{
    switch(which)
    {
        case 0: { unsigned at = verif_upto(CAP); verif_assume(at < r.n); char c = ch<Z>(); s[at] = c; r.c[at] = c; break; }
        case 1: { unsigned k = verif_upto(CAP); verif_assume(k <= r.n); s.resize(k); r.n = k; break; }
        case 2: { unsigned at = verif_upto(CAP); verif_assume(at < r.n); char c = ch<Z>(); *(s.begin() + (int)at) = c; r.c[at] = c; break; }
        case 3: { S t(s); same<Z>(t, r); t.erase(); CHECK(t.size() == 0, "copy cleared"); break; }     // a copy is independent
        default: { char out[CAP + 1]; for(unsigned i = 0; i <= CAP; ++i) out[i] = 'z';
            unsigned at = verif_upto(CAP); verif_assume(at <= r.n); unsigned k = verif_upto(CAP); unsigned m = s.copy(out, verif_bool() ? k : (k = CAP, (unsigned)S::npos), at);
            unsigned w = k < r.n - at ? k : r.n - at;
            CHECK(m == w, "copy count");
            for(unsigned i = 0; i <= CAP; ++i) CHECK(out[i] == (i < w ? r.c[at + i] : 'z'), "copy out");
            break; }
    }
}

typedef estd::layer1::string<CAP + 1, true> L1;
typedef estd::layer1::string<CAP, false> L1U;
typedef estd::layer2::basic_string<char, CAP + 1, true> L2;
typedef estd::layer3::basic_string<char, true> L3;
typedef estd::layer3::basic_string<char, false> L3U;
// storage with a guard character on each side
struct Buf { char lo; char b[CAP + 1]; char hi; Buf() { lo = 'L'; hi = 'H'; for(unsigned i = 0; i <= CAP; ++i) b[i] = (char)verif_u8(); } 
    void ok() { CHECK(lo == 'L' && hi == 'H', "storage outside the buffer untouched"); } };
#define ONE(name, MAKE, Z, op, n) extern "C" void name() { Ref r; MAKE; init<Z>(s, r); op<Z>(s, r, verif_below(n)); same<Z>(s, r); verif_reach("done"); FIN }
#define FIN
ONE(l1_append, L1 s, true, op_append, 8)
ONE(l1_insert, L1 s, true, op_insert, 7)
ONE(l1_erase, L1 s, true, op_erase, 5)
ONE(l1_assign, L1 s, true, op_assign, 3)
ONE(l1_misc, L1 s, true, op_misc, 5)
ONE(l1u_append, L1U s, false, op_append, 8)
ONE(l1u_insert, L1U s, false, op_insert, 7)
ONE(l1u_erase, L1U s, false, op_erase, 5)
ONE(l1u_misc, L1U s, false, op_misc, 5)
ONE(l1u_assign, L1U s, false, op_assign, 3)
#undef FIN
#define FIN g.ok();
ONE(l2_append, Buf g; L2 s(g.b, true), true, op_append, 8)
ONE(l2_insert, Buf g; L2 s(g.b, true), true, op_insert, 7)
ONE(l2_erase, Buf g; L2 s(g.b, true), true, op_erase, 5)
ONE(l3_append, Buf g; L3 s(g.b, L3::size_type(0), L3::size_type(CAP + 1)), true, op_append, 8)
ONE(l3_insert, Buf g; L3 s(g.b, L3::size_type(0), L3::size_type(CAP + 1)), true, op_insert, 7)
ONE(l3_erase, Buf g; L3 s(g.b, L3::size_type(0), L3::size_type(CAP + 1)), true, op_erase, 5)
ONE(l3u_append, Buf g; L3U s(g.b, L3U::size_type(0), L3U::size_type(CAP)), false, op_append, 8)
ONE(l3u_insert, Buf g; L3U s(g.b, L3U::size_type(0), L3U::size_type(CAP)), false, op_insert, 7)
ONE(l3u_erase, Buf g; L3U s(g.b, L3U::size_type(0), L3U::size_type(CAP)), false, op_erase, 5)
template <bool Z, class S> static void op_misc_l(S& s, Ref& r, unsigned which) { op_misc<Z>(s, r, which == 3 ? 4 : which); }    // a copy shares the buffer
ONE(l2_assign, Buf g; L2 s(g.b, true), true, op_assign, 3)
ONE(l2_misc, Buf g; L2 s(g.b, true), true, op_misc_l, 5)
ONE(l3_assign, Buf g; L3 s(g.b, L3::size_type(0), L3::size_type(CAP + 1)), true, op_assign, 3)
ONE(l3_misc, Buf g; L3 s(g.b, L3::size_type(0), L3::size_type(CAP + 1)), true, op_misc_l, 5)
ONE(l3u_assign, Buf g; L3U s(g.b, L3U::size_type(0), L3U::size_type(CAP)), false, op_assign, 3)
ONE(l3u_misc, Buf g; L3U s(g.b, L3U::size_type(0), L3U::size_type(CAP)), false, op_misc_l, 5)
// the same text, where it is
extern "C" void l3_view()
{
    L1 o; Ref r; init<true>(o, r);
    const estd::layer3::basic_string<const char, true> s(o);
    CHECK(s.size() == r.n && s.empty() == (r.n == 0), "size");
    unsigned j = verif_below(CAP); if(j < r.n) { char x = s[j]; CHECK(x == r.c[j], "content"); }
    verif_reach("done");
}
template <bool Z, class S> static void seq(S& s, int steps)
{
    Ref r; r.n = 0;
    for(int i = 0; i < steps; ++i)
    {
        switch(verif_below(4))
        {
            case 0: op_append<Z>(s, r, verif_below(8)); break;
            case 1: op_insert<Z>(s, r, verif_below(7)); break;
            case 2: op_erase<Z>(s, r, verif_below(5)); break;
            default: op_assign<Z>(s, r, verif_below(3)); break;
        }
    }
    same<Z>(s, r);
    verif_reach("done");
}
extern "C" void l1_seq2() { L1 s; seq<true>(s, 2); }
extern "C" void l1u_seq2() { L1U s; seq<false>(s, 2); }
