// sequence algorithms against their definitions, on arrays, overlapping ranges and strided iterators
//@ h copies unwind=16 unwind_thorough=48
//@ h copies_overlap unwind=8 unwind_thorough=12
//@ h fills unwind=8 unwind_thorough=12
//@ h searches unwind=8 unwind_thorough=12
//@ h search_sub unwind=8 unwind_thorough=12
//@ h extremes unwind=8 unwind_thorough=12
//@ h clamp_minmax unwind=3
//@ h reversing unwind=8 unwind_thorough=12
//@ h swaps unwind=16
//@ h accum unwind=8 unwind_thorough=12
//@ h filtering unwind=8 unwind_thorough=12
#include "verif.h"
#include <estd/algorithm.h>
#include <estd/numeric.h>
#include <estd/iterator.h>
#include <estd/utility.h>
#ifdef VERIF_THOROUGH
static const unsigned N = 10;
#else
static const unsigned N = 6;
#endif
struct A { int c[N]; unsigned n; A() { n = verif_upto(N); for(unsigned i = 0; i < N; ++i) c[i] = verif_i32(); } };
struct B { uint8_t c[N]; unsigned n; B() { n = verif_upto(N); for(unsigned i = 0; i < N; ++i) c[i] = verif_u8(); } };
extern "C" void copies()
{
    A a; int d[N + 2]; int g = verif_i32(); for(unsigned i = 0; i < N + 2; ++i) d[i] = g;
    int* r; unsigned w = verif_below(4);
    if(w == 0) r = estd::copy(a.c, a.c + a.n, d + 1);
    else if(w == 1) r = estd::copy_n(a.c, a.n, d + 1);
    else if(w == 2) r = estd::copy_backward(a.c, a.c + a.n, d + 1 + a.n);
    else { A s = a; r = estd::move_backward(s.c, s.c + s.n, d + 1 + s.n); }
    CHECK(r == (w < 2 ? d + 1 + a.n : d + 1), "returned position");
    for(unsigned i = 0; i < N + 2; ++i) CHECK(d[i] == (i >= 1 && i <= a.n ? a.c[i - 1] : g), "copied range");
    if(a.n == N) verif_reach("full");
}
extern "C" void copies_overlap()
{
    A a; A o = a; unsigned k = verif_below(N); verif_assume(a.n + k <= N);
    if(verif_bool()) { estd::copy_backward(a.c, a.c + a.n, a.c + a.n + k); for(unsigned i = 0; i < N; ++i) if(i < a.n) CHECK(a.c[i + k] == o.c[i], "copy_backward onto a later overlapping range"); }
    else { estd::copy(a.c + k, a.c + k + a.n, a.c); for(unsigned i = 0; i < N; ++i) if(i < a.n) CHECK(a.c[i] == o.c[i + k], "copy onto an earlier overlapping range"); }
    if(k == 2 && a.n == 4) verif_reach("overlap");
}
extern "C" void fills()
{
    A a; A o = a; int v = verif_i32(); unsigned f = verif_upto(N); verif_assume(f <= a.n);
    if(verif_bool()) estd::fill(a.c + f, a.c + a.n, v); else { int* r = estd::fill_n(a.c + f, a.n - f, v); CHECK(r == a.c + a.n, "fill_n result"); }
    for(unsigned i = 0; i < N; ++i) CHECK(a.c[i] == (i >= f && i < a.n ? v : o.c[i]), "filled range");
    if(a.n == N) verif_reach("full");
}
extern "C" void searches()
{
    B a, b; uint8_t v = verif_u8();
    struct P { uint8_t v; bool operator()(uint8_t x) const { return x > v; } } p = { v };
    uint8_t* r = estd::find_if(a.c, a.c + a.n, p);
    unsigned w = a.n; for(unsigned i = N; i-- > 0; ) if(i < a.n && a.c[i] > v) w = i;
    CHECK(r == a.c + w, "find_if");
    verif_assume(b.n >= a.n);
    auto m = estd::mismatch(a.c, a.c + a.n, b.c);
    unsigned q = a.n; for(unsigned i = N; i-- > 0; ) if(i < a.n && a.c[i] != b.c[i]) q = i;
    CHECK(m.first == a.c + q && m.second == b.c + q, "mismatch");
    CHECK(estd::equal(a.c, a.c + a.n, b.c) == (q == a.n), "equal");
    uint8_t s[3]; unsigned sn = verif_upto(3); for(int i = 0; i < 3; ++i) s[i] = verif_u8();
    uint8_t* f = estd::find_first_of(a.c, a.c + a.n, s, s + sn);
    unsigned fw = a.n; for(unsigned i = N; i-- > 0; ) if(i < a.n) { bool in = false; for(unsigned j = 0; j < 3; ++j) if(j < sn && s[j] == a.c[i]) in = true; if(in) fw = i; }
    CHECK(f == a.c + fw, "find_first_of");
    if(q == a.n && a.n == N) verif_reach("equal");
}
extern "C" void search_sub()
{
    B a; uint8_t s[3]; unsigned sn = verif_upto(3); for(int i = 0; i < 3; ++i) s[i] = verif_u8();
    struct Q { bool operator()(uint8_t x, uint8_t y) const { return x == y; } };
    uint8_t* r = estd::search(a.c, a.c + a.n, s, s + sn, Q());
    unsigned w = a.n;
    for(unsigned i = N + 1; i-- > 0; ) if(i <= a.n && sn <= a.n - i) { bool ok = true; for(unsigned j = 0; j < 3; ++j) if(j < sn && a.c[i + j] != s[j]) ok = false; if(ok) w = i; }
    CHECK(r == a.c + w, "search"); if(sn == 3 && w > 1 && w < a.n) verif_reach("found");
}
extern "C" void extremes()
{
    B a; struct L { bool operator()(uint8_t x, uint8_t y) const { return (x & 0x7F) < (y & 0x7F); } };
    uint8_t* mx = estd::max_element(a.c, a.c + a.n, L()); uint8_t* mn = estd::min_element(a.c, a.c + a.n, L());
    if(a.n == 0) { CHECK(mx == a.c && mn == a.c, "empty range"); }
    else
    {
        CHECK(mx >= a.c && mx < a.c + a.n && mn >= a.c && mn < a.c + a.n, "inside the range");
        for(unsigned i = 0; i < N; ++i) if(i < a.n)
        {
            CHECK(!L()(*mx, a.c[i]), "nothing larger"); CHECK(!L()(a.c[i], *mn), "nothing smaller");
            if(a.c + i < mx) CHECK(L()(a.c[i], *mx), "first of equals"); if(a.c + i < mn) CHECK(L()(*mn, a.c[i]), "first of equals");
        }
        verif_reach("some");
    }
}
extern "C" void clamp_minmax()
{
    int v = verif_i32(), lo = verif_i32(), hi = verif_i32(); verif_assume(lo <= hi);
    const int& r = estd::clamp(v, lo, hi);
    CHECK(&r == (v < lo ? &lo : v > hi ? &hi : &v), "clamp");
    struct G { bool operator()(int a, int b) const { return a > b; } };
    CHECK(&estd::clamp(v, hi, lo, G()) == (v > hi ? &hi : v < lo ? &lo : &v), "clamp with an order");
    CHECK(estd::min(v, lo) == (lo < v ? lo : v), "min"); CHECK(estd::max(v, lo) == (lo > v ? lo : v), "max");
    CHECK(estd::min(v, lo, G()) == (lo > v ? lo : v), "min with an order");
    verif_reach("done");
}
extern "C" void reversing()
{
    A a; A o = a; estd::reverse(a.c, a.c + a.n);
    for(unsigned i = 0; i < N; ++i) CHECK(a.c[i] == (i < a.n ? o.c[a.n - 1 - i] : o.c[i]), "reverse");
    if(a.n == 5) verif_reach("odd");
}
template <class T> static void sw(T x, T y)
{
    T a = x, b = y; estd::swap(a, b); CHECK(a == y && b == x, "swap exchanges"); estd::swap(a, a); CHECK(a == y, "swap with itself");
    T c[2] = { x, y }; unsigned i = verif_below(2), j = verif_below(2); T e = c[i], f = c[j]; estd::iter_swap(c + i, c + j); CHECK(c[i] == (i == j ? e : f) && c[j] == e, "iter_swap");
}
struct S { int a; char b; bool operator==(const S& o) const { return a == o.a && b == o.b; } };
extern "C" void swaps()
{
    sw<char>((char)verif_u8(), (char)verif_u8()); sw<unsigned char>(verif_u8(), verif_u8()); sw<short>((short)verif_u16(), (short)verif_u16());
    sw<unsigned short>(verif_u16(), verif_u16()); sw<int>(verif_i32(), verif_i32()); sw<unsigned>(verif_u32(), verif_u32());
    sw<long>(verif_i64(), verif_i64()); sw<unsigned long>(verif_u64(), verif_u64()); sw<long long>(verif_i64(), verif_i64());
    S p = { verif_i32(), (char)verif_u8() }, q = { verif_i32(), (char)verif_u8() }; sw<S>(p, q);
    int x = verif_i32(), y = verif_i32(); int old = estd::exchange(x, y); (void)old;
    verif_reach("done");
}
extern "C" void accum()
{
    B a; unsigned init = verif_u16(); unsigned e = init, x = init;
    for(unsigned i = 0; i < N; ++i) if(i < a.n) { e += a.c[i]; x = x * 3 ^ a.c[i]; }
    CHECK(estd::accumulate(a.c, a.c + a.n, init) == e, "sum");
    struct M { unsigned operator()(unsigned s, uint8_t v) const { return s * 3 ^ v; } };
    CHECK(estd::accumulate(a.c, a.c + a.n, init, M()) == x, "fold in order");
    if(a.n == N) verif_reach("full");
}
extern "C" void filtering()
{
    B a; unsigned t = verif_u8(); struct F { unsigned t; uint8_t operator()(uint8_t c) const { return c > t ? 0 : (uint8_t)(c + 1); } } f = { t };
    auto it = estd::experimental::make_filter_iterator(f, (const uint8_t*)a.c);
    for(unsigned i = 0; i < N; ++i) if(i < a.n)
    {
        CHECK(*it == f(a.c[i]), "the transformed current element");
        if(verif_bool()) ++it; else { auto old = it++; CHECK(*old == f(a.c[i]), "postfix leaves the old position"); }
    }
    if(a.n == N) verif_reach("full");
}
