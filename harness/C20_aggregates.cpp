// fixed arrays, spans, fixed maps, pairs and tuples
//@ inline 1000
//@ h arr_access unwind=10
//@ h arr_init unwind=10
//@ h arr_compare unwind=10
//@ h arr_uninit unwind=8
//@ h arr_copy unwind=10
//@ h span_dyn unwind=10
//@ h span_sub unwind=10
//@ h span_fixed unwind=10
//@ h span_bytes unwind=26
//@ h span_assign unwind=8
//@ h map1 unwind=8
//@ h map23 unwind=8
//@ h legacy unwind=8
//@ h pair_order unwind=4
//@ h pair_swap unwind=4
//@ h swaps unwind=4
//@ h tup_get unwind=4
//@ h tup_init unwind=20
//@ h tup_empty unwind=4
//@ h tup_life unwind=4
//@ h tup_apply unwind=4
//@ h tup_visit unwind=5
//@ h tup_refs unwind=4
//@ h type_visit unwind=6
#include "verif.h"
#include <estd/array.h>
#include <estd/span.h>
#include <estd/map.h>
#include <estd/tuple.h>
#include <estd/utility.h>
#include <estd/algorithm.h>
#include <estd/internal/variadic.h>
using namespace estd;
static int num() { return (int)verif_u32(); }
// ---- array
template <class T, unsigned N> static void arr(T (*v)())
{
    array<T, N> a; T e[N]; for(unsigned i = 0; i < N; ++i) a[i] = e[i] = v();
    unsigned w = verif_below(N); T x = v(); a[w] = x; e[w] = x;
    const array<T, N>& c = a; unsigned i = verif_below(N);
    CHECK(a[i] == e[i] && c[i] == e[i] && a.data()[i] == e[i] && *(a.begin() + i) == e[i], "elements in order");
    CHECK(&a[i] == a.data() + i && c.begin() == a.data() && c.cbegin() == a.data(), "contiguous");
    CHECK(a.end() - a.begin() == (int)N && c.end() - c.begin() == (int)N && c.cend() == c.end(), "extent");
    CHECK(a.size() == N && a.max_size() == N && !a.empty(), "size");
    CHECK(&a.front() == &a[0] && &a.back() == &a[N - 1] && &c.front() == &c[0] && &c.back() == &c[N - 1], "front and back");
    T f = v(); a.fill(f); CHECK(a[i] == f, "fill"); CHECK(sizeof(a) == sizeof(T) * N, "no overhead");
}
static uint8_t b8() { return verif_u8(); }
extern "C" void arr_access() { arr<int, 5>(num); arr<uint8_t, 7>(b8); arr<int, 1>(num); verif_reach("arr_access"); }
extern "C" void arr_init()
{
    int x = num(), y = num(), z = num(); unsigned i = verif_below(5);
    array<int, 5> a { x, y, z }; int e[5] = { x, y, z };
    CHECK(a[i] == e[i], "listed, then zero");
    array<int, 5> n {}; CHECK(n[i] == 0, "value initialized");
    int raw[5]; for(int& r : raw) r = num();
    array<int, 5> t = to_array(raw); CHECK(t[i] == raw[i], "to_array");
    const uint8_t k[3] = { verif_u8(), verif_u8(), verif_u8() }; array<uint8_t, 3> u = to_array(k); unsigned j = verif_below(3); CHECK(u[j] == k[j], "to_array of const");
    verif_reach("arr_init");
}
extern "C" void arr_compare()
{
    array<int, 3> a, b; array<int, 4> c; bool same = true;
    for(unsigned i = 0; i < 3; ++i) { a[i] = num(); b[i] = num(); c[i] = a[i]; if(a[i] != b[i]) same = false; } c[3] = num();
    CHECK((a == b) == same && (a != b) == !same && a == a && !(a != a), "element-wise");
    CHECK(!(a == c) && a != c, "different sizes differ");
    verif_reach("arr_compare");
}
struct Tick { static int born, died; int v; Tick(int v) : v(v) { ++born; } ~Tick() { ++died; } };
int Tick::born, Tick::died;
extern "C" void arr_uninit()
{
    Tick::born = Tick::died = 0;
    { internal::uninitialized_array<Tick, 4> a; CHECK(Tick::born == 0, "nothing built");
      CHECK(sizeof(a) == sizeof(Tick) * 4 && a.size() == 4, "size");
      unsigned i = verif_below(4); int v = num(); new (&a[i]) Tick(v); CHECK(a[i].v == v && &a[i] == a.data() + i && a.begin() + i == &a[i], "in place");
      if(i) { new (&a[i - 1]) Tick(~v); CHECK(a[i].v == v, "no overlap"); } }
    CHECK(Tick::died == 0, "nothing destroyed by it");
    verif_reach("arr_uninit");
}
extern "C" void arr_copy()
{
    array<int, 4> a; for(unsigned i = 0; i < 4; ++i) a[i] = num(); unsigned i = verif_below(4);
    array<int, 4> b(a), c; c = a; int old = a[i]; a[i] = num();
    CHECK(b[i] == old && c[i] == old, "copies are independent");
    array<int, 4> d(static_cast<array<int, 4>&&>(b)); CHECK(d[i] == old, "moved");
    verif_reach("arr_copy");
}
// ---- span
extern "C" void span_dyn()
{
    int raw[6]; for(int& r : raw) r = num(); unsigned n = verif_upto(6), i = verif_below(6);
    span<int> s(raw, (span<int>::size_type)n), t(raw, raw + n), all(raw);
    CHECK(s.size() == n && t.size() == n && all.size() == 6 && s.size_bytes() == n * sizeof(int) && s.empty() == (n == 0), "size");
    CHECK(s.data() == raw && s.begin() == raw && s.end() == raw + n && s.cbegin() == raw && s.cend() == raw + n, "range");
    if(i < n) { const span<int>& c = s; CHECK(&s[i] == raw + i && &c[i] == raw + i, "refers"); s[i] = 77; CHECK(raw[i] == 77, "writes through"); }
    span<int> f = all.first(n); CHECK(f.data() == raw && f.size() == n, "first n");
    span<int> z; CHECK(z.empty() && z.size() == 0 && z.begin() == z.end(), "default");
    verif_reach("span_dyn");
}
extern "C" void span_sub()
{
    int raw[6]; unsigned n = verif_upto(6), o = verif_upto(6), c = verif_upto(6); verif_assume(o <= n && c <= n - o);
    span<int> s(raw, raw + n);
    span<int> a = s.subspan(o, c); CHECK(a.data() == raw + o && a.size() == c, "count elements from offset");
    span<int> b = s.subspan(o); CHECK(b.data() == raw + o && b.size() == n - o && b.end() == s.end(), "to the end");
    span<int, 6> k(raw); span<int> d = k.subspan(o); CHECK(d.begin() == raw + o && d.end() == raw + 6, "fixed to the end");
    verif_reach("span_sub");
}
extern "C" void span_fixed()
{
    int raw[5]; unsigned i = verif_below(5); raw[i] = num();
    span<int, 5> s(raw); CHECK(s.size() == 5 && s.data() == raw && s.end() == raw + 5 && &s[i] == raw + i && !s.empty(), "fixed");
    span<int> d(s); CHECK(d.data() == raw && d.size() == 5, "to dynamic");
    verif_reach("span_fixed");
}
extern "C" void span_bytes()
{
    uint32_t raw[4]; for(uint32_t& r : raw) r = verif_u32(); unsigned n = verif_upto(4), i = verif_below(16), k = verif_below(16);
    span<uint32_t> s(raw, raw + n); auto b = as_bytes(s); auto w = as_writable_bytes(s);
    CHECK(b.size() == n * 4 && w.size() == n * 4, "size in bytes");
    if(i < n * 4) { CHECK((uint8_t)b[i] == (uint8_t)(raw[i / 4] >> (8 * (i % 4))), "bytes of the elements"); uint8_t v = verif_u8(); w[i] = (estd::byte)v; CHECK((uint8_t)(raw[i / 4] >> (8 * (i % 4))) == v, "writable"); }
    span<uint32_t, 4> f(raw); auto fb = as_bytes(f); auto fw = as_writable_bytes(f); CHECK(fb.size() == 16 && fw.size() == 16 && &fb[k] == &fw[k] && (uint8_t)fb[k] == (uint8_t)(raw[k / 4] >> (8 * (k % 4))), "fixed");
    verif_reach("span_bytes");
}
extern "C" void span_assign()
{
    int a[4], b[4]; unsigned n = verif_upto(4), m = verif_upto(4);
    span<int> s(a, a + n), t(b, b + m); s = t; CHECK(s.data() == b && s.size() == m && t.data() == b && t.size() == m, "assigned");
    span<int> u(s); CHECK(u.data() == b && u.size() == m, "copied");
    verif_reach("span_assign");
}
// ---- fixed maps
template <class M> static void lookup(M& m, const int* key, int* val, unsigned n, bool through)
{
    int k = num(); int* r = m[k]; int at = -1;
    for(unsigned i = n; i-- > 0;) if(key[i] == k) at = (int)i;
    CHECK((r != nullptr) == (at >= 0), "found if and only if present");
    if(r) { CHECK(*r == val[at], "the first entry of that key"); *r = 5; CHECK(*m[k] == 5, "writable in place"); }
    (void)through;
}
extern "C" void map1()
{
    int k[4], v[4]; for(unsigned i = 0; i < 4; ++i) { k[i] = num(); v[i] = num(); }
    layer1::map<int, int, 4> m { { k[0], v[0] }, { k[1], v[1] }, { k[2], v[2] }, { k[3], v[3] } };
    lookup(m, k, v, 4, false);
    array<pair<int, int>, 4> buf; for(unsigned i = 0; i < 4; ++i) buf[i] = pair<int, int>(k[i], v[i]);
    layer1::map<int, int, 4> c(buf); buf[verif_below(4)].first = num(); lookup(c, k, v, 4, false);
    verif_reach("map1");
}
extern "C" void map23()
{
    int k[4], v[4]; layer2::map<int, int, 4>::value_type b2[4]; layer3::map<int, int>::value_type b3[4];
    for(unsigned i = 0; i < 4; ++i) { k[i] = num(); v[i] = num(); b2[i].first = b3[i].first = k[i]; b2[i].second = b3[i].second = v[i]; }
    layer2::map<int, int, 4> m2(b2); lookup(m2, k, v, 4, true);
    layer3::map<int, int> m3(b3); lookup(m3, k, v, 4, true);
    verif_reach("map23");
}
extern "C" void legacy()
{
    int raw[5]; for(int& r : raw) r = num(); unsigned i = verif_below(5), n = verif_upto(5);
    estd::legacy::layer2::array<int, 5> a(raw); CHECK(a.size() == 5 && &a[i] == raw + i && a.begin() == raw && a.end() == raw + 5 && &a.front() == raw, "layer2");
    estd::legacy::layer3::array<int> b(raw); CHECK(b.size() == 5 && &b[i] == raw + i && b.end() == raw + 5 && &b.back() == raw + 4, "layer3");
    estd::legacy::layer3::array<int> c(raw, n); CHECK(c.size() == n && c.end() - c.begin() == (int)n, "sized");
    verif_reach("legacy");
}
// ---- pair
template <class T, class U> static void order(T (*t)(), U (*u)())
{
    typedef pair<T, U> P; P a(t(), u()), b(t(), u()), c(t(), u());
    bool lt = a.first != b.first ? a.first < b.first : a.second < b.second, eq = a.first == b.first && a.second == b.second;
    CHECK((a < b) == lt && (b > a) == lt && (a == b) == eq && (a != b) == !eq && (a > b) == (!lt && !eq), "first decides, then second");
    if(a < b && b < c) CHECK(a < c, "transitive");
    P d = make_pair(a.first, a.second); CHECK(d == a && get<0>(d) == a.first && get<1>(d) == a.second, "make_pair"); get<0>(d) = b.first; CHECK(d.first == b.first, "get refers");
    const P& e = d; CHECK(get<1>(e) == a.second, "const get");
}
static int16_t s16() { return verif_i16(); }
static int64_t s64() { return verif_i64(); }
static int8_t s8() { return verif_i8(); }
extern "C" void pair_order() { order<int, uint8_t>(num, b8); order<int8_t, int16_t>(s8, s16); order<uint8_t, int64_t>(b8, s64); order<int, int>(num, num); verif_reach("pair_order"); }
extern "C" void pair_swap()
{
    typedef pair<int, uint8_t> P; P a(num(), verif_u8()), b(num(), verif_u8()); P x(a), y(b);
    if(verif_bool()) a.swap(b); else swap(a, b); CHECK(a == y && b == x, "exchanged");
    a.swap(a); CHECK(a == y, "with itself");
    int u = num(), v = num(); pair<int, int> p(piecewise_construct_t{}, make_tuple((int)u), make_tuple((int)v)); CHECK(p.first == u && p.second == v, "piecewise");
    verif_reach("pair_swap");
}
template <class T> static void sw(T a, T b) { T x = a, y = b; estd::swap(x, y); CHECK(x == b && y == a, "swap"); estd::swap(x, x); CHECK(x == b, "swap with itself"); T o = estd::exchange(x, a); CHECK(o == b && x == a, "exchange"); }
struct Odd { int a; char c; bool operator==(const Odd& o) const { return a == o.a && c == o.c; } };
extern "C" void swaps()
{
    sw<char>(verif_u8(), verif_u8()); sw<short>(verif_i16(), verif_i16()); sw<int>(num(), num()); sw<long>(verif_i64(), verif_i64());
    sw<unsigned char>(verif_u8(), verif_u8()); sw<unsigned short>(verif_u16(), verif_u16()); sw<unsigned>(num(), num()); sw<unsigned long>(verif_u64(), verif_u64());
    sw<long long>(verif_i64(), verif_i64()); sw<bool>(verif_bool(), verif_bool()); sw<Odd>(Odd{ num(), 'a' }, Odd{ num(), (char)verif_u8() });
    verif_reach("swaps");
}
// ---- tuple
extern "C" void tup_get()
{
    int a = num(), c = num(), w = num(); uint8_t b = verif_u8(); int64_t d = verif_i64();
    tuple<int, uint8_t, int64_t, int> t((int)a, (uint8_t)b, (int64_t)d, (int)c); const auto& k = t;
    CHECK(get<0>(t) == a && get<1>(t) == b && get<2>(t) == d && get<3>(t) == c, "in order");
    CHECK(get<0>(k) == a && get<1>(k) == b && get<2>(k) == d && get<3>(k) == c, "const");
    unsigned i = verif_below(4);
    if(i == 0) get<0>(t) = w; else if(i == 1) get<1>(t) = (uint8_t)w; else if(i == 2) get<2>(t) = w; else get<3>(t) = w;
    CHECK(get<0>(t) == (i == 0 ? w : a) && get<1>(t) == (i == 1 ? (uint8_t)w : b) && get<2>(t) == (i == 2 ? w : d) && get<3>(t) == (i == 3 ? w : c), "only that element");
    CHECK(get<uint8_t>(t) == get<1>(t) && get<int64_t>(t) == get<2>(t), "by type");
    auto u(t); get<0>(t) = ~get<0>(u); CHECK(get<1>(u) == get<1>(t) && get<0>(u) != get<0>(t), "copies are independent");
    auto m = make_tuple((int)a, (uint8_t)b); CHECK(get<0>(m) == a && get<1>(m) == b, "make_tuple");
    verif_reach("tup_get");
}
struct Deflt { int v; Deflt() : v(42) {} };
extern "C" void tup_init()
{
    unsigned char raw[sizeof(tuple<int, Deflt, uint8_t>)]; for(unsigned i = 0; i < sizeof raw; ++i) raw[i] = verif_u8();
    typedef tuple<int, Deflt, uint8_t> T; alignas(T) unsigned char mem[sizeof(T)]; __builtin_memcpy(mem, raw, sizeof mem);
    T* t = new (mem) T; CHECK(get<0>(*t) == 0 && get<1>(*t).v == 42 && get<2>(*t) == 0, "value initialized");
    T u; CHECK(get<0>(u) == 0 && get<2>(u) == 0, "value initialized");
    verif_reach("tup_init");
}
struct Emp { int twice(int x) const { return 2 * x; } }; struct Emp2 {};
extern "C" void tup_empty()
{
    int a = num(), b = num(); tuple<Emp, int, Emp2, int> t(Emp(), (int)a, Emp2(), (int)b);
    CHECK(get<1>(t) == a && get<3>(t) == b, "neighbours of empty elements");
    CHECK(sizeof(t) == 2 * sizeof(int), "empty elements take no room");
    get<1>(t) = b; CHECK(get<1>(t) == b && get<3>(t) == b, "writable"); CHECK(get<0>(t).twice(3) == 6, "usable");
    verif_reach("tup_empty");
}
struct Cnt { static int born, died; int v; Cnt(int v) : v(v) { ++born; } Cnt(const Cnt& o) : v(o.v) { ++born; } Cnt(Cnt&& o) : v(o.v) { o.v = -1; ++born; } ~Cnt() { ++died; } };
int Cnt::born, Cnt::died;
extern "C" void tup_life()
{
    Cnt::born = Cnt::died = 0; int x = num(), y = num(); verif_assume(x != -1 && y != -1);
    { tuple<Cnt, int, Cnt> t(Cnt(x), 5, Cnt(y)); CHECK(get<0>(t).v == x && get<2>(t).v == y, "moved in");
      tuple<Cnt, int, Cnt> c(t); CHECK(get<0>(c).v == x && get<2>(c).v == y && get<0>(t).v == x, "copied");
      tuple<Cnt, int, Cnt> m(static_cast<tuple<Cnt, int, Cnt>&&>(t)); CHECK(get<0>(m).v == x && get<2>(m).v == y && get<0>(t).v == -1, "moved"); }
    CHECK(Cnt::born == Cnt::died && Cnt::born > 0, "every element destroyed once");
    verif_reach("tup_life");
}
extern "C" void tup_apply()
{
    int a = num(), b = num(), c = num(), seen = 0; auto f = [&](int x, int y, int z) { ++seen; return (unsigned)x * 3u + (unsigned)y * 5u + (unsigned)z * 7u; };
    unsigned e = (unsigned)a * 3u + (unsigned)b * 5u + (unsigned)c * 7u;
    auto t = make_tuple((int)a, (int)b, (int)c); CHECK(estd::apply(f, t) == e && seen == 1, "arguments in order, once");
    CHECK(estd::apply(f, make_tuple((int)a, (int)b, (int)c)) == e, "temporary");
    auto g = [](int x, int y) { return (unsigned)x - (unsigned)y; }; CHECK(estd::apply(g, estd::make_pair(a, b)) == (unsigned)a - (unsigned)b, "pair");
    auto h = [](int& x, int& y, int& z) { x = 1; y = 2; z = 3; return 0; }; estd::apply(h, t); CHECK(get<0>(t) == 1 && get<2>(t) == 3, "by reference");
    struct S { int a, b; S(int a, int b) : a(a), b(b) {} }; S s = estd::make_from_tuple<S>(make_tuple((int)a, (int)b)); CHECK(s.a == a && s.b == b, "make_from_tuple");
    verif_reach("tup_apply");
}
struct See { unsigned* log; int stop; unsigned* sum; template <size_t I, class T> bool operator()(variadic::v2::instance<I, T> v) const { *log = *log * 10 + (unsigned)I + 1; *sum += (unsigned)v.value * (unsigned)(I + 1); return stop == (int)I; } };
extern "C" void tup_visit()
{
    int a = num(), b = num(), c = num(); tuple<int, int, int> t((int)a, (int)b, (int)c); unsigned log = 0, sum = 0; int stop = (int)verif_below(4);
    t.visit(See{ &log, stop, &sum });
    CHECK(log == (stop == 0 ? 1u : stop == 1 ? 12u : 123u), "in order until one says stop");
    CHECK(sum == (unsigned)a + (stop > 0 ? 2u * (unsigned)b : 0u) + (stop > 1 ? 3u * (unsigned)c : 0u), "each value once");
    verif_reach("tup_visit");
}
extern "C" void tup_refs()
{
    int x = num(), y = num(), n = num(); tuple<int&, int> t(x, (int)y); get<0>(t) = n; get<1>(t) = n; CHECK(x == n, "reference element refers");
    int z = y; auto f = forward_as_tuple(z, (int)5); get<0>(f) = n; CHECK(z == n && get<1>(f) == 5, "forward_as_tuple");
    verif_reach("tup_refs");
}
struct Fn { int stop; unsigned* log; template <size_t I, class T> bool operator()(variadic::v1::visitor_index<I, T>) const { *log = *log * 100 + (unsigned)sizeof(T) * 10 + (unsigned)I; return (int)I == stop; } };
extern "C" void type_visit()
{
    unsigned log = 0; int stop = (int)verif_below(4);
    int r = variadic::types<char, int, short>::visitor::visit(Fn{ stop, &log });
    CHECK(r == (stop < 3 ? stop : -1), "which one stopped it"); CHECK(log == (stop == 0 ? 10u : stop == 1 ? 1041u : 104122u), "types in order");
    verif_reach("type_visit");
}
