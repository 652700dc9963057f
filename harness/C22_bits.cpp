// bytes, bits, flags, hashes, limits, digits, character classes, folds
//@ inline 1000
//@ h swap_bytes unwind=9
//@ h swap_twice unwind=4
//@ h flags_ops unwind=4
//@ h flags_narrow unwind=4
//@ h flags_sets unwind=4
//@ h fnv32 unwind=6
//@ h fnv64 unwind=6 opt=--z3
//@ h hash_strings unwind=8
//@ h hash_split unwind=6
//@ h hash_ints unwind=4
//@ h hash_opt unwind=4
//@ h limits_ints unwind=4
//@ h len_dec unwind=22
//@ h len_oct unwind=24
//@ h len_hex unwind=18
//@ h classes unwind=4
//@ h digit_sets unwind=4
//@ h folds unwind=8
//@ h grow unwind=4
//@ h shrink unwind=4
//@ h divide unwind=4
//@ h enums unwind=4
#include "verif.h"
#include <estd/bit.h>
#include <estd/flags.h>
#include <estd/limits.h>
#include <estd/functional.h>
#include <estd/string.h>
#include <estd/string_view.h>
#include <estd/optional.h>
#include <estd/charconv.h>
#include <estd/cctype.h>
#include <estd/locale.h>
#include <estd/array.h>
#include <estd/numeric.h>
#include <estd/internal/raise_and_add.h>
#include <estd/internal/cstdlib.h>
#include <estd/internal/enum.h>
#include <estd/internal/string/hash.h>
using namespace estd;
// ---- bytes
template <class T> static void swp(T v)
{
    T r = byteswap(v); uint8_t a[sizeof(T)], b[sizeof(T)]; __builtin_memcpy(a, &v, sizeof v); __builtin_memcpy(b, &r, sizeof r);
    unsigned i = verif_below(sizeof(T)); CHECK(a[i] == b[sizeof(T) - 1 - i], "bytes in reverse order");
}
extern "C" void swap_bytes()
{
    swp<uint8_t>(verif_u8()); swp<int8_t>(verif_i8()); swp<uint16_t>(verif_u16()); swp<int16_t>(verif_i16()); swp<char16_t>(verif_u16()); swp<char>((char)verif_u8());
    swp<uint32_t>(verif_u32()); swp<int32_t>(verif_i32()); swp<uint64_t>(verif_u64()); swp<int64_t>(verif_i64()); swp<long>(verif_i64()); swp<long long>(verif_i64()); swp<unsigned long long>(verif_u64());
    static_assert(byteswap<uint16_t>(0x1234) == 0x3412 && byteswap<uint32_t>(0x12345678) == 0x78563412 && byteswap<uint64_t>(1) == 0x0100000000000000ULL, "at compile time");
    uint16_t w = 1; CHECK((endian::native == endian::little) == (*(uint8_t*)&w == 1) && endian::little != endian::big, "byte order of this machine");
    verif_reach("swap_bytes");
}
template <class T> static void twice(T v) { CHECK(byteswap(byteswap(v)) == v, "swapped back"); }
extern "C" void swap_twice() { twice<uint8_t>(verif_u8()); twice<int16_t>(verif_i16()); twice<uint16_t>(verif_u16()); twice<int32_t>(verif_i32()); twice<uint32_t>(verif_u32()); twice<int64_t>(verif_i64()); twice<uint64_t>(verif_u64()); verif_reach("swap_twice"); }
// ---- flags
enum fl { f0 = 0, f1 = 1, f2 = 2, f4 = 4, f8 = 8, fall = 15 };
ESTD_FLAGS(fl)
enum class nf : uint8_t { none = 0, a = 1, b = 2, c = 0x80, all = 0xff };
ESTD_FLAGS(nf)
template <class E, class I> static void ops(I x, I y)
{
    E a = (E)x, b = (E)y; typedef detail::flags<E> F; F fa(a), fb(b);
    CHECK((I)(fa | b).value() == (I)(x | y) && (I)(fa & b).value() == (I)(x & y) && (I)(fa ^ b).value() == (I)(x ^ y) && (I)(~fa).value() == (I)~x, "bit by bit");
    CHECK((I)(a | b).value() == (I)(x | y) && (I)(a & b).value() == (I)(x & y) && (I)(a ^ b).value() == (I)(x ^ y) && (I)(~a).value() == (I)~x, "enumerators promote");
    CHECK((fa == fb) == (x == y) && (fa != fb) == (x != y) && (fa == b) == (x == y), "equality"); CHECK(static_cast<bool>(fa) == (x != 0) && fa.value() == a, "set if any bit is");
    F acc(a); F& r = (acc |= fb); CHECK(&r == &acc && (I)acc.value() == (I)(x | y), "accumulates"); acc |= b; CHECK((I)acc.value() == (I)(x | y), "again");
    CHECK((I)((F(a) | b) & ~F(b)).value() == (I)(x & (I)~y), "remove what was added"); CHECK((I)((F(a) ^ b) ^ b).value() == x, "toggled twice");
}
extern "C" void flags_ops() { ops<fl, unsigned>(verif_u8() & 15, verif_u8() & 15); verif_reach("flags_ops"); }
extern "C" void flags_narrow() { ops<nf, uint8_t>(verif_u8(), verif_u8()); verif_reach("flags_narrow"); }
extern "C" void flags_sets()
{
    bool a = verif_bool(), b = verif_bool(), c = verif_bool(); detail::flags<fl> f(f0); if(a) f |= f1; if(b) f |= f4; if(c) f |= f8;
    CHECK(static_cast<bool>(f & f1) == a && static_cast<bool>(f & f4) == b && static_cast<bool>(f & f8) == c && !static_cast<bool>(f & f2), "each flag by itself"); CHECK(((f | f2) & f2) == f2, "present once set"); verif_reach("flags_sets");
}
// ---- hashes
#ifdef VERIF_THOROUGH
static const unsigned L32 = 3, L64 = 4;
#else
static const unsigned L32 = 2, L64 = 2;
#endif
extern "C" void fnv32()
{
    uint8_t d[4]; for(uint8_t& x : d) x = verif_u8(); uint32_t h = verif_u32(); typedef internal::fnv_hash<uint32_t, internal::FNV_1A> A; typedef internal::fnv_hash<uint32_t, internal::FNV_1> B;
    CHECK(A::hash(d, d) == 2166136261u && B::hash(d, d) == 2166136261u && A::hash(d, d, h) == h && B::hash(d, d, h) == h, "nothing hashed");
    CHECK(A::hash(d, d + 1, h) == (h ^ d[0]) * 16777619u && B::hash(d, d + 1, h) == ((h * 16777619u) ^ d[0]), "one byte, as published"); CHECK(A::hash((char*)d, (char*)d + 1, h) == (h ^ d[0]) * 16777619u && B::hash((const signed char*)d, (const signed char*)d + 1, h) == ((h * 16777619u) ^ d[0]), "whatever the sign of char");
    uint32_t a = A::INIT, b = B::INIT; for(unsigned i = 0; i < L32; ++i) { a = (a ^ d[i]) * 16777619u; b = (b * 16777619u) ^ d[i]; CHECK(A::hash(d, d + i + 1) == a && B::hash(d, d + i + 1) == b, "each byte in turn"); }
    verif_reach("fnv32");
}
static uint64_t p64(uint64_t v) { return v + (v << 1) + (v << 4) + (v << 5) + (v << 7) + (v << 8) + (v << 40); }
extern "C" void fnv64()
{
    uint8_t d[L64]; unsigned n = verif_upto(L64); uint64_t a = 0xcbf29ce484222325ULL, b = a;
    for(unsigned i = 0; i < L64; ++i) { d[i] = verif_u8(); if(i < n) { a = p64(a ^ d[i]); b = p64(b) ^ d[i]; } }
    CHECK(p64(1) == 0x100000001b3ULL, "the published prime"); typedef internal::fnv_hash<uint64_t, internal::FNV_1A> A; typedef internal::fnv_hash<uint64_t, internal::FNV_1> B;
    uint64_t h = verif_u64(); CHECK(A::hash(d, d + 1, h) == p64(h ^ d[0]) && B::hash(d, d + 1, h) == (p64(h) ^ d[0]), "one more byte");
    CHECK(A::hash(d, d + n) == a && B::hash((char*)d, (char*)d + n) == b, "as published"); verif_reach("fnv64");
}
template <unsigned n> static void hstr(const char* t)
{
    char d[n + 1]; for(unsigned i = 0; i < n; ++i) { d[i] = t[i]; verif_assume(d[i] != 0); } d[n] = 0;
    layer1::string<8> a(d); string_view v(d, (unsigned char)n); layer2::const_string c(d); uint32_t e = internal::fnv_hash<uint32_t>::hash(d, d + n);
    CHECK(hash<decltype(a)>()(a) == e && hash<string_view>()(v) == e && hash<decltype(c)>()(c) == e, "equal text has equal hashes, whoever stores it");
    a += 'x'; a.pop_back(); CHECK(internal::container_hash<uint32_t>()(a) == e, "only the text counts");
}
extern "C" void hash_strings() { char d[2] = { (char)verif_u8(), (char)verif_u8() }; hstr<0>(d); hstr<1>(d); hstr<2>(d); verif_reach("hash_strings"); }
template <unsigned k> static void split(const uint8_t* d) { typedef internal::fnv_hash<uint32_t> H; CHECK(H::hash(d, d + 2) == H::hash(d + k, d + 2, H::hash(d, d + k)), "can be continued"); }
extern "C" void hash_split() { uint8_t d[2] = { verif_u8(), verif_u8() }; split<0>(d); split<1>(d); split<2>(d); verif_reach("hash_split"); }
extern "C" void hash_ints()
{
    uint32_t a = verif_u32(), b = verif_u32(); CHECK((hash<uint32_t>()(a) == hash<uint32_t>()(b)) == (a == b), "distinct integers, distinct hashes"); int16_t i = verif_i16(), j = verif_i16(); CHECK((hash<int16_t>()(i) == hash<int16_t>()(j)) == (i == j), "signed"); uint64_t x = verif_u64(), y = verif_u64(); CHECK((hash<uint64_t>()(x) == hash<uint64_t>()(y)) == (x == y), "wide"); verif_reach("hash_ints");
}
extern "C" void hash_opt()
{
    uint16_t a = verif_u16(); optional<uint16_t> o(a), e; CHECK(hash<optional<uint16_t>>()(o) == hash<uint16_t>()(a), "of the value held"); CHECK(hash<optional<uint16_t>>()(e) == hash<optional<uint16_t>>()(optional<uint16_t>()), "all empty ones alike"); verif_reach("hash_opt");
}
// ---- limits
template <class T> static void lim(T v)
{
    typedef numeric_limits<T> L; CHECK(L::min() <= v && v <= L::max(), "every value lies between"); CHECK(v != L::min() || (T)(v - 1) > v || sizeof(T) > 2, "tight");
    T lo = L::min(), hi = L::max(); CHECK((T)((typename make_unsigned<T>::type)hi + 1) == lo, "and the ends are the ends"); const bool sg = (T)-1 < (T)0;
    CHECK(L::is_integer && L::is_specialized && L::radix == 2 && !L::is_iec559 && L::is_signed == sg, "kind"); CHECK(L::bits == sizeof(T) * 8 && L::digits == (int)(sizeof(T) * 8 - sg), "bits");
    uint64_t p = 1; int d = 0; for(; d < 19 && (uint64_t)hi / 10 >= p; ++d) p *= 10; CHECK(L::digits10 == d, "decimal digits that always fit");
}
#define LIM(T, v) { typedef numeric_limits<T> L; T x = v; CHECK(L::min() <= x && x <= L::max(), "every value lies between"); const bool sg = (T)-1 < (T)0; \
    static_assert((T)(L::max() + (typename make_unsigned<T>::type)1) == L::min(), "the ends are the ends"); \
    static_assert(L::is_integer && L::is_specialized && L::radix == 2 && !L::is_iec559 && L::is_signed == ((T)-1 < (T)0), "kind"); CHECK(L::bits == sizeof(T) * 8 && L::digits == (int)(sizeof(T) * 8) - sg, "bits"); \
    CHECK(L::digits10 == (sizeof(T) == 1 ? 2 : sizeof(T) == 2 ? 4 : sizeof(T) == 4 ? 9 : sg ? 18 : 19), "decimal digits that always fit"); }
extern "C" void limits_ints()
{
    LIM(signed char, verif_i8()) LIM(unsigned char, verif_u8()) LIM(short, verif_i16()) LIM(unsigned short, verif_u16()) LIM(int, verif_i32()) LIM(unsigned, verif_u32())
    LIM(long, verif_i64()) LIM(unsigned long, verif_u64()) LIM(long long, verif_i64()) LIM(unsigned long long, verif_u64())
    bool b = verif_bool(); CHECK(numeric_limits<bool>::min() <= b && b <= numeric_limits<bool>::max() && numeric_limits<bool>::digits == 1, "bool");
    float f = verif_f32(); verif_assume(f - f == 0); CHECK(numeric_limits<float>::lowest() <= f && f <= numeric_limits<float>::max() && numeric_limits<float>::min() > 0, "float");
    double g = verif_f64(); verif_assume(g - g == 0); CHECK(numeric_limits<double>::lowest() <= g && g <= numeric_limits<double>::max() && numeric_limits<double>::min() > 0, "double");
    verif_reach("limits_ints");
}
// the text of any value fits in length<base>
template <unsigned B, class T> static void fits(T v)
{
    const unsigned N = numeric_limits<T>::template length<B>::value; char b[N]; to_chars_result r = to_chars(b, b + N, v, B);
    CHECK(r.ec == 0 && r.ptr <= b + N && r.ptr > b, "fits"); 
}
extern "C" void len_dec() { fits<10, uint8_t>(verif_u8()); fits<10, int8_t>(verif_i8()); fits<10, uint16_t>(verif_u16()); fits<10, int16_t>(verif_i16()); fits<10, int32_t>(verif_bool() ? INT32_MIN : INT32_MAX); fits<10, uint64_t>(UINT64_MAX - verif_upto(1)); fits<10, int64_t>(INT64_MIN + (int)verif_upto(1)); verif_reach("len_dec"); }
extern "C" void len_oct() { fits<8, uint8_t>(verif_u8()); fits<8, int8_t>(verif_i8()); fits<8, uint16_t>(verif_u16()); fits<8, int16_t>(verif_i16()); fits<8, uint32_t>(verif_u32()); fits<8, int32_t>(verif_i32()); fits<8, uint64_t>(verif_u64()); fits<8, int64_t>(verif_i64()); verif_reach("len_oct"); }
extern "C" void len_hex() { fits<16, uint8_t>(verif_u8()); fits<16, int8_t>(verif_i8()); fits<16, uint16_t>(verif_u16()); fits<16, int16_t>(verif_i16()); fits<16, uint32_t>(verif_u32()); fits<16, int32_t>(verif_i32()); fits<16, uint64_t>(verif_u64()); fits<16, int64_t>(verif_i64()); verif_reach("len_hex"); }
// ---- characters
extern "C" void classes()
{
    int c = verif_i16(); verif_assume(c >= -1 && c < 256); bool up = c >= 65 && c <= 90, lo = c >= 97 && c <= 122;
    CHECK(!!estd::isupper(c) == up && !!estd::islower(c) == lo && !!estd::isalpha(c) == (up || lo), "letters"); CHECK(!!estd::isdigit(c) == (c >= 48 && c <= 57), "digits"); CHECK(!!estd::isspace(c) == (c == 32 || (c >= 9 && c <= 13)), "white space");
    if(c >= 0) { char ch = (char)c; typedef ctype<char, internal::classic_locale_type> F; CHECK(F::isspace(ch) == !!estd::isspace(c) && F::isupper(ch) == up && F::islower(ch) == lo && F::is(ctype_base::digit, ch) == !!estd::isdigit(c), "the facet agrees"); }
    verif_reach("classes");
}
extern "C" void digit_sets()
{
    char c = (char)verif_u8(); unsigned base = 2 + verif_below(35); int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
    if(base > 10) { typedef cbase<char, 36, internal::classic_locale_type> C; bool in = d < (int)base; CHECK(C::is_in_base(c, base) == in, "in the base"); auto o = C::from_char(c, base); CHECK((bool)o == in && (!in || *o == d), "its value"); if(in) { CHECK(C::from_char_raw(c) == d, "raw value"); C k; char l = c >= 'A' && c <= 'Z' ? c + 32 : c; CHECK(k.to_char(d) == l, "and back, in lower case"); } }
    else { typedef cbase<char, 10, internal::classic_locale_type> C; bool in = d < (int)base; CHECK(C::is_in_base(c, base) == in, "in the base"); auto o = C::from_char(c, base); CHECK((bool)o == in && (!in || *o == d), "its value"); if(in) CHECK(C::to_char(d) == c, "and back"); }
    verif_reach("digit_sets");
}
// ---- folds and arithmetic helpers
extern "C" void folds()
{
    array<unsigned, 5> a; unsigned n = verif_upto(5), s = verif_u32(), e = s, x = s; for(unsigned i = 0; i < 5; ++i) { a[i] = verif_u32(); if(i < n) { e += a[i]; x = x * 2 - a[i]; } }
    CHECK(accumulate(a.begin(), a.begin() + n, s) == e, "sum, in order"); CHECK(accumulate(a.begin(), a.begin() + n, s, [](unsigned l, unsigned r) { return l * 2 - r; }) == x, "operation, left to right"); verif_reach("folds");
}
template <class T> static void rise(T v, unsigned base, int d)
{
    T u = v, w = v; long long e = (long long)v * base + d, f = (long long)v * base - d; typedef numeric_limits<T> L;
    bool ok = internal::raise_and_add(u, (unsigned short)base, (uint8_t)d), in = e >= (long long)L::min() && e <= (long long)L::max(); bool mid = (long long)v * base >= (long long)L::min() && (long long)v * base <= (long long)L::max();
    CHECK(ok == (in && mid), "reports overflow"); CHECK(!ok || u == (T)e, "next digit"); ok = internal::raise_and_sub(w, (unsigned short)base, (uint8_t)d); in = f >= (long long)L::min() && f <= (long long)L::max(); CHECK(ok == (in && mid) && (!ok || w == (T)f), "downwards");
}
extern "C" void grow() { unsigned d = verif_below(10); rise<uint8_t>(verif_u8(), 10, d); rise<int8_t>(verif_i8(), 10, d); rise<uint16_t>(verif_u16(), 10, d); rise<int16_t>(verif_i16(), 10, d); verif_reach("grow"); }
extern "C" void shrink() { unsigned d = verif_below(16); rise<uint32_t>(verif_u32(), 16, d); rise<int32_t>(verif_i32(), 16, d); rise<int16_t>(verif_i16(), 36, d); verif_reach("shrink"); }
template <class T> static void dv(T x, T y) { if(y == 0 || (y == (T)-1 && x == numeric_limits<T>::min())) return; auto r = internal::div<T>::eval(x, y); CHECK((T)(r.quot * y + r.rem) == x && (r.rem < 0 ? -r.rem : r.rem) < (y < 0 ? -(long)y : (long)y) && (r.rem == 0 || (r.rem < 0) == (x < 0)), "quotient and remainder"); }
extern "C" void divide() { dv<int8_t>(verif_i8(), verif_i8()); dv<uint8_t>(verif_u8(), verif_u8()); int16_t x = verif_i16(); auto r = internal::div<int16_t>::eval(x, 10); CHECK(r.quot == x / 10 && r.rem == x % 10, "by ten"); verif_reach("divide"); }
struct colors { enum values { red = 1, green = 2, blue = 5 }; };
extern "C" void enums()
{
    typedef internal::enum_class<colors> E; colors::values a = verif_bool() ? colors::red : verif_bool() ? colors::green : colors::blue, b = verif_bool() ? colors::red : colors::blue;
    E x(a), y; y = b; CHECK((x == a) && !(x != a) && (y == b) && ((x == b) == (a == b)) && ((x != b) == (a != b)) && (int)x == (int)a && E((int)a) == a, "as the enumerator"); verif_reach("enums");
}
