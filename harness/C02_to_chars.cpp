// to_chars / to_chars_opt / to_string: exact text, bounds respected, failure reported
//@ h tc_i8 unwind=14
//@ h tc_u8 unwind=14
//@ h tc_i16_dec unwind=12
//@ h tc_u16_b36 unwind=11
//@ h tc_u32_hex unwind=14
//@ h tc_i32_min unwind=17
//@ h tc_i32_max unwind=17
//@ h tc_u32_max unwind=17
//@ h tc_i64_min unwind=26
//@ h tc_i64_max unwind=26
//@ h tc_u64_max unwind=26
//@ h tc_u64_hex unwind=22
//@ h tc_opt_i16 unwind=11
//@ h tc_opt_upper unwind=11
//@ h tc_exp_i16 unwind=11
//@ h ts_i8 unwind=8
//@ h ts_u8 unwind=8
//@ h ts_i16 unwind=9
//@ h ts_u16 unwind=9
//@ h ts_i32_edge unwind=14
//@ h ts_u32_edge unwind=14
//@ h ts_i64_edge unwind=24 tier=thorough
//@ h ts_i64_min unwind=24
//@ h ts_u64_max unwind=24
//@ h ts_u64_edge unwind=24 tier=thorough
//@ h tc_i32_dec unwind=13 cost=9 tier=thorough
//@ h tc_u32_dec unwind=13 cost=9 tier=thorough
#include "verif.h"
#include <estd/charconv.h>
#include <estd/string.h>
// text t[0..len) must be the canonical rendering of v
template <class T, class U> static void canonical(const char* t, unsigned len, T v, unsigned base, bool upper = false)
{
    unsigned i = 0; bool neg = v < 0;
    if(neg) { CHECK(len > 1 && t[0] == '-', "sign"); i = 1; }
    CHECK(len > i, "at least one digit");
    if(len - i > 1) CHECK(t[i] != '0', "no leading zero");
    U acc = 0; bool over = false;
    for(; i < len; ++i)
    {
        unsigned char c = t[i]; unsigned d;
        if(c >= '0' && c <= '9') d = c - '0';
        else { unsigned char a = upper ? 'A' : 'a'; CHECK(c >= a && c < a + 26, "digit character"); d = c - a + 10; }
        CHECK(d < base, "digit of the base");
        acc = (U)(acc * base + d);
    }
    CHECK(acc == (U)(neg ? U(0) - (U)v : (U)v), "text denotes the value");
}
static unsigned need(uint64_t mag, bool neg, unsigned base)
{
    unsigned n = 1 + neg; 
    while(mag >= base) { mag /= base; ++n; }
    return n;
}
template <class T, class U, int MAX> static void conv(T v, unsigned base, unsigned n)
{
    char mem[MAX + 4];
    for(int i = 0; i < MAX + 4; ++i) mem[i] = '#';
    auto r = estd::to_chars(mem + 2, mem + 2 + n, v, (int)base);
    CHECK(mem[0] == '#' && mem[1] == '#', "nothing written before the buffer");
    for(unsigned i = n; i < MAX + 2; ++i) CHECK(mem[2 + i] == '#', "nothing written after the buffer");
    unsigned nd = need(v < 0 ? (U)(U(0) - (U)v) : (U)v, v < 0, base);
    if(nd <= n)
    {
        CHECK(r.ec == 0, "fits: success");
        CHECK(r.ptr == mem + 2 + nd, "ptr one past the text");
        canonical<T, U>(mem + 2, nd, v, base);
        verif_reach("fit");
    }
    else
    {
        CHECK(r.ec == estd::errc::value_too_large, "too small: value_too_large");
        CHECK(r.ptr == mem + 2 + n, "too small: ptr is last");
    }
    verif_reach("end");
}
extern "C" void tc_i8() { int b = verif_u8(); verif_assume(b == 2 || b == 3 || b == 7 || b == 10 || b == 16 || b == 36); conv<int8_t, uint8_t, 9>(verif_i8(), b, verif_upto(9)); }
extern "C" void tc_u8() { int b = verif_u8(); verif_assume(b == 2 || b == 8 || b == 10 || b == 11 || b == 16 || b == 36); conv<uint8_t, uint8_t, 9>(verif_u8(), b, verif_upto(9)); }
extern "C" void tc_i16_dec() { conv<int16_t, uint16_t, 7>(verif_i16(), 10, verif_upto(7)); }
extern "C" void tc_u16_b36() { conv<uint16_t, uint16_t, 6>(verif_u16(), 36, verif_upto(6)); }
extern "C" void tc_u32_hex() { conv<uint32_t, uint32_t, 9>(verif_u32(), 16, verif_upto(9)); }
extern "C" void tc_u64_hex() { conv<uint64_t, uint64_t, 17>(verif_u64(), 16, verif_upto(17)); }
extern "C" void tc_i32_min() { conv<int32_t, uint32_t, 12>((int32_t)(INT32_MIN + (int)verif_upto(15)), 10, verif_upto(12)); }
extern "C" void tc_i32_max() { conv<int32_t, uint32_t, 12>((int32_t)(INT32_MAX - (int)verif_upto(15)), 10, verif_upto(12)); }
extern "C" void tc_u32_max() { conv<uint32_t, uint32_t, 12>(UINT32_MAX - verif_upto(15), 10, verif_upto(12)); }
extern "C" void tc_i64_min() { conv<int64_t, uint64_t, 21>(INT64_MIN + (int64_t)verif_upto(15), 10, verif_upto(21)); }
extern "C" void tc_i64_max() { conv<int64_t, uint64_t, 21>(INT64_MAX - (int64_t)verif_upto(15), 10, verif_upto(21)); }
extern "C" void tc_u64_max() { conv<uint64_t, uint64_t, 21>(UINT64_MAX - verif_upto(15), 10, verif_upto(21)); }
extern "C" void tc_i32_dec() { conv<int32_t, uint32_t, 12>(verif_i32(), 10, 12); }
extern "C" void tc_u32_dec() { conv<uint32_t, uint32_t, 11>(verif_u32(), 10, 11); }
// the right aligned variants
template <bool UP> static void opt(int base)
{
    int16_t v = verif_i16();
    char mem[9];
    for(char& c : mem) c = '#';
    unsigned n = verif_upto(7);
    auto r = UP ? estd::to_chars_opt(mem + 1, mem + 1 + n, v, base, true) : estd::to_chars_opt(mem + 1, mem + 1 + n, v, base);
    CHECK(mem[0] == '#', "nothing written before the buffer");
    for(unsigned i = n; i < 8; ++i) CHECK(mem[1 + i] == '#', "nothing written after the buffer");
    unsigned nd = need(v < 0 ? (uint16_t)(0 - (unsigned)v) : (uint16_t)v, v < 0, base);
    if(nd <= n)
    {
        CHECK(r.ec == 0 && r.ptr == mem + 1 + n - nd, "text ends at last");
        canonical<int16_t, uint16_t>(r.ptr, nd, v, base, UP);
        verif_reach("fit");
    }
    else CHECK(r.ec == estd::errc::value_too_large, "too small: value_too_large");
}
extern "C" void tc_opt_i16() { opt<false>(10); }
extern "C" void tc_opt_upper() { opt<true>(16); }
extern "C" void tc_exp_i16()
{
    int16_t v = verif_i16();
    char mem[9];
    for(char& c : mem) c = '#';
    unsigned n = verif_upto(7);
    auto r = estd::to_chars_exp(mem + 1, mem + 1 + n, v);
    CHECK(mem[0] == '#', "nothing written before the buffer");
    for(unsigned i = n; i < 8; ++i) CHECK(mem[1 + i] == '#', "nothing written after the buffer");
    unsigned nd = need(v < 0 ? (uint16_t)(0 - (unsigned)v) : (uint16_t)v, v < 0, 10);
    if(nd <= n)
    {
        CHECK(r.ec == 0 && r.ptr == mem + 1 + nd, "ptr one past the text");
        canonical<int16_t, uint16_t>(mem + 1, nd, v, 10);
        verif_reach("fit");
    }
    else CHECK(r.ec == estd::errc::value_too_large, "too small: value_too_large");
}
template <class T, class U> static void tostr(T v)
{
    auto s = estd::to_string(v);
    unsigned nd = need(v < 0 ? (U)(U(0) - (U)v) : (U)v, v < 0, 10);
    CHECK(s.size() == nd, "length");
    char d[24]; unsigned n = 0;
    for(auto it = s.begin(); it != s.end() && n < 24; ++it) d[n++] = *it;
    CHECK(n == nd, "iteration yields every character");
    canonical<T, U>(d, nd, v, 10);
    verif_reach("end");
}
extern "C" void ts_i8() { tostr<int8_t, uint8_t>(verif_i8()); }
extern "C" void ts_u8() { tostr<uint8_t, uint8_t>(verif_u8()); }
extern "C" void ts_i16() { tostr<int16_t, uint16_t>(verif_i16()); }
extern "C" void ts_u16() { tostr<uint16_t, uint16_t>(verif_u16()); }
template <class T> static T edge(T lo, T hi) { bool b = verif_bool(); T x = (T)verif_upto(sizeof(T) > 4 ? 3 : 15); return b ? (T)(hi - x) : (T)(lo + x); }
extern "C" void ts_i32_edge() { tostr<int32_t, uint32_t>(edge<int32_t>(INT32_MIN, INT32_MAX)); }
extern "C" void ts_u32_edge() { tostr<uint32_t, uint32_t>(edge<uint32_t>(0, UINT32_MAX)); }
extern "C" void ts_i64_edge() { tostr<int64_t, uint64_t>(edge<int64_t>(INT64_MIN, INT64_MAX)); }
extern "C" void ts_u64_edge() { tostr<uint64_t, uint64_t>(edge<uint64_t>(0, UINT64_MAX)); }

template <class T> static void wide(T v, const char* prefix, unsigned last)
{
    auto s = estd::to_string(v);
    CHECK(s.size() == 20, "length");
    auto it = s.begin();
    for(int i = 0; i < 19; ++i, ++it) CHECK(*it == prefix[i], "leading characters");
    CHECK(*it == (char)('0' + last), "last digit");
    verif_reach("end");
}
extern "C" void ts_i64_min() { unsigned k = verif_upto(8); wide<int64_t>(INT64_MIN + (int)k, "-922337203685477580", 8 - k); }
extern "C" void ts_u64_max() { unsigned k = verif_upto(5); wide<uint64_t>(UINT64_MAX - k, "1844674407370955161", 5 - k); }
