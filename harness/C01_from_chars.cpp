// from_chars against a reference parser: every text up to a length, every base, and the boundary
// region of the wide types
//@ h fc_i8_anybase unwind=5 cost=5
//@ h fc_u8_anybase unwind=5 cost=5
//@ h fc_i8_dec unwind=7
//@ h fc_u8_dec unwind=7
//@ h fc_i16_dec unwind=8 cost=3
//@ h fc_u16_hex unwind=7 cost=3
//@ h fc_i32_b2 unwind=10
//@ h fb_i32 unwind=15
//@ h fb_i32n unwind=15
//@ h fb_u32 unwind=15
//@ h fb_i64 unwind=24
//@ h fb_i64n unwind=24
//@ h fb_u64 unwind=24
//@ h fb_u64h unwind=24
//@ h fc_u32_dec unwind=12 cost=9 tier=thorough
//@ h fc_u32_b36 unwind=9 cost=9 tier=thorough
//@ h fc_i64_hex unwind=19 cost=9 tier=thorough
//@ h fc_i32_dec9 unwind=11 cost=9 tier=thorough
#include "verif.h"
#include <estd/charconv.h>
static int ref_digit(char c, unsigned base)
{
    int d = -1;
    if(c >= '0' && c <= '9') d = c - '0';
    else if(c >= 'a' && c <= 'z') d = c - 'a' + 10;
    else if(c >= 'A' && c <= 'Z') d = c - 'A' + 10;
    return d >= 0 && d < (int)base ? d : -1;
}
// text: the given prefix followed by up to M arbitrary characters
template <class T, class U, int M, int P = 0> static void run(unsigned base, const char* prefix = "")
{
    const bool sgn = T(-1) < T(0);
    const int N = M + P;
    char buf[N + 1];
    for(int i = 0; i < P; ++i) buf[i] = prefix[i];
    for(int i = P; i < N; ++i) buf[i] = (char)verif_u8();
    unsigned n = P + verif_upto(M);
    T init = (T)verif_u64();
    T v = init;
    auto r = estd::from_chars(buf, buf + n, v, (int)base);
    // reference: magnitude in U, saturating at the limit for the sign
    unsigned p = 0; bool neg = false;
    if(sgn && n > 0 && buf[0] == '-') { neg = true; p = 1; }
    const U top = sgn ? (U)((U)-1 >> 1) : (U)-1, lim = neg ? (U)(top + 1) : top;
    unsigned d0 = p; U acc = 0; bool over = false;
    for(; p < n; ++p)
    {
        int d = ref_digit(buf[p], base);
        if(d < 0) break;
        if(acc > lim / base || (acc == lim / base && (U)d > lim % base)) over = true;
        acc = (U)(acc * base + d);
    }
    if(neg) acc = (U)(0u - acc);
    if(P == 0 && p == d0)
    {
        CHECK(r.ec == estd::errc::invalid_argument, "no digits: invalid_argument");
        CHECK(r.ptr == buf, "no digits: ptr is first");
        CHECK(v == init, "no digits: value unmodified");
        verif_reach("nomatch");
    }
    else if(over)
    {
        CHECK(r.ec == estd::errc::result_out_of_range, "overflow: result_out_of_range");
        CHECK(r.ptr == buf + p, "overflow: ptr after the pattern");
        CHECK(v == init, "overflow: value unmodified");
        if(P > 0 || sizeof(T) < 4) verif_reach("overflow");
    }
    else
    {
        CHECK(r.ec == 0, "success");
        CHECK(r.ptr == buf + p, "ptr after the pattern");
        CHECK(v == (T)acc, "parsed value");
        verif_reach("ok");
    }
}
static int anybase() { int b = verif_u8(); verif_assume(b >= 2 && b <= 36); return b; }
extern "C" void fc_i8_anybase() { run<int8_t, uint8_t, 4>(anybase()); }
extern "C" void fc_u8_anybase() { run<uint8_t, uint8_t, 4>(anybase()); }
extern "C" void fc_i16_dec() { run<int16_t, uint16_t, 7>(10); }
extern "C" void fc_u16_hex() { run<uint16_t, uint16_t, 6>(16); }
extern "C" void fc_i32_dec9() { run<int32_t, uint32_t, 9>(10); }
extern "C" void fc_i32_b2() { run<int32_t, uint32_t, 8>(2); }
extern "C" void fc_i8_dec() { run<int8_t, uint8_t, 6>(10); }
extern "C" void fc_u8_dec() { run<uint8_t, uint8_t, 6>(10); }
extern "C" void fc_u32_dec() { run<uint32_t, uint32_t, 11>(10); }
extern "C" void fc_u32_b36() { run<uint32_t, uint32_t, 8>(36); }
extern "C" void fc_i64_hex() { run<int64_t, uint64_t, 18>(16); }
extern "C" void fb_i32() { run<int32_t, uint32_t, 4, 8>(10, "21474836"); }
extern "C" void fb_i32n() { run<int32_t, uint32_t, 4, 9>(10, "-21474836"); }
extern "C" void fb_u32() { run<uint32_t, uint32_t, 4, 8>(10, "42949672"); }
extern "C" void fb_i64() { run<int64_t, uint64_t, 4, 17>(10, "92233720368547758"); }
extern "C" void fb_i64n() { run<int64_t, uint64_t, 4, 18>(10, "-92233720368547758"); }
extern "C" void fb_u64() { run<uint64_t, uint64_t, 4, 18>(10, "184467440737095516"); }
extern "C" void fb_u64h() { run<uint64_t, uint64_t, 5, 13>(16, "FFFFffffFFFFf"); }
