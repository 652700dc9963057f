// bip buffer: a byte queue whose readable part is contiguous
//@ inline 1000
//@ h fifo unwind=8 unwind_thorough=9
//@ h fifo_direct unwind=8 unwind_thorough=9
//@ h c_api unwind=8
//@ h two_regions unwind=8
//@ h whole unwind=8
//@ h heap unwind=8
//@ link estd/ext/willemt/bipbuffer/bipbuffer.c
#include "verif.h"
#include <estd/streambuf.h>
#include <estd/internal/bip/buffer.h>
using namespace estd;
typedef unsigned char uc;
enum : unsigned { CAP = 5 };
#ifdef VERIF_THOROUGH
enum : unsigned { STEPS = 6 };
#else
enum : unsigned { STEPS = 4 };
#endif
enum : unsigned { EMAX = STEPS * CAP };
struct Model { uc e[EMAX]; unsigned h, t; };
template <class B> static void agree(B& b, Model& m)
{
    unsigned used = m.t - m.h;
    CHECK(b.used() == used, "used");
    CHECK(b.unused() + used <= CAP, "unused never exceeds the free bytes");
    if(used == 0) CHECK(b.unused() == CAP, "an empty buffer offers all its room");
    if(b.contiguous() == used) CHECK(2 * b.unused() >= CAP - used, "the larger part of the room is on offer while the content is in one piece");
    CHECK(b.contiguous() <= used && (used == 0) == (b.contiguous() == 0), "something is readable whenever something is stored");
    const uc* p = b.peek();
    CHECK((p != nullptr) == (used > 0), "peek");
    unsigned i = verif_below(CAP); if(i < b.contiguous()) CHECK(p[i] == m.e[m.h + i], "readable bytes are the oldest, in order");
}
template <class B> static void put(B& b, Model& m, bool direct)
{
    uc d[CAP]; for(unsigned i = 0; i < CAP; ++i) d[i] = verif_u8();
    unsigned k = verif_upto(CAP), room = b.unused();
    if(direct)
    {
        verif_assume(k <= room);
        uc* p = b.offer_begin(); for(unsigned i = 0; i < CAP; ++i) if(i < k) p[i] = d[i];
        b.offer_end(k);
    }
    else
    {
        int r = b.offer(d, (int)k);
        CHECK(r == (k <= room ? (int)k : 0), "offer takes all or nothing");
        if(k > room) return;
    }
    for(unsigned i = 0; i < CAP; ++i) if(i < k) m.e[m.t + i] = d[i];
    m.t += k;
}
template <class B> static void take(B& b, Model& m)
{
    unsigned k = verif_upto(CAP), c = b.contiguous();
    const uc* q = b.peek((int)k); const uc* p = b.poll((int)k);
    CHECK((p != nullptr) == (c > 0 && k <= c), "poll gives only what is contiguous");
    CHECK(p == q, "poll gives what peek showed");
    if(p == nullptr) return;
    unsigned i = verif_below(CAP); if(i < k) CHECK(p[i] == m.e[m.h + i], "polled bytes are the oldest, in order");
    m.h += k;
}
template <class B> static void run(B& b, bool direct)
{
    Model m; m.h = m.t = 0;
    for(unsigned s = 0; s < STEPS; ++s) { if(verif_bool()) put(b, m, direct); else take(b, m); agree(b, m); }
}
extern "C" void fifo() { layer1::bipbuf<CAP> b; run(b, false); verif_reach("fifo"); }
extern "C" void fifo_direct() { layer1::bipbuf<CAP> b; run(b, true); verif_reach("direct"); }
// the buffer in caller supplied memory, with guards
struct Mem { alignas(8) uc pre[8]; alignas(8) uc m[sizeof(bipbuf_t) + CAP]; uc post[8]; };
extern "C" void c_api()
{
    Mem z; for(unsigned i = 0; i < 8; ++i) z.pre[i] = z.post[i] = 0x5A;
    layer3::bipbuf b((bipbuf_t*)z.m, CAP);
    CHECK(bipbuf_size(b.native()) == CAP && bipbuf_is_empty(b.native()), "initial");
    Model m; m.h = m.t = 0;
    put(b, m, false); agree(b, m); take(b, m); agree(b, m); put(b, m, false); agree(b, m);
    layer3::bipbuf c(b.native()); take(c, m); agree(c, m);
    CHECK(!!bipbuf_is_empty(b.native()) == (m.h == m.t), "empty");
    for(unsigned i = 0; i < 8; ++i) CHECK(z.pre[i] == 0x5A && z.post[i] == 0x5A, "nothing outside the buffer is written");
    verif_reach("c_api");
}
// fill, free the front, fill again: both regions are in use; everything comes out in order
extern "C" void two_regions()
{
    layer1::bipbuf<CAP> b; Model m; m.h = m.t = 0;
    put(b, m, false); verif_assume(m.t > 0);
    take(b, m); put(b, m, false); put(b, m, false); agree(b, m);
    for(unsigned s = 0; s < 3; ++s)
    {
        unsigned c = b.contiguous(); if(!c) break;
        const uc* p = b.poll((int)c); CHECK(p != nullptr, "drain");
        unsigned i = verif_below(CAP); if(i < c) CHECK(p[i] == m.e[m.h + i], "in order");
        m.h += c; agree(b, m);
    }
    CHECK(m.h == m.t && b.used() == 0, "two polls drain it");
    verif_reach("two");
}
// after any history and a full drain the whole capacity is available again
extern "C" void whole()
{
    layer1::bipbuf<CAP> b; Model m; m.h = m.t = 0;
    put(b, m, false); take(b, m); put(b, m, true);
    for(unsigned s = 0; s < 2; ++s) if(b.contiguous()) { m.h += b.contiguous(); b.poll((int)b.contiguous()); }
    agree(b, m); CHECK(b.used() == 0, "empty");
    uc d[CAP]; for(unsigned i = 0; i < CAP; ++i) d[i] = verif_u8();
    CHECK(b.offer(d, CAP) == CAP && b.used() == CAP && b.unused() == 0 && b.contiguous() == CAP, "full");
    CHECK(b.offer(d, 1) == 0 && b.used() == CAP, "a full buffer takes nothing");
    const uc* p = b.poll(CAP); for(unsigned i = 0; i < CAP; ++i) CHECK(p[i] == d[i], "content");
    verif_reach("whole");
}
extern "C" void heap()
{
    bipbuf_t* n = bipbuf_new(CAP); verif_assume(n != nullptr);
    layer3::bipbuf b(n); Model m; m.h = m.t = 0;
    put(b, m, false); agree(b, m); take(b, m); put(b, m, false); agree(b, m);
    bipbuf_free(n);
    verif_reach("heap");
}
