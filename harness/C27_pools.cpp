// Memory pools: fixed slots, and chunks of a heap behind handles
//@ h handles unwind=6
//@ h pointers unwind=6
//@ h slots unwind=6
//@ h constructed unwind=6
//@ h external unwind=6
//@ h shared unwind=6
//@ h heap_chunks unwind=10
//@ h heap_chunks2 unwind=10
//@ h heap_chunks3 unwind=10 tier=thorough
//@ h heap_full unwind=10
//@ h heap_handles unwind=10
//@ h heap_maint0 unwind=10
//@ h heap_maint1 unwind=10
//@ h heap_maint2 unwind=10 tier=thorough
//@ h heap_maint3 unwind=10 tier=thorough
//@ h heap_maint4 unwind=10
#include "verif.h"
#include <estd/exp/memory/memory_pool.h>
#include <estd/exp/memory/memory_pool2.h>
using namespace estd::experimental;
typedef uint32_t T;
enum { N = 3 };
// any history of taking and giving back over N slots
template <class P, unsigned steps> static void history(P& p)
{
    T* at[N] = {}; T val[N] = {}; unsigned out = 0;
    CHECK((unsigned)p.count_free() == N, "all free");
    for(unsigned s = 0; s < steps; ++s)
    {
        if(verif_bool())
        {
            T* q = p.allocate();
            CHECK((q == nullptr) == (out == N), "a slot is to be had while there is a free one");
            if(q)
            {
                T v = verif_u32(); *q = v;
                bool done = false;
                for(unsigned i = 0; i < N; ++i)
                {
                    CHECK(at[i] != q, "no slot is handed out twice");
                    if(!done && !at[i]) { at[i] = q; val[i] = v; done = true; }
                }
                ++out;
            }
        }
        else
        {
            unsigned i = verif_below(N);
            if(at[i]) { p.deallocate(at[i]); at[i] = nullptr; --out; }
        }
        CHECK((unsigned)p.count_free() == N - out, "free slots are counted");
        unsigned j = verif_below(N);
        if(at[j]) CHECK(*at[j] == val[j], "a slot keeps its content");
    }
}
extern "C" void handles() { memory::v1::memory_pool_1<T, N> p; history<memory::v1::memory_pool_1<T, N>, 5>(p); verif_reach("handles"); }
extern "C" void pointers() { memory::v1::memory_pool_ll<T, N> p; history<memory::v1::memory_pool_ll<T, N>, 5>(p); verif_reach("pointers"); }
extern "C" void slots()
{
    typedef memory::v2::memory_pool<T, N, memory::v2::pool_types::linked_list> P;
    P p; history<P, 5>(p);
    T other = 0;
    T* q = p.allocate();
    if(q) CHECK(p.within_range(q), "its own slots are in range");
    CHECK(!p.within_range(&other), "others are not");
    verif_reach("slots");
}
static int alive;
struct Obj { T v; Obj(T v) : v(v) { ++alive; } Obj(const Obj& o) : v(o.v) { ++alive; } ~Obj() { --alive; } };
template <class P> static void makes()
{
    alive = 0;
    P p; T x = verif_u32(), y = verif_u32(), z = verif_u32();
    Obj& a = p.construct(x); Obj& b = p.construct(y);
    CHECK(alive == 2 && a.v == x && b.v == y && p.count_free() == N - 2, "made in the pool");
    bool first = verif_bool();
    p.destroy(first ? a : b);
    CHECK(alive == 1 && p.count_free() == N - 1 && (first ? b.v == y : a.v == x), "destroyed once");
    Obj& c = p.construct(z);
    CHECK(alive == 2 && c.v == z && (first ? b.v == y : a.v == x), "made in the pool");
    Obj& d = p.construct(x);
    CHECK(alive == 3 && d.v == x && c.v == z && p.count_free() == 0 && p.allocate() == nullptr, "as many as there are slots");
    if(verif_bool()) { p.destroy(c); CHECK(alive == 2 && d.v == x, "destroyed once"); p.destroy(d); } else { p.destroy(d); CHECK(alive == 2 && c.v == z, "destroyed once"); p.destroy(c); }
    CHECK(alive == 1, "destroyed once");
    p.destroy(first ? b : a);
    CHECK(alive == 0 && p.count_free() == N, "destroyed once");
}
extern "C" void constructed() { makes<memory::v1::memory_pool_1<Obj, N> >(); makes<memory::v1::memory_pool_ll<Obj, N> >(); verif_reach("constructed"); }
extern "C" void external()
{
    typedef memory::v1::memory_pool_1<T, N> P;
    P p; auto& a = p.allocate_item(); auto& b = p.allocate_item();
    a.value.value() = verif_u32(); T x = a.value.value(); b.value.value() = 7;
    P::item_ext_node_traits t(p.node_traits().storage);
    P::ext_list_type l(t);
    l.push_front(a); l.push_front(b);
    CHECK(&l.front() == &b, "latest in front"); l.pop_front();
    CHECK(&l.front() == &a && l.front().value.value() == x, "then the one before"); l.pop_front();
    CHECK(l.empty() && p.count_free() == N - 2, "lists over a pool leave its free slots alone");
    p.deallocate_item(a); p.deallocate_item(b);
    CHECK(p.count_free() == N && &p.allocate_item() == &b, "given back");
    verif_reach("external");
}
extern "C" void shared()
{
    alive = 0;
    typedef memory::v1::memory_pool_1<estd::layer1::shared_ptr<Obj>, N> P;
    P p; T x = verif_u32(), y = verif_u32();
    auto& a = p.construct(); a.construct(x);
    auto& b = p.construct(); b.construct(y);
    CHECK(alive == 2 && p.count_free() == N - 2 && a.use_count() == 1, "made in the pool");
    {
        estd::layer3::shared_ptr<Obj> c(a);
        CHECK(a.use_count() == 2 && c->v == x, "shared");
        if(verif_bool()) { a.reset(); CHECK(alive == 2 && p.count_free() == N - 2 && c.use_count() == 1 && c->v == x, "stays while someone has it"); }
        else { c.reset(); CHECK(alive == 2 && a.use_count() == 1, "stays while someone has it"); a.reset(); CHECK(alive == 1, "gone with the last"); }
    }
    CHECK(alive == 1 && p.count_free() == N - 1 && b->v == y, "destroyed, and its slot given back, with the last reference");
    b.reset();
    CHECK(alive == 0 && p.count_free() == N, "destroyed, and its slot given back, with the last reference");
    verif_reach("shared");
}
// heap: chunks between 16 and 48 bytes out of HEAP
typedef memory::v2::virtual_memory<96, 3> Heap;
struct Held { bool on[3]; unsigned char mark[3]; };
static void agree(Heap& h, const Held& m)
{
    unsigned total = 0, i = verif_below(3), j = verif_below(3);
    for(unsigned k = 0; k < 3; ++k)
    {
        CHECK((h.handles[k].data != nullptr) == m.on[k], "handles are in use from allocate to free");
        if(m.on[k]) total += h.handles[k].chunk_size;
    }
    CHECK(h.total_free() + total == 96, "nothing is lost");
    if(m.on[i])
    {
        unsigned at = h.handles[i].data - h.storage, n = h.handles[i].chunk_size;
        CHECK(at <= 96 && n <= 96 - at, "inside");
        CHECK(h.handles[i].data[0] == m.mark[i] && h.handles[i].data[n - 1] == m.mark[i], "content stays");
        if(i != j && m.on[j])
        {
            unsigned bt = h.handles[j].data - h.storage, k = h.handles[j].chunk_size;
            CHECK(at + n <= bt || bt + k <= at, "chunks do not overlap");
        }
    }
}
static unsigned take(Heap& h, Held& m, unsigned size)
{
    unsigned i = h.allocate(size);
    if(i == (unsigned)-1) return i;
    CHECK(i < 3 && !m.on[i], "a fresh handle");
    CHECK(h.handles[i].chunk_size >= size, "large enough");
    m.on[i] = true; m.mark[i] = verif_u8();
    h.handles[i].data[0] = m.mark[i]; h.handles[i].data[h.handles[i].chunk_size - 1] = m.mark[i];
    return i;
}
static void give(Heap& h, Held& m, unsigned i) { h.free(i); m.on[i] = false; }
template <unsigned p, unsigned q, unsigned r> static void chunks(bool both)
{
    Heap h; Held m = {};
    unsigned a = take(h, m, p), b = take(h, m, q), c;
    CHECK(a != (unsigned)-1 && b != (unsigned)-1, "there is room");
    agree(h, m);
    if(both) { give(h, m, b); agree(h, m); }
    give(h, m, a); agree(h, m);
    c = take(h, m, r);
    CHECK(c != (unsigned)-1, "room given back is used again");
    agree(h, m);
    verif_reach("chunks");
}
extern "C" void heap_chunks() { chunks<20, 32, 18>(false); }
extern "C" void heap_chunks2() { chunks<20, 32, 32>(true); }
extern "C" void heap_chunks3() { chunks<60, 36, 50>(false); }
template <unsigned n> static void full()
{
    Heap h; Held m = {};
    unsigned a = take(h, m, n);
    CHECK(a != (unsigned)-1, "all of it can be had"); agree(h, m);
    if(n > 80) CHECK(h.allocate(1) == (unsigned)-1, "then there is none");
    agree(h, m);
    give(h, m, a); agree(h, m);
    verif_reach("full");
}
extern "C" void heap_full() { full<80>(); full<81>(); full<95>(); full<96>(); }
extern "C" void heap_handles()
{
    Heap h; Held m = {};
    unsigned x = take(h, m, 16), y = take(h, m, 16), z = take(h, m, 1);
    CHECK(x != (unsigned)-1 && y != (unsigned)-1 && z != (unsigned)-1, "three handles"); agree(h, m);
    CHECK(h.allocate(16) == (unsigned)-1, "no more handles"); agree(h, m);
    give(h, m, y); agree(h, m); y = take(h, m, 32); CHECK(y != (unsigned)-1, "a handle given back is used again"); agree(h, m);
    verif_reach("handles");
}
template <unsigned how> static void maint()
{
    Heap h; Held m = {};
    unsigned a = take(h, m, 16), b = take(h, m, 32), c = take(h, m, 16);
    switch(how)
    {
        case 0: give(h, m, b); h.maint(); give(h, m, c); break;
        case 1: give(h, m, c); give(h, m, a); h.maint(); break;
        case 2: give(h, m, a); h.maint(); h.maint(); give(h, m, b); break;
        case 3: give(h, m, a); give(h, m, b); give(h, m, c); h.maint(); break;
        default: give(h, m, c); give(h, m, b); give(h, m, a); h.maint(); h.maint();
    }
    agree(h, m);
    for(unsigned i = 0; i < 3; ++i) h.maint();
    agree(h, m);
    unsigned d = take(h, m, 20); CHECK(d != (unsigned)-1, "room given back is used again"); agree(h, m);
    h.maint(); agree(h, m);
    verif_reach("maint");
}
extern "C" void heap_maint0() { maint<0>(); }
extern "C" void heap_maint1() { maint<1>(); }
extern "C" void heap_maint2() { maint<2>(); }
extern "C" void heap_maint3() { maint<3>(); }
extern "C" void heap_maint4() { maint<4>(); }
