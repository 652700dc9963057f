// heap algorithms and priority queues: the heap order and the multiset of elements
//@ h mk_heap unwind=7 cost=3
//@ h mk_heap3 unwind=7 cost=3
//@ h mk_heap6 unwind=8 cost=5 tier=thorough timeout=3000
//@ h mk_heap_min unwind=7
//@ h push_h unwind=7 cost=2
//@ h pop_h unwind=7 cost=3
//@ h pq_seq unwind=7 cost=3
//@ h pq_greater unwind=7 cost=3
//@ h pq_erase unwind=7 cost=3
//@ h pq_erase_if unwind=7 cost=3
//@ h pq_cmp unwind=7 cost=3
//@ h pq_sort unwind=7 cost=5 tier=thorough timeout=3000
//@ h mk_heap8 unwind=11 cost=5 tier=thorough timeout=3000
#include "verif.h"
#include <estd/algorithm.h>
#include <estd/queue.h>
typedef uint8_t E;
// same multiset: an arbitrary probe value occurs equally often
template <unsigned N> static unsigned count(const E* a, unsigned n, E x) { unsigned c = 0; for(unsigned i = 0; i < N; ++i) if(i < n && a[i] == x) ++c; return c; }
template <unsigned N, class C> static bool heaped(const E* a, unsigned n, C before, unsigned k = 2)
{
    bool ok = true;
    for(unsigned i = 1; i < N; ++i) if(i < n && before(a[(i - 1) / k], a[i])) ok = false;
    return ok;
}
struct Lt { bool operator()(E a, E b) const { return a < b; } };
struct Gt { bool operator()(E a, E b) const { return a > b; } };
template <unsigned N, class C> static void mk(unsigned k, C c)
{
    E a[N], o[N]; unsigned n = verif_upto(N);
    for(unsigned i = 0; i < N; ++i) o[i] = a[i] = verif_u8();
    estd::make_heap(a, a + n, c, (int)k);
    CHECK((heaped<N>(a, n, c, k)), "make_heap establishes the heap order");
    E x = verif_u8(); CHECK(count<N>(a, n, x) == count<N>(o, n, x), "make_heap permutes");
    for(unsigned i = 0; i < N; ++i) if(i >= n) CHECK(a[i] == o[i], "outside the range untouched");
    if(n == N) verif_reach("full");
}
extern "C" void mk_heap() { mk<5>(2, Lt()); }
extern "C" void mk_heap6() { mk<6>(2, Lt()); }
extern "C" void mk_heap8() { mk<8>(2, Lt()); }
extern "C" void mk_heap3() { mk<5>(3, Lt()); }
extern "C" void mk_heap_min() { mk<4>(2, Gt()); }
extern "C" void push_h()
{
    const unsigned N = 7; E a[N], o[N]; unsigned n = 1 + verif_below(N);
    for(unsigned i = 0; i < N; ++i) o[i] = a[i] = verif_u8();
    verif_assume((heaped<N>(a, n - 1, Lt())));
    estd::push_heap(a, a + n);
    CHECK((heaped<N>(a, n, Lt())), "push_heap keeps the heap order");
    E x = verif_u8(); CHECK(count<N>(a, n, x) == count<N>(o, n, x), "push_heap permutes");
    if(n == N) verif_reach("full");
}
extern "C" void pop_h()
{
    const unsigned N = 6; E a[N], o[N]; unsigned n = 1 + verif_below(N);
    for(unsigned i = 0; i < N; ++i) o[i] = a[i] = verif_u8();
    verif_assume((heaped<N>(a, n, Lt())));
    estd::pop_heap(a, a + n);
    CHECK((heaped<N>(a, n - 1, Lt())), "pop_heap keeps the heap order");
    CHECK(a[n - 1] == o[0], "pop_heap moves the first element to the end");
    E x = verif_u8(); CHECK(count<N>(a, n, x) == count<N>(o, n, x), "pop_heap permutes");
    if(n == N) verif_reach("full");
}
// reference: unordered multiset
template <unsigned N> struct Bag
{
    E c[N]; unsigned n;
    Bag() : n(0) {}
    template <class C> unsigned best(C before) const { unsigned b = 0; for(unsigned i = 1; i < N; ++i) if(i < n && before(c[b], c[i])) b = i; return b; }
    void take(unsigned i) { --n; c[i] = c[n]; }
    bool drop(E x) { for(unsigned i = 0; i < N; ++i) if(i < n && c[i] == x) { take(i); return true; } return false; }
};
template <unsigned N, class Q, class C> static void agree(Q& q, const Bag<N>& b, C before)
{
    CHECK(q.size() == b.n && q.empty() == (b.n == 0), "size");
    if(b.n) { const E& t = q.top().lock(); CHECK(t == b.c[b.best(before)], "top is the highest priority"); }
}
template <unsigned N, class Q, class C> static void ops(Q& q, Bag<N>& b, C before, int steps)
{
    for(int i = 0; i < steps; ++i)
    {
        E v = verif_u8();
        switch(verif_below(4))
        {
            case 0: verif_assume(b.n < N); q.push((const E&)v); b.c[b.n++] = v; break;
            case 1: verif_assume(b.n < N); { E t = v; q.push((E&&)t); } b.c[b.n++] = v; break;
            case 2: verif_assume(b.n < N); q.emplace(v); b.c[b.n++] = v; break;
            default: verif_assume(b.n > 0); q.pop(); b.take(b.best(before)); break;
        }
        agree<N>(q, b, before);
    }
}
extern "C" void pq_seq() { estd::layer1::priority_queue<E, 3> q; Bag<3> b; ops<3>(q, b, Lt(), 4); if(b.n == 2) verif_reach("done"); }
extern "C" void pq_greater() { estd::layer1::priority_queue<E, 3, estd::greater<E> > q; Bag<3> b; ops<3>(q, b, Gt(), 4); if(b.n == 2) verif_reach("done"); }
static bool cmpfn(const E& a, const E& b) { return (a & 0xF) < (b & 0xF); }
extern "C" void pq_cmp()
{
    estd::layer1::priority_queue<E, 3, bool (*)(const E&, const E&)> q(cmpfn); unsigned n = verif_upto(3);
    E v[3]; for(unsigned i = 0; i < 3; ++i) { v[i] = verif_u8(); if(i < n) q.push(v[i]); }
    E last = 0xF; E x = verif_u8(); unsigned c = count<3>(v, n, x), d = 0;
    for(unsigned i = 0; i < 3; ++i) if(i < n) { const E& tr = q.top().lock(); E t = tr; CHECK((t & 0xF) <= (last & 0xF), "drained in priority order"); last = t; if(t == x) ++d; q.pop(); }
    CHECK(c == d && q.empty(), "every element comes out once"); if(n == 3) verif_reach("done");
}
template <unsigned N> static void fill(estd::layer1::priority_queue<E, N>& q, Bag<N>& b) { b.n = verif_upto(N); for(unsigned i = 0; i < N; ++i) { b.c[i] = verif_u8(); if(i < b.n) q.push(b.c[i]); } }
extern "C" void pq_erase()
{
    estd::layer1::priority_queue<E, 3> q; Bag<3> b; fill<3>(q, b); verif_assume(b.n > 0);
    unsigned at = verif_below(3); verif_assume(at < b.n);
    E& v = q.container()[at].lock(); E x = v;
    q.erase(v); bool had = b.drop(x); CHECK(had, "element known");
    agree<3>(q, b, Lt());
    verif_assume(b.n > 0); q.pop(); b.take(b.best(Lt())); agree<3>(q, b, Lt()); if(b.n == 1) verif_reach("done");
}
extern "C" void pq_erase_if()
{
    estd::layer1::priority_queue<E, 3> q; Bag<3> b; fill<3>(q, b);
    E x = verif_u8(); struct P { E x; bool operator()(const E& e) const { return e == x; } } p = { x };
    bool r = q.erase_if(p); bool had = b.drop(x);
    CHECK(r == had, "erase_if reports whether it removed"); agree<3>(q, b, Lt()); if(had && b.n == 2) verif_reach("done");
}
extern "C" void pq_sort()
{
    estd::layer1::priority_queue<E, 6> q; Bag<6> b; fill<6>(q, b);
    for(int i = 0; i < 6; ++i) if(b.n) { agree<6>(q, b, Lt()); q.pop(); b.take(b.best(Lt())); }
    CHECK(q.empty(), "drained"); verif_reach("done");
}
