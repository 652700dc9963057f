// circular double-ended queue, queue and stack against an array reference, from every ring position
//@ h dq_push unwind=6
//@ h dq_pop unwind=6
//@ h dq_iter unwind=28
//@ h dq_move unwind=6
//@ h dq_one unwind=6
//@ h dq_seq4 unwind=7 cost=4
//@ h q_seq unwind=7 cost=3
//@ h q_obj unwind=6
//@ h dq_life unwind=6
//@ h st_seq unwind=7
//@ h dq_seq8 unwind=10 cost=9 tier=thorough timeout=3000
//@ h q_seq8 unwind=10 cost=9 tier=thorough timeout=3000
#include "verif.h"
#include <estd/queue.h>
#include <estd/stack.h>
template <unsigned N> struct Ref
{
    int c[N]; unsigned n;
    void pb(int v) { c[n++] = v; }
    void pf(int v) { for(unsigned i = n; i > 0; --i) c[i] = c[i - 1]; c[0] = v; ++n; }
    void ob() { --n; }
    void of() { for(unsigned i = 0; i + 1 < n; ++i) c[i] = c[i + 1]; --n; }
};
template <class D, unsigned N> static void same(D& d, const Ref<N>& r)
{
    CHECK(d.size() == r.n, "size"); CHECK(d.empty() == (r.n == 0), "empty");
    CHECK(d.max_size() == N, "max_size");
    if(r.n) { CHECK(d.front() == r.c[0], "front"); CHECK(d.back() == r.c[r.n - 1], "back");
              const D& k = d; CHECK(k.front() == r.c[0], "front const"); CHECK(k.back() == r.c[r.n - 1], "back const"); }
    unsigned k = 0;
    auto it = d.begin(); for(; it != d.end() && k < r.n; ++it, ++k) CHECK(*it == r.c[k], "iteration");
    CHECK(!(it != d.end()) && k == r.n && (r.n != 0 || d.begin() == d.end()), "iteration length");
}
// any ring position, any fill
template <class D, unsigned N> static void init(D& d, Ref<N>& r)
{
    unsigned rot = verif_below(N);
    for(unsigned i = 0; i < N; ++i) if(i < rot) { d.push_back(0); d.pop_front(); }
    r.n = verif_upto(N);
    for(unsigned i = 0; i < N; ++i) { r.c[i] = verif_i32(); if(i < r.n) d.push_back((const int&)r.c[i]); }
}
template <class D, unsigned N> static void push(D& d, Ref<N>& r, unsigned which)
{
    int v = verif_i32();
    if(which >= 3 && r.n == N) return;           // emplace on a full queue is the caller's error
    switch(which)
    {
        case 0: { bool ok = d.push_back((const int&)v); CHECK(ok == (r.n < N), "push_back result"); if(r.n < N) r.pb(v); break; }
        case 1: { int t = v; bool ok = d.push_back((int&&)t); CHECK(ok == (r.n < N), "push_back result"); if(r.n < N) r.pb(v); break; }
        case 2: { bool ok = d.push_front((const int&)v); CHECK(ok == (r.n < N), "push_front result"); if(r.n < N) r.pf(v); break; }
        case 3: { int& x = d.emplace_back(v); CHECK(x == v, "emplace_back element"); r.pb(v); break; }
        default: { int& x = d.emplace_front(v); CHECK(x == v, "emplace_front element"); r.pf(v); break; }
    }
}
template <class D, unsigned N> static void pop(D& d, Ref<N>& r, bool back)
{
    bool ok = back ? d.pop_back() : d.pop_front();
    CHECK(ok == (r.n > 0), "pop result");
    if(r.n) back ? r.ob() : r.of();
}
typedef estd::layer1::deque<int, 4> D4;
extern "C" void dq_push() { D4 d; Ref<4> r; init<D4, 4>(d, r); push<D4, 4>(d, r, verif_below(5)); same<D4, 4>(d, r); verif_reach("done"); }
extern "C" void dq_pop() { D4 d; Ref<4> r; init<D4, 4>(d, r); pop<D4, 4>(d, r, verif_bool()); same<D4, 4>(d, r); verif_reach("done"); }
extern "C" void dq_iter()
{
    D4 d; Ref<4> r; init<D4, 4>(d, r); same<D4, 4>(d, r);
    unsigned k = r.n;
    for(auto i = d.end(); k > 0; ) { --i; --k; CHECK(*i == r.c[k], "backward iteration"); if(k == 0) CHECK(i == d.begin(), "backward iteration reaches the front"); }
    int v = verif_i32(); unsigned at = verif_below(4); verif_assume(at < r.n);
    auto j = d.begin(); for(unsigned i = 0; i < at; ++i) { auto o = j++; CHECK(*o == r.c[i], "post-increment yields the old position"); }
    *j = v; r.c[at] = v;
    d.front() = r.c[0]; d.back() = r.c[r.n - 1];
    same<D4, 4>(d, r); verif_reach("done");
}
extern "C" void dq_move()
{
    D4 d; Ref<4> r; init<D4, 4>(d, r);
    D4 e((D4&&)d);
    d.~D4(); new (&d) D4();                      // the source may be reused or reinitialised
    d.push_back(1);
    same<D4, 4>(e, r);
    push<D4, 4>(e, r, verif_below(3)); pop<D4, 4>(e, r, verif_bool());
    same<D4, 4>(e, r); verif_reach("done");
}
extern "C" void dq_one()
{
    typedef estd::layer1::deque<int, 1> D1; D1 d; Ref<1> r; init<D1, 1>(d, r);
    push<D1, 1>(d, r, verif_below(5)); same<D1, 1>(d, r);
    pop<D1, 1>(d, r, verif_bool()); same<D1, 1>(d, r); verif_reach("done");
}
static void dseq(int n)
{
    typedef estd::layer1::deque<int, 3> D3; D3 d; Ref<3> r; r.n = 0;
    for(int i = 0; i < n; ++i) { unsigned w = verif_below(7); if(w < 5) push<D3, 3>(d, r, w); else pop<D3, 3>(d, r, w == 5); }
    same<D3, 3>(d, r); if(r.n == 3) verif_reach("full");
}
extern "C" void dq_seq4() { dseq(4); }
extern "C" void dq_seq8() { dseq(8); }
template <class Q, unsigned N> static void qseq(int steps)
{
    Q q; Ref<N> r; r.n = 0;
    for(int i = 0; i < steps; ++i)
    {
        int v = verif_i32();
        switch(verif_below(4))
        {
            case 0: { bool ok = q.push((const int&)v); CHECK(ok == (r.n < N), "push result"); if(r.n < N) r.pb(v); break; }
            case 1: { int t = v; bool ok = q.push((int&&)t); CHECK(ok == (r.n < N), "push result"); if(r.n < N) r.pb(v); break; }
            case 2: { if(r.n < N) { q.emplace(v); r.pb(v); } break; }
            default: { bool ok = q.pop(); CHECK(ok == (r.n > 0), "pop result"); if(r.n) r.of(); }
        }
        CHECK(q.size() == r.n && q.empty() == (r.n == 0), "size");
        if(r.n) { const Q& k = q; CHECK(q.front() == r.c[0] && k.front() == r.c[0], "first in first out"); CHECK(q.back() == r.c[r.n - 1] && k.back() == r.c[r.n - 1], "back"); }
    }
    if(r.n == N) verif_reach("full");
}
extern "C" void q_seq() { qseq<estd::layer1::queue<int, 3>, 3>(5); }
extern "C" void q_seq8() { qseq<estd::layer1::queue<int, 3>, 3>(8); }
struct Obj
{
    int v; bool moved;
    Obj(int v = 0) : v(v), moved(false) {}
    Obj(const Obj& o) : v(o.v), moved(false) {}
    Obj(Obj&& o) : v(o.v), moved(false) { o.v = -1; o.moved = true; }
    Obj& operator=(const Obj& o) { v = o.v; return *this; }
};
extern "C" void q_obj()
{
    estd::layer1::queue<Obj, 3> q; int v[3];
    unsigned rot = verif_below(3);
    for(unsigned i = 0; i < 3; ++i) if(i < rot) { q.emplace(0); q.pop(); }
    for(int i = 0; i < 3; ++i) { v[i] = verif_u8(); if(verif_bool()) { Obj o(v[i]); q.push((Obj&&)o); CHECK(o.moved, "moved from"); } else { Obj o(v[i]); q.push((const Obj&)o); CHECK(o.v == v[i], "copied"); } }
    estd::layer1::queue<Obj, 3> p((estd::layer1::queue<Obj, 3>&&)q);
    for(int i = 0; i < 3; ++i) { CHECK(p.front().v == v[i], "order"); p.pop(); }
    CHECK(p.empty(), "empty"); verif_reach("done");
}
extern "C" void st_seq()
{
    estd::layer1::stack<int, 4> s; Ref<4> r; r.n = 0;
    for(int i = 0; i < 5; ++i)
    {
        int v = verif_i32();
        unsigned w = verif_below(3);
        if(w < 2) { verif_assume(r.n < 4); int t = v; if(w) s.push((int&&)t); else s.push((const int&)v); r.pb(v); }
        else { verif_assume(r.n > 0); s.pop(); r.ob(); }
        CHECK(s.size() == r.n && s.empty() == (r.n == 0), "size");
        if(r.n) CHECK(s.top() == r.c[r.n - 1], "last in first out");
    }
    unsigned k = 0; auto it = s.begin(); for(; it != s.end() && k < 4; ++it, ++k) CHECK(*it == r.c[k], "bottom to top");
    CHECK(!(it != s.end()) && k == r.n, "iteration length");
    if(r.n == 3) verif_reach("done");
}

// an element which knows whether it is alive
static int live;
struct Life
{
    int v; Life* self;
    Life(int v = 0) : v(v), self(this) { ++live; }
    Life(const Life& o) : v(o.v), self(this) { CHECK(o.self == &o, "copied from a live element"); ++live; }
    Life(Life&& o) : v(o.v), self(this) { CHECK(o.self == &o, "moved from a live element"); o.v = -1; ++live; }
    Life& operator=(const Life& o) { CHECK(self == this && o.self == &o, "assigned to a live element"); v = o.v; return *this; }
    ~Life() { CHECK(self == this, "ended once"); self = nullptr; --live; }
};
extern "C" void dq_life()
{
    live = 0;
    {
        estd::layer1::deque<Life, 3> d; int base = live;
        for(unsigned i = 0; i < 2; ++i) if(verif_bool()) { d.push_back(Life(1)); d.pop_front(); }
        int x = verif_u16(), y = verif_u16(); Life a(x), b(y);
        d.push_back((const Life&)a);
        switch(verif_below(4)) { case 0: d.push_back((Life&&)b); break; case 1: d.push_back((const Life&)b); break; case 2: d.emplace_back(y); break; default: d.push_front((const Life&)b); }
        bool f = d.front().v == y && x != y;
        if(verif_bool()) { CHECK(d.back().v == (f ? x : y), "order"); d.pop_back(); CHECK(d.front().v == (f ? y : x), "order"); d.pop_back(); }
        else { d.pop_front(); CHECK(d.back().v == (f ? x : y), "order"); d.pop_front(); }
        CHECK(d.empty() && live == base + 2, "as many live elements as there are places");
        d.emplace_front(x); CHECK(d.front().v == x && d.front().self == &d.front() && live == base + 2, "made once");
    }
    CHECK(live == 0, "ended once");
    verif_reach("done");
}
