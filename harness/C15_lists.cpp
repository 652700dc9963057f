// linked lists against an array of the linked nodes
//@ inline 1000
//@ h forward unwind=7
//@ h with_back unwind=7
//@ h remove_first unwind=7
//@ h remove_all unwind=7
//@ h owning unwind=7
//@ h doubly unwind=7
//@ h new_forward unwind=7
//@ h circular unwind=7
#include "verif.h"
#include <estd/forward_list.h>
#include <estd/list.h>
using namespace estd;
typedef experimental::forward_node<int> N;
enum : unsigned { M = 5 };
#ifdef VERIF_THOROUGH
enum : unsigned { STEPS = 6 };
#else
enum : unsigned { STEPS = 4 };
#endif
struct Model
{
    unsigned id[M]; unsigned n;
    bool has(unsigned x) const { for(unsigned i = 0; i < M; ++i) if(i < n && id[i] == x) return true; return false; }
    void ins(unsigned p, unsigned x) { for(unsigned i = M - 1; i > 0; --i) if(i > p) id[i] = id[i - 1]; id[p] = x; ++n; }
    void del(unsigned p) { for(unsigned i = 0; i + 1 < M; ++i) if(i >= p) id[i] = id[i + 1]; --n; }
};
template <class L, class E> static void same(L& l, E* node, const Model& m)
{
    CHECK(l.empty() == (m.n == 0), "empty");
    if(m.n) CHECK(&l.front() == &node[m.id[0]], "front");
    auto it = l.begin(); auto e = l.end();
    unsigned k = 0;
    for(; k < M + 1 && it != e; ++k, ++it) CHECK(k < m.n && &*it == &node[m.id[k]], "visits the linked nodes in order");
    CHECK(k == m.n, "visits all of them");
}
template <class L> static auto at(L& l, unsigned p) { auto i = l.begin(); for(unsigned k = 0; k < M; ++k) if(k < p) ++i; return i; }
// any history of front insertion and removal, insertion and erasure after any position; nodes are reused
extern "C" void forward()
{
    N node[M]; intrusive_forward_list<N> l; Model m; m.n = 0;
    for(unsigned s = 0; s < STEPS; ++s)
    {
        unsigned op = verif_below(4), x = verif_below(M), p = verif_below(M);
        if(op == 0) { verif_assume(!m.has(x)); l.push_front(node[x]); m.ins(0, x); }
        else if(op == 1) { verif_assume(m.n); l.pop_front(); m.del(0); }
        else if(op == 2) { verif_assume(p < m.n && !m.has(x)); auto r = l.insert_after(at(l, p), node[x]); CHECK(&*r == &node[x], "points at the inserted node"); m.ins(p + 1, x); }
        else { verif_assume(p + 1 < m.n); auto r = l.erase_after(at(l, p)); m.del(p + 1); if(p + 1 < m.n) CHECK(&*r == &node[m.id[p + 1]], "points behind the erased node"); else CHECK(r == l.end(), "end"); }
    }
    same(l, node, m);
    verif_reach("forward");
}
extern "C" void with_back()
{
    N node[M]; intrusive_forward_list_with_back<N> l; Model m; m.n = 0;
    for(unsigned s = 0; s < STEPS + 1; ++s)
    {
        unsigned op = verif_below(3), x = verif_below(M);
        if(op == 2) { verif_assume(m.n); l.pop_front(); m.del(0); }
        else
        {
            verif_assume(!m.has(x));
            if(op == 0) { l.push_front(node[x]); m.ins(0, x); } else { l.push_back(node[x]); m.ins(m.n, x); }
        }
        if(m.n) CHECK(&l.back() == &node[m.id[m.n - 1]], "back");
    }
    same(l, node, m);
    verif_reach("back");
}
template <bool first_only> static void rem()
{
    N node[M]; intrusive_forward_list<N> l; Model m; m.n = 0;
    unsigned n = verif_upto(M - 1); int lim = (int)verif_below(4);
    for(unsigned i = M - 1; i-- > 0;) { node[i].value() = (int)verif_below(4); if(i < n) { l.push_front(node[i]); } }
    bool done = false; bool byval = verif_bool();
    N key; key.value() = lim;
    for(unsigned i = 0; i < M - 1; ++i) if(i < n)
    {
        bool hit = byval ? node[i].value() == lim : node[i].value() < lim;
        if(hit && !(first_only && done)) done = true; else m.id[m.n++] = i;
    }
    if(byval) l.remove(key, first_only); else l.remove_if([lim](const N& v) { return v.value() < lim; }, first_only);
    same(l, node, m);
    verif_reach("remove");
}
extern "C" void remove_first() { rem<true>(); }
extern "C" void remove_all() { rem<false>(); }
// nodes owned by the list
extern "C" void owning()
{
    typedef experimental::ValueNode<long, experimental::forward_node_base> V;
    internal::forward_list<long, V> l;
    long e[M]; unsigned n = 0;
    for(unsigned s = 0; s < 3; ++s)
    {
        long v = (long)verif_u8(); unsigned op = verif_below(3);
        if(op == 2) { verif_assume(n); l.pop_front(); for(unsigned i = 0; i + 1 < M; ++i) e[i] = e[i + 1]; --n; }
        else { if(op == 0) l.push_front(v); else l.emplace_front(v); for(unsigned i = M - 1; i > 0; --i) e[i] = e[i - 1]; e[0] = v; ++n; }
    }
    if(n) { unsigned p = verif_below(3); verif_assume(p < n); long v = (long)verif_u8(); auto r = l.insert_after(at(l, p), v); CHECK(*r == v, "inserted"); for(unsigned i = M - 1; i > 0; --i) if(i > p + 1) e[i] = e[i - 1]; e[p + 1] = v; ++n; }
    unsigned k = 0; auto it = l.begin(), z = l.end();
    for(; k < M && it != z; ++k, ++it) CHECK(k < n && *it == e[k], "values in order");
    CHECK(k == n && l.empty() == (n == 0), "all of them");
    verif_reach("owning");
}
extern "C" void doubly()
{
    typedef experimental::ValueNode<long, experimental::double_node_base> V;
    typedef inlinevalue_node_traits_new_base<V, experimental_std_allocator<V>, nothing_allocator<long> > T;
    internal::list_base<long, V, experimental_std_allocator<V>, T> l;
    long e[M]; unsigned n = 0;
    for(unsigned s = 0; s < 3; ++s)
    {
        long v = (long)verif_u8(); unsigned op = verif_below(3), p = 0;
        if(op == 0) l.push_front(v);
        else if(op == 1) { l.push_back(v); p = n; }
        else { p = verif_below(M); verif_assume(n && p < n); auto r = l.insert(at(l, p), v); CHECK(*r == v, "inserted"); }
        for(unsigned i = M - 1; i > 0; --i) if(i > p) e[i] = e[i - 1];
        e[p] = v; ++n;
    }
    CHECK(l.back() == e[n - 1], "back");
    auto it = l.begin(), z = l.end(), last = it; unsigned k = 0;
    for(; k < M && it != z; ++k, ++it) { CHECK(k < n && *it == e[k], "values in order"); last = it; }
    CHECK(k == n, "all of them");
    unsigned b = verif_below(M), g = verif_below(M); verif_assume(g <= b && b < n);
    auto far = at(l, b); CHECK(*(far - (int)g) == e[b - g] && far - at(l, b - g) == (int)g, "so many steps back");
    for(; k > 0; --k) { CHECK(*last == e[k - 1], "and backwards"); if(k > 1) --last; }
    CHECK(last == l.begin(), "back to the beginning");
    verif_reach("doubly");
}
struct P : experimental::forward_node_base_base<P*> { int v; P() : experimental::forward_node_base_base<P*>(nullptr) {} };
extern "C" void new_forward()
{
    typedef internal::list::intrusive_forward<P> L; typedef L::const_iterator ci;
    P node[M]; L l; Model m; m.n = 0;
    for(unsigned s = 0; s < STEPS; ++s)
    {
        unsigned op = verif_below(6), x = verif_below(M), p = verif_below(M);
        if(op == 0) { verif_assume(!m.has(x)); l.push_front(node[x]); m.ins(0, x); }
        else if(op == 1) { verif_assume(m.n); l.pop_front(); m.del(0); }
        else if(op == 2) { verif_assume(p < m.n && !m.has(x)); auto r = l.insert_after(ci(&node[m.id[p]]), node[x]); CHECK(&*r == &node[x], "points at the inserted node"); m.ins(p + 1, x); }
        else if(op == 3) { verif_assume(p + 1 < m.n); auto r = l.erase_after(ci(&node[m.id[p]])); m.del(p + 1); if(p + 1 < m.n) CHECK(&*r == &node[m.id[p + 1]], "points behind the erased node"); else CHECK(r == l.end(), "end"); }
        else if(op == 4) { verif_assume(p + 1 < m.n && !m.has(x)); auto r = l.replace_after(ci(&node[m.id[p]]), node[x]); CHECK(&*r == &node[x], "points at the new node"); m.id[p + 1] = x; }
        else { l.clear(); m.n = 0; }
    }
    same(l, node, m);
    verif_reach("new");
}
extern "C" void circular()
{
    typedef internal::list::circular_intrusive_forward<P> L;
    P node[M]; unsigned n = 1 + verif_below(M), h = verif_below(M); verif_assume(h < n);
    for(unsigned i = 0; i < M; ++i) if(i < n) node[i].next(&node[i + 1 < n ? i + 1 : 0]);
    L l(&node[h]);
    auto b = l.before_begin();
    CHECK(&*b == &node[h ? h - 1 : n - 1], "the node before the head"); ++b; CHECK(&*b == &node[h] && b == l.begin(), "is followed by the head");
    verif_reach("circular");
}
