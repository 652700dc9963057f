// vectors and strings over allocators of the user's own: ones that move the content whenever they
// grow (real malloc/free blocks of exactly the size asked for, so a stale pointer or an overrun is
// caught), ones that run out of memory, and handle based ones whose content may move whenever
// nothing holds a lock
//@ h vec_push unwind=10
//@ h vec_insert unwind=10
//@ h vec_insert_move unwind=10
//@ h vec_insert_range unwind=10
//@ h vec_erase_pop unwind=10
//@ h vec_reserve unwind=10
//@ h vec_fail unwind=10
//@ h vec_assign unwind=10
//@ h vec_iterate unwind=10
//@ h vec_alias unwind=10
//@ h vec_large unwind=10
//@ h str_append0 unwind=10
//@ h str_append1 unwind=10
//@ h str_append2 unwind=10
//@ h str_append3 unwind=10
//@ h str_append4 unwind=10
//@ h str_assign0 unwind=10
//@ h str_assign1 unwind=10
//@ h str_assign2 unwind=10
//@ h str_insert0 unwind=10
//@ h str_insert1_3 unwind=10
//@ h str_insert1_4 unwind=10
//@ h str_insert1_5 unwind=10
//@ h str_insert2_3 unwind=10
//@ h str_insert2_4 unwind=10
//@ h str_insert2_5 unwind=10
//@ h vec_copy unwind=10 known=K1
//@ h vec_release unwind=10 known=K2
//@ h str_erase unwind=10
//@ h str_fail unwind=10
//@ h str_read unwind=10
#include "verif.h"
#include <estd/vector.h>
#include <estd/string.h>
#include <stdlib.h>
#include <string.h>
static unsigned budget = 100;        // blocks that may still be handed out
static unsigned blocks_live;
template <class T> struct mover
{
    typedef T value_type;
    typedef T* pointer;
    typedef const void* const_void_pointer;
    typedef T* handle_type;
    typedef size_t size_type;
    typedef estd::internal::handle_with_offset_raw<pointer> handle_with_offset;
    typedef T& accessor;
    typedef estd::internal::locking_iterator<mover, estd::internal::traditional_accessor<T> > iterator;
    struct head { size_t n; };
    static handle_type invalid() { return nullptr; }
    static bool CONSTEXPR is_locking() { return false; }
    pointer allocate(size_t n)
    {
        if(budget == 0) return nullptr;
        --budget; ++blocks_live;
        char* p = (char*)malloc(sizeof(head) + n * sizeof(T));
        ((head*)p)->n = n;
        return (pointer)(p + sizeof(head));
    }
    void deallocate(handle_type p, size_t) { --blocks_live; free((char*)p - sizeof(head)); }
    handle_type reallocate(handle_type h, size_t n)
    {
        if(budget == 0) return nullptr;
        pointer p = allocate(n);
        size_t old = ((head*)((char*)h - sizeof(head)))->n;
        memcpy((void*)p, (void*)h, (n < old ? n : old) * sizeof(T));
        deallocate(h, old);
        return p;
    }
    handle_with_offset offset(handle_type h, ptrdiff_t o) const { return handle_with_offset(h + o); }
    value_type& lock(const handle_with_offset& a) const { return *a.handle(); }
    static unsigned max_size() { return 99999; }
};
typedef uint16_t T;
typedef estd::vector<T, mover<T> > V;
struct Ref { T c[8]; unsigned n; };
static void same(V& v, const Ref& r)
{
    CHECK(v.size() == r.n, "size");
    CHECK(v.empty() == (r.n == 0), "empty");
    CHECK(v.capacity() >= r.n, "the capacity covers the content");
    unsigned i = verif_below(8);
    if(i < r.n)
    {
        const T& x = v[i]; CHECK(x == r.c[i], "element");
        const T& b = v.back(); CHECK(b == r.c[r.n - 1], "back");
        const T& f = v.front(); CHECK(f == r.c[0], "front");
    }
}
// n elements in a block with room for exactly 'cap'
template <unsigned n, unsigned cap> static void init(V& v, Ref& r)
{
    if(cap) v.reserve(cap);
    r.n = n;
    for(unsigned i = 0; i < n; ++i) { r.c[i] = verif_u16(); v.push_back(r.c[i]); }
    if(cap) CHECK(v.capacity() == cap, "no growth while it fits");
}
template <unsigned n, unsigned cap> static void push()
{
    V v; Ref r; init<n, cap>(v, r);
    T x = verif_u16();
    switch(verif_below(3))
    {
        case 0: v.push_back((const T&)x); break;
        case 1: { T y = x; v.push_back((T&&)y); break; }
        default: v.emplace_back(x);
    }
    r.c[r.n++] = x;
    same(v, r);
    verif_reach("push");
}

extern "C" void vec_push() { push<0, 0>(); push<3, 3>(); push<3, 4>(); }
static void shift(Ref& r, unsigned at, const T* s, unsigned k)
{
    for(unsigned i = 8; i-- > 0;) if(i < r.n && i >= at) r.c[i + k] = r.c[i];
    for(unsigned i = 0; i < k; ++i) r.c[at + i] = s[i];
    r.n += k;
}
template <unsigned n, unsigned cap, bool move> static void insert()
{
    V v; Ref r; init<n, cap>(v, r);
    T x = verif_u16();
    unsigned at = verif_upto(n);
    auto it = v.begin() + at;
    auto res = [&] { if(move) { T y = x; return v.insert(it, (T&&)y); } else return v.insert(it, (const T&)x); }();
    shift(r, at, &x, 1);
    same(v, r);
    CHECK((unsigned)(res - v.begin()) == at, "the position returned");
    CHECK(*res == x, "the returned position denotes the new element");
    verif_reach("insert");
}
extern "C" void vec_insert() { insert<3, 4, false>(); insert<3, 3, false>(); }
extern "C" void vec_insert_move() { insert<3, 4, true>(); insert<3, 3, true>(); }
template <unsigned n, unsigned cap> static void range()
{
    V v; Ref r; init<n, cap>(v, r);
    T x[2] = { verif_u16(), verif_u16() };
    unsigned at = verif_upto(n);
    auto res = v.insert(v.begin() + at, x, x + 2);
    shift(r, at, x, 2);
    same(v, r);
    CHECK((unsigned)(res - v.begin()) == at, "the position returned");
    CHECK(*res == x[0], "the returned position denotes the first new element");
    verif_reach("range");
}
extern "C" void vec_insert_range() { range<3, 5>(); range<3, 4>(); range<3, 3>(); }
extern "C" void vec_erase_pop()
{
    V v; Ref r; init<4, 4>(v, r);
    if(verif_bool())
    {
        unsigned at = verif_below(4);
        auto res = v.erase(v.begin() + at);
        for(unsigned i = 0; i < 3; ++i) if(i >= at) r.c[i] = r.c[i + 1];
        CHECK((unsigned)(res - v.begin()) == at, "the position returned");
    }
    else v.pop_back();
    --r.n;
    same(v, r);
    if(verif_bool()) { v.shrink_to_fit(); CHECK(v.capacity() == 3, "shrunk"); same(v, r); T x = verif_u16(); v.push_back(x); r.c[r.n++] = x; same(v, r); }
    if(verif_bool()) { v.clear(); r.n = 0; same(v, r); T x = verif_u16(); v.push_back(x); r.c[r.n++] = x; same(v, r); }
    verif_reach("erase");
}
template <unsigned to> static void reserve()
{
    V v; Ref r; init<3, 4>(v, r);
    CHECK(v.reserve(to), "reserved");
    CHECK(v.capacity() >= to && v.capacity() >= 3, "reserved room");
    same(v, r);
    T x = verif_u16(); v.push_back(x); r.c[r.n++] = x;
    same(v, r);
    verif_reach("reserve");
}
extern "C" void vec_reserve() { reserve<0>(); reserve<1>(); reserve<3>(); reserve<4>(); reserve<6>(); }
template <unsigned n, unsigned cap> static void fail()
{
    V v; Ref r; init<n, cap>(v, r);
    budget = 0;
    T x[2] = { verif_u16(), verif_u16() };
    bool ok = true;
    switch(verif_below(3))
    {
        case 0: ok = v.reserve(cap + 1); break;
        case 1: v.insert(v.begin() + (int)verif_upto(n), x, x + 2); ok = false; break;
        default: ok = v.resize(cap + 1); break;
    }
    CHECK(!ok, "running out of memory is reported");
    same(v, r);
    CHECK(v.capacity() == cap, "the room is what it was");
    CHECK(blocks_live == (cap > 0), "the block is still there");
    budget = 1;
    v.push_back(x[0]); r.c[r.n++] = x[0];
    same(v, r);
    verif_reach("fail");
}
extern "C" void vec_fail() { budget = 100; blocks_live = 0; fail<3, 3>(); budget = 100; blocks_live = 0; fail<0, 0>(); }
extern "C" void vec_assign()
{
    V v; Ref r; init<2, 3>(v, r);
    T x[5]; for(int i = 0; i < 5; ++i) r.c[i] = x[i] = verif_u16();
    r.n = verif_bool() ? 5 : 1;
    if(r.n == 5) v.assign(x, x + 5); else v.assign(x, x + 1);
    same(v, r);
    verif_reach("assign");
}
extern "C" void vec_iterate()
{
    V v; Ref r; init<3, 3>(v, r);
    T x = verif_u16(); v.push_back(x); r.c[r.n++] = x;
    unsigned k = 0;
    auto e = v.end();
    auto it = v.begin(); for(; it != e && k < 5; ++it, ++k) { const T& y = *it; CHECK(y == r.c[k], "iteration"); }
    CHECK(k == 4, "iteration length");
    unsigned i = verif_below(4);
    T y = verif_u16();
    v[i] = y; r.c[i] = y;
    same(v, r);
    CHECK((v[i] == y) && !(v[i] != y), "element comparison");
    verif_reach("iterate");
}

// a value that is one of the vector's own
template <unsigned cap> static void alias()
{
    V v; Ref r; init<3, cap>(v, r);
    unsigned i = verif_below(3), at = 3;
    const T& x = v[i];
    T y = r.c[i];
    if(verif_bool()) v.push_back(x);
    else { at = verif_upto(3); v.insert(v.begin() + at, x); }
    shift(r, at, &y, 1);
    same(v, r);
    verif_reach("alias");
}
extern "C" void vec_alias() { alias<3>(); alias<4>(); }

// --- strings
typedef estd::basic_string<char, estd::char_traits<char>, mover<char> > S;
struct SRef { char c[16]; unsigned n; };
static char ch() { return (char)verif_u8(); }
static void same(const S& s, const SRef& r)
{
    CHECK(s.size() == r.n && s.length() == r.n, "size");
    CHECK(s.empty() == (r.n == 0), "empty");
    CHECK(s.capacity() >= r.n, "the capacity covers the text");
    char out[16];
    CHECK(s.copy(out, 16) == r.n, "copied length");
    unsigned i = verif_below(16);
    if(i < r.n) { CHECK(out[i] == r.c[i], "text"); CHECK(s[i] == r.c[i], "character"); }
}
template <unsigned n, unsigned cap> static void sinit(S& s, SRef& r)
{
    if(cap) s.reserve(cap);
    r.n = n;
    for(unsigned i = 0; i < n; ++i) r.c[i] = ch();
    if(n) s.append(r.c, n);
    if(cap) CHECK(s.capacity() == cap, "no growth while it fits");
}
static void sput(SRef& r, unsigned at, const char* x, unsigned k)
{
    for(unsigned i = 8; i-- > 0;) if(i < r.n && i >= at) r.c[i + k] = r.c[i];
    for(unsigned i = 0; i < k; ++i) r.c[at + i] = x[i];
    r.n += k;
}
template <unsigned n, unsigned cap> static void sappend(unsigned op)
{
    S s; SRef r; sinit<n, cap>(s, r);
    char x[3] = { ch(), ch(), 0 };
    switch(op)
    {
        case 0: s.append(x, 2); sput(r, n, x, 2); break;
        case 1: s += x[0]; sput(r, n, x, 1); break;
        case 2: verif_assume(x[0] && x[1]); s += (const char*)x; sput(r, n, x, 2); break;
        case 3: { S t; SRef q; sinit<2, 2>(t, q); s.append(t); sput(r, n, q.c, 2); same(t, q); break; }
        default: x[1] = x[0]; s.append(2, x[0]); sput(r, n, x, 2); break;
    }
    same(s, r);
    verif_reach("append");
}
// elements so large that growth adds room for one more at a time
struct Big
{
    uint16_t v; char pad[62];
    Big(uint16_t v) : v(v) {}
    Big(const Big& o) : v(o.v) {}
    Big& operator=(const Big& o) { v = o.v; return *this; }
};
struct bigmover : mover<Big>
{
    typedef Big& accessor;
    typedef estd::internal::locking_iterator<bigmover, estd::internal::traditional_accessor<Big> > iterator;
    Big* reallocate(Big* h, size_t n)
    {
        Big* p = allocate(n);
        size_t old = ((head*)((char*)h - sizeof(head)))->n;
        for(size_t i = 0; i < 8; ++i) if(i < n && i < old) p[i] = h[i];
        deallocate(h, old);
        return p;
    }
};
extern "C" void vec_large()
{
    estd::vector<Big, bigmover> v; uint16_t x[7];
    for(unsigned i = 0; i < 6; ++i) { x[i] = verif_u16(); v.push_back(Big(x[i])); }
    CHECK(v.size() == 6, "size");
    unsigned j = verif_below(6); const Big& b = v[j]; CHECK(b.v == x[j], "element");
    x[6] = verif_u16(); v.insert(v.begin() + 2, Big(x[6]));
    const Big& m = v[2]; const Big& e = v[6]; const Big& f = v[1];
    CHECK(v.size() == 7 && m.v == x[6] && e.v == x[5] && f.v == x[1], "inserted");
    verif_reach("large");
}
extern "C" void str_append0() { sappend<3, 3>(0); sappend<3, 4>(0); sappend<0, 0>(0); }
extern "C" void str_append1() { sappend<3, 3>(1); sappend<3, 4>(1); sappend<0, 0>(1); }
extern "C" void str_append2() { sappend<3, 3>(2); sappend<3, 4>(2); sappend<0, 0>(2); }
extern "C" void str_append3() { sappend<3, 3>(3); sappend<3, 4>(3); sappend<0, 0>(3); }
extern "C" void str_append4() { sappend<3, 3>(4); sappend<3, 4>(4); sappend<0, 0>(4); }
static void sassign(unsigned op)
{
    S s; SRef r; sinit<2, 3>(s, r);
    char x[6]; for(int i = 0; i < 5; ++i) x[i] = ch();
    x[5] = 0;
    switch(op)
    {
        case 0: for(int i = 0; i < 5; ++i) verif_assume(x[i]); s = (const char*)x; r.n = 0; sput(r, 0, x, 5); break;
        case 1: { estd::layer1::string<8, false> t; t.append(x, 5); s = t; r.n = 0; sput(r, 0, x, 5); if(verif_bool()) t[0] = x[0] + 1; break; }
        default: s.assign(x, x + 4); r.n = 0; sput(r, 0, x, 4); break;
    }
    same(s, r);
    verif_reach("assign");
}
extern "C" void str_assign0() { sassign(0); }
extern "C" void str_assign1() { sassign(1); }
extern "C" void str_assign2() { sassign(2); }
template <unsigned n, unsigned cap> static void sinsert(unsigned op)
{
    S s; SRef r; sinit<n, cap>(s, r);
    char x[3] = { ch(), ch(), 0 };
    unsigned at = verif_upto(n);
    switch(op)
    {
        case 0: s.insert(at, x, 2); break;
        case 1: verif_assume(x[0] && x[1]); s.insert(at, x); break;
        default: { S t; t.append(x, 2); s.insert(at, t); break; }
    }
    sput(r, at, x, 2);
    same(s, r);
    verif_reach("insert");
}
extern "C" void str_insert0() { sinsert<3, 3>(0); sinsert<3, 4>(0); sinsert<3, 5>(0); }
extern "C" void str_insert1_3() { sinsert<3, 3>(1); }
extern "C" void str_insert1_4() { sinsert<3, 4>(1); }
extern "C" void str_insert1_5() { sinsert<3, 5>(1); }
extern "C" void str_insert2_3() { sinsert<3, 3>(2); }
extern "C" void str_insert2_4() { sinsert<3, 4>(2); }
extern "C" void str_insert2_5() { sinsert<3, 5>(2); }
extern "C" void str_erase()
{
    S s; SRef r; sinit<4, 4>(s, r);
    unsigned at = verif_upto(4), k = verif_u8();
    s.erase(at, k);
    if(k > 4 - at) k = 4 - at;
    for(unsigned i = 0; i < 4; ++i) if(i >= at && i + k < 4) r.c[i] = r.c[i + k];
    r.n -= k;
    same(s, r);
    if(verif_bool()) { s.shrink_to_fit(); same(s, r); }
    char x = ch();
    s += x; sput(r, r.n, &x, 1);
    same(s, r);
    verif_reach("erase");
}
extern "C" void str_fail()
{
    budget = 100; blocks_live = 0;
    S s; SRef r; sinit<3, 3>(s, r);
    budget = 0;
    CHECK(!s.reserve(4), "running out of memory is reported");
    CHECK(!s.resize(4), "running out of memory is reported");
    same(s, r);
    CHECK(s.capacity() == 3 && blocks_live == 1, "the room is what it was");
    char x = ch();
    budget = 1; s += x; sput(r, 3, &x, 1);
    same(s, r);
    verif_reach("fail");
}
extern "C" void str_read()
{
    S s, t; SRef r, q; sinit<3, 3>(s, r); sinit<3, 4>(t, q);
    bool eq = r.c[0] == q.c[0] && r.c[1] == q.c[1] && r.c[2] == q.c[2];
    CHECK((s == t) == eq, "equality");
    CHECK((s.compare(t) == 0) == eq, "compare");
    char c = ch();
    unsigned at = 3; for(int i = 2; i >= 0; --i) if(r.c[i] == c) at = i;
    CHECK(s.find(c) == (at == 3 ? S::npos : at), "find");
    CHECK(s.starts_with(t) == eq && s.ends_with(t) == eq, "starts and ends with");
    CHECK(s.starts_with(c) == (r.c[0] == c) && s.ends_with(c) == (r.c[2] == c), "first and last");
    unsigned i = verif_below(3);
    s[i] = c; r.c[i] = c;
    same(s, r); same(t, q);
    verif_reach("read");
}

// Known: a copy of a vector or string shares the block of the original ...
extern "C" void vec_copy()
{
    V v; Ref r; init<2, 2>(v, r);
    V w(v);
    T x = verif_u16();
    w[0] = x;
    verif_reach("copy");
    T y = v[0];
    CHECK(y == r.c[0], "changing a copy leaves the original alone");
}
// ... and none gives its block back when it ends
extern "C" void vec_release()
{
    blocks_live = 0;
    { V v; v.push_back(verif_u16()); }
    verif_reach("release");
    CHECK(blocks_live == 0, "a vector which ended has given its memory back");
}
