// Dynamic containers over an allocator which hands out handles: memory is
// only where lock() says it is until the matching unlock(), and a different
// place the next time.
//@ h lv_push unwind=18
//@ h lv_insert unwind=18
//@ h lv_insert_range unwind=18
//@ h lv_erase unwind=18
//@ h lv_access unwind=18
//@ h lv_iterate unwind=18
//@ h lv_assign unwind=18
//@ h lv_fail unwind=18
//@ h ls_append_buf unwind=18
//@ h ls_append_str unwind=18
//@ h ls_append_char unwind=18
//@ h ls_assign_text unwind=18
//@ h ls_assign_str unwind=18
//@ h ls_insert unwind=18
//@ h ls_erase unwind=18
//@ h ls_compare unwind=18
//@ h ls_find unwind=18
//@ h ls_copy unwind=18
//@ h ls_edges unwind=18
//@ h ls_iterate unwind=18
#include "verif.h"
#include <estd/vector.h>
#include <estd/string.h>
#include <string.h>
static int locks, bad;
enum { CAP = 12, SLOTS = 4 };
template <class T> struct store
{
    static T home[SLOTS][CAP];
    static T window[SLOTS][CAP];
    static unsigned char count[SLOTS], used[SLOTS];
    static unsigned size[SLOTS];
};
template <class T> T store<T>::home[SLOTS][CAP];
template <class T> T store<T>::window[SLOTS][CAP];
template <class T> unsigned char store<T>::count[SLOTS];
template <class T> unsigned char store<T>::used[SLOTS];
template <class T> unsigned store<T>::size[SLOTS];
template <class A> struct door : estd::internal::accessor<A>
{
    typedef estd::internal::accessor<A> base;
    typedef typename base::value_type value_type;
    typedef value_type& locked_type;
    typedef const value_type& const_locked_type;
    door(A& a, const typename base::handle_with_offset& h) : base(a, h) {}
    door& operator=(const value_type& v) { base::operator=(v); return *this; }
};
template <class T> struct locker
{
    typedef store<T> st;
    typedef T value_type;
    typedef T* pointer;
    typedef const void* const_void_pointer;
    typedef int handle_type;
    typedef size_t size_type;
    typedef estd::internal::handle_with_offset<handle_type, size_t> handle_with_offset;
    typedef void is_locking_tag;
    typedef void is_stateful_tag;
    typedef door<locker> accessor;
    typedef estd::internal::locking_iterator<locker, accessor> iterator;
    char state;
    static constexpr handle_type invalid() { return 0; }
    static unsigned max_size() { return 9999; }
    static T* open(handle_type h)
    {
        unsigned i = (unsigned)h - 1;
        if(i >= SLOTS || !st::used[i]) { ++bad; i = 0; }
        if(st::count[i]++ == 0) for(unsigned k = 0; k < CAP; ++k) st::window[i][k] = st::home[i][k];
        ++locks;
        return st::window[i];
    }
    static void close(handle_type h)
    {
        unsigned i = (unsigned)h - 1;
        // iterators unlock once more when they end, by when it may be long gone
        if(i >= SLOTS || !st::used[i] || st::count[i] == 0) return;
        --locks;
        if(--st::count[i] == 0)
        {
            for(unsigned k = 0; k < CAP; ++k) st::home[i][k] = st::window[i][k];
            for(unsigned k = 0; k < CAP; ++k) st::window[i][k] = (T)0xA5;
        }
    }
    T& lock(handle_type h, int pos = 0, int = 0) { return open(h)[pos]; }
    T& lock(const handle_with_offset& h, int pos = 0, int = 0) { return open(h.handle())[h.offset() + pos]; }
    const T& clock(handle_type h, int pos = 0, int = 0) const { return open(h)[pos]; }
    const T& clock(const handle_with_offset& h, int pos = 0, int = 0) const { return open(h.handle())[h.offset() + pos]; }
    void unlock(handle_type h) { close(h); }
    void cunlock(handle_type h) const { close(h); }
    handle_with_offset offset(handle_type h, size_t pos) const { return handle_with_offset(h, pos); }
    handle_type allocate(size_t n)
    {
        if(n > CAP) return 0;
        for(int i = 0; i < SLOTS; ++i) if(!st::used[i]) { st::used[i] = 1; st::size[i] = n; return i + 1; }
        return 0;
    }
    void deallocate(handle_type h, size_t) { unsigned i = (unsigned)h - 1; if(st::count[i]) ++bad; st::used[i] = 0; }
    handle_type reallocate(handle_type h, size_t n)
    {
        handle_type q = allocate(n);
        if(!q) return 0;
        if(st::count[h - 1]) ++bad;
        for(unsigned k = 0; k < CAP; ++k) st::home[q - 1][k] = st::home[h - 1][k];
        deallocate(h, 0);
        return q;
    }
};
typedef uint64_t T;
typedef estd::vector<T, locker<T> > V;
template <class T> struct RefOf { T c[8]; unsigned n; };
typedef RefOf<T> Ref;
template <class T> static void same(estd::vector<T, locker<T> >& v, const RefOf<T>& r)
{
    CHECK(locks == 0, "every lock is matched by an unlock");
    CHECK(bad == 0, "only live memory is locked, and it moves only while unlocked");
    CHECK(v.size() == r.n, "size");
    unsigned i = verif_below(8);
    if(i < r.n)
    {
        T x = v[i]; CHECK(x == r.c[i], "element");
        T b = v.back(); CHECK(b == r.c[r.n - 1], "back");
        T f = v.front(); CHECK(f == r.c[0], "front");
    }
    CHECK(locks == 0, "every lock is matched by an unlock");
}
template <unsigned n, unsigned cap, class T> static void init(estd::vector<T, locker<T> >& v, RefOf<T>& r)
{
    locks = bad = 0;
    if(cap) v.reserve(cap);
    r.n = n;
    for(unsigned i = 0; i < n; ++i) { r.c[i] = (T)verif_u64(); v.push_back(r.c[i]); }
}
template <unsigned n, unsigned cap> static void push()
{
    V v; Ref r; init<n, cap>(v, r);
    T x = verif_u64();
    switch(verif_below(3))
    {
        case 0: v.push_back((const T&)x); break;
        case 1: { T y = x; v.push_back((T&&)y); break; }
        default: v.emplace_back(x);
    }
    r.c[r.n++] = x;
    same(v, r);
    verif_reach("push");
}
extern "C" void lv_push() { push<0, 0>(); push<3, 3>(); }
static void shift(Ref& r, unsigned at, const T* s, unsigned k)
{
    for(unsigned i = 8; i-- > 0;) if(i < r.n && i >= at) r.c[i + k] = r.c[i];
    for(unsigned i = 0; i < k; ++i) r.c[at + i] = s[i];
    r.n += k;
}
template <unsigned cap> static void ins()
{
    V v; Ref r; init<3, cap>(v, r);
    unsigned at = verif_upto(3);
    T x = verif_u64();
    if(verif_bool()) v.insert(v.begin() + at, (const T&)x); else { T y = x; v.insert(v.begin() + at, (T&&)y); }
    shift(r, at, &x, 1);
    same(v, r);
    verif_reach("insert");
}
extern "C" void lv_insert() { ins<3>(); ins<4>(); }
extern "C" void lv_insert_range()
{
    V v; Ref r; init<3, 3>(v, r);
    unsigned at = verif_upto(3);
    T x[2] = { verif_u64(), verif_u64() };
    v.insert(v.begin() + at, x, x + 2);
    shift(r, at, x, 2);
    same(v, r);
    verif_reach("insert");
}
extern "C" void lv_erase()
{
    typedef uint8_t T;
    estd::vector<T, locker<T> > v; RefOf<T> r; init<4, 4>(v, r);
    unsigned at = verif_below(4), k = 1;
    v.erase(v.begin() + at);
    for(unsigned i = 0; i < 4; ++i) if(i >= at && i + k < 4) r.c[i] = r.c[i + k];
    r.n -= k;
    same(v, r);
    v.pop_back(); --r.n;
    same(v, r);
    verif_reach("erase");
}
extern "C" void lv_access()
{
    V v; Ref r; init<3, 3>(v, r);
    unsigned i = verif_below(3), j = verif_below(3);
    T y = verif_u64();
    v[i] = y; r.c[i] = y;
    same(v, r);
    CHECK((v[i] == y) && !(v[i] != y), "element comparison");
    CHECK((v[j] < y) == (r.c[j] < y) && (v[j] > y) == (r.c[j] > y), "element order");
    T* p = &v[j].lock(); *p = 7; r.c[j] = 7; v[j].unlock();
    same(v, r);
    verif_reach("access");
}
extern "C" void lv_iterate()
{
    V v; Ref r; init<3, 3>(v, r);
    unsigned k = 0;
    auto e = v.end();
    auto it = v.begin(); for(; it != e && k < 5; ++it, ++k) { T y = it.lock(); it.unlock(); CHECK(y == r.c[k], "iteration"); }
    CHECK(k == 3, "iteration length");
    CHECK(e - v.begin() == 3, "iterator difference");
    auto i = v.begin(); i += 2; T y = i.lock(); i.unlock(); CHECK(y == r.c[2], "iterator offset");
    i -= 1; y = i.lock(); i.unlock(); CHECK(y == r.c[1], "iterator offset");
    i.lock() = 9; i.unlock(); r.c[1] = 9;
    same(v, r);
    verif_reach("iterate");
}

extern "C" void lv_assign()
{
    V v; Ref r; init<2, 3>(v, r);
    T x[4] = { verif_u64(), verif_u64(), verif_u64(), verif_u64() };
    v.assign(x, x + 4);
    r.n = 0; shift(r, 0, x, 4);
    same(v, r);
    estd::layer1::vector<T, 4> w; T a = verif_u64(); w.push_back(a);
    v.assign(w);
    r.n = 1; r.c[0] = a;
    same(v, r);
    verif_reach("assign");
}
extern "C" void lv_fail()
{
    V v; Ref r; init<3, 3>(v, r);
    CHECK(!v.reserve(CAP + 1), "no room is reported");
    CHECK(!v.resize(CAP + 1), "no room is reported");
    same(v, r);
    CHECK(v.capacity() == 3, "the room is what it was");
    v.clear(); r.n = 0;
    same(v, r);
    v.push_back(5); r.c[r.n++] = 5;
    same(v, r);
    verif_reach("fail");
}
// --- strings
typedef estd::basic_string<char, estd::char_traits<char>, locker<char> > S;
typedef RefOf<char> SRef;
static char ch() { return (char)verif_u8(); }
static void same(const S& s, const SRef& r)
{
    CHECK(locks == 0, "every lock is matched by an unlock");
    CHECK(bad == 0, "only live memory is locked, and it moves only while unlocked");
    CHECK(s.size() == r.n && s.length() == r.n && s.empty() == (r.n == 0), "size");
    char out[8];
    CHECK(s.copy(out, 8) == r.n, "copied length");
    unsigned i = verif_below(8);
    if(i < r.n) { CHECK(out[i] == r.c[i], "text"); char c = s[i]; CHECK(c == r.c[i], "character"); }
    CHECK(locks == 0, "every lock is matched by an unlock");
}
template <unsigned n> static void sinit(S& s, SRef& r)
{
    locks = bad = 0;
    s.reserve(8);
    r.n = n;
    for(unsigned i = 0; i < n; ++i) r.c[i] = ch();
    s.append(r.c, n);
}
static void sput(SRef& r, unsigned at, const char* x, unsigned k)
{
    for(unsigned i = 8; i-- > 0;) if(i < r.n && i >= at) r.c[i + k] = r.c[i];
    for(unsigned i = 0; i < k; ++i) r.c[at + i] = x[i];
    r.n += k;
}
extern "C" void ls_append_buf()
{
    S s; SRef r; sinit<3>(s, r);
    char x[2] = { ch(), ch() };
    s.append(x, 2); sput(r, 3, x, 2);
    same(s, r);
    verif_reach("append");
}
extern "C" void ls_append_str()
{
    S s, t; SRef r, q; sinit<3>(s, r); sinit<2>(t, q);
    s.append(t); sput(r, 3, q.c, 2);
    same(s, r); same(t, q);
    s += t; sput(r, 5, q.c, 2);
    same(s, r); same(t, q);
    verif_reach("append");
}
extern "C" void ls_append_char()
{
    S s; SRef r; sinit<3>(s, r);
    char c = ch(), d = ch();
    s += c; sput(r, 3, &c, 1);
    same(s, r);
    s.append(2, d); sput(r, 4, &d, 1); sput(r, 5, &d, 1);
    same(s, r);
    s.push_back(c); sput(r, 6, &c, 1);
    same(s, r);
    verif_reach("append");
}
extern "C" void ls_assign_text()
{
    S s; SRef r; sinit<2>(s, r);
    char x[5]; for(int i = 0; i < 4; ++i) { x[i] = ch(); verif_assume(x[i]); }
    x[4] = 0;
    s = (const char*)x; r.n = 0; sput(r, 0, x, 4);
    same(s, r);
    s += (const char*)(x + 2); sput(r, 4, x + 2, 2);
    same(s, r);
    verif_reach("assign");
}
extern "C" void ls_assign_str()
{
    S s; SRef r; sinit<2>(s, r);
    char x[4]; for(int i = 0; i < 4; ++i) x[i] = ch();
    estd::layer1::string<8, false> t; t.append(x, 4);
    s = t; r.n = 0; sput(r, 0, x, 4);
    same(s, r);
    s.assign(x + 1, x + 3); r.n = 0; sput(r, 0, x + 1, 2);
    same(s, r);
    verif_reach("assign");
}
extern "C" void ls_insert()
{
    S s; SRef r; sinit<3>(s, r);
    char x[2] = { ch(), ch() };
    unsigned at = verif_upto(3);
    s.insert(at, x, 2); sput(r, at, x, 2);
    same(s, r);
    verif_reach("insert");
}
extern "C" void ls_erase()
{
    S s; SRef r; sinit<4>(s, r);
    unsigned at = verif_upto(4), k = verif_u8();
    s.erase(at, k);
    if(k > 4 - at) k = 4 - at;
    for(unsigned i = 0; i < 4; ++i) if(i >= at && i + k < 4) r.c[i] = r.c[i + k];
    r.n -= k;
    same(s, r);
    verif_reach("erase");
}
extern "C" void ls_compare()
{
    S s, t; SRef r, q; sinit<3>(s, r); sinit<2>(t, q);
    unsigned char a, b; int want = 0;
    for(int i = 0; i < 2 && !want; ++i) { a = r.c[i]; b = q.c[i]; want = a < b ? -1 : a > b; }
    if(!want) want = 1;
    CHECK(s.compare(t) != 0 && t.compare(s) != 0, "compare");
    CHECK(!(s == t), "equality");
    char c = ch();
    t += c; sput(q, 2, &c, 1);
    bool eq = r.c[0] == q.c[0] && r.c[1] == q.c[1] && r.c[2] == c;
    CHECK((s == t) == eq, "equality");
    CHECK((s.compare(t) == 0) == eq, "compare");
    char z[4] = { q.c[0], q.c[1], q.c[2], 0 };
    verif_assume(z[0] && z[1] && z[2]);
    CHECK((s == (const char*)z) == eq, "equality with text");
    same(s, r); same(t, q);
    verif_reach("compare");
}
extern "C" void ls_find()
{
    S s, t; SRef r, q; sinit<4>(s, r); sinit<2>(t, q);
    char c = ch();
    unsigned at = 4; for(int i = 3; i >= 0; --i) if(r.c[i] == c) at = i;
    CHECK(s.find(c) == (at == 4 ? S::npos : at), "find a character");
    at = 4; for(int i = 2; i >= 0; --i) if(r.c[i] == q.c[0] && r.c[i + 1] == q.c[1]) at = i;
    CHECK(s.find(t) == (at == 4 ? S::npos : at), "find a string");
    same(s, r); same(t, q);
    verif_reach("find");
}
extern "C" void ls_copy()
{
    S s; SRef r; sinit<4>(s, r);
    char out[8];
    unsigned pos = verif_upto(4), n = verif_upto(6);
    unsigned k = s.copy(out, n, pos), want = n < 4 - pos ? n : 4 - pos;
    CHECK(k == want, "copied length");
    unsigned i = verif_below(8); if(i < want) CHECK(out[i] == r.c[pos + i], "copied text");
    same(s, r);
    verif_reach("copy");
}
extern "C" void ls_edges()
{
    S s, t; SRef r, q; sinit<3>(s, r); sinit<2>(t, q);
    char c = ch();
    CHECK(s.starts_with(t) == (r.c[0] == q.c[0] && r.c[1] == q.c[1]), "starts with");
    CHECK(locks == 0, "every lock is matched by an unlock");
    CHECK(s.ends_with(t) == (r.c[1] == q.c[0] && r.c[2] == q.c[1]), "ends with");
    CHECK(locks == 0, "every lock is matched by an unlock");
    CHECK(s.starts_with(c) == (r.c[0] == c) && s.ends_with(c) == (r.c[2] == c), "first and last");
    CHECK(!t.starts_with(s) && !t.ends_with(s), "longer");
    same(s, r); same(t, q);
    verif_reach("edges");
}
extern "C" void ls_iterate()
{
    S s; SRef r; sinit<3>(s, r);
    unsigned k = 0;
    auto e = s.end();
    auto it = s.begin(); for(; it != e && k < 5; ++it, ++k) { char y = it.lock(); it.unlock(); CHECK(y == r.c[k], "iteration"); }
    CHECK(k == 3, "iteration length");
    unsigned i = verif_below(3); char c = ch();
    s[i] = c; r.c[i] = c;
    same(s, r);
    verif_reach("iterate");
}
