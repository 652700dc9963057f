// fixed-storage vectors against an array reference
//@ h v1_push unwind=8
//@ h v1_insert unwind=8
//@ h v1_erase unwind=22
//@ h v1_misc unwind=8
//@ h v2_push unwind=8
//@ h v2_insert unwind=8
//@ h v2_erase unwind=22
//@ h v3_push unwind=8
//@ h v3_insert unwind=8
//@ h v3_erase unwind=22
//@ h v8_insert unwind=8
//@ h v8_erase unwind=8
//@ h v64_insert unwind=8 cost=4
//@ h v64_erase unwind=42
//@ h vobj_push unwind=8
//@ h vobj_insert unwind=8
//@ h vobj_erase unwind=8
//@ h vlife_push unwind=8
//@ h vlife_insert unwind=8
//@ h vlife_erase unwind=8
//@ h vlife_misc unwind=8
//@ h vconst_insert unwind=8
//@ h vcopy_insert unwind=8
//@ h v2_misc unwind=8
//@ h v3_misc unwind=8
//@ h v64_misc unwind=8
//@ h v1_seq3 unwind=22 cost=4 tier=thorough timeout=2000
//@ h v1_seq5 unwind=22 cost=9 tier=thorough timeout=2000
#include "verif.h"
#include <estd/vector.h>
static const unsigned CAP = 5;
template <class T> static T val();
template <> int val<int>() { return verif_i32(); }
template <> uint8_t val<uint8_t>() { return verif_u8(); }
template <> uint64_t val<uint64_t>() { return verif_u64(); }
// a value with construction and destruction counted
static int live;
struct Obj
{
    int v; int* self;
    Obj(int v = 0) : v(v), self(&this->v) { ++live; }
    Obj(const Obj& o) : v(o.v), self(&this->v) { ++live; }
    Obj(Obj&& o) : v(o.v), self(&this->v) { o.v = -1; ++live; }
    Obj& operator=(const Obj& o) { v = o.v; return *this; }
    Obj& operator=(Obj&& o) { v = o.v; o.v = -1; return *this; }
    ~Obj() { --live; }
    bool operator==(const Obj& o) const { return v == o.v; }
};
template <> Obj val<Obj>() { int v = verif_u16(); return Obj(v); }
template <class T> struct Ref
{
    T c[CAP]; unsigned n;
    void insert(unsigned at, const T* s, unsigned k)
    {
        for(unsigned i = n; i > at; --i) c[i - 1 + k] = c[i - 1];
        for(unsigned i = 0; i < k; ++i) c[at + i] = s[i];
        n += k;
    }
    void erase(unsigned at) { for(unsigned i = at; i + 1 < n; ++i) c[i] = c[i + 1]; --n; }
};
template <class V, class T> static void same(V& s, const Ref<T>& r)
{
    CHECK(s.size() == r.n, "size");
    CHECK(s.empty() == (r.n == 0), "empty");
    const T* d = s.data();
    for(unsigned i = 0; i < CAP; ++i) if(i < r.n) CHECK(d[i] == r.c[i], "content");
    unsigned k = 0;
    auto e = s.end();
    auto it = s.begin(); for(; it != e && k < CAP; ++it, ++k) { const T& x = *it; CHECK(x == r.c[k], "iteration"); }
    CHECK(!(it != e) && k == r.n, "iteration length");
    for(unsigned i = 0; i < CAP; ++i) if(i < r.n) { const T& x = s[i]; CHECK(x == r.c[i], "element access"); }
    if(r.n) { const T& f = s.front(); const T& b = s.back(); CHECK(f == r.c[0], "front"); CHECK(b == r.c[r.n - 1], "back"); }
}
template <class V, class T> static void init(V& s, Ref<T>& r)
{
    r.n = verif_upto(CAP);
    for(unsigned i = 0; i < CAP; ++i) r.c[i] = val<T>();
    for(unsigned i = 0; i < CAP; ++i) if(i < r.n) s.push_back(r.c[i]);
}
template <class V, class T> static void op_push(V& s, Ref<T>& r, unsigned which)
{
    T x = val<T>();
    switch(which)
    {
        case 0: verif_assume(r.n < CAP); r.c[r.n++] = x; s.push_back(x); break;
        case 1: verif_assume(r.n < CAP); r.c[r.n++] = x; s.push_back((T&&)x); break;
        case 2: verif_assume(r.n < CAP); r.c[r.n++] = x; { T& y = s.emplace_back(x).lock(); CHECK(y == x, "emplace_back returns the element"); } break;
        default: verif_assume(r.n > 0); --r.n; s.pop_back(); break;
    }
}
template <class V, class T> static void op_insert(V& s, Ref<T>& r, unsigned which)
{
    unsigned at = verif_upto(CAP); verif_assume(at <= r.n);
    T x[2] = { val<T>(), val<T>() };
    switch(which)
    {
        case 0: verif_assume(r.n < CAP); r.insert(at, x, 1); { auto i = s.insert(s.begin() + (int)at, (const T&)x[0]); CHECK(*i == r.c[at], "insert returns the position"); } break;
        case 1: verif_assume(r.n < CAP); r.insert(at, x, 1); { auto i = s.insert(s.begin() + (int)at, (T&&)x[0]); CHECK(*i == r.c[at], "insert returns the position"); } break;
        default: { unsigned k = verif_upto(2); verif_assume(r.n + k <= CAP); r.insert(at, x, k); auto i = s.insert(s.begin() + (int)at, (const T*)x, (const T*)x + k); if(at < r.n) CHECK(*i == r.c[at], "insert returns the position"); break; }
    }
}
template <class V, class T> static void op_erase(V& s, Ref<T>& r, unsigned which)
{
    unsigned at = verif_upto(CAP); verif_assume(at < r.n);
    if(which == 0) { r.erase(at); auto i = s.erase(s.begin() + (int)at); if(at < r.n) CHECK(*i == r.c[at], "erase returns the next position"); }
    else { s.clear(); r.n = 0; }
}
template <class V, class T> static void op_misc(V& s, Ref<T>& r, unsigned which)
{
    unsigned at = verif_upto(CAP); verif_assume(at < r.n); T x = val<T>();
    switch(which)
    {
        case 0: s[at] = x; r.c[at] = x; break;
        case 1: s.at(at) = x; r.c[at] = x; break;
        case 2: *(s.begin() + (int)at) = x; r.c[at] = x; break;
        case 3: s.resize(at); r.n = at; break;
        case 5: { T y[3] = { val<T>(), val<T>(), val<T>() }; unsigned k = verif_upto(3); s.assign((const T*)y, (const T*)y + k); r.n = 0; r.insert(0, y, k); } break;
        default: { V t(s); same<V, T>(t, r); t.clear(); CHECK(t.size() == 0, "copy cleared"); break; }
    }
}
template <class V, class T> static void op_misc_l(V& s, Ref<T>& r, unsigned which) { op_misc<V, T>(s, r, which == 4 ? 5 : which); }    // a copy shares the buffer
template <class T> struct Buf { T lo, b[CAP], hi; Buf() { lo = 77; hi = 78; } void ok() { CHECK(lo == 77 && hi == 78, "storage outside the buffer untouched"); } };
typedef estd::layer1::vector<int, CAP> V1;
typedef estd::layer2::vector<int, CAP> V2;
typedef estd::layer3::vector<int> V3;
#define ONE(name, T, V, MAKE, op, n, FIN) extern "C" void name() { { Ref<T> r; MAKE; init<V, T>(s, r); op<V, T>(s, r, verif_below(n)); same<V, T>(s, r); verif_reach("done"); FIN } }
ONE(v1_push, int, V1, V1 s, op_push, 4,)
ONE(v1_insert, int, V1, V1 s, op_insert, 3,)
ONE(v1_erase, int, V1, V1 s, op_erase, 2,)
ONE(v1_misc, int, V1, V1 s, op_misc, 6,)
ONE(v2_push, int, V2, Buf<int> g; V2 s(g.b), op_push, 4, g.ok();)
ONE(v2_insert, int, V2, Buf<int> g; V2 s(g.b), op_insert, 3, g.ok();)
ONE(v2_erase, int, V2, Buf<int> g; V2 s(g.b), op_erase, 2, g.ok();)
ONE(v3_push, int, V3, Buf<int> g; V3 s(g.b), op_push, 4, g.ok();)
ONE(v3_insert, int, V3, Buf<int> g; V3 s(g.b), op_insert, 3, g.ok();)
ONE(v3_erase, int, V3, Buf<int> g; V3 s(g.b), op_erase, 2, g.ok();)
typedef estd::layer1::vector<uint8_t, CAP> V8;
typedef estd::layer1::vector<uint64_t, CAP> V64;
ONE(v8_insert, uint8_t, V8, V8 s, op_insert, 3,)
ONE(v8_erase, uint8_t, V8, V8 s, op_erase, 2,)
ONE(v64_insert, uint64_t, V64, V64 s, op_insert, 3,)
ONE(v64_erase, uint64_t, V64, V64 s, op_erase, 2,)
typedef estd::layer1::vector<Obj, CAP> VO;
ONE(vobj_push, Obj, VO, VO s, op_push, 4,)
ONE(vobj_insert, Obj, VO, VO s, op_insert, 3,)
ONE(vobj_erase, Obj, VO, VO s, op_erase, 2,)
ONE(v2_misc, int, V2, Buf<int> g; V2 s(g.b), op_misc_l, 6, g.ok();)
ONE(v3_misc, int, V3, Buf<int> g; V3 s(g.b), op_misc_l, 6, g.ok();)
ONE(v64_misc, uint64_t, V64, V64 s, op_misc, 6,)
// an element which knows whether it is alive: made where there is none, used and ended where there is one
struct Life
{
    int v; Life* self;
    Life(int v = 0) : v(v), self(this) { ++live; }
    Life(const Life& o) : v(o.v), self(this) { CHECK(o.self == &o, "copied from a live element"); ++live; }
    Life(Life&& o) : v(o.v), self(this) { CHECK(o.self == &o, "moved from a live element"); o.v = -1; ++live; }
    Life& operator=(const Life& o) { CHECK(self == this && o.self == &o, "assigned to a live element"); v = o.v; return *this; }
    Life& operator=(Life&& o) { CHECK(self == this && o.self == &o, "assigned to a live element"); v = o.v; o.v = -1; return *this; }
    ~Life() { CHECK(self == this, "ended once"); self = nullptr; --live; }
    bool operator==(const Life& o) const { return v == o.v; }
};
template <unsigned which> static void life()
{
    struct { Life* align; char b[CAP * sizeof(Life)]; } raw; for(unsigned i = 0; i < CAP; ++i) ((Life*)raw.b)[i].self = nullptr;
    estd::layer2::vector<Life, CAP> s((Life*)raw.b);
    int c[CAP + 1]; unsigned n = verif_upto(CAP - 2), at = verif_upto(CAP - 2), j = verif_below(CAP); verif_assume(at <= n);
    live = 0;
    for(unsigned i = 0; i <= CAP; ++i) { c[i] = verif_u16(); if(i < n) s.emplace_back(c[i]); }
    CHECK(live == (int)n, "made once");
    int x = verif_u16(), y = verif_u16(); unsigned k = 0;
    {
        Life a(x), b[2] = { Life(x), Life(y) };
        bool m = verif_bool();
        switch(which)
        {
            case 0: at = n; k = 1; if(m) s.push_back((const Life&)a); else s.push_back((Life&&)a); break;
            case 1: k = 1; if(m) s.insert(s.begin() + (int)at, (const Life&)a); else s.insert(s.begin() + (int)at, (Life&&)a); break;
            case 2: k = verif_upto(2); s.insert(s.begin() + (int)at, (const Life*)b, (const Life*)b + k); break;
            case 3: verif_assume(n > 0); if(m) { verif_assume(at < n); s.erase(s.begin() + (int)at); for(unsigned i = at; i < CAP; ++i) c[i] = c[i + 1]; } else s.pop_back(); --n; break;
            default: if(m) { s.clear(); n = 0; } else { s.resize(at); n = at; }
        }
    }
    for(; k; --k) { for(unsigned i = CAP; i > at; --i) c[i] = c[i - 1]; c[at] = k == 2 ? y : x; ++n; }
    CHECK(s.size() == n && live == (int)n, "as many live elements as there are");
    if(j < n) CHECK(s.data()[j].v == c[j] && s.data()[j].self == s.data() + j, "content");
    verif_reach("done");
}
extern "C" void vlife_push() { life<0>(); }
extern "C" void vlife_insert() { life<1>(); life<2>(); }
extern "C" void vlife_erase() { life<3>(); }
extern "C" void vlife_misc() { life<4>(); }
// elements which can be made from another, but not assigned
struct Fix
{
    int v, w; Fix(int v = 0) : v(v), w(~v) {}
    Fix(const Fix& o) : v(o.v), w(~o.v) {}
    Fix& operator=(const Fix&) = delete;
};
struct MFix
{
    int v, w; MFix(int v = 0) : v(v), w(~v) {}
    MFix(const MFix& o) : v(o.v), w(~o.v) {}
    MFix(MFix&& o) : v(o.v), w(~o.v) { o.v = -1; }
    MFix& operator=(const MFix&) = delete;
};
template <class F, unsigned how> static void fixed_insert()
{
    int c[CAP]; unsigned n = verif_upto(CAP - 1), at = verif_upto(CAP - 1), j = verif_below(CAP); verif_assume(at <= n); verif_assume(j <= n);
    estd::layer1::vector<F, CAP> s;
    for(unsigned i = 0; i < CAP; ++i) { c[i] = verif_i32(); if(i < n) s.emplace_back(c[i]); }
    F x(verif_i32()); int v = x.v;
    if(how) s.insert(s.begin() + (int)at, (F&&)x); else s.insert(s.begin() + (int)at, (const F&)x);
    CHECK(s.size() == n + 1, "size");
    const F& y = s.data()[j];
    CHECK(y.v == (j < at ? c[j] : j == at ? v : c[j - 1]) && y.w == ~y.v, "content");
    verif_reach("done");
}
extern "C" void vconst_insert() { fixed_insert<Fix, 0>(); }
extern "C" void vcopy_insert() { if(verif_bool()) fixed_insert<MFix, 0>(); else fixed_insert<MFix, 1>(); }
static void seq(int steps)
{
    V1 s; Ref<int> r; r.n = 0;
    for(int i = 0; i < steps; ++i)
        switch(verif_below(4))
        {
            case 0: op_push<V1, int>(s, r, verif_below(4)); break;
            case 1: op_insert<V1, int>(s, r, verif_below(3)); break;
            case 2: op_erase<V1, int>(s, r, verif_below(2)); break;
            default: op_misc<V1, int>(s, r, verif_below(5)); break;
        }
    same<V1, int>(s, r);
    verif_reach("done");
}
extern "C" void v1_seq3() { seq(3); }
extern "C" void v1_seq5() { seq(5); }
