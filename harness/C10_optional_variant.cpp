// optional, expected and variant: state, value and lifetime after arbitrary operation pairs
//@ h opt_ops unwind=4
//@ h opt_life unwind=4
//@ h opt_assign unwind=4
//@ h opt_cmp unwind=4
//@ h opt_layer1 unwind=4
//@ h opt_bool unwind=4
//@ h exp_ops unwind=4
//@ h exp_life unwind=4
//@ h exp_copy unwind=4
//@ h var_ops unwind=4
//@ h var_life unwind=4
//@ h var_move unwind=4
//@ h var_get unwind=4
//@ h var_dup unwind=4
//@ h align_ok unwind=4
//@ inline 1000
#include "verif.h"
#include <estd/optional.h>
#include <estd/expected.h>
#include <estd/variant.h>
using estd::optional; using estd::nullopt; using estd::in_place_t; using estd::expected; using estd::unexpected; using estd::variant;
// counts lives: built over a live object or destroyed twice shows in the balance or the tag
static int live, bad;
template <unsigned K> struct Trk
{
    uint16_t tag; uint8_t v;
    static const uint16_t on = 0x5A00 + K, off = 0x1100 + K;
    explicit Trk(uint8_t x = 0) : tag(on), v(x) { ++live; }
    Trk(const Trk& o) : tag(on), v(o.v) { if(o.tag != on) ++bad; ++live; }
    Trk(Trk&& o) : tag(on), v(o.v) { if(o.tag != on) ++bad; o.v = 0xEE; ++live; }
    Trk& operator=(const Trk& o) { if(tag != on || o.tag != on) ++bad; v = o.v; return *this; }
    Trk& operator=(Trk&& o) { if(tag != on || o.tag != on) ++bad; uint8_t t = o.v; o.v = 0xEE; v = t; return *this; }
    ~Trk() { if(tag != on) ++bad; tag = off; --live; }
};
typedef Trk<1> T1; typedef Trk<2> T2;
static void start() { live = 0; bad = 0; }
#define BALANCED(n) do { CHECK(live == (n), "every object built is alive exactly while held"); CHECK(bad == 0, "only live objects are used or destroyed"); } while(0)

extern "C" void opt_ops()
{
    optional<int32_t> o; CHECK(!o.has_value() && !o, "starts empty");
    bool has = false; int32_t val = 0;
    for(unsigned i = 0; i < 3; ++i)
    {
        int32_t x = verif_i32();
        switch(verif_below(7))
        {
            case 0: o = x; has = true; val = x; break;
            case 1: o = nullopt; has = false; break;
            case 2: o.reset(); has = false; break;
            case 3: CHECK(o.emplace(x) == x, "emplace result"); has = true; val = x; break;
            case 4: { optional<int32_t> p(x); o = p; has = true; val = x; CHECK(p.has_value() && *p == x, "source kept"); break; }
            case 5: { optional<int32_t> p; o = p; has = false; break; }
            case 6: { optional<int16_t> p((int16_t)x); if(verif_bool()) p.reset(); has = p.has_value(); val = (int16_t)x; o = p; break; }
        }
        CHECK(o.has_value() == has && (bool)o == has, "has_value");
        if(has) { CHECK(*o == val && o.value() == val && *o.operator->() == val, "value"); }
        CHECK(o.value_or(77) == (has ? val : 77), "value_or");
    }
    optional<int32_t> c(o); CHECK(c.has_value() == has && (!has || *c == val), "copy");
    optional<int32_t> m(std::move(c)); CHECK(m.has_value() == has && (!has || *m == val), "move");
    if(has) verif_reach("holds a value");
}
extern "C" void opt_life()
{
    start(); unsigned n = 0;
    {
        uint8_t x = verif_u8(), y = verif_u8(); bool has = verif_bool();
        optional<T1> o; BALANCED(0);
        if(has) { o.emplace(x); BALANCED(1); }
        switch(verif_below(8))
        {
            case 0: o.emplace(y); has = true; x = y; break;
            case 1: o.reset(); has = false; break;
            case 2: o = nullopt; has = false; break;
            case 3: { T1 t(y); o = t; CHECK(t.v == y, "assigned from a kept value"); has = true; x = y; break; }
            case 4: { T1 t(y); o = std::move(t); has = true; x = y; break; }
            case 5: { optional<T1> p(in_place_t{}, y); if(verif_bool()) p.reset(); bool h = p.has_value(); o = p; CHECK(p.has_value() == h && (!h || p->v == y), "source kept"); has = h; x = y; break; }
            case 6: { optional<T1> p(o); BALANCED(has ? 2 : 0); CHECK(p.has_value() == has && (!has || p->v == x), "copied"); break; }
            case 7: { optional<T1> p(std::move(o)); CHECK(p.has_value() == has && (!has || p->v == x), "moved"); o = p; break; }
        }
        BALANCED(has ? 1 : 0);
        CHECK(o.has_value() == has, "state"); if(has) CHECK(o->v == x && (*o).v == x, "value");
        if(has) verif_reach("still holds");
        n = has;
    }
    BALANCED(0);
}
extern "C" void opt_assign()
{
    start();
    {
        uint8_t x = verif_u8(), y = verif_u8(); bool a = verif_bool(), b = verif_bool();
        optional<T1> p, q; if(a) p.emplace(x); if(b) q.emplace(y);
        if(verif_bool()) p = q; else { p = std::move(q); }
        CHECK(p.has_value() == b && (!b || p->v == y), "assigned state and value");
        optional<T1>& s = p; p = s;
        CHECK(p.has_value() == b && (!b || p->v == y), "self assignment keeps");
        BALANCED((p.has_value() ? 1 : 0) + (q.has_value() ? 1 : 0));
        if(a && b) verif_reach("both");
    }
    BALANCED(0);
}
extern "C" void opt_cmp()
{
    bool a = verif_bool(), b = verif_bool(); int16_t x = verif_i16(), y = verif_i16();
    optional<int16_t> p, q; if(a) p = x; if(b) q = y;
    bool eq = a == b && (!a || x == y);
    CHECK((p == q) == eq, "equal"); CHECK((p != q) == !eq, "unequal is the opposite of equal");
    CHECK((p == y) == (a && x == y), "equal to value"); CHECK((y == p) == (a && x == y), "value equal to");
    CHECK((p != y) == !(a && x == y), "unequal to value"); CHECK((y != p) == !(a && x == y), "value unequal to");
    if(a) { CHECK((p < y) == (x < y) && (p > y) == (x > y) && (p <= y) == (x <= y) && (p >= y) == (x >= y), "order against a value");
        CHECK(estd::hash<optional<int16_t> >{}(p) == estd::hash<int16_t>{}(x), "hash of held value"); }
    if(a && b && x == y) verif_reach("equal values");
}
extern "C" void opt_layer1()
{
    typedef estd::layer1::optional<int16_t, -1> L; L o; CHECK(!o.has_value(), "starts empty");
    int16_t x = verif_i16(); verif_assume(x != -1);
    bool has = false; int16_t val = 0;
    for(unsigned i = 0; i < 2; ++i)
    {
        switch(verif_below(4)) { case 0: o = x; has = true; val = x; break; case 1: o.reset(); has = false; break; case 2: o = nullopt; has = false; break;
            case 3: { estd::optional<int16_t> t; if(verif_bool()) t = x; has = t.has_value(); val = x; o = t; break; } }
        CHECK(o.has_value() == has && (!has || *o == val), "state"); CHECK(o.value_or(5) == (has ? val : 5), "value_or");
    }
    L c(o); CHECK(c.has_value() == has && (!has || *c == val), "copy"); CHECK(c == o && !(c != o), "copy equals");
    estd::optional<int16_t> r(o); CHECK(r.has_value() == has && (!has || *r == val), "to the ordinary kind");
    CHECK(sizeof(L) == sizeof(int16_t), "no room for a flag");
    if(has) verif_reach("held");
}
extern "C" void opt_bool()
{
    typedef estd::layer1::optional<bool> L; L o; CHECK(!o.has_value(), "starts empty"); bool has = false, val = false;
    for(unsigned i = 0; i < 3; ++i)
    {
        switch(verif_below(3)) { case 0: val = verif_bool(); o = val; has = true; break; case 1: o.reset(); has = false; break; case 2: o = nullopt; has = false; break; }
        CHECK(o.has_value() == has && (!has || (*o == val && o.value() == val)), "state");
    }
    L c(o); CHECK(c.has_value() == has && (!has || *c == val), "copy");
    if(has && !val) verif_reach("holds false");
}
extern "C" void exp_ops()
{
    typedef expected<int32_t, uint8_t> E; int32_t x = verif_i32(); uint8_t e = verif_u8();
    bool ok = verif_bool(); E r = ok ? E(x) : E(unexpected<uint8_t>(e));
    for(unsigned i = 0; i < 2; ++i)
    {
        CHECK(r.has_value() == ok && (bool)r == ok, "state");
        if(ok) { const E& c = r; CHECK(r.value() == x && *r == x && c.value() == x && *c == x && *r.operator->() == x, "value"); } else CHECK(r.error() == e, "error");
        CHECK(r.value_or(9) == (ok ? x : 9), "value_or");
        switch(verif_below(4)) { case 0: x = verif_i32(); r = x; ok = true; break; case 1: e = verif_u8(); r = unexpected<uint8_t>(e); ok = false; break;
            case 2: x = verif_i32(); r.emplace(x); ok = true; break; case 3: break; }
    }
    E c(r); CHECK(c.has_value() == ok && (ok ? *c == x : c.error() == e), "copy");
    E m(std::move(c)); CHECK(m.has_value() == ok && (ok ? *m == x : m.error() == e), "move");
    E d; CHECK(d.has_value(), "default holds a value");
    if(!ok) verif_reach("error");
}
extern "C" void exp_life()
{
    start();
    {
        typedef expected<T1, T2> E; uint8_t x = verif_u8(), y = verif_u8(); bool ok = verif_bool();
        if(ok)
        {
            E r(in_place_t{}, x); BALANCED(1); unsigned k = verif_below(3);
            if(k == 0) { T1 t(y); r = t; } else if(k == 1) { r.emplace(y); } else { unexpected<T2> u{T2(y)}; r = u; }
            BALANCED(1); CHECK(r.has_value() == (k != 2), "state"); if(k == 2) CHECK(r.error().v == y, "error"); else CHECK(r->v == y, "value");
            if(k == 2) verif_reach("value to error");
        }
        else
        {
            E r(estd::unexpect_t{}, x); BALANCED(1); CHECK(r.error().v == x, "error"); unsigned k = verif_below(3);
            if(k == 0) { T1 t(y); r = t; } else if(k == 1) { r.emplace(y); } else { unexpected<T2> u{T2(y)}; r = u; }
            BALANCED(1); CHECK(r.has_value() == (k != 2), "state"); if(k == 2) CHECK(r.error().v == y, "error"); else CHECK(r->v == y, "value");
            if(k != 2) verif_reach("error to value");
        }
    }
    BALANCED(0);
}
extern "C" void exp_copy()
{
    start();
    {
        typedef expected<T1, T2> E; uint8_t x = verif_u8(); bool ok = verif_bool();
        if(ok) { E r(in_place_t{}, x); E c(r); CHECK(c.has_value() && c->v == x && r->v == x, "copy of a value"); E m(std::move(c)); CHECK(m.has_value() && m->v == x, "move of a value"); verif_reach("value"); }
        else { E r(estd::unexpect_t{}, x); E c(r); CHECK(!c.has_value() && c.error().v == x && r.error().v == x, "copy of an error"); E m(std::move(c)); CHECK(!m.has_value() && m.error().v == x, "move of an error"); }
    }
    BALANCED(0);
}
typedef variant<int32_t, T1, T2> V;
struct VS { unsigned k; uint8_t x; };
static void set(V& v, VS s) { if(s.k == 0) v.emplace<0>((int32_t)s.x); else if(s.k == 1) v.emplace<T1>(s.x); else v.emplace<2>(s.x); }
static void same(V& v, VS s)
{
    CHECK(v.index() == s.k && !v.valueless_by_exception(), "index");
    CHECK(estd::holds_alternative<T1>(v) == (s.k == 1), "holds_alternative"); CHECK((estd::get_if<0>(&v) != nullptr) == (s.k == 0), "get_if by index"); CHECK((estd::get_if<T2>(&v) != nullptr) == (s.k == 2), "get_if by type");
    if(s.k == 0) CHECK(estd::get<0>(v) == (int32_t)s.x && *estd::get_if<int32_t>(&v) == (int32_t)s.x, "number"); else if(s.k == 1) CHECK(estd::get<1>(v).v == s.x && estd::get<T1>(v).v == s.x, "first"); else CHECK(estd::get<T2>(v).v == s.x && estd::get_if<2>(&v)->v == s.x, "second");
}
extern "C" void var_ops()
{
    variant<int32_t, uint8_t, int64_t> v; CHECK(v.index() == 0 && estd::get<0>(v) == 0, "default is the first alternative");
    unsigned k = 0; int64_t x = 0;
    for(unsigned i = 0; i < 2; ++i)
    {
        k = verif_below(3);
        if(k == 0) { int32_t n = verif_i32(); v.emplace<0>(n); x = n; } else if(k == 1) { uint8_t n = verif_u8(); v.emplace<uint8_t>(n); x = n; } else { x = verif_i64(); v.emplace<2>(x); }
        CHECK(v.index() == k, "index");
        CHECK((k == 0 ? (int64_t)estd::get<0>(v) : k == 1 ? (int64_t)estd::get<1>(v) : estd::get<2>(v)) == x, "value");
    }
    variant<int32_t, uint8_t, int64_t> c(v); CHECK(c.index() == k && (k == 0 ? (int64_t)estd::get<0>(c) : k == 1 ? (int64_t)estd::get<1>(c) : estd::get<2>(c)) == x, "copy");
    variant<int32_t, uint8_t, int64_t> a; a = v; CHECK(a.index() == k && (k == 0 ? (int64_t)estd::get<0>(a) : k == 1 ? (int64_t)estd::get<1>(a) : estd::get<2>(a)) == x, "assign");
    if(k == 2) verif_reach("third");
}
extern "C" void var_life()
{
    start();
    {
        VS s{verif_below(3), verif_u8()}, t{verif_below(3), verif_u8()};
        V v; set(v, s); same(v, s); BALANCED(s.k ? 1 : 0);
        unsigned op = verif_below(4);
        if(op == 0) { set(v, t); }
        else if(op == 1) { V w; set(w, t); v = w; same(w, t); BALANCED((t.k ? 1 : 0) * 2); }
        else if(op == 2) { V& r = v; v = r; t = s; }
        else { V c(v); same(c, s); BALANCED((s.k ? 1 : 0) * 2); t = s; }
        same(v, t); BALANCED(t.k ? 1 : 0);
        if(s.k == 1 && t.k == 2) verif_reach("switched");
    }
    BALANCED(0);
}
extern "C" void var_move()
{
    start();
    {
        VS s{verif_below(3), verif_u8()}, t{verif_below(3), verif_u8()};
        V v; set(v, s);
        if(verif_bool()) { V m(std::move(v)); same(m, s); CHECK(v.valueless_by_exception(), "moved from"); set(v, t); same(v, t); }
        else { V m; set(m, t); m = std::move(v); same(m, s); }
        if(s.k == 1 && t.k == 1) verif_reach("same alternative");
    }
    BALANCED(0);
}
extern "C" void var_get()
{
    start();
    {
        uint8_t x = verif_u8(); bool first = verif_bool();
        if(first) { T1 t(estd::get<1>(V(estd::in_place_index_t<1>{}, x))); CHECK(t.v == x, "taken by index from a temporary"); }
        else { T1 t(estd::get<T1>(V(estd::in_place_type_t<T1>{}, x))); CHECK(t.v == x, "taken by type from a temporary"); verif_reach("type"); }
        BALANCED(0);
    }
}
extern "C" void var_dup()
{
    variant<uint8_t, uint8_t, uint16_t> v; uint8_t x = verif_u8(); unsigned k = verif_below(3);
    if(k == 0) v.emplace<0>(x); else if(k == 1) v.emplace<1>(x); else v.emplace<2>(x);
    CHECK(v.index() == k, "the requested one of two equal types");
    if(k == 1) { CHECK(estd::get<1>(v) == x, "value"); verif_reach("second of equal types"); }
}
struct Big { double d; Big() : d(0) {} Big(const Big& o) : d(o.d) {} ~Big() {} };
extern "C" void align_ok()
{
    struct A { char c; optional<Big> o; }; struct B { char c; expected<Big, char> e; };
    A a; B b; (void)a; (void)b;
    CHECK(alignof(optional<Big>) >= alignof(Big), "optional storage is aligned for its value"); CHECK(alignof(expected<Big, char>) >= alignof(Big), "expected storage is aligned"); CHECK(alignof(variant<Big, char>) >= alignof(Big), "variant storage is aligned");
    optional<Big> o; o.emplace(); CHECK(((uintptr_t)&*o) % alignof(Big) == 0, "value sits aligned");
    verif_reach("checked");
}
