// Subjects and observers, output iterators, value providers
//@ h stateless unwind=4
//@ h stateful unwind=4
//@ h mixed unwind=4
//@ h made unwind=4
//@ h owned unwind=4
//@ h proxies unwind=4
//@ h out_buf unwind=12
//@ h out_stream unwind=12
//@ h back_insert unwind=8
//@ h evaporators unwind=4
//@ h providers unwind=4
//@ h raw_provider unwind=4
//@ h filtered unwind=4
#include "verif.h"
#pragma clang diagnostic ignored "-W#warnings"
#include <estd/vector.h>
#include <estd/sstream.h>
#include <estd/iterator.h>
#include <estd/exp/observer.h>
using namespace estd::experimental;
using estd::experimental::internal::stateless_subject;
struct ev1 { int data; };
struct ev2 { int data; };
struct ev3 { int data; };
// what was heard, in order
static int who[8], what[8], kind[8]; static unsigned heard;
static void log(int w, int k, int d) { if(heard < 8) { who[heard] = w; kind[heard] = k; what[heard] = d; } ++heard; }
static void is(unsigned i, int w, int k, int d) { CHECK(who[i] == w && kind[i] == k && what[i] == d, "the right observer hears the right event"); }
template <int id> struct Static
{
    static void on_notify(const ev1& e) { log(id, 1, e.data); }
    static void on_notify(const ev2& e, int& c) { log(id, 2, e.data); ++c; }
};
template <int id> struct Deaf { static void on_notify(const ev3& e) { log(id, 3, e.data); } };
extern "C" void stateless()
{
    heard = 0;
    int x = verif_i32(), c = 0;
    typedef stateless_subject<Static<1>, Deaf<2>, Static<3> > S;
    S::notify(ev1{x});
    CHECK(heard == 2, "everyone who listens, once"); is(0, 1, 1, x); is(1, 3, 1, x);
    S::notify(ev2{x}, c);
    CHECK(heard == 4 && c == 2, "the context reaches those who want it"); is(2, 1, 2, x); is(3, 3, 2, x);
    S::notify(ev3{x}, c);
    CHECK(heard == 5 && c == 2, "a context is left out where it is not wanted"); is(4, 2, 3, x);
    S::notify(ev3{x});
    CHECK(heard == 6, "everyone who listens, once"); is(5, 2, 3, x);
    stateless_subject<>::notify(ev1{x}); stateless_subject<>::notify(ev1{x}, c);
    CHECK(heard == 6, "nobody listens");
    verif_reach("stateless");
}
struct Obs
{
    int id; unsigned n;
    explicit Obs(int i) : id(i), n(0) {}
    void on_notify(const ev1& e) { ++n; log(id, 1, e.data); }
    void on_notify(const ev2& e, int& c) { ++n; log(id, 2, e.data); c += e.data; }
};
extern "C" void stateful()
{
    heard = 0;
    Obs a(1), b(2), d(3);
    int x = verif_i32(), c = 5, y = verif_i16();
    estd::experimental::layer0::subject<Obs&, Obs&, Obs&> s(a, b, d);
    s.notify(ev1{x});
    CHECK(heard == 3, "everyone, once"); is(0, 1, 1, x); is(1, 2, 1, x); is(2, 3, 1, x);
    s.notify(ev2{y}, c);
    CHECK(heard == 6 && c == 5 + 3 * y, "everyone, with the context"); is(3, 1, 2, y); is(4, 2, 2, y); is(5, 3, 2, y);
    s.notify(ev3{x}); s.notify(ev3{x}, c);
    CHECK(heard == 6, "nobody listens");
    CHECK(a.n == 2 && b.n == 2 && d.n == 2, "the observers themselves are called");
    verif_reach("stateful");
}
extern "C" void mixed()
{
    heard = 0;
    Obs a(1);
    int x = verif_i32(), c = 0;
    estd::experimental::layer0::subject<Static<7>, Obs&, Deaf<8> > s(Static<7>(), a, Deaf<8>());
    s.notify(ev1{x});
    CHECK(heard == 2, "everyone who listens, once"); is(0, 7, 1, x); is(1, 1, 1, x);
    s.notify(ev3{x});
    CHECK(heard == 3, "everyone who listens, once"); is(2, 8, 3, x);
    s.notify(ev3{x}, c);
    CHECK(heard == 4, "a context is left out where it is not wanted"); is(3, 8, 3, x);
    void_subject v; v.notify(ev1{x}); v.notify(ev1{x}, c);
    CHECK(heard == 4, "nobody listens");
    verif_reach("mixed");
}
struct Own { unsigned n; int sum; explicit Own() : n(0), sum(0) {} void on_notify(const ev1& e) { ++n; sum += e.data; log(n, 1, sum); } void on_notify(const ev2& e, int& c) { ++n; sum += e.data; c = sum; log(n, 2, sum); } };
extern "C" void owned()
{
    heard = 0;
    int x = verif_i16(), y = verif_i16(), z = verif_i16(), c = 0;
    Obs a(9);
    estd::experimental::layer0::subject<Own, Obs&> s((Own()), a);
    s.notify(ev1{x}); s.notify(ev1{y}); s.notify(ev2{z}, c);
    CHECK(heard == 6 && a.n == 3, "everyone, each time");
    is(0, 1, 1, x); is(2, 2, 1, x + y); is(4, 3, 2, x + y + z);
    is(1, 9, 1, x); is(3, 9, 1, y); is(5, 9, 2, z);
    CHECK(c == x + y + 2 * z, "an observer the subject holds keeps its state");
    verif_reach("owned");
}
extern "C" void made()
{
    heard = 0;
    Obs a(1), b(2);
    int x = verif_i32();
    auto s = estd::experimental::layer0::make_subject(a, b);
    s.notify(ev1{x});
    CHECK(heard == 2 && a.n == 1 && b.n == 1, "made from observers"); is(0, 1, 1, x); is(1, 2, 1, x);
    verif_reach("made");
}
extern "C" void proxies()
{
    heard = 0;
    int x = verif_i32(), y = verif_i32();
    typedef stateless_subject<Static<1>, Deaf<2> > S;
    observer_proxy<S, ev1, ev3> p;
    observer_abstract<ev1, ev3>& q = p;
    q.on_notify(ev1{x}); q.on_notify(ev3{y});
    CHECK(heard == 2, "passed on, once"); is(0, 1, 1, x); is(1, 2, 3, y);
    Obs a(4);
    typedef estd::experimental::layer0::subject<Obs&> T;
    T t(a); observer_proxy<T, ev1> r(t);
    observer_abstract<ev1>& u = r; u.on_notify(ev1{y});
    CHECK(heard == 3 && a.n == 1, "passed on, once"); is(2, 4, 1, y);
    verif_reach("proxies");
}
struct keep : estd::internal::impl::streambuf_base<estd::char_traits<char> >
{
    typedef char char_type;
    char b[8]; unsigned n, room;
    keep() : n(0), room(8) {}
    int_type sputc(char c) { if(n >= room) return -1; b[n++] = c; return (unsigned char)c; }
    estd::streamsize xsputn(const char* s, estd::streamsize k)
    {
        int i = 0;
        for(; i < 8 && i < k && n < room; ++i) b[n++] = s[i];
        return i;
    }
};
typedef estd::detail::streambuf<keep> sb;
typedef estd::detail::basic_ostream<sb> os;
extern "C" void out_buf()
{
    sb b; b.room = verif_upto(4);
    ostreambuf_iterator<sb> it(&b);
    CHECK(!it.failed(), "fresh");
    char c[4]; for(int i = 0; i < 4; ++i) { c[i] = (char)verif_u8(); verif_assume((unsigned char)c[i] != 0xFF); }
    for(unsigned i = 0; i < 4; ++i)
    {
        if(verif_bool()) { it = c[i]; ++it; } else if(verif_bool()) ++it = c[i]; else { it++; it = c[i]; }
        CHECK(it.failed() == (i >= b.room), "a write which did not fit is reported");
    }
    unsigned j = verif_below(4);
    CHECK(b.n == b.room && (j >= b.n || b.b[j] == c[j]), "written once each, in order");
    bool f = it.failed(); unsigned m = b.n;
    b.room = 8; it = 'x';
    CHECK(it.failed() == f && b.n == m + !f, "failed for good, and nothing written beyond the gap");
    ostreambuf_iterator<sb> none; CHECK(none.failed(), "no buffer, no success"); none = 'x'; CHECK(none.failed(), "no buffer, no success");
    verif_reach("out_buf");
}
extern "C" void out_stream()
{
    os o; estd::experimental::ostream_iterator<char, os> it(o);
    char c[3] = { (char)verif_u8(), (char)verif_u8(), (char)verif_u8() };
    for(int i = 0; i < 3; ++i) switch(verif_below(3))
    {
        case 0: *it = c[i]; ++it; break;
        case 1: *it++ = c[i]; break;
        default: it = c[i]; it++;
    }
    unsigned j = verif_below(3);
    CHECK(o.rdbuf()->n == 3 && o.rdbuf()->b[j] == c[j], "written once each, in order");
    os p; ostreambuf_iterator<sb> it2(p); CHECK(!it2.failed(), "fresh"); it2 = c[0]; it2 = c[1];
    CHECK(!it2.failed() && p.rdbuf()->n == 2 && p.rdbuf()->b[0] == c[0] && p.rdbuf()->b[1] == c[1], "written once each, in order");
    verif_reach("out_stream");
}
extern "C" void back_insert()
{
    estd::layer1::vector<uint16_t, 4> v;
    estd::back_insert_iterator<estd::layer1::vector<uint16_t, 4> > it(v);
    uint16_t a = verif_u16(), b = verif_u16();
    it = a; (it = b) = a;
    CHECK(v.size() == 3, "each is appended");
    uint16_t x = v[0], y = v[1], z = v[2];
    CHECK(x == a && y == b && z == a, "in order");
    verif_reach("back_insert");
}
extern "C" void evaporators()
{
    using namespace estd::internal;
    struct E : value_evaporator<int, true> { typedef value_evaporator<int, true> b; E(int v) : b(v) {} void set(int v) { b::value(v); } using b::value; };
    int x = verif_i32(), y = verif_i32();
    E e(x); CHECK(static_cast<const E&>(e).value() == x && !E::is_evaporated, "kept"); e.set(y); CHECK(static_cast<const E&>(e).value() == y, "changed");
    value_evaporator<int, false, int, 42> g(x); CHECK(g.value() == 42 && g.is_evaporated, "always the default");
    struct B { int v; }; struct Z {};
    struct_evaporator<B> sb_((B{x})); CHECK(sb_.value().v == x && !sb_.is_evaporated, "kept"); sb_.value().v = y;
    CHECK(static_cast<const struct_evaporator<B>&>(sb_).value().v == y, "changed");
    CHECK(struct_evaporator<Z>::is_evaporated, "nothing to keep");
    int r = x; reference_evaporator<int, true> rv(r); rv.value() = y; CHECK(r == y, "refers");
    reference_evaporator<int, false> rn(r); CHECK(rn.value() == 0, "a fresh value");
    verif_reach("evaporators");
}
extern "C" void providers()
{
    int x = verif_i32(), y = verif_i32();
    instance_provider<int> p(x); CHECK(p.value() == x, "kept"); p.value((const int&)y); CHECK(static_cast<const instance_provider<int>&>(p).value() == y, "changed");
    p.value() = x; CHECK(p.value() == x, "in place"); p.value((int&&)y); CHECK(p.value() == y, "moved in");
    static int g; g = x; CHECK((global_pointer_provider<int, &g>::value() == &g), "refers");
    verif_reach("providers");
}
extern "C" void raw_provider()
{
    struct C { uint16_t v; unsigned* n; C& operator=(const C& o) { v = o.v; ++*n; return *this; } };
    unsigned k = 0, l = 0; uint16_t x = verif_u16(), y = verif_u16();
    raw_instance_provider<uint16_t> p;
    p.value() = x; CHECK(p.value() == x, "kept"); p.value((const uint16_t&)y);
    CHECK(static_cast<const raw_instance_provider<uint16_t>&>(p).value() == y, "changed");
    p.value((uint16_t&&)x); CHECK(p.value() == x, "moved in");
    C c{x, &k}, d{y, &l};
    instance_from_pointer_provider<C> q(&c); q.value() = d;
    CHECK(c.v == y && k == 1 && q.value_ptr() == &c, "refers");
    q.value_ptr(&d); q.value().v = x; CHECK(d.v == x && c.v == y, "refers elsewhere");
    pointer_from_instance_provider<uint16_t> f(x); *f.value() = y; CHECK(*static_cast<const pointer_from_instance_provider<uint16_t>&>(f).value() == y, "points to its own");
    CHECK((temporary_provider<int, 7>::value() == 7), "always that");
    verif_reach("raw");
}
extern "C" void filtered()
{
    int16_t a[3] = { verif_i16(), verif_i16(), verif_i16() };
    int by = verif_i16();
    auto it = estd::experimental::make_filter_iterator([by](int16_t v) { return (int16_t)(v ^ by); }, (const int16_t*)a);
    CHECK(*it == (int16_t)(a[0] ^ by), "through the functor");
    auto old = it++;
    CHECK(*old == (int16_t)(a[0] ^ by) && *it == (int16_t)(a[1] ^ by), "one on, and where it was");
    ++it; CHECK(*it == (int16_t)(a[2] ^ by), "one on");
    verif_reach("filtered");
}
