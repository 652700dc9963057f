// functions, models, inline functions, reference wrappers, invoke and locks
//@ inline 1000
//@ h model_calls unwind=4
//@ h model_methods unwind=4
//@ h model_custom unwind=4
//@ h rebind unwind=4
//@ h opt_once unwind=4
//@ h thisify unwind=4
//@ h contextify unwind=4
//@ h inl unwind=4
//@ h dyn_calls unwind=4
//@ h dyn_lives unwind=4
//@ h dyn_copy unwind=4
//@ h dyn_assign unwind=4
//@ h dyn_source unwind=4
//@ h dyn_moveonly unwind=4
//@ h static_fn unwind=4
//@ h bound unwind=4
//@ h refwrap unwind=4
//@ h invokes unwind=4
//@ h comparers unwind=4
//@ h guard unwind=4
//@ h ulock unwind=4
//@ h ulock_steps unwind=7
#include "verif.h"
#include <estd/functional.h>
#include <estd/mutex.h>
using namespace estd;
static int num() { return (int)verif_u32(); }
// an order sensitive mixture without overflow
static unsigned mix(unsigned a, unsigned b) { return a * 3 + b; }
struct Obj
{
    unsigned v;
    unsigned go(unsigned a, unsigned b) { v = mix(mix(v, a), b); return v; }
    void add(unsigned a) { v += a; }
    unsigned see(unsigned a) const { return v ^ a; }
    unsigned with(unsigned a, Obj* p) { return a + p->v; }
};
template <template <class> class I> static void calls()
{
    typedef detail::v2::function<unsigned(unsigned, unsigned), I> F;
    unsigned s = verif_u32(), a = verif_u32(), b = verif_u32(), c = verif_u32(), d = verif_u32();
    auto m = F::make_model([s, n = 0u](unsigned x, unsigned y) mutable { n = mix(n, x); return mix(mix(s, n), y); });
    F f(&m); CHECK((bool)f && f.getm() == &m, "set");
    unsigned n = mix(0, a); CHECK(f(a, b) == mix(mix(s, n), b), "arguments in order, captured state");
    F g(f); n = mix(n, c); CHECK(g(c, d) == mix(mix(s, n), d), "a copy refers to the same model, whose state goes on");
    n = mix(n, b); CHECK(m(b * 1u, a * 1u) == mix(mix(s, n), a), "the model itself can be called");
    unsigned log = 0; typedef detail::v2::function<void(unsigned&, int*), I> V; int z = num(), z2 = z;
    auto mv = V::make_model([&log](unsigned& r, int* p) { log = mix(log, r); r += 5; *p ^= 0x55; });
    V v(&mv); unsigned r = a; v(r, &z); CHECK(log == a && r == a + 5 && z == (z2 ^ 0x55), "references and pointers reach the callable");
    F e; CHECK(!e, "empty"); F en(nullptr_t{}); CHECK(!en, "null");
}
extern "C" void model_calls() { calls<detail::impl::function_fnptr1>(); calls<detail::impl::function_fnptr2>(); calls<detail::impl::function_virtual>(); verif_reach("model_calls"); }
template <template <class> class I> static void methods()
{
    typedef I<unsigned(unsigned, unsigned)> T; unsigned v = verif_u32(), a = verif_u32(), b = verif_u32();
    Obj o { v }, p { verif_u32() }; unsigned pv = p.v;
    typename T::template method_model<Obj, &Obj::go> m(&o), q(&p); detail::v2::function<unsigned(unsigned, unsigned), I> f(&m);
    unsigned w = mix(mix(v, a), b);
    CHECK(f(a, b) == w && o.v == w && p.v == pv, "the method of that object, once");
    f = &q; CHECK(f(b, a) == mix(mix(pv, b), a) && o.v == w, "and of the other after rebinding");
    typedef I<void(unsigned)> U; typename U::template method_model<Obj, &Obj::add> mu(&o);
    detail::v2::function<void(unsigned), I> g(&mu); g(a); CHECK(o.v == w + a, "void method");
}
extern "C" void model_methods() { methods<detail::impl::function_fnptr1>(); methods<detail::impl::function_fnptr2>(); methods<detail::impl::function_virtual>(); verif_reach("model_methods"); }
extern "C" void model_custom()
{
    typedef detail::function<void(unsigned), detail::impl::function_virtual<void(unsigned)>> V;
    struct mv : V::model_base { unsigned n = 0; void operator()(unsigned v) override { n = mix(n, v); } } m;
    unsigned a = verif_u32(), b = verif_u32(); V f(&m); f(a); V g = f; g(b); CHECK(m.n == mix(mix(0, a), b), "virtual model");
    typedef detail::function<unsigned(unsigned), detail::impl::function_fnptr2<unsigned(unsigned)>> W;
    struct mw : W::model_base { unsigned n; mw(unsigned v) : W::model_base(&ex), n(v) {} static unsigned ex(void* t, unsigned v) { return ((mw*)t)->n - v; } } k(b), k2(a);
    W w(&k); CHECK(w(a) == b - a, "function pointer model"); w = &k2; CHECK(w(b) == a - b, "another");
    unsigned c = verif_u32(); auto l = [c](unsigned v) { return c ^ v; };
    auto im = internal::make_model<unsigned(unsigned)>(static_cast<decltype(l)&&>(l)); detail::function<unsigned(unsigned)> h(&im); CHECK(h(a) == (c ^ a), "internal make_model");
    verif_reach("model_custom");
}
extern "C" void rebind()
{
    typedef detail::function<unsigned(unsigned)> F; unsigned a = verif_u32(), n = 0, k = 0; bool first = verif_bool();
    auto m1 = F::make_model([&n](unsigned v) { ++n; return v + 1; }); auto m2 = F::make_model([&k](unsigned v) { ++k; return v - 1; });
    F f; CHECK(!f, "starts out empty"); if(first) f = &m1; else f = &m2;
    CHECK((bool)f && f(a) == (first ? a + 1 : a - 1) && n == (first ? 1 : 0) && k == (first ? 0 : 1), "the one chosen");
    F g(f); f = nullptr_t{}; CHECK(!f && g, "the copy stays"); f = first ? F(&m2) : F(&m1); CHECK(f(a) == (first ? a - 1 : a + 1), "rebound");
    const F c(g); F d; d = c; CHECK(d.getm() == g.getm(), "assignment");
    verif_reach("rebind");
}
static int alive, born;
struct Live
{
    unsigned v; static const unsigned magic = 0x5a5a0000; unsigned t;
    Live(unsigned v) : v(v), t(magic) { ++alive; ++born; }
    Live(const Live& o) : v(o.v), t(magic) { CHECK(o.t == magic, "copied from a living object"); ++alive; ++born; }
    Live(Live&& o) : v(o.v), t(magic) { CHECK(o.t == magic, "moved from a living object"); o.v = 0xdead; ++alive; ++born; }
    ~Live() { CHECK(t == magic, "destroyed once"); t = 0; --alive; }
    unsigned operator()(unsigned x) { CHECK(t == magic, "called while alive"); v = mix(v, x); return v; }
};
extern "C" void opt_once()
{
    unsigned a = verif_u32(), x = verif_u32(); alive = 0;
    typedef detail::v2::function<unsigned(unsigned), detail::impl::function_fnptr2_opt> F; typedef F::model<Live> M;
    union U { char c; M m; U() {} ~U() {} } u; { new (&u.m) M(Live(a)); } CHECK(alive == 1, "held");
    F f(&u.m); unsigned r = f(x); CHECK(r == mix(a, x) && alive == 0, "called, then destroyed");
    struct LV { Live l; unsigned* o; void operator()(unsigned q) { *o = l(q); } };
    typedef detail::v2::function<void(unsigned), detail::impl::function_fnptr2_opt> G; typedef G::model<LV> N;
    union W { char c; N m; W() {} ~W() {} } w; unsigned out = 0; { new (&w.m) N(LV { Live(a), &out }); } CHECK(alive == 1, "held");
    G g(&w.m); g(x); CHECK(out == mix(a, x) && alive == 0, "called, then destroyed");
    verif_reach("opt_once");
}
extern "C" void thisify()
{
    unsigned v = verif_u32(), a = verif_u32(), b = verif_u32(); Obj o { v };
    typedef internal::thisify_function<unsigned(unsigned, unsigned)> T;
    typedef internal::impl::method_model<unsigned(unsigned, unsigned), Obj, &Obj::go> M;
    union U { char c; M m; U() {} ~U() {} } u; new (&u.m) M(&o); T t(u.m); for(unsigned i = 0; i < 1; ++i) { Obj dummy { b }; new (&u.m) M(&dummy); }
    unsigned w = mix(mix(v, a), b); CHECK(t(a, b) == w && o.v == w, "holds a model of its own");
    union X { char c; T t; X() {} ~X() {} } x; new (&x.t) T(t); T k(x.t); { Obj d { a }; M md(&d); x.t.~T(); new (&x.t) T(md); }
    unsigned w2 = mix(mix(w, b), a); CHECK(k(b, a) == w2 && o.v == w2, "a copy is independent of its source");
    experimental::context_function<decltype(&Obj::add), &Obj::add> c(&o); c(a); CHECK(o.v == w2 + a, "context_function");
    verif_reach("thisify");
}
extern "C" void contextify()
{
    unsigned v = verif_u32(), a = verif_u32(), q = verif_u32();
    struct S { static unsigned f(unsigned a, unsigned* p) { *p = mix(*p, a); return *p; } static unsigned g(unsigned a, unsigned b, unsigned* p, unsigned k) { *p = mix(*p, mix(a, mix(b, k))); return *p; } };
    unsigned s = v; internal::contextify_function<unsigned(unsigned)>::model<unsigned*, &S::f> m(&s);
    detail::function<unsigned(unsigned), detail::impl::function_fnptr1<unsigned(unsigned)>> f(&m);
    CHECK(f(a) == mix(v, a) && s == mix(v, a), "the context is passed along"); unsigned n = s;
    CHECK(f(q) == mix(n, q) && s == mix(n, q), "every time");
    unsigned w = v; internal::contextify_function<unsigned(unsigned, unsigned), unsigned>::model<unsigned*, &S::g> m2(&w, q * 1u);
    detail::function<unsigned(unsigned, unsigned), detail::impl::function_fnptr1<unsigned(unsigned, unsigned)>> g(&m2);
    CHECK(g(a, v) == mix(v, mix(a, mix(v, q))), "arguments, then contexts");
    verif_reach("contextify");
}
extern "C" void inl()
{
    unsigned c = verif_u32(), a = verif_u32(), b = verif_u32();
    auto i = experimental::function<unsigned(unsigned)>::make_inline2([c, n = 0u](unsigned v) mutable { n += v; return mix(c, n); });
    CHECK(i(a) == mix(c, a) && i(b) == mix(c, a + b), "called in place, keeps its state");
    detail::function<unsigned(unsigned)> r(i); CHECK(r(b) == mix(c, a + b + b), "refers to it");
    typedef decltype(i) I; union U { char ch; I i; U() {} ~U() {} } u; new (&u.i) I(i); I k(u.i); I mv(static_cast<I&&>(u.i)); u.i.~I(); __builtin_memset(&u, 0, sizeof u);
    CHECK(k(a) == mix(c, a + b + b + a), "a copy has its own model"); CHECK(i(b) == mix(c, a + b + b + b), "and leaves the other alone"); CHECK(mv(b) == mix(c, a + b + b + b), "a moved one too");
    verif_reach("inl");
}
typedef experimental::function<unsigned(unsigned)> DF;
extern "C" void dyn_calls()
{
    unsigned c = verif_u32(), a = verif_u32(), b = verif_u32(); int n = 0;
    DF f = [c, &n](unsigned v) { ++n; return c - v; }; CHECK((bool)f && f(a) == c - a && n == 1, "called once");
    f = [c, &n](unsigned v) { n += 2; return c + v; }; CHECK(f(b) == c + b && n == 3, "replaced");
    experimental::function<void(unsigned&, unsigned, unsigned)> g([c](unsigned& o, unsigned x, unsigned y) { o = mix(mix(c, x), y); });
    unsigned o = 0; g(o, a, b); CHECK(o == mix(mix(c, a), b), "order"); detail::function<void(unsigned&, unsigned, unsigned)> base(g); base(o, b, a); CHECK(o == mix(mix(c, b), a), "through the base");
    struct Fn { static unsigned twice(unsigned v) { return v * 2; } }; DF h(&Fn::twice); CHECK(h(a) == a * 2, "function pointer");
    verif_reach("dyn_calls");
}
extern "C" void dyn_lives()
{
    alive = 0; unsigned a = verif_u32(), b = verif_u32(), x = verif_u32(); bool mv = verif_bool(), re = verif_bool();
    {
        DF f { Live(a) }; CHECK(alive == 1, "one model"); unsigned e = mix(a, x); CHECK(f(x) == e, "state");
        if(mv)
        {
            DF g(static_cast<DF&&>(f)); CHECK(alive == 1 && !f && g, "moved, not copied"); e = mix(e, x); CHECK(g(x) == e, "state moved along");
            if(re) { f = Live(b); CHECK(alive == 2 && f(x) == mix(b, x), "usable again"); CHECK(g(x) == mix(e, x), "apart"); }
        }
        else if(re) { f = Live(b); CHECK(alive == 1 && f(x) == mix(b, x), "the old model is gone"); }
    }
    CHECK(alive == 0, "all destroyed");
    verif_reach("dyn_lives");
}
extern "C" void dyn_copy()
{
    alive = 0; unsigned a = verif_u32(), x = verif_u32(), y = verif_u32(); bool cst = verif_bool();
    {
        DF f { Live(a) }; unsigned e = mix(a, x); f(x);
        { const DF& cf = f; union U { char c; DF d; U() {} ~U() {} } u; if(cst) new (&u.d) DF(cf); else new (&u.d) DF(f);
          CHECK(alive == 2 && (bool)f && (bool)u.d, "two functions, two models"); CHECK(u.d(y) == mix(e, y), "the copy starts where the source stands"); CHECK(f(x) == mix(e, x), "the source goes on by itself"); u.d.~DF(); }
        CHECK(alive == 1, "the copy took its model along"); e = mix(e, x); CHECK(f(y) == mix(e, y), "the source still works");
        DF m(static_cast<DF&&>(f)); DF k(f); CHECK(!k && alive == 1, "a copy of an empty function is empty");
    }
    CHECK(alive == 0, "all destroyed once"); verif_reach("dyn_copy");
}
extern "C" void dyn_assign()
{
    alive = 0; unsigned a = verif_u32(), b = verif_u32(), x = verif_u32(); unsigned how = verif_below(4);
    {
        DF f { Live(a) }, g { Live(b) }; const DF& cg = g;
        if(how == 0) { f = g; CHECK(alive == 2 && f(x) == mix(b, x) && g(x) == mix(b, x), "assigned, the source keeps its own"); }
        else if(how == 1) { f = cg; CHECK(alive == 2 && f(x) == mix(b, x) && g(x) == mix(b, x), "assigned from a constant"); }
        else if(how == 2) { f = static_cast<DF&&>(g); CHECK(alive == 1 && f(x) == mix(b, x) && !g, "move assigned"); }
        else { DF& ff = f; f = ff; CHECK(alive == 2 && f(x) == mix(a, x), "self assignment"); }
    }
    CHECK(alive == 0, "all destroyed once"); verif_reach("dyn_assign");
}
extern "C" void dyn_source()
{
    alive = 0; unsigned a = verif_u32(), b = verif_u32(), x = verif_u32();
    {
        Live l(a), k(b); DF f(l); CHECK(l.v == a && alive == 3, "a callable that is not moved stays with the caller"); CHECK(f(x) == mix(a, x) && l.v == a, "the function has its own");
        f = k; CHECK(k.v == b && f(x) == mix(b, x) && k.v == b && alive == 3, "same when assigned"); const Live cl(a); DF h(cl); CHECK(h(x) == mix(a, x) && cl.v == a, "constant callable");
        DF m(static_cast<Live&&>(l)); CHECK(m(x) == mix(a, x), "moved in");
    }
    CHECK(alive == 0, "all destroyed once"); verif_reach("dyn_source");
}
struct Only { unsigned v; Only(unsigned v) : v(v) {} Only(Only&& o) : v(o.v) { o.v = 0; } Only(const Only&) = delete; unsigned operator()(unsigned x) { return v ^ x; } };
extern "C" void dyn_moveonly()
{
    unsigned a = verif_u32(), x = verif_u32(); DF f { Only(a) }; CHECK(f(x) == (a ^ x), "move only callable");
    DF g(static_cast<DF&&>(f)); CHECK(g(x) == (a ^ x) && !f, "moves"); verif_reach("dyn_moveonly");
}
extern "C" void static_fn()
{
    unsigned c = verif_u32(), a = verif_u32(); unsigned s = 0;
    experimental::static_function<unsigned(unsigned)> f([&s, c](unsigned v) { s += v; return s ^ c; });
    CHECK(f(a) == (a ^ c) && s == a, "called"); detail::function<unsigned(unsigned)> g(f); CHECK(g(a) == ((a + a) ^ c), "state goes on"); verif_reach("static_fn");
}
extern "C" void bound()
{
    unsigned a = verif_u32(), b = verif_u32(), n = 0;
    auto k = obsolete::bind([&n](unsigned x, unsigned y) { ++n; return mix(x, y); }, a + 0u, b + 0u);
    CHECK(n == 0, "nothing is called yet"); CHECK(k() == mix(a, b) && n == 1, "bound arguments in order"); CHECK(k() == mix(a, b) && n == 2, "again");
    unsigned r = a; auto j = obsolete::bind([](unsigned& x) { x += 3; return x; }, r); CHECK(j() == a + 3 && r == a + 3, "a bound variable is referred to");
    verif_reach("bound");
}
extern "C" void refwrap()
{
    int x = num(), y = num(), v = num(), x0 = x, y0 = y; auto a = ref(x), b = ref(y); CHECK(&a.get() == &x && &b.get() == &y, "refers");
    a.get() = v; CHECK(x == v && (int&)a == v, "writes through"); a = b; CHECK(&a.get() == &y && x == v && y == y0, "assignment rebinds, writes nothing");
    reference_wrapper<int> c(a); CHECK(&c.get() == &y, "copy"); const int k = x0; auto d = cref(k); CHECK(&d.get() == &k && d.get() == x0, "cref"); auto e = cref(x); CHECK(&e.get() == &x, "cref of a variable");
    verif_reach("refwrap");
}
struct D2 : Obj { unsigned w; };
extern "C" void invokes()
{
    unsigned v = verif_u32(), a = verif_u32(), b = verif_u32(); Obj o { v }; const Obj co { v }; D2 d; d.v = a; d.w = b;
    CHECK(invoke([v](unsigned x, unsigned y) { return mix(mix(v, x), y); }, a, b) == mix(mix(v, a), b), "callable");
    CHECK(invoke(&Obj::see, o, a) == (v ^ a) && invoke(&Obj::see, &o, a) == (v ^ a) && invoke(&Obj::see, co, a) == (v ^ a), "member function");
    CHECK(invoke(&Obj::see, d, b) == (a ^ b) && &invoke(&Obj::v, d) == &d.v, "of a derived class");
    CHECK(&invoke(&Obj::v, o) == &o.v && &invoke(&Obj::v, &o) == &o.v && invoke(&Obj::v, co) == v, "member object"); invoke(&Obj::v, o) = b; CHECK(o.v == b, "assignable");
    CHECK(invoke(&Obj::see, ref(o), b) == (o.v ^ b) && &invoke(&Obj::v, ref(o)) == &o.v, "through a reference wrapper");
    invoke(&Obj::add, o, a); CHECK(o.v == a + b, "effects reach the object"); invoke(&Obj::add, &o, a); CHECK(o.v == a + b + a, "and through the pointer");
    verif_reach("invokes");
}
template <class T> static void cmps(T a, T b)
{
    CHECK(less<T>()(a, b) == (a < b) && greater<T>()(a, b) == (a > b), "less and greater");
    CHECK(equal_to<T>()(a, b) == (a == b) && not_equal_to<T>()(a, b) == (a != b), "equality");
    CHECK(equal_to<>()(a, b) == (a == b) && not_equal_to<>()(a, b) == (a != b), "transparent");
    CHECK(!less<T>()(a, a) && !greater<T>()(a, a) && (less<T>()(a, b) ? 1 : 0) + (greater<T>()(a, b) ? 1 : 0) + (equal_to<T>()(a, b) ? 1 : 0) == 1, "trichotomy");
}
extern "C" void comparers() { cmps<int>(num(), num()); cmps<uint8_t>(verif_u8(), verif_u8()); cmps<uint64_t>(verif_u64(), verif_u64()); cmps<int16_t>(verif_i16(), verif_i16()); int v = num(); long w = verif_i32(); CHECK(equal_to<>()(v, w) == (v == w), "mixed types"); verif_reach("comparers"); }
struct Mtx
{
    int held = 0, locks = 0, unlocks = 0; bool taken = false; // taken: by another thread
    void lock() { CHECK(!held, "locked twice"); held = 1; ++locks; }
    void unlock() { CHECK(held, "unlocked while not locked"); held = 0; ++unlocks; }
    bool try_lock() { if(taken) return false; lock(); return true; }
    template <class R, class P> bool try_lock_for(const chrono::duration<R, P>& d) { if(taken && d.count() < 10) return false; lock(); return true; }
};
extern "C" void guard()
{
    Mtx m; int n = 0; { lock_guard<Mtx> g(m); n = m.held; CHECK(m.locks == 1 && m.unlocks == 0, "held"); } CHECK(n == 1 && !m.held && m.unlocks == 1, "released");
    { lock_guard<Mtx> g(m); } CHECK(m.locks == 2 && m.unlocks == 2, "again"); verif_reach("guard");
}
extern "C" void ulock()
{
    Mtx m; m.taken = verif_bool(); unsigned how = verif_below(6); unsigned t = verif_below(20); bool got = false;
    if(how == 0) { unique_lock<Mtx> l(m); got = true; CHECK(m.held && l.mutex() == &m && l.owns_lock(), "locked"); }
    if(how == 1) { unique_lock<Mtx> l(m, defer_lock_t()); CHECK(!m.held && !l.owns_lock() && l.mutex() == &m, "deferred"); if(verif_bool()) { l.lock(); got = true; CHECK(m.held && l.owns_lock(), "locked later"); } }
    if(how == 2) { m.lock(); unique_lock<Mtx> l(m, adopt_lock_t()); got = true; CHECK(m.locks == 1 && l.owns_lock(), "adopted, not locked again"); }
    if(how == 3) { unique_lock<Mtx> l(m, try_to_lock_t()); got = !m.taken; CHECK(m.held == got && l.owns_lock() == got, "owned if it could be had"); }
    if(how == 4) { unique_lock<Mtx> l(m, chrono::milliseconds(t)); got = !m.taken || t >= 10; CHECK(m.held == got && l.owns_lock() == got, "owned if it could be had in time"); }
    if(how == 5) { unique_lock<Mtx> l(m); Mtx* p = l.release(); got = true; CHECK(p == &m && m.held && !l.owns_lock() && l.mutex() == nullptr, "released to the caller"); }
    if(how == 5) { CHECK(m.held && m.unlocks == 0, "no longer unlocked by the lock"); }
    else { CHECK(!m.held, "not held afterwards"); CHECK(m.locks == got && m.unlocks == got, "unlocked once if owned"); }
    { unique_lock<Mtx> none; CHECK(!none.owns_lock() && none.mutex() == nullptr, "none"); }
    verif_reach("ulock");
}
extern "C" void ulock_steps()
{
    Mtx m; bool own = false;
    { unique_lock<Mtx> l(m, defer_lock_t());
      for(int i = 0; i < 5; ++i) { m.taken = verif_bool(); if(own) { l.unlock(); own = false; } else if(verif_bool()) { l.lock(); own = true; } else { unsigned t = verif_below(20); own = l.try_lock_for(chrono::milliseconds(t)); CHECK(own == (!m.taken || t >= 10), "as the mutex says"); }
        CHECK(l.owns_lock() == own && (m.held != 0) == own, "ownership follows the mutex"); } }
    CHECK(!m.held && m.locks == m.unlocks, "left unlocked"); verif_reach("ulock_steps");
}
