// memory pools, shared and linked references: who owns what, and when it is destroyed
//@ inline 1000
//@ h pool_history unwind=9
//@ h pool_small unwind=9
//@ h pool_typed unwind=9
//@ h shared_inline unwind=7
//@ h shared_extern unwind=7
//@ h shared_default unwind=7
//@ h linked unwind=9
#include "verif.h"
#include <estd/memory.h>
#include <estd/internal/memory/pool.h>
#include <estd/internal/linked_ref.h>
using namespace estd;
static int born, died; static const void* last_dead;
#ifdef VERIF_THOROUGH
enum : unsigned { STEPS = 6, W = 4 };
#else
enum : unsigned { STEPS = 4, W = 3 };
#endif
struct Obj
{
    unsigned char tag; int v;
    explicit Obj(int v) : tag(0xA5), v(v) { ++born; }
    Obj(const Obj&) = delete;
    ~Obj() { CHECK(tag == 0xA5, "destroyed only while alive"); tag = 0; ++died; last_dead = this; }
};
// blocks handed out are distinct, inside the pool, keep their content, and come back
template <unsigned SZ> static void pool_h()
{
    internal::memory::pool<SZ, 3> p;
    void* b[3] = {nullptr, nullptr, nullptr}; unsigned char f[3]; unsigned live = 0;
    for(unsigned s = 0; s < STEPS + 1; ++s)
    {
        unsigned i = verif_below(3);
        if(verif_bool())
        {
            verif_assume(b[i] == nullptr);
            b[i] = p.alloc(); ++live;
            CHECK(b[i] != nullptr, "a block while there is one");
            int h = p.to_handle(b[i]); CHECK(h >= 0 && h < 3 && p.from_handle((int8_t)h) == b[i], "handle round trip");
            for(unsigned j = 0; j < 3; ++j) if(j != i && b[j]) CHECK(p.to_handle(b[j]) != h, "no block is handed out twice");
            f[i] = verif_u8(); for(unsigned k = 0; k < SZ; ++k) ((unsigned char*)b[i])[k] = f[i];
        }
        else { verif_assume(b[i] != nullptr); p.free(b[i]); b[i] = nullptr; --live; }
        CHECK(p.available_blocks() == 3 - live && p.full() == (live == 3), "count of free blocks");
        if(live == 3) CHECK(p.alloc() == nullptr, "none left");
        unsigned j = verif_below(3), k = verif_below(SZ); if(b[j]) CHECK(((unsigned char*)b[j])[k] == f[j], "live blocks keep their content");
    }
    verif_reach("pool");
}
extern "C" void pool_history() { pool_h<8>(); }
extern "C" void pool_small() { pool_h<3>(); }
extern "C" void pool_typed()
{
    typedef internal::memory::typed_pool<Obj, 3> P;
    P p; Obj* o[3] = {nullptr, nullptr, nullptr}; int v[3]; int live = 0, made = 0; born = died = 0;
    for(unsigned s = 0; s < STEPS; ++s)
    {
        unsigned i = verif_below(3);
        if(verif_bool()) { verif_assume(!o[i]); v[i] = (int)verif_u8(); o[i] = p.emplace(v[i]); ++live; ++made; CHECK(o[i] != nullptr, "emplace"); }
        else { verif_assume(o[i] != nullptr); p.erase(o[i]); CHECK(last_dead == o[i], "destroys that one"); o[i] = nullptr; --live; }
        CHECK(born == made && died == made - live && (int)p.available_blocks() == 3 - live, "built and destroyed once");
        for(unsigned j = 0; j < 3; ++j) if(o[j]) { CHECK(o[j]->v == v[j] && o[j]->tag == 0xA5, "content"); for(unsigned k = 0; k < j; ++k) CHECK(o[k] != o[j], "distinct"); }
        if(live == 3) { CHECK(p.emplace(1) == nullptr && born == made, "full: nothing built"); }
    }
    verif_reach("typed");
}
// owners: the master (0) and three plain shared_ptr; everyone owns the one object or nothing
template <class MASTER, bool again> static void history(MASTER& m, Obj* o)
{
    typedef layer3::shared_ptr<Obj> S;
    S a(m), b(m), c(m);
    bool own[4] = {true, true, true, true}; int lives = 1;
    for(unsigned s = 0; s < STEPS; ++s)
    {
        unsigned op = verif_below(9);
        if(op == 0) { m.reset(); own[0] = false; }
        else if(op == 1) { a.reset(); own[1] = false; }
        else if(op == 2) { a = b; own[1] = own[2]; }
        else if(op == 3) { b = a; own[2] = own[1]; }
        else if(op == 4) { a = m; own[1] = own[0]; }
        else if(op == 5) { a = a; }
        else if(op == 6) { a.swap(c); bool t = own[1]; own[1] = own[3]; own[3] = t; }
        else if(op == 7) { S t(a); CHECK((t.get() != nullptr) == own[1], "a copy owns what its source owns"); }
        else { S t(static_cast<S&&>(c)); CHECK(t.get() == (own[3] ? o : nullptr) && c.get() == nullptr, "moved"); CHECK((died == lives) == false || !(own[0] || own[1] || own[2] || own[3]), "alive during the move"); own[3] = false; }
        unsigned n = own[0] + own[1] + own[2] + own[3];
        CHECK(born == lives && died == lives - (n > 0), "destroyed exactly when the last owner lets go");
        CHECK(a.get() == (own[1] ? o : nullptr) && b.get() == (own[2] ? o : nullptr) && c.get() == (own[3] ? o : nullptr), "owners point at it, others at nothing");
        CHECK(a.use_count() == (own[1] ? n : 0) && m.use_count() == (own[0] ? n : 0), "use_count");
        if(own[1]) CHECK(a->v == o->v && &*a == o, "access");
    }
    if(verif_bool()) { m.reset(); a.reset(); b.reset(); c.reset(); } else { c.reset(); a.reset(); m.reset(); b.reset(); }
    CHECK(!a.get() && !b.get() && !c.get() && a.use_count() == 0 && b.use_count() == 0 && c.use_count() == 0 && m.use_count() == 0, "after reset an owner holds nothing");
    CHECK(born == lives && died == lives, "nothing left behind");
    verif_reach("shared");
}
extern "C" void shared_inline() { born = died = 0; layer1::shared_ptr<Obj> m; CHECK(m.use_count() == 0, "nothing yet"); m.construct(7); CHECK(m->v == 7, "built"); history<layer1::shared_ptr<Obj>, true>(m, m.get()); }
static int deleted;
static void del(Obj* o) { ++deleted; o->~Obj(); }
extern "C" void shared_extern()
{
    born = died = deleted = 0; alignas(Obj) unsigned char raw[sizeof(Obj)];
    typedef void (*D)(Obj*);
    Obj* o = new (raw) Obj((int)verif_u8()); layer2::shared_ptr<Obj, D> m(o, (D)del);
    history<layer2::shared_ptr<Obj, D>, false>(m, o);
    CHECK(deleted == 1, "the deleter ran once");
}
extern "C" void shared_default()
{
    born = died = 0; alignas(Obj) unsigned char raw[sizeof(Obj)];
    Obj* o = new (raw) Obj((int)verif_u8());
    { layer2::shared_ptr<Obj> m(o); layer3::shared_ptr<Obj> a(m); layer3::shared_ptr<Obj> b(a);
      if(verif_bool()) m.reset(); if(verif_bool()) a.reset(); if(verif_bool()) { b = a; } CHECK(died == (m.use_count() == 0 && a.use_count() == 0 && b.use_count() == 0), "destroyed with the last owner"); verif_assume(b.use_count() || m.use_count() || died); if(m.use_count()) { a.reset(); b.reset(); } }
    verif_reach("default");
}
// references linked in a ring: the value is released once, with the last reference
static int released; static int rel_value;
struct LT { static bool null(int v) { return v == -1; } static void destruct(int v) { ++released; rel_value = v; } };
typedef internal::linked_ref<int, LT> R;
extern "C" void linked()
{
    released = 0; int v = (int)verif_u8();
    alignas(R) unsigned char raw[W][sizeof(R)]; bool live[W] = {true}, empty[W] = {false};
    R* r[W]; for(unsigned i = 0; i < W; ++i) r[i] = (R*)raw[i];
    new (raw[0]) R(v);
    unsigned n = 1;
    for(unsigned s = 0; s < STEPS; ++s)
    {
        unsigned i = verif_below(W), j = verif_below(W), op = verif_below(3);
        if(op == 0) { verif_assume(live[i] && !empty[i] && !live[j]); new (raw[j]) R((const R&)*r[i]); live[j] = true; empty[j] = false; ++n; }
        else if(op == 1) { verif_assume(live[i] && !empty[i] && !live[j]); new (raw[j]) R(static_cast<R&&>(*r[i])); live[j] = true; empty[j] = false; empty[i] = true; CHECK(r[i]->next() == nullptr, "a moved-from reference is unlinked"); }
        else { verif_assume(live[i]); r[i]->~R(); live[i] = false; if(!empty[i]) --n; }
        CHECK(released == (n == 0) && (n || rel_value == v), "released exactly with the last reference");
        for(unsigned k = 0; k < W; ++k) if(live[k] && !empty[k]) CHECK(r[k]->count_shared() == (int)n, "count");
        if(n == 0) break;
    }
    verif_reach("linked");
}
