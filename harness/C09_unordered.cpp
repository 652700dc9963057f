// unordered maps and sets against a reference map, after arbitrary operation histories
//@ inline 1000
//@ h um4_key unwind=7 cost=3
//@ h um4_it unwind=7 cost=3
//@ h um4_gc unwind=7 cost=3
//@ h um4_reuse_key unwind=7 cost=3
//@ h um4_reuse_it unwind=7 cost=3
//@ h um4_reuse_gc unwind=7 cost=3
//@ h um4_two unwind=7 cost=3
//@ h um4_clear unwind=7
//@ h um4_dup unwind=7 cost=2
//@ h um4_access unwind=7 cost=2
//@ h um4_eq unwind=7
//@ h um8_over unwind=14 cost=2
//@ h um_wide unwind=73 cost=2 opt=--max-field-sensitivity-array-size,512
//@ h us4_hist unwind=7 cost=3
//@ h um4_life unwind=7 cost=2
//@ h um4_life_gc unwind=7 cost=2
//@ h um4_erase_if unwind=7 cost=2
//@ h us4_erase unwind=7
//@ h us_hist unwind=10 cost=3
//@ h us_ten unwind=12 cost=2
//@ h um2_hist unwind=10 cost=2 tier=thorough timeout=2000
//@ h um4_hist_key unwind=7 cost=9 tier=thorough timeout=3000
//@ h um4_hist_gc unwind=7 cost=9 tier=thorough timeout=3000
//@ h um8_hist unwind=10 cost=9 tier=thorough timeout=3000
//@ h us_hist8 unwind=10 cost=9 tier=thorough timeout=3000
#include "verif.h"
#include <estd/unordered_map.h>
#include <estd/unordered_set.h>
typedef uint8_t Key; typedef uint16_t Val;
static const unsigned K = 5;                          // keys 1..K
struct Ref { bool in[K + 1]; Val v[K + 1]; unsigned n; Ref() : n(0) { for(unsigned i = 0; i <= K; ++i) { in[i] = false; v[i] = 0; } } };
template <class M> static void agree(M& m, const Ref& r)
{
    const M& c = m;
    CHECK(m.size() == r.n, "size"); CHECK(m.empty() == (r.n == 0), "empty");
    unsigned k = verif_upto(K);                        // any probe key, the null key included
    CHECK(c.contains((Key)k) == r.in[k], "contains"); CHECK(c.count((Key)k) == (r.in[k] ? 1 : 0), "count");
    auto i = c.find((Key)k); CHECK((i == c.cend()) == !r.in[k], "find");
    if(r.in[k]) { CHECK(i->first == (Key)k && i->second == r.v[k], "found entry"); auto j = m.find((Key)k); CHECK(j->second == r.v[k], "found entry, mutable"); }
}
template <class M> static void walk(M& m, const Ref& r, unsigned slots)
{
    unsigned n = 0, seen = 0; unsigned k = 1 + verif_below(K);
    auto e = m.end();
    for(auto i = m.begin(); i != e; ++i) { if(n > slots) break; ++n; if(i->first == (Key)k) ++seen; }
    CHECK(n == r.n, "iteration visits every entry once"); CHECK(seen == (r.in[k] ? 1 : 0), "iteration visits the key");
}
template <class M> static void ins(M& m, Ref& r, unsigned& most)
{
    Key k = (Key)verif_upto(K); Val v = verif_u16();
    auto p = m.insert({k, v});
    if(k == 0 || r.in[k]) CHECK(!p.second, "no second entry for a key");
    if(k == 0) return;
    if(r.in[k]) { CHECK(p.first->first == k && p.first->second == r.v[k], "points at the existing entry"); return; }
    if(most < M::bucket_depth) CHECK(p.second, "room for an entry");
    if(p.second) { CHECK(p.first->first == k && p.first->second == v, "points at the new entry"); r.in[k] = true; r.v[k] = v; ++r.n; if(r.n > most) most = r.n; }
}
template <unsigned how, class M> static void del(M& m, Ref& r)
{
    Key k = (Key)verif_upto(K);
    if(how == 0 || !r.in[k]) CHECK(m.erase(k) == (r.in[k] ? 1 : 0), "erase by key");
    else if(how == 1) m.erase(m.find(k));
    else m.erase_and_gc(m.find(k));
    if(r.in[k]) { r.in[k] = false; --r.n; }
}
typedef estd::layer1::unordered_map<Key, Val, 8> M8;
typedef estd::layer1::unordered_map<Key, Val, 4> M4;      // one bucket: every key collides
template <class M, unsigned H, unsigned A, unsigned B, unsigned C> static void hist()
{
    M m; Ref r; unsigned most = 0;
    for(unsigned i = 0; i < A; ++i) ins(m, r, most);
    for(unsigned i = 0; i < B; ++i) del<H>(m, r);
    for(unsigned i = 0; i < C; ++i) ins(m, r, most);
    agree(m, r); walk(m, r, m.max_size());
    if(r.n == A + C - B && A + C > B) verif_reach("entries left");
}
extern "C" void um4_key() { hist<M4, 0, 4, 1, 0>(); }
extern "C" void um4_it() { hist<M4, 1, 3, 1, 0>(); }
extern "C" void um4_gc() { hist<M4, 2, 4, 1, 0>(); }
extern "C" void um4_reuse_key() { hist<M4, 0, 3, 1, 1>(); }
extern "C" void um4_reuse_it() { hist<M4, 1, 3, 1, 1>(); }
extern "C" void um4_reuse_gc() { hist<M4, 2, 3, 1, 1>(); }
extern "C" void um4_two() { hist<M4, 0, 3, 2, 1>(); }
extern "C" void um4_hist_key() { hist<M4, 0, 4, 2, 2>(); }
extern "C" void um4_hist_gc() { hist<M4, 2, 4, 2, 2>(); }
extern "C" void um8_hist() { hist<M8, 0, 5, 2, 2>(); }
extern "C" void um4_clear()
{
    M4 m; Ref r; unsigned most = 0; ins(m, r, most); ins(m, r, most); del<0>(m, r); m.clear(); Ref z; unsigned q = 0; agree(m, z); ins(m, z, q); agree(m, z);
    verif_reach("cleared");
}
// duplicates allowed on request: counted, and removed one by one
extern "C" void um4_dup()
{
    M4 m; unsigned n[K + 1] = { 0 }; unsigned tot = 0;
    for(unsigned i = 0; i < 4; ++i) { Key k = 1 + (Key)verif_below(K); auto p = m.insert({k, (Val)i}, true); CHECK(p.second, "room"); ++n[k]; ++tot; }
    for(unsigned i = 0; i < 2; ++i) { Key k = 1 + (Key)verif_below(K); if(verif_bool() || !n[k]) CHECK(m.erase(k) == (n[k] ? 1 : 0), "erase one"); else m.erase_and_gc(m.find(k)); if(n[k]) { --n[k]; --tot; } }
    unsigned k = 1 + verif_below(K); CHECK(m.count((Key)k) == n[k], "count"); CHECK(m.contains((Key)k) == (n[k] != 0), "contains"); CHECK(m.size() == tot, "size");
    if(n[k] == 2) verif_reach("two");
}
// more slots than fit a small marker: an erased slot in a high bucket
extern "C" void um_wide()
{
    estd::layer1::unordered_map<Key, Val, 72> m; Key c[3] = { 17, 35, 53 };
    Val v[3]; for(int i = 0; i < 3; ++i) { v[i] = verif_u16(); CHECK(m.insert({c[i], v[i]}).second, "room"); }
    m.erase(c[0]); CHECK(!m.contains(c[0]), "erased");
    for(int i = 1; i < 3; ++i) { CHECK(m.contains(c[i]), "others kept"); CHECK(m.find(c[i])->second == v[i], "value"); CHECK(!m.insert({c[i], 9}).second, "no second entry"); }
    if(m.bucket(c[0]) == m.bucket(c[1]) && m.bucket(c[1]) == m.bucket(c[2]) && m.bucket(c[0]) > 64) verif_reach("one high bucket");
}
// a bucket that outgrew its slots into the next bucket's, with erasures and insertions on both sides
extern "C" void um8_over()
{
    M8 m; static const Key even[6] = { 2, 4, 6, 8, 10, 12 }; bool in[14] = { false };
    for(unsigned i = 0; i < 6; ++i) { CHECK(m.insert({even[i], even[i]}).second, "room behind the bucket"); in[even[i]] = true; }
    unsigned e = 3 + verif_below(3); for(unsigned i = 3; i < 6; ++i) if(i == e) { CHECK(m.erase(even[i]) == 1, "erase"); in[even[i]] = false; }
    in[1] = m.insert({1, 1}).second;
    Key q = (Key)verif_upto(13); CHECK(m.contains(q) == in[q], "contains"); if(in[q]) CHECK(m.find(q)->second == q, "value");
    unsigned tot = 0; for(int i = 1; i < 14; ++i) tot += in[i];
    CHECK(m.size() == tot, "size"); if(e == 4) verif_reach("overflow");
}
extern "C" void um4_access()
{
    M4 m; Ref r; unsigned most = 0; ins(m, r, most); ins(m, r, most);
    Key k = 1 + (Key)verif_below(K); Val v = verif_u16(); unsigned how = verif_below(5);
    bool was = r.in[k];
    if(how == 0) { m[k] = v; r.v[k] = v; }
    else if(how == 1) { auto p = m.insert_or_assign(k, v); CHECK(p.first->first == k && p.first->second == v, "points at the entry"); CHECK(p.second == !was, "says whether it inserted"); r.v[k] = v; }
    else if(how == 2) { auto p = m.try_emplace(k, v); CHECK(p.second == !was, "inserted only if absent"); if(!was) r.v[k] = v; CHECK(p.first->second == r.v[k], "entry"); }
    else if(how == 4) { auto p = m.emplace(estd::piecewise_construct_t{}, estd::forward_as_tuple(k), estd::forward_as_tuple(v)); CHECK(p.second == !was, "inserted only if absent"); if(!was) r.v[k] = v; CHECK(p.first->second == r.v[k], "entry"); }
    else { auto p = m.emplace(k, v); CHECK(p.second == !was, "inserted only if absent"); if(!was) r.v[k] = v; CHECK(p.first->second == r.v[k], "entry"); }
    if(!was) { r.in[k] = true; ++r.n; }
    agree(m, r); CHECK(m[k] == r.v[k], "operator[]");
    unsigned n = 0; for(auto i = m.begin(m.bucket(k)); i != m.end(m.bucket(k)) && n < 8; ++i) { CHECK(m.bucket(i->first) == m.bucket(k), "bucket holds its own keys"); ++n; }
    CHECK(n == m.bucket_size(m.bucket(k)), "bucket_size");
    unsigned w = 0; for(unsigned j = 1; j <= K; ++j) if(r.in[j] && m.bucket((Key)j) == m.bucket(k)) ++w;
    CHECK(n == w, "bucket iteration visits every entry of the bucket");
    if(r.n == 2) verif_reach("two"); if(was) verif_reach("present");
}
extern "C" void um4_eq()
{
    M4 a, b; Ref x, y; unsigned q = 0, w = 0; ins(a, x, q); ins(a, x, q); ins(b, y, w); ins(b, y, w);
    bool e = x.n == y.n; for(unsigned i = 1; i <= K; ++i) if(x.in[i] != y.in[i]) e = false;
    CHECK((a == b) == e, "equal exactly for equal keys"); if(e && x.n == 2) verif_reach("equal");
}
template <class S, unsigned A, unsigned B, unsigned C> static void shist(unsigned slots)
{
    S s; bool in[K + 1] = { false }; unsigned n = 0, most = 0;
    for(unsigned i = 0; i < A + B + C; ++i)
    {
        Key k = (Key)verif_upto(K);
        if(i < A || i >= A + B)
        {
            auto p = s.insert(k); if(k == 0 || in[k]) CHECK(!p.second, "no second entry");
            else { if(most < S::bucket_depth && slots % 4 == 0) CHECK(p.second, "room"); if(p.second) { CHECK(*p.first == k, "points at the entry"); in[k] = true; ++n; if(n > most) most = n; } }
        }
        else { CHECK(s.erase(k) == (in[k] ? 1 : 0), "erase"); if(in[k]) { in[k] = false; --n; } }
    }
    CHECK(s.size() == n && s.empty() == (n == 0), "size");
    Key k = (Key)verif_upto(K); CHECK(s.contains(k) == in[k], "contains"); CHECK(s.count(k) == (in[k] ? 1 : 0), "count");
    unsigned v = 0, hit = 0; for(auto i = s.begin(); i != s.end(); ++i) { if(v > slots) break; ++v; if(*i == k) ++hit; }
    CHECK(v == n && hit == (in[k] ? 1 : 0), "iteration"); if(n == A) verif_reach("some");
}
extern "C" void us_hist() { shist<estd::layer1::unordered_set<Key, 8>, 3, 1, 1>(8); }
extern "C" void us_hist8() { shist<estd::layer1::unordered_set<Key, 8>, 5, 2, 2>(8); }
extern "C" void us_ten() { shist<estd::layer1::unordered_set<Key, 10>, 3, 1, 1>(10); }
extern "C" void um2_hist()
{
    typedef estd::layer2::unordered_map<Key, Val, 8> M; M::control_type b[8]; M m(b); Ref r; unsigned most = 0;
    ins(m, r, most); ins(m, r, most); ins(m, r, most); del<0>(m, r); agree(m, r); if(r.n == 2) verif_reach("two");
}
extern "C" void us4_hist() { shist<estd::layer1::unordered_set<Key, 4>, 4, 1, 1>(4); }

// mapped objects: made by the insertion, ended once by the erasure, the others untouched
struct Lv
{
    static int live; static bool bad; uint16_t v; uint16_t ok;
    Lv(uint16_t v_) : v(v_), ok(0x5a5a) { ++live; }
    Lv(const Lv& o) : v(o.v), ok(0x5a5a) { if(o.ok != 0x5a5a) bad = true; ++live; }
    Lv& operator=(const Lv& o) { if(ok != 0x5a5a) bad = true; v = o.v; return *this; }
    ~Lv() { if(ok != 0x5a5a) bad = true; ok = 0; --live; }
};
int Lv::live; bool Lv::bad;
template <bool gc> static void life()
{
    typedef estd::layer1::unordered_map<Key, Lv, 4> M;
    M m; bool in[K + 1] = { false }; uint16_t val[K + 1] = { 0 }; int n = 0;
    for(unsigned i = 0; i < 3; ++i)
    {
        Key k = 1 + (Key)verif_below(K); uint16_t v = verif_u16(); unsigned how = verif_below(3);
        if(how == 0) { m.insert({k, Lv(v)}); if(!in[k]) val[k] = v; }
        else if(how == 1) { m.insert_or_assign(k, Lv(v)); val[k] = v; }
        else { m.emplace(k, v); if(!in[k]) val[k] = v; }
        if(!in[k]) { in[k] = true; ++n; }
        CHECK(Lv::live == n, "one object for each entry");
    }
    Key k = 1 + (Key)verif_below(K); bool was = in[k];
    if(was) { if(gc) m.erase_and_gc(m.find(k)); else m.erase(k); in[k] = false; --n; }
    CHECK(Lv::live == n && !Lv::bad, "the erased one ended, once");
    unsigned q = 1 + verif_below(K); auto f = m.find((Key)q); CHECK((f != m.end()) == in[q], "found"); if(in[q]) CHECK(f->second.v == val[q], "value");
    { m.clear(); CHECK(Lv::live == 0 && !Lv::bad, "clear ends those there are"); CHECK(m.empty(), "empty"); m.emplace(k, (uint16_t)7); CHECK(Lv::live == 1 && m.find(k)->second.v == 7, "filled again"); }
    if(was && n == 2) verif_reach("erased one of three");
}
extern "C" void um4_life() { life<false>(); }
extern "C" void um4_life_gc() { life<true>(); }
// erase while iterating: every entry is looked at once, exactly those chosen go
extern "C" void um4_erase_if()
{
    M4 m; Ref r; unsigned most = 0; for(int i = 0; i < 3; ++i) ins(m, r, most); if(verif_bool()) del<0>(m, r);
    uint16_t lim = verif_u16(); unsigned n = 0;
    for(auto i = m.begin(); i != m.end() && n < 5; ++n)
    {
        auto d = i->second; Key k = i->first; CHECK(r.in[k] && r.v[k] == d, "an entry");
        if(d < lim) { i = m.erase(i); r.in[k] = false; --r.n; r.v[k] = 0; if(n == 0 && i != m.end()) verif_reach("first of several goes"); } else ++i;
    }
    CHECK(n <= 3, "ends");
    for(unsigned k = 1; k <= K; ++k) if(r.in[k]) CHECK(r.v[k] >= lim, "looked at every entry");
    agree(m, r); walk(m, r, m.max_size());
}
extern "C" void us4_erase()
{
    estd::layer1::unordered_set<Key, 4> s; bool in[K + 1] = { false }; unsigned n = 0;
    for(unsigned i = 0; i < 3; ++i) { Key k = 1 + (Key)verif_below(K); auto p = s.insert(k); CHECK(p.second == !in[k] && *p.first == k, "inserted only if absent"); if(!in[k]) { in[k] = true; ++n; } }
    Key k = 1 + (Key)verif_below(K); CHECK(s.erase(k) == (in[k] ? 1 : 0), "erase"); if(in[k]) { in[k] = false; --n; }
    Key z = (Key)verif_upto(K); CHECK(s.contains(z) == in[z], "contains");
    CHECK(s.size() == n, "size"); unsigned b = s.bucket(z), c = 0; for(auto i = s.begin(b); i != s.end(b) && c < 5; ++i) ++c;
    CHECK(c == n, "bucket iteration"); if(n == 2) verif_reach("two left");
}
