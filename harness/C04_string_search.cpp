// searching and comparing strings and string views against the standard's definitions
//@ h sv_find_ch unwind=10
//@ h sv_find unwind=10
//@ h sv_rfind cost=4 unwind=10
//@ h sv_first_of unwind=9 cost=3
//@ h sv_last_of unwind=9 cost=3
//@ h sv_first_of7 unwind=10 cost=5 tier=thorough
//@ h sv_last_of7 unwind=10 cost=5 tier=thorough
//@ h l1_of unwind=8 cost=3
//@ h l1u_of unwind=8 cost=3
//@ h sv_affix unwind=10
//@ h sv_compare unwind=10
//@ h sv_substr unwind=10
//@ h sv_tiny unwind=10 cost=4
//@ h l1_search cost=3 unwind=10
//@ h l1_affix_compare unwind=10
//@ h l1u_search cost=3 unwind=10
//@ h l3c_search cost=3 unwind=10
//@ h sv_find9 unwind=13 cost=5 tier=thorough
//@ h sv_rfind9 unwind=13 cost=5 tier=thorough
#include "verif.h"
#include <estd/string.h>
#include <estd/string_view.h>
typedef estd::string_view SV;
static const unsigned NONE = ~0u;
template <unsigned K> struct Txt
{
    char c[K + 1]; unsigned n;
    Txt(bool nz = false) { n = verif_upto(K); for(unsigned i = 0; i < K; ++i) { c[i] = (char)verif_u8(); if(nz) verif_assume(c[i] != 0); } c[n] = 0; }
};
static bool at(const char* s, unsigned p, const char* t, unsigned tn) { for(unsigned i = 0; i < tn; ++i) if(s[p + i] != t[i]) return false; return true; }
static unsigned ref_find(const char* s, unsigned n, const char* t, unsigned tn, unsigned pos)
{
    for(unsigned p = pos; p <= n && tn <= n - p; ++p) if(at(s, p, t, tn)) return p;
    return NONE;
}
static unsigned ref_rfind(const char* s, unsigned n, const char* t, unsigned tn, unsigned pos)
{
    unsigned r = NONE;
    for(unsigned p = 0; p <= pos && p <= n && tn <= n - p; ++p) if(at(s, p, t, tn)) r = p;
    return r;
}
static bool in(char c, const char* t, unsigned tn) { for(unsigned i = 0; i < tn; ++i) if(t[i] == c) return true; return false; }
static unsigned ref_first_of(const char* s, unsigned n, const char* t, unsigned tn, unsigned pos)
{
    for(unsigned p = pos; p < n; ++p) if(in(s[p], t, tn)) return p;
    return NONE;
}
static unsigned ref_last_of(const char* s, unsigned n, const char* t, unsigned tn, unsigned pos)
{
    unsigned r = NONE;
    for(unsigned p = 0; p <= pos && p < n; ++p) if(in(s[p], t, tn)) r = p;
    return r;
}
template <class S> static void is(S, typename S::size_type r, unsigned want, const char* m)
{
    CHECK(want == NONE ? r == S::npos : r == want, m);
    if(want != NONE) verif_reach("found");
}
#define IS(r, w, m) CHECK((w) == NONE ? (r) == S::npos : (r) == (w), m)
// a start position: any value, or absent (npos)
template <class S> static void pos(typename S::size_type& p, unsigned& q, unsigned k)
{
    bool none = verif_bool(); q = verif_upto(k);
    p = none ? S::npos : (typename S::size_type)q;
    if(none) q = NONE - 1;
}
template <class S> static void find_ch(const S& s, const char* c, unsigned n)
{
    char t = (char)verif_u8(); unsigned p = verif_upto(9);
    unsigned w = ref_find(c, n, &t, 1, p);
    IS(s.find(t, (typename S::size_type)p), w, "find character");
    IS(s.find(t), ref_find(c, n, &t, 1, 0), "find character from the start");
    verif_reach("found");
}
template <class S, unsigned K> static void find_s(const S& s, const char* c, unsigned n)
{
    Txt<K> t; unsigned p = verif_upto(9);
    unsigned w = ref_find(c, n, t.c, t.n, p);
    IS(s.find(t.c, (typename S::size_type)p, (typename S::size_type)t.n), w, "find(s, pos, count)");
    IS(s.find(SV(t.c, t.n), (typename S::size_type)p), w, "find(view, pos)");
    if(w != NONE && w > p && t.n > 1) verif_reach("found");
}
template <class S, unsigned K> static void rfind_s(const S& s, const char* c, unsigned n)
{
    Txt<K> t; typename S::size_type p; unsigned q; pos<S>(p, q, 9);
    unsigned w = ref_rfind(c, n, t.c, t.n, q);
    IS(s.rfind(t.c, p, (typename S::size_type)t.n), w, "rfind(s, pos, count)");
    IS(s.rfind(SV(t.c, t.n), p), w, "rfind(view, pos)");
    if(w != NONE && w > 0 && t.n > 1) verif_reach("found");
}
template <class S, unsigned K> static void of_s(const S& s, const char* c, unsigned n, bool last)
{
    Txt<K> t; typename S::size_type p; unsigned q; pos<S>(p, q, 9);
    unsigned w;
    if(!last)
    {
        w = ref_first_of(c, n, t.c, t.n, q);
        IS(s.find_first_of(t.c, p, (typename S::size_type)t.n), w, "find_first_of");
        if(t.n == 1) IS(s.find_first_of(SV(t.c, t.n), p), w, "find_first_of view");
    }
    else
    {
        w = ref_last_of(c, n, t.c, t.n, q);
        IS(s.find_last_of(t.c, p, (typename S::size_type)t.n), w, "find_last_of");
        if(t.n == 1) IS(s.find_last_of(SV(t.c, t.n), p), w, "find_last_of view");
    }
    if(w != NONE && w > 0) verif_reach("found");
}
template <class S, unsigned K> static void affix(const S& s, const char* c, unsigned n)
{
    Txt<K> t(true);
    bool pre = t.n <= n && at(c, 0, t.c, t.n), suf = t.n <= n && at(c, n - t.n, t.c, t.n);
    CHECK(s.starts_with(SV(t.c, t.n)) == pre, "starts_with view");
    CHECK(s.starts_with((const char*)t.c) == pre, "starts_with C string");
    CHECK(s.ends_with(SV(t.c, t.n)) == suf, "ends_with view");
    CHECK(s.ends_with((const char*)t.c) == suf, "ends_with C string");
    if(pre && t.n > 1) verif_reach("prefix");
    if(suf && t.n == n) verif_reach("suffix");
}
template <class S, unsigned K> static void compare(const S& s, const char* c, unsigned n)
{
    Txt<K> t(true); SV v(t.c, t.n);
    bool eq = n == t.n && at(c, 0, t.c, t.n);
    int r = s.compare(v), r2 = v.compare(s), r3 = s.compare((const char*)t.c);
    CHECK((r == 0) == eq, "compare is zero exactly on equal text");
    CHECK((r3 == 0) == eq, "compare with a C string");
    CHECK((r < 0) == (r2 > 0) && (r > 0) == (r2 < 0), "compare is antisymmetric");
    CHECK((r3 < 0) == (r < 0), "C string and view agree");
    if(n == t.n) for(unsigned i = 0; i < n; ++i) if(c[i] != t.c[i])
        { CHECK((r < 0) == ((unsigned char)c[i] < (unsigned char)t.c[i]), "equal lengths order by the first difference"); break; }
    CHECK((s == v) == eq, "== view");
    CHECK((v == s) == eq, "view ==");
    CHECK((s == (const char*)t.c) == eq, "== C string");
    CHECK(((const char*)t.c == s) == eq, "C string ==");
    if(eq && n > 2) verif_reach("equal");
}
extern "C" void sv_find_ch() { Txt<7> x; find_ch(SV(x.c, x.n), x.c, x.n); }
extern "C" void sv_find() { Txt<7> x; find_s<SV, 3>(SV(x.c, x.n), x.c, x.n); }
extern "C" void sv_rfind() { Txt<6> x; rfind_s<SV, 3>(SV(x.c, x.n), x.c, x.n); }
extern "C" void sv_find9() { Txt<9> x; find_s<SV, 5>(SV(x.c, x.n), x.c, x.n); }
extern "C" void sv_rfind9() { Txt<9> x; rfind_s<SV, 5>(SV(x.c, x.n), x.c, x.n); }
extern "C" void sv_first_of() { Txt<6> x; of_s<SV, 3>(SV(x.c, x.n), x.c, x.n, false); }
extern "C" void sv_last_of() { Txt<6> x; of_s<SV, 3>(SV(x.c, x.n), x.c, x.n, true); }
extern "C" void sv_first_of7() { Txt<7> x; of_s<SV, 4>(SV(x.c, x.n), x.c, x.n, false); }
extern "C" void sv_last_of7() { Txt<7> x; of_s<SV, 4>(SV(x.c, x.n), x.c, x.n, true); }
extern "C" void l1_of() { Txt<4> x(true); estd::layer1::string<8> s((const char*)x.c); of_s<estd::layer1::string<8>, 2>(s, x.c, x.n, verif_bool()); }
extern "C" void l1u_of() { Txt<4> x; estd::layer1::string<6, false> s(x.c, x.n); of_s<estd::layer1::string<6, false>, 2>(s, x.c, x.n, verif_bool()); }
extern "C" void sv_affix() { Txt<6> x(true); affix<SV, 7>(SV(x.c, x.n), x.c, x.n); }
extern "C" void sv_compare() { Txt<5> x(true); compare<SV, 6>(SV(x.c, x.n), x.c, x.n); }
static void view_is(const SV& v, const char* c, unsigned n)
{
    CHECK(v.size() == n, "view size"); CHECK(v.empty() == (n == 0), "view empty");
    CHECK(v.data() == c, "view data"); CHECK(v.begin() == c && v.end() == c + n, "view range");
}
extern "C" void sv_substr()
{
    Txt<7> x; SV v(x.c, x.n);
    view_is(v, x.c, x.n);
    view_is(SV((const char*)x.c), x.c, ref_find(x.c, 8, "", 1, 0));
    unsigned p = verif_upto(7); verif_assume(p <= x.n);
    SV::size_type k; unsigned q; pos<SV>(k, q, 9);
    unsigned w = q < x.n - p ? q : x.n - p;
    view_is(v.substr(p, k), x.c + p, w);
    view_is(v, x.c, x.n);
    unsigned a = verif_upto(7), b = verif_upto(7); verif_assume(a + b <= x.n);
    SV u = v; u.remove_prefix(a); u.remove_suffix(b);
    view_is(u, x.c + a, x.n - a - b);
    for(unsigned i = 0; i < 7; ++i) if(i < u.size()) CHECK(u[i] == x.c[a + i], "element");
    char out[8]; unsigned at_ = verif_upto(7); verif_assume(at_ <= x.n);
    unsigned m = v.copy(out, k, at_); unsigned mw = q < x.n - at_ ? q : x.n - at_;
    CHECK(m == mw, "copy count"); for(unsigned i = 0; i < 7; ++i) if(i < m) CHECK(out[i] == x.c[at_ + i], "copy");
    if(w > 1 && p > 1) verif_reach("sub");
}
// views with a narrow size type
typedef estd::detail::basic_string_view<estd::internal::string_policy<estd::char_traits<char>, estd::internal::string_options::none, uint8_t> > TV;
extern "C" void sv_tiny()
{
    Txt<5> x(true); TV s((const char*)x.c, (uint8_t)x.n);
    find_ch(s, x.c, x.n); find_s<TV, 2>(s, x.c, x.n); rfind_s<TV, 2>(s, x.c, x.n);
    TV::size_type k; unsigned q; pos<TV>(k, q, 9); unsigned p = verif_upto(5); verif_assume(p <= x.n);
    TV u = s.substr(p, k); unsigned w = q < x.n - p ? q : x.n - p;
    CHECK(u.size() == w && u.data() == x.c + p, "substr");
}
template <class S> static void search_all(const S& s, const char* c, unsigned n)
{
    switch(verif_below(3))
    {
        case 0: find_ch(s, c, n); break;
        case 1: find_s<S, 2>(s, c, n); break;
        default: rfind_s<S, 2>(s, c, n); break;
    }
}
extern "C" void l1_search() { Txt<5> x(true); estd::layer1::string<8> s((const char*)x.c); search_all(s, x.c, x.n); }
extern "C" void l1u_search() { Txt<5> x; estd::layer1::string<6, false> s(x.c, x.n); search_all(s, x.c, x.n); }
extern "C" void l3c_search() { Txt<5> x(true); estd::layer3::const_string s((const char*)x.c, (uint16_t)x.n); search_all(s, x.c, x.n); affix<estd::layer3::const_string, 3>(s, x.c, x.n); CHECK(s.empty() == (x.n == 0), "empty"); }
extern "C" void l1_affix_compare()
{
    Txt<4> x(true); estd::layer1::string<8> s((const char*)x.c);
    affix<estd::layer1::string<8>, 5>(s, x.c, x.n); compare<estd::layer1::string<8>, 5>(s, x.c, x.n);
    Txt<5> y(true); estd::layer1::string<8> t((const char*)y.c); estd::layer2::const_string u((const char*)y.c);
    bool eq = x.n == y.n && at(x.c, 0, y.c, y.n);
    CHECK((s == t) == eq, "== string"); CHECK((s == u) == eq, "== other storage");
    CHECK((s.compare(t) == 0) == eq, "compare string");
    if(x.n) CHECK(s.starts_with(x.c[0]) && s.ends_with(x.c[x.n - 1]), "affix character");
    else CHECK(!s.starts_with(y.c[0]) && !s.ends_with(y.c[0]), "affix character of empty");
}
