// C29: every comparer the library can build, against orders computed independently from plain integers.
#include "vh.h"
#include "Awl/KeyCompare.h"
#include "Awl/CompositeCompare.h"
#include "Awl/TransparentCompositeCompare.h"
#include "Awl/ReverseCompare.h"
#include "Awl/Reflection.h"
#include "Awl/VectorSet.h"
#include <set>
#include <cmath>
#include <algorithm>
using vh::Case;

namespace
{
    int live;      // objects passed to comparers are neither copied nor destroyed

    struct Base { int base = 0; int GetBase() const { return base; } };
    struct X : Base
    {
        int a = 0, a2 = 0; std::string b; double c = 0;
        int GetA() const { return a; } const std::string& GetB() const { return b; } std::string GetBv() const { return b; } unsigned GetDiff() const { return static_cast<unsigned>(a - a2 + 10); } virtual int GetV() const { return a2; }
        AWL_TUPLIZABLE(a, b, c, a2)
        X() { ++live; } X(const X& o) : Base(o), a(o.a), a2(o.a2), b(o.b), c(o.c) { ++live; } ~X() { --live; }
    };
    struct Y : X { int GetV() const override { return -a2; } };
    AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(X)

    struct R { int x = 0; std::string s; bool f = false; AWL_REFLECT(x, s, f) };
    AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(R)

    // not a total order: classes of numbers with the same tens
    struct Tens { template <class T> bool operator()(const T& l, const T& r) const { return l / 10 < r / 10; } };
    // chosen at run time
    struct Stateful { bool desc = false; template <class T> bool operator()(const T& l, const T& r) const { return desc ? r < l : l < r; } };
    struct ByLength { bool operator()(const std::string& l, const std::string& r) const { return l.size() < r.size(); } };

    const char* words[] = { "", "a", "b", "B", "ab", "aa", "a word that is longer than the buffer of a short string, one", "a word that is longer than the buffer of a short string, two", "\x80" };
    X make(Case& c) { X x; x.base = static_cast<int>(c.rng.below(3)); x.a = static_cast<int>(c.rng.range(-1, 1)); if (c.rng.chance(1, 8)) x.a = c.rng.pick({ INT32_MIN, INT32_MAX, 10, 19, -5 }); x.a2 = static_cast<int>(c.rng.below(3)) * 7; x.b = words[c.rng.below(c.rng.chance(1, 2) ? 3 : 9)]; x.c = c.rng.pick({ 0.0, -0.0, 1.5, -1e300 }); return x; }

    // A model maps an object to integers compared lexicographically.
    using Model = std::vector<int64_t>;
    int64_t rank_b(const std::string& s) { int64_t n = 0; for (auto w : words) n += std::string(w) < s; return n; }

    template <class V, class Comp, class M> void pairs(Case& c, const char* what, const std::vector<V>& v, const Comp& comp, M model)
    {
        const int before = live; size_t eq = 0;
        for (auto& l : v) for (auto& r : v) { c.eval(); const Model a = model(l), b = model(r); eq += a == b; const bool got = comp(l, r); if (got != (a < b)) { std::string s; for (auto n : a) s += std::to_string(n) + " "; s += "< "; for (auto n : b) s += std::to_string(n) + " "; c.fail(what, vh::fmt("%s: %s is %d", what, s.c_str(), got)); return; } c.distinct(vh::hash_str(what) ^ vh::hash_bytes(a.data(), a.size() * 8) ^ vh::mix(vh::hash_bytes(b.data(), b.size() * 8))); }
        VH_CHECK(c, live == before, "copies", "%s: comparing changed the number of objects by %d", what, live - before); c.count("ordered pairs", v.size() * v.size()); c.count("equivalent pairs", eq);
        if (c.want_sample()) c.sample(vh::fmt("%s: all pairs of %zu objects, %zu equivalent", what, v.size(), eq));
    }
    // object/key, key/object: the key of r is made by k
    template <class V, class Comp, class M, class K> void keys(Case& c, const char* what, const std::vector<V>& v, const Comp& comp, M model, K k)
    {
        pairs(c, what, v, comp, model);
        for (auto& l : v) for (auto& r : v) { c.eval(2); const Model a = model(l), b = model(r); const bool lk = k(r, [&](const auto& key) { return comp(l, key); }), kl = k(r, [&](const auto& key) { return comp(key, l); }); VH_CHECK(c, lk == (a < b), what, "%s: object < key is %d, object < object is %d", what, lk, a < b); VH_CHECK(c, kl == (b < a), what, "%s: key < object is %d, object < object is %d", what, kl, b < a); }
        c.count("comparisons with keys", 2 * v.size() * v.size());
    }

    std::vector<X> objects(Case& c, size_t n) { std::vector<X> v; v.reserve(n); while (v.size() < n) { v.push_back(make(c)); if (v.size() > 1 && c.rng.chance(1, 3)) { v.back() = v[c.rng.below(v.size() - 1)]; switch (c.rng.below(4)) { case 0: v.back().a ^= 1; break; case 1: v.back().b = words[c.rng.below(9)]; break; case 2: v.back().a2 += 7; break; default: break; } } } return v; }
    template <class G> auto one(G g) { return [g](const X& x) { return Model{ static_cast<int64_t>(g(x)) }; }; }
}

VH_CASE(by_key, 1)
{
    c.iterate(c.n(40, 1500), [&](uint64_t)
    {
        std::vector<X> v = objects(c, 24); using namespace awl;
        auto key = [](auto get) { return [get](const X& x, auto f) { return f(get(x)); }; };
        const auto A = one([](const X& x) { return x.a; }); const auto A2 = one([](const X& x) { return x.a2; }); const auto B = one([](const X& x) { return rank_b(x.b); }); const auto BL = one([](const X& x) { return x.b.size(); }); const auto T = one([](const X& x) { return x.a / 10; }); const auto RA = one([](const X& x) { return -static_cast<int64_t>(x.a); });
        const auto ka = key([](const X& x) { return x.a; }); const auto ka2 = key([](const X& x) { return x.a2; }); const auto kb = key([](const X& x) -> const std::string& { return x.b; });
        keys(c, "make_compare(member)", v, make_compare(&X::a), A, ka); keys(c, "make_compare(string member)", v, make_compare(&X::b), B, kb); keys(c, "make_compare(function)", v, make_compare(&X::GetA), A, ka); keys(c, "make_compare(reference function)", v, make_compare(&X::GetB), B, kb); keys(c, "make_compare(value function)", v, make_compare(&X::GetBv), B, kb);
        keys(c, "make_compare(member, greater)", v, make_compare(&X::a, std::greater<>{}), RA, ka); keys(c, "make_compare(member, tens)", v, make_compare(&X::a, Tens{}), T, ka); keys(c, "make_compare(member, length)", v, make_compare(&X::b, ByLength{}), BL, kb);
        keys(c, "member_compare", v, member_compare<&X::a>{}, A, ka); keys(c, "member_compare(function)", v, member_compare<&X::GetBv>{}, B, kb); keys(c, "member_compare(greater)", v, member_compare<&X::a, std::greater<>>{}, RA, ka); keys(c, "member_compare(virtual)", v, member_compare<&X::GetV>{}, A2, ka2);
        keys(c, "tuplizable_compare<0>", v, tuplizable_compare<X, 0>{}, A, ka); keys(c, "tuplizable_compare<1>", v, tuplizable_compare<X, 1>{}, B, kb); keys(c, "tuplizable_compare<3>", v, tuplizable_compare<X, 3>{}, A2, ka2);
        { using Comp = KeyCompare<X, func_getter<X, int>>; Comp f(&X::GetA); Comp g(f); keys(c, "copied comparer", v, g, A, ka); }
        // comparers with state keep it when they are copied, moved and assigned
        { auto p = make_compare(&X::a), q = make_compare(&X::a2); auto r = p; keys(c, "copy", v, r, A, ka); p = q; keys(c, "assigned comparer", v, p, A2, ka2); auto m = std::move(r); keys(c, "moved comparer", v, m, A, ka); q = std::move(m); keys(c, "move assigned comparer", v, q, A, ka); auto s = make_compare(&X::a, Stateful{ true }); keys(c, "comparer with a state", v, s, RA, ka); auto s2 = make_compare(&X::a2, Stateful{ false }); s2 = s; keys(c, "assigned comparer with a state", v, s2, RA, ka); }
        // pointers
        {
            std::vector<X*> p; std::vector<const X*> cp; std::vector<std::shared_ptr<X>> s; std::vector<std::unique_ptr<X>> u; std::vector<std::shared_ptr<const X>> sc; for (auto& x : v) { p.push_back(&x); s.push_back(std::make_shared<X>(x)); u.push_back(std::make_unique<X>(x)); } if (c.rng.flip()) p.push_back(p[0]), s.push_back(s[0]);
            auto mp = [](auto m) { return [m](const auto& q) { return m(*q); }; }; auto kp = [](auto get) { return [get](const auto& q, auto f) { return f(get(*q)); }; }; auto pa = kp([](const X& x) { return x.a; }); auto pb = kp([](const X& x) -> const std::string& { return x.b; }); auto pa2 = kp([](const X& x) { return x.a2; });
            keys(c, "pointer_compare", p, pointer_compare<&X::a>{}, mp(A), pa); keys(c, "pointer_compare(function)", p, pointer_compare<&X::GetBv>{}, mp(B), pb); keys(c, "pointer_compare(greater)", p, pointer_compare<&X::a, std::greater<>>{}, mp(RA), pa); keys(c, "tuplizable_compare(pointer)", p, tuplizable_compare<X*, 3>{}, mp(A2), pa2);
            keys(c, "shared_compare", s, shared_compare<&X::a>{}, mp(A), pa); keys(c, "shared_compare(greater)", s, shared_compare<&X::b, ByLength>{}, mp(BL), pb); keys(c, "make_shared_compare", s, make_shared_compare(&X::GetB), mp(B), pb); keys(c, "smart_compare(shared)", s, smart_compare<std::shared_ptr<X>, &X::b>{}, mp(B), pb); keys(c, "KeyCompare(shared, greater)", s, KeyCompare<std::shared_ptr<X>, func_getter<X, int>, std::greater<>>(&X::GetA), mp(RA), pa);
            keys(c, "unique_compare", u, unique_compare<&X::a>{}, mp(A), pa); keys(c, "unique_compare(tens)", u, unique_compare<&X::a, Tens>{}, mp(T), pa); keys(c, "smart_compare(unique)", u, smart_compare<std::unique_ptr<X>, &X::GetBv>{}, mp(B), pb); keys(c, "KeyCompare(unique)", u, KeyCompare<std::unique_ptr<X>, field_getter<X, std::string>>(&X::b), mp(B), pb);
            // and over pointers too
            { const Stateful st{ true };
              keys(c, "pointer comparer with a state", p, KeyCompare<X*, field_getter<X, int>, Stateful>(&X::a, st), mp(RA), pa); keys(c, "shared comparer with a state", s, KeyCompare<std::shared_ptr<X>, field_getter<X, int>, Stateful>(&X::a, st), mp(RA), pa); keys(c, "unique comparer with a state", u, KeyCompare<std::unique_ptr<X>, field_getter<X, int>, Stateful>(&X::a, st), mp(RA), pa);
              keys(c, "make_compare(function, state)", v, make_compare(&X::GetA, st), RA, ka); keys(c, "make_compare(member, state)", v, make_compare(&X::a, st), RA, ka); keys(c, "make_shared_compare(function, state)", s, make_shared_compare(&X::GetA, st), mp(RA), pa);
              const auto mst = member_compare<&X::a, Stateful>(getter<&X::a>{}, st); keys(c, "member_compare with a state", v, mst, RA, ka);
              pairs(c, "composite with a state", v, CompositeCompare<X, member_compare<&X::a, Stateful>, member_compare<&X::b>>(mst, member_compare<&X::b>{}), [&](const X& x) { return Model{ -static_cast<int64_t>(x.a), static_cast<int64_t>(rank_b(x.b)) }; });
              keys(c, "transparent composite with a state", v, TransparentCompositeCompare<X, member_compare<&X::a, Stateful>, member_compare<&X::b>>(mst, member_compare<&X::b>{}), [&](const X& x) { return Model{ -static_cast<int64_t>(x.a), static_cast<int64_t>(rank_b(x.b)) }; }, [](const X& x, auto f) { return f(std::make_tuple(x.a, x.b)); });
              pairs(c, "reverse with a state", v, ReverseCompare<X, member_compare<&X::a, Stateful>>(mst), A); keys(c, "transparent reverse with a state", v, TransparentReverseCompare<X, member_compare<&X::a, Stateful>>(mst), A, ka); }
            std::vector<std::unique_ptr<X, void (*)(X*)>> d; for (auto& x : v) d.emplace_back(new X(x), [](X* q) { delete q; }); keys(c, "smart_compare(deleter)", d, smart_compare<std::unique_ptr<X, void (*)(X*)>, &X::a>{}, mp(A), pa);
        }
        {
            std::vector<Y> y(6); for (auto& q : y) static_cast<X&>(q) = make(c); std::vector<std::unique_ptr<X>> u; for (auto& q : y) u.push_back(std::make_unique<Y>(q)); for (int k = 0; k < 6; ++k) u.push_back(std::make_unique<X>(make(c)));
            keys(c, "virtual function", u, unique_compare<&X::GetV>{}, [](const std::unique_ptr<X>& q) { return Model{ q->GetV() }; }, [](const auto& q, auto f) { return f(q->GetV()); });
        }
    });
    VH_CHECK(c, live == 0, "leak", "%d objects left", live);
}

VH_CASE(composed, 2)
{
    c.iterate(c.n(40, 1200), [&](uint64_t)
    {
        std::vector<X> v = objects(c, 22); using namespace awl;
        const auto a = make_compare(&X::a); const auto a2 = make_compare(&X::a2); const auto b = make_compare(&X::b); const auto bv = make_compare(&X::GetBv); const auto t = make_compare(&X::a, Tens{}); const auto g = make_compare(&X::a, std::greater<>{}); const auto l = make_compare(&X::b, ByLength{});
        auto m = [](auto... f) { return [=](const X& x) { return Model{ static_cast<int64_t>(f(x))... }; }; };
        const auto A = [](const X& x) { return static_cast<int64_t>(x.a); }; const auto A2 = [](const X& x) { return x.a2; }; const auto B = [](const X& x) { return rank_b(x.b); }; const auto T = [](const X& x) { return x.a / 10; }; const auto G = [](const X& x) { return -static_cast<int64_t>(x.a); }; const auto L = [](const X& x) { return x.b.size(); };
        pairs(c, "composite(a)", v, compose_comparers<X>(a), m(A)); pairs(c, "composite(a, b)", v, compose_comparers<X>(a, b), m(A, B)); pairs(c, "composite(b, a)", v, compose_comparers<X>(b, a), m(B, A)); pairs(c, "composite(a, b, a2)", v, compose_comparers<X>(a, b, a2), m(A, B, A2)); pairs(c, "composite(b, a2, a)", v, compose_comparers<X>(b, a2, a), m(B, A2, A)); pairs(c, "composite(length, tens, a2, b)", v, compose_comparers<X>(l, t, a2, b), m(L, T, A2, B)); pairs(c, "composite(greater, value b)", v, compose_comparers<X>(g, bv), m(G, B));
        pairs(c, "CompositeCompare<member...>", v, CompositeCompare<X, member_compare<&X::a2>, member_compare<&X::b>, member_compare<&X::a, std::greater<>>>{}, m(A2, B, G)); pairs(c, "nested composite", v, compose_comparers<X>(compose_comparers<X>(t, l), compose_comparers<X>(a2, a), b), m(T, L, A2, A, B)); { auto p = compose_comparers<X>(a, b); auto q = compose_comparers<X>(a2, b); q = p; pairs(c, "assigned composite", v, q, m(A, B)); auto r = std::move(q); pairs(c, "moved composite", v, r, m(A, B)); }
        const auto kab = [](const X& x, auto f) { return f(std::make_tuple(x.a, x.b)); }; const auto kba = [](const X& x, auto f) { return f(std::forward_as_tuple(x.b, x.a)); };
        keys(c, "transparent(a, b)", v, compose_transparent_comparers<X>(a, b), m(A, B), kab); keys(c, "transparent(b, a)", v, compose_transparent_comparers<X>(b, a), m(B, A), kba); keys(c, "transparent(a)", v, compose_transparent_comparers<X>(a), m(A), [](const X& x, auto f) { return f(std::make_tuple(x.a)); }); keys(c, "transparent(greater, length)", v, compose_transparent_comparers<X>(g, l), m(G, L), kab); keys(c, "transparent(tens, b)", v, compose_transparent_comparers<X>(t, b), m(T, B), kab);
        keys(c, "transparent(value b, a)", v, compose_transparent_comparers<X>(bv, a), m(B, A), kba); keys(c, "transparent(length, tens, a2)", v, compose_transparent_comparers<X>(l, t, a2), m(L, T, A2), [](const X& x, auto f) { return f(std::make_tuple(x.b, x.a, x.a2)); }); keys(c, "transparent(a2, b, a)", v, TransparentCompositeCompare<X, member_compare<&X::a2>, member_compare<&X::b>, member_compare<&X::a>>{}, m(A2, B, A), [](const X& x, auto f) { return f(std::tuple<const int&, const std::string&, const int&>(x.a2, x.b, x.a)); });
        { auto p = compose_transparent_comparers<X>(a, b), q = compose_transparent_comparers<X>(a2, b); q = p; keys(c, "assigned transparent", v, q, m(A, B), kab); }
        // keys of values, references and both
        { using C = TransparentCompositeCompare<X, member_compare<&X::a2>, member_compare<&X::b>>; C comp; keys(c, "make_key(lvalues)", v, comp, m(A2, B), [](const X& x, auto f) { return f(C::make_key(x.a2, x.b)); }); keys(c, "make_key(rvalues)", v, comp, m(A2, B), [](const X& x, auto f) { return f(C::make_key(int(x.a2), std::string(x.b))); }); keys(c, "make_key(mixed)", v, comp, m(A2, B), [](const X& x, auto f) { return f(C::make_key(int(x.a2), x.b)); }); keys(c, "make_key(C string)", v, comp, m(A2, B), [](const X& x, auto f) { const auto key = C::make_key(static_cast<short>(x.a2), x.b.c_str()); return f(key); }); }
        // reversed
        auto rev = [](auto f) { return [f](const X& x) { Model r = f(x); for (auto& n : r) n = -n; return r; }; };
        pairs(c, "reverse(a)", v, reverse_comparer<X>(a), rev(m(A))); pairs(c, "reverse(composite)", v, reverse_comparer<X>(compose_comparers<X>(a, l)), rev(m(A, L))); pairs(c, "reverse(reverse)", v, reverse_comparer<X>(reverse_comparer<X>(b)), m(B)); pairs(c, "ReverseCompare<member>", v, ReverseCompare<X, member_compare<&X::b>>{}, rev(m(B))); pairs(c, "reverse in composite", v, compose_comparers<X>(l, reverse_comparer<X>(a), b), m(L, G, B));
        keys(c, "reverse transparent(a)", v, reverse_transparent_comparer<X>(a), rev(m(A)), [](const X& x, auto f) { return f(x.a); }); keys(c, "reverse transparent(b)", v, TransparentReverseCompare<X, member_compare<&X::b>>{}, rev(m(B)), [](const X& x, auto f) { return f(x.b); }); keys(c, "reverse transparent composite", v, reverse_transparent_comparer<X>(compose_transparent_comparers<X>(a2, b)), rev(m(A2, B)), [](const X& x, auto f) { return f(std::make_tuple(x.a2, x.b)); }); keys(c, "reverse in transparent", v, compose_transparent_comparers<X>(reverse_transparent_comparer<X>(a), b), m(G, B), kab);
        // composites over pointers
        { std::vector<X*> p; std::vector<std::shared_ptr<X>> s; for (auto& x : v) { p.push_back(&x); s.push_back(std::make_shared<X>(x)); } auto mp = [](auto f) { return [f](const auto& q) { return f(*q); }; };
          pairs(c, "composite(pointers)", p, CompositeCompare<X*, pointer_compare<&X::b>, pointer_compare<&X::a>>{}, mp(m(B, A))); pairs(c, "composite(shared)", s, CompositeCompare<std::shared_ptr<X>, shared_compare<&X::a2>, shared_compare<&X::b, ByLength>, shared_compare<&X::a>>{}, mp(m(A2, L, A))); pairs(c, "reverse(shared)", s, ReverseCompare<std::shared_ptr<X>, shared_compare<&X::a>>{}, mp(rev(m(A))));
          keys(c, "transparent(pointers)", p, TransparentCompositeCompare<X*, pointer_compare<&X::a>, pointer_compare<&X::b>>{}, mp(m(A, B)), [](const X* x, auto f) { return f(std::make_tuple(x->a, x->b)); }); keys(c, "transparent(shared)", s, TransparentCompositeCompare<std::shared_ptr<X>, shared_compare<&X::b>, shared_compare<&X::a>>{}, mp(m(B, A)), [](const std::shared_ptr<X>& x, auto f) { return f(std::make_tuple(x->b, x->a)); }); }
    });
    VH_CHECK(c, live == 0, "leak", "%d objects left", live);
}

// The library's orders used by ordered containers: what is found by a key is what is found by scanning.
VH_CASE(lookup, 1)
{
    c.iterate(c.n(200, 6000), [&](uint64_t)
    {
        using namespace awl; std::vector<X> v = objects(c, 30); using C = TransparentCompositeCompare<X, member_compare<&X::a>, member_compare<&X::b>>; std::set<X, C> s; vector_set<X, C> vs; auto key = [](const X& x) { return std::make_pair(x.a, x.b); }; std::set<std::pair<int, std::string>> model;
        for (size_t i = 0; i < 20; ++i) { s.insert(v[i]); vs.insert(v[i]); model.insert(key(v[i])); }
        VH_CHECK(c, s.size() == model.size() && vs.size() == model.size(), "set-size", "%zu and %zu of %zu", s.size(), vs.size(), model.size()); auto it = model.begin(); for (auto& x : s) VH_CHECK(c, key(x) == *it++, "set-order", "order"); it = model.begin(); for (auto& x : vs) VH_CHECK(c, key(x) == *it++, "set-order", "order");
        for (auto& x : v) { c.eval(); const bool in = model.count(key(x)); const auto k = std::make_tuple(x.a, x.b); c.count(in ? "keys found" : "keys not found"); VH_CHECK(c, (s.find(k) != s.end()) == in && (vs.find(k) != vs.end()) == in && (s.find(x) != s.end()) == in, "set-find", "find"); const auto lo = s.lower_bound(k), hi = s.upper_bound(k); const auto ml = model.lower_bound(key(x)), mh = model.upper_bound(key(x)); VH_CHECK(c, (lo == s.end()) == (ml == model.end()) && (lo == s.end() || key(*lo) == *ml) && (hi == s.end()) == (mh == model.end()) && (hi == s.end() || key(*hi) == *mh), "set-bounds", "bounds"); c.distinct(vh::hash_str(x.b) ^ vh::mix(static_cast<uint64_t>(x.a)) ^ in); }
        std::vector<X> w = v; std::sort(w.begin(), w.end(), reverse_comparer<X>(compose_comparers<X>(make_compare(&X::b), make_compare(&X::a2)))); for (size_t i = 1; i < w.size(); ++i) VH_CHECK(c, std::make_pair(w[i - 1].b, w[i - 1].a2) >= std::make_pair(w[i].b, w[i].a2), "sort", "sorted order");
        if (c.want_sample()) c.sample(vh::fmt("%zu keys of 20 objects, 30 lookups", model.size()));
    });
}

// Operators made for structures.
VH_CASE(memberwise, 1)
{
    c.iterate(c.n(100, 3000), [&](uint64_t)
    {
        std::vector<X> v = objects(c, 16); for (auto& x : v) { x.base = 0; if (c.rng.chance(1, 6)) x.c = std::nan(""); } std::vector<R> r(12); for (auto& q : r) { q.x = static_cast<int>(c.rng.range(-1, 1)); q.s = words[c.rng.below(4)]; q.f = c.rng.flip(); }
        auto all = [&](const char* what, const auto& l, const auto& q, bool eq, bool lt, bool gt) { c.eval(); const bool got[] = { l == q, l != q, l < q, l > q, l <= q, l >= q, awl::objects_equal(l, q), awl::objects_less(l, q), awl::objects_greater(l, q) }, want[] = { eq, !eq, lt, gt, eq || lt, eq || gt, eq, lt, gt }; for (int i = 0; i < 9; ++i) VH_CHECK(c, got[i] == want[i], what, "%s: operator %d is %d", what, i, got[i]); c.count(eq ? "equal" : "different"); };
        for (auto& l : v) for (auto& q : v) { auto key = [](const X& x) { return std::make_tuple(static_cast<int64_t>(x.a), rank_b(x.b), x.c, static_cast<int64_t>(x.a2)); }; all("tuplizable", l, q, key(l) == key(q), key(l) < key(q), key(q) < key(l)); c.distinct(vh::hash_str(l.b + "/" + q.b) ^ vh::mix(l.a * int64_t(64) + q.a * int64_t(8) + l.a2 + q.a2)); }
        for (auto& l : r) for (auto& q : r) { auto key = [](const R& x) { return std::make_tuple(x.x, rank_b(x.s), static_cast<int>(x.f)); }; all("reflected", l, q, key(l) == key(q), key(l) < key(q), key(q) < key(l)); }
        if (c.want_sample()) c.sample("all pairs of 16 tuplizable and 12 reflected structures");
    });
}
VH_MAIN()
