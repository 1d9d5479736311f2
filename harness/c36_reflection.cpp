// C36: structures are treated memberwise by reflection, tuples, comparison, hashing and type descriptions.
#include "vh.h"
#include "Awl/Reflection.h"
#include "Awl/Tuplizable.h"
#include "Awl/TupleHelpers.h"
#include "Awl/Hashable.h"
#include "Awl/Getters.h"
#include "Awl/Prototype.h"
#include "Awl/FunctionTraits.h"
#include "Awl/TypeTraits.h"
#include "Awl/Decimal.h"
#include "Awl/Mp/Mp.h"
#include "Awl/Mp/TypeHash.h"
#include "Awl/Io/TypeIndex.h"
#include "Awl/Io/PrototypeContainer.h"
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <utility>
using vh::Case; using vh::fmt;

namespace
{
    enum class Colour : uint16_t { red, green = 7 };
    struct One { int a{}; AWL_REFLECT(a)
        template <class S> static auto hand(S& s) { return std::tie(s.a); } static std::vector<std::string> names() { return { "a" }; } };
    struct Two { int a{}; std::string b{}; AWL_REFLECT(a,b)
        template <class S> static auto hand(S& s) { return std::tie(s.a, s.b); } static std::vector<std::string> names() { return { "a", "b" }; } };
    // the layout of the declaration must not matter
    struct Loose { int a{}; bool bb{}; std::string c_c{}; uint8_t _d{}; AWL_REFLECT( a ,
            bb  ,   c_c /* a remark, with a comma */ ,
            _d   )
        template <class S> static auto hand(S& s) { return std::tie(s.a, s.bb, s.c_c, s._d); } static std::vector<std::string> names() { return { "a", "bb", "c_c", "_d" }; } };
    struct Tight { int x1{}; int x{}; int x11{}; int x1_{}; int X1{}; AWL_REFLECT(x1,x,x11,x1_,X1)
        template <class S> static auto hand(S& s) { return std::tie(s.x1, s.x, s.x11, s.x1_, s.X1); } static std::vector<std::string> names() { return { "x1", "x", "x11", "x1_", "X1" }; } };
    // the order of reflection is not that of the declaration
    struct Order { std::string last{}; double first{}; std::vector<int> middle{}; Colour colour{}; AWL_REFLECT(first, middle, last, colour)
        template <class S> static auto hand(S& s) { return std::tie(s.first, s.middle, s.last, s.colour); } static std::vector<std::string> names() { return { "first", "middle", "last", "colour" }; } };
    struct Base { int base{}; }; struct Derived : Base { int own{}; AWL_REFLECT(base, own)
        template <class S> static auto hand(S& s) { return std::tie(s.base, s.own); } static std::vector<std::string> names() { return { "base", "own" }; } };
    class Hidden { int m_a{}; std::string m_b{}; char m_c{}; public: AWL_REFLECT(m_a, m_b, m_c)
        template <class S> static auto hand(S& s) { return std::tie(s.m_a, s.m_b, s.m_c); } static std::vector<std::string> names() { return { "m_a", "m_b", "m_c" }; } };
    struct Partly { int skipped{}; int taken{}; std::string skipped2{}; int64_t taken2{}; AWL_REFLECT(taken, taken2)
        template <class S> static auto hand(S& s) { return std::tie(s.taken, s.taken2); } static std::vector<std::string> names() { return { "taken", "taken2" }; } };
    struct Wide { int member_with_a_long_name_0{}; std::string m1{}; uint8_t m2{}; double member_with_a_long_name_3{}; bool m4{}; int64_t m5{}; std::vector<int> member_with_a_long_name_6{}; std::optional<int> m7{}; int m8{}; std::string member_with_a_long_name_9{}; uint8_t m10{}; double m11{}; bool member_with_a_long_name_12{}; int64_t m13{}; std::vector<int> m14{}; std::optional<int> member_with_a_long_name_15{}; int m16{}; std::string m17{}; uint8_t member_with_a_long_name_18{}; double m19{}; bool m20{}; int64_t member_with_a_long_name_21{}; std::vector<int> m22{}; std::optional<int> m23{}; int member_with_a_long_name_24{}; std::string m25{}; uint8_t m26{}; double member_with_a_long_name_27{}; bool m28{}; int64_t m29{}; std::vector<int> member_with_a_long_name_30{}; std::optional<int> m31{}; int m32{}; std::string member_with_a_long_name_33{}; uint8_t m34{}; double m35{}; bool member_with_a_long_name_36{}; int64_t m37{}; std::vector<int> m38{}; std::optional<int> member_with_a_long_name_39{}; AWL_REFLECT(member_with_a_long_name_0, m1, m2, member_with_a_long_name_3, m4, m5, member_with_a_long_name_6, m7, m8, member_with_a_long_name_9, m10, m11, member_with_a_long_name_12, m13, m14, member_with_a_long_name_15, m16, m17, member_with_a_long_name_18, m19, m20, member_with_a_long_name_21, m22, m23, member_with_a_long_name_24, m25, m26, member_with_a_long_name_27, m28, m29, member_with_a_long_name_30, m31, m32, member_with_a_long_name_33, m34, m35, member_with_a_long_name_36, m37, m38, member_with_a_long_name_39)
        template <class S> static auto hand(S& s) { return std::tie(s.member_with_a_long_name_0, s.m1, s.m2, s.member_with_a_long_name_3, s.m4, s.m5, s.member_with_a_long_name_6, s.m7, s.m8, s.member_with_a_long_name_9, s.m10, s.m11, s.member_with_a_long_name_12, s.m13, s.m14, s.member_with_a_long_name_15, s.m16, s.m17, s.member_with_a_long_name_18, s.m19, s.m20, s.member_with_a_long_name_21, s.m22, s.m23, s.member_with_a_long_name_24, s.m25, s.m26, s.member_with_a_long_name_27, s.m28, s.m29, s.member_with_a_long_name_30, s.m31, s.m32, s.member_with_a_long_name_33, s.m34, s.m35, s.member_with_a_long_name_36, s.m37, s.m38, s.member_with_a_long_name_39); } static std::vector<std::string> names() { return { "member_with_a_long_name_0", "m1", "m2", "member_with_a_long_name_3", "m4", "m5", "member_with_a_long_name_6", "m7", "m8", "member_with_a_long_name_9", "m10", "m11", "member_with_a_long_name_12", "m13", "m14", "member_with_a_long_name_15", "m16", "m17", "member_with_a_long_name_18", "m19", "m20", "member_with_a_long_name_21", "m22", "m23", "member_with_a_long_name_24", "m25", "m26", "member_with_a_long_name_27", "m28", "m29", "member_with_a_long_name_30", "m31", "m32", "member_with_a_long_name_33", "m34", "m35", "member_with_a_long_name_36", "m37", "m38", "member_with_a_long_name_39" }; } };
}
#define ALL_OPS(T) AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(T)
namespace { ALL_OPS(One) ALL_OPS(Two) ALL_OPS(Loose) ALL_OPS(Tight) ALL_OPS(Order) ALL_OPS(Derived) ALL_OPS(Hidden) ALL_OPS(Partly) ALL_OPS(Wide) }
AWL_HASHABLE(One) AWL_HASHABLE(Two) AWL_HASHABLE(Loose) AWL_HASHABLE(Tight) AWL_HASHABLE(Order) AWL_HASHABLE(Derived) AWL_HASHABLE(Hidden) AWL_HASHABLE(Partly) AWL_HASHABLE(Wide)
namespace
{
    // structures within structures
    struct Nest { Two two{}; int n{}; One one{}; AWL_REFLECT(two, n, one)
        template <class S> static auto hand(S& s) { return std::tie(s.two, s.n, s.one); } static std::vector<std::string> names() { return { "two", "n", "one" }; } };
    ALL_OPS(Nest)
}
AWL_HASHABLE(Nest)
namespace
{
    // values with many ties
    template <class T> void fill(T& v, vh::Rng& r, bool wild)
    {
        if constexpr (std::is_same_v<T, bool>) v = r.flip();
        else if constexpr (std::is_enum_v<T>) v = static_cast<T>(wild ? r.next() : r.below(2));
        else if constexpr (std::is_floating_point_v<T>) v = wild ? static_cast<T>(r.range(-1000000, 1000000)) / 3 : static_cast<T>(r.below(2));
        else if constexpr (std::is_integral_v<T>) v = static_cast<T>(wild ? r.next() : r.below(2));
        else if constexpr (std::is_same_v<T, std::string>) v = wild ? std::string(r.below(40), static_cast<char>('a' + r.below(3))) + static_cast<char>(r.next()) : r.pick({ "", "a", "b" });
        else if constexpr (std::is_same_v<T, std::vector<int>>) { v.clear(); for (size_t n = r.below(wild ? 6 : 2); n--;) { int x; fill(x, r, wild); v.push_back(x); } }
        else if constexpr (std::is_same_v<T, std::optional<int>>) { v.reset(); if (r.flip()) { int x; fill(x, r, wild); v = x; } }
        else std::apply([&](auto&... m) { (fill(m, r, wild), ...); }, T::hand(v));
    }
    template <class T> std::string text(const T& v)
    {
        if constexpr (std::is_same_v<T, std::string>) return "'" + v.substr(0, 20) + "'"; else if constexpr (std::is_enum_v<T>) return std::to_string(static_cast<int>(v)); else if constexpr (std::is_arithmetic_v<T>) return std::to_string(v);
        else if constexpr (std::is_same_v<T, std::vector<int>>) { std::string s = "["; for (int x : v) s += std::to_string(x) + " "; return s + "]"; } else if constexpr (std::is_same_v<T, std::optional<int>>) return v ? std::to_string(*v) : "none";
        else { std::string s = "{"; std::apply([&](const auto&... m) { ((s += text(m) + " "), ...); }, T::hand(v)); return s + "}"; }
    }
    template <class S, class F> void at_member(S& s, size_t k, F f) { std::apply([&](auto&... m) { size_t i = 0; ((i++ == k ? f(m) : void()), ...); }, S::hand(s)); }
    template <class S> struct Plain { using type = typename S::no; };

    template <class S> void members(Case& c, const char* name)
    {
        vh::Rng& r = c.rng; c.eval(); c.note(name); S s{}; fill(s, r, true); const S& cs = s;
        constexpr size_t N = std::tuple_size_v<decltype(S::hand(s))>; const auto want = S::names();
        // names
        const auto& ml = S::get_member_names(); VH_CHECK(c, ml.size() == want.size() && std::vector<std::string>(ml.begin(), ml.end()) == want && std::vector<std::string>(ml.cbegin(), ml.cend()) == want, "names", "%s has %zu names, expected %zu; the first is '%s'", name, ml.size(), want.size(), ml.size() ? ml[0].c_str() : "");
        auto finder = ml; for (size_t i = 0; i < N; ++i) VH_CHECK(c, ml[i] == want[i] && ml.find(want[i]) - ml.begin() == static_cast<long>(i) && ml.find_cstr(want[i].c_str()) - ml.begin() == static_cast<long>(i) && finder.find_index(want[i]) == i, "find", "%s: '%s' is not found at %zu", name, want[i].c_str(), i);
        for (const std::string& w : { std::string(), std::string("nothing"), want[0] + "_", want[0].substr(1), want[N - 1] + " ", " " + want[0], want[0] + "," }) if (std::find(want.begin(), want.end(), w) == want.end()) VH_CHECK(c, ml.find(w) == ml.end() && ml.find_cstr(w.c_str()) == ml.end() && finder.find_index(w) == awl::helpers::MemberList::NotAnIndex, "find_absent", "%s: '%s' is found", name, w.c_str());
        // access
        auto hand = S::hand(s); auto chand = S::hand(cs); auto t = s.as_tuple(); auto ct = cs.as_tuple(); auto cct = s.as_const_tuple(); auto ot = awl::object_as_tuple(s); auto oct = awl::object_as_const_tuple(s); auto octt = awl::object_as_tuple(cs);
        const bool types = std::is_same_v<decltype(t), decltype(hand)> && std::is_same_v<decltype(ct), decltype(chand)> && std::is_same_v<decltype(cct), decltype(chand)> && std::is_same_v<decltype(ot), decltype(hand)> && std::is_same_v<decltype(oct), decltype(chand)> && std::is_same_v<decltype(octt), decltype(chand)> && std::is_same_v<typename awl::tuplizable_traits<S>::Tie, decltype(hand)> && std::is_same_v<typename awl::tuplizable_traits<S>::ConstTie, decltype(chand)>;
        VH_CHECK(c, types && awl::is_tuplizable_v<S> && awl::is_reflectable_v<S> && awl::is_tuplizable_v<const S> && awl::is_reflectable<S>::value, "types", "%s: the types of its members are wrong", name);
        auto addresses = [](const auto& tuple) { std::vector<const void*> v; std::apply([&](const auto&... m) { (v.push_back(static_cast<const void*>(&m)), ...); }, tuple); return v; };
        const auto where = addresses(hand); VH_CHECK(c, addresses(t) == where && addresses(ct) == where && addresses(cct) == where && addresses(ot) == where && addresses(oct) == where && addresses(octt) == where, "addresses", "%s: a tuple does not refer to the members", name);
        // visiting
        std::vector<const void*> seen; std::vector<size_t> index; awl::for_each(t, [&](auto& m) { seen.push_back(static_cast<const void*>(&m)); }); VH_CHECK(c, seen == where, "for_each", "%s: %zu visits of %zu members", name, seen.size(), N);
        seen.clear(); const auto& ref_t = t; awl::for_each(ref_t, [&](auto& m) { seen.push_back(static_cast<const void*>(&m)); }); awl::for_each(cct, [&](const auto& m) { seen.push_back(static_cast<const void*>(&m)); }); auto twice = where; twice.insert(twice.end(), where.begin(), where.end()); VH_CHECK(c, seen == twice, "for_each", "%s: %zu visits of two times %zu members", name, seen.size(), N);
        seen.clear(); awl::for_each_index(t, [&](auto& m, auto i) { seen.push_back(static_cast<const void*>(&m)); index.push_back(i); }); awl::for_each_index(ref_t, [&](auto& m, auto i) { seen.push_back(static_cast<const void*>(&m)); index.push_back(decltype(i)::value); }); std::vector<size_t> idx; for (size_t k = 0; k < 2 * N; ++k) idx.push_back(k % N); VH_CHECK(c, seen == twice && index == idx, "for_each_index", "%s: wrong members or indices", name);
        { auto addr = awl::tuple_to_array(t, [](auto& m) { return static_cast<const void*>(&m); }); auto addr2 = awl::tuple_to_array(ref_t, [](auto& m) { return static_cast<const void*>(&m); }); VH_CHECK(c, std::vector<const void*>(addr.begin(), addr.end()) == where && addr2 == addr, "to_array", "%s", name); }
        { std::vector<const void*> got; auto tr = awl::transform_tuple(t, [](auto& m) { return std::pair<const void*, std::decay_t<decltype(m)>>(&m, m); }); bool same = true; std::apply([&](const auto&... p) { (got.push_back(p.first), ...); }, tr); std::multiset<const void*> calls; auto tr2 = awl::transform_tuple(ref_t, [&](auto& m) { calls.insert(&m); return m; }); std::apply([&](const auto&... v) { std::apply([&](const auto&... w) { ((same = same && v == w), ...); }, hand); }, tr2);
          VH_CHECK(c, got == where && same && calls == std::multiset<const void*>(where.begin(), where.end()), "transform", "%s: the transformed tuple does not match", name); }
        // comparison
        S x{}, y{}; fill(x, r, false); y = x; const size_t touched = r.below(4); for (size_t k = 0; k < touched; ++k) at_member(y, r.below(N), [&](auto& m) { fill(m, r, r.chance(1, 4)); });
        const auto hx = S::hand(std::as_const(x)), hy = S::hand(std::as_const(y)); const std::string both = fmt("%s %s and %s", name, text(x).substr(0, 300).c_str(), text(y).substr(0, 300).c_str());
        VH_CHECK(c, awl::objects_equal(x, y) == (hx == hy) && (x == y) == (hx == hy) && (x != y) == (hx != hy), "equal", "%s", both.c_str());
        VH_CHECK(c, awl::objects_less(x, y) == (hx < hy) && awl::objects_greater(x, y) == (hx > hy) && (x < y) == (hx < hy) && (x > y) == (hx > hy) && (x <= y) == (hx <= hy) && (x >= y) == (hx >= hy), "less", "%s", both.c_str());
        c.count(hx == hy ? "equal pairs" : "different pairs");
        // hashing
        const std::hash<S> h; const S copy = s; VH_CHECK(c, h(copy) == h(s) && h(s) == h(s), "hash_copy", "%s: a copy hashes otherwise: %s", name, text(s).c_str()); if (hx == hy) VH_CHECK(c, h(x) == h(y), "hash_equal", "equal values hash differently: %s", both.c_str());
        const size_t k = r.below(N); bool differs = false, changed = false; S z = s; for (int tries = 0; tries < 64 && !differs; ++tries) { at_member(z, k, [&](auto& m) { fill(m, r, true); }); if (!(S::hand(std::as_const(z)) == S::hand(cs))) { changed = true; differs = h(z) != h(s); VH_CHECK(c, !(z == s) && !awl::objects_equal(z, s) && (z < s) != (z > s), "changed", "%s: changing '%s' does not change the comparison", name, want[k].c_str()); } } VH_CHECK(c, !changed || differs, "hash_member", "%s: the hash does not depend on '%s'", name, want[k].c_str());
        std::unordered_set<S> set; std::vector<S> kept; for (int i = 0; i < 12; ++i) { S v{}; fill(v, r, false); const bool fresh = std::none_of(kept.begin(), kept.end(), [&](const S& o) { return S::hand(o) == S::hand(std::as_const(v)); }); VH_CHECK(c, set.insert(v).second == fresh, "set", "%s: %s in a hash set", name, text(v).c_str()); if (fresh) kept.push_back(v); } VH_CHECK(c, set.size() == kept.size(), "set", "%s", name);
        std::vector<S> va(kept), vb(kept); std::hash<std::vector<S>> hv; VH_CHECK(c, hv(va) == hv(vb), "hash_vector", "%s: equal vectors hash differently", name); if (va.size() > 1) { std::swap(vb[0], vb[1]); const bool order = hv(va) != hv(vb); vb = va; vb.pop_back(); const bool length = hv(va) != hv(vb); VH_CHECK(c, order || length, "hash_vector", "%s: the hash of a vector depends neither on its order nor on its length", name); }
        size_t seed = r.next(), expect = seed; awl::CombineHash(seed, s); size_t again = expect; awl::CombineHash(again, copy); VH_CHECK(c, seed == again, "combine", "%s", name);
        c.count("structures"); c.count("members", N); c.distinct(vh::hash_str(text(x), vh::hash_str(name))); if (c.want_sample()) c.sample(both);
    }
}
VH_CASE(structures, 8)
{
    c.iterate(c.n(1500, 40000), [&](uint64_t) { members<One>(c, "One"); members<Two>(c, "Two"); members<Loose>(c, "Loose"); members<Tight>(c, "Tight"); members<Order>(c, "Order"); members<Derived>(c, "Derived"); members<Hidden>(c, "Hidden"); members<Partly>(c, "Partly"); members<Wide>(c, "Wide"); members<Nest>(c, "Nest"); });
}

namespace
{
    template <class T> struct Box { T v; Box(const T& x) : v(x) {} Box() : v() {} }; template <size_t K> struct Numbered { static constexpr size_t k = K; std::string v; template <class T> Numbered(const T& x) : v(text(x)) {} Numbered() {} };
    struct Shape { virtual ~Shape() = default; virtual int id() const = 0; }; template <int K> struct Sh : Shape { int pad[K + 1]; int id() const override { return K; } }; struct Other { int o = 5; virtual ~Other() = default; }; struct Multi : Other, Sh<9> {};
    template <class A, class B> bool same_type() { return typeid(Box<A>*) == typeid(Box<B>*); }
    struct Counter { int calls = 0; template <class T> void operator()(const T&) { ++calls; } };
}
VH_CASE(tuples, 2)
{
    c.iterate(c.n(20000, 400000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; c.eval(); int i; std::string s; double d; bool b; std::vector<int> v; fill(i, r, true); fill(s, r, true); fill(d, r, true); fill(b, r, true); fill(v, r, true);
        std::tuple<int, std::string, double, bool, std::vector<int>> t(i, s, d, b, v); const auto ct = t; const std::tuple<> none; std::tuple<> mnone;
        // visiting tuples of values, empty ones and with a kept functor
        { Counter k; awl::for_each(t, k); awl::for_each(ct, k); VH_CHECK(c, k.calls == 10, "functor", "%d calls of a functor passed by reference", k.calls); int n = 0; awl::for_each(none, [&](const auto&) { ++n; }); awl::for_each(mnone, [&](auto&) { ++n; }); awl::for_each_index(none, [&](const auto&, auto) { ++n; }); VH_CHECK(c, n == 0 && awl::transform_tuple(none, [](const auto& x) { return x; }) == none, "empty", "%d visits of an empty tuple", n); }
        { awl::for_each_index(t, [&](auto& m, auto k) { if constexpr (std::is_same_v<std::decay_t<decltype(m)>, int>) m ^= static_cast<int>(k) + 1; else if constexpr (k == 1) m += "!"; }); VH_CHECK(c, std::get<0>(t) == (i ^ 1) && std::get<1>(t) == s + "!" && std::get<2>(t) == d && std::get<4>(t) == v, "written", "what a visitor stores is lost"); t = ct; }
        // transformations
        { auto q = awl::transform_t2t<Box>(ct); VH_CHECK(c, (std::is_same_v<decltype(q), std::tuple<Box<int>, Box<std::string>, Box<double>, Box<bool>, Box<std::vector<int>>>>) && std::get<0>(q).v == i && std::get<1>(q).v == s && std::get<2>(q).v == d && std::get<3>(q).v == b && std::get<4>(q).v == v, "t2t", "values differ"); }
        { auto q = awl::transform_t2ti<Numbered>(ct); VH_CHECK(c, (std::is_same_v<decltype(q), std::tuple<Numbered<0>, Numbered<1>, Numbered<2>, Numbered<3>, Numbered<4>>>) && std::get<0>(q).v == text(i) && std::get<1>(q).v == text(s) && std::get<2>(q).v == text(d) && std::get<3>(q).v == text(b) && std::get<4>(q).v == text(v), "t2ti", "values differ"); }
        { using V = std::variant<int, std::string, bool>; VH_CHECK(c, (std::is_same_v<decltype(awl::transform_v2t<V, Box>()), std::tuple<Box<int>, Box<std::string>, Box<bool>>>) && (std::is_same_v<decltype(awl::transform_v2ti<V, Numbered>()), std::tuple<Numbered<0>, Numbered<1>, Numbered<2>>>), "v2t", "wrong types"); }
        { auto a = awl::tuple_to_array(ct, [](const auto& m) { return text(m); }); VH_CHECK(c, a.size() == 5 && a[0] == text(i) && a[1] == text(s) && a[2] == text(d) && a[3] == text(b) && a[4] == text(v), "array", "values differ"); int order = 0; std::array<int, 5> got = awl::tuple_to_array(t, [&](auto&) { return order++; }); VH_CHECK(c, (got == std::array<int, 5>{ 0, 1, 2, 3, 4 }), "array_order", "not in order"); }
        { std::tuple<Sh<0>, Sh<1>, Multi, Sh<3>> shapes; auto a = awl::tuple_cast<Shape>(shapes); const auto& cs = shapes; auto ca = awl::tuple_cast<const Shape>(cs); const int ids[] = { 0, 1, 9, 3 }; bool ok = a.size() == 4 && ca.size() == 4; for (size_t k = 0; k < 4; ++k) ok = ok && a[k]->id() == ids[k] && ca[k] == a[k]; VH_CHECK(c, ok && a[0] == &std::get<0>(shapes) && a[2] == static_cast<Shape*>(&std::get<2>(shapes)), "cast", "a base pointer is wrong"); }
        // universal and similar tuples
        { const std::string& cr = s; auto u = awl::make_universal_tuple(i, cr, std::string(s), 5, v); VH_CHECK(c, (std::is_same_v<decltype(u), std::tuple<int&, const std::string&, std::string, int, std::vector<int>&>>) && &std::get<0>(u) == &i && &std::get<1>(u) == &s && std::get<2>(u) == s && &std::get<2>(u) != &s && std::get<3>(u) == 5 && &std::get<4>(u) == &v, "universal", "wrong types or references"); }
        { using T = std::tuple<int, std::string, double, Base>; Derived der; const Derived& cder = der; auto q = awl::make_similar_tuple<T>(i, "text", 7, der); auto w = awl::make_similar_tuple<T>(std::as_const(i), s, d, cder); VH_CHECK(c, (std::is_same_v<decltype(q), std::tuple<int&, std::string, double, Base&>>) && (std::is_same_v<decltype(w), std::tuple<const int&, std::string&, double&, const Base&>>) && &std::get<0>(q) == &i && std::get<1>(q) == "text" && std::get<2>(q) == 7 && &std::get<3>(q) == &der && &std::get<0>(w) == &i && &std::get<1>(w) == &s && &std::get<2>(w) == &d && &std::get<3>(w) == &der, "similar", "wrong types or references"); }
        // the places of types
        { using A = std::tuple<int, bool, std::string, double>; using V = std::variant<int, bool, std::string, double>; using F = std::tuple<std::string, double, int, int, bool, std::string&, const bool>; using G = std::tuple<std::string, double, int, int, bool, std::string&>; (void)sizeof(F); const std::array<size_t, 6> want{ 2, 3, 0, 0, 1, 2 }; VH_CHECK(c, (awl::map_types_t2t<G, A>() == want) && (awl::map_types_t2v<G, V>() == want) && (awl::find_tuple_type_v<bool, A> == 1) && (awl::find_tuple_type_v<double&, A> == 3) && (awl::find_variant_type_v<std::string&, V> == 2) && (awl::find_variant_type_v<int, V> == 0), "places", "wrong places"); VH_CHECK(c, awl::sizeof_tuple(std::tuple<int, char, double>()) == sizeof(int) + 1 + sizeof(double), "sizeof", "wrong size"); VH_CHECK(c, (std::is_same_v<awl::tuple_cat_t<std::tuple<int>, std::tuple<>, std::tuple<bool&, int>>, std::tuple<int, bool&, int>>) && (std::is_same_v<awl::tuple_make_t<int, bool&>, std::tuple<int, bool>>), "cat", "wrong types"); }
        // hashing of tuples
        { auto h = [](const auto& x) { return awl::GetTupleHash(x); }; VH_CHECK(c, h(std::tie(i, s, d)) == h(std::make_tuple(i, s, d)) && h(std::make_tuple(i)) == h(std::tie(i)), "tuple_hash", "a tuple of references hashes otherwise"); size_t same = 0; for (int k = 1; k < 9; ++k) same += h(std::make_tuple(1, 1 + k, 7)) == h(std::make_tuple(1 + k, 1, 7)); VH_CHECK(c, same < 8, "tuple_hash_order", "the hash does not depend on the order"); }
        // the hash of a sequence depends on each of its elements
        { std::vector<int> q; for (size_t n = 1 + r.below(60); n--;) { int x; fill(x, r, true); q.push_back(x); } const std::hash<std::vector<int>> hv; const size_t h0 = hv(q), k = r.below(q.size()); std::set<size_t> all; auto w = q; for (int j = 1; j <= 8; ++j) { w[k] = q[k] ^ (j * 0x01010101); all.insert(hv(w)); } VH_CHECK(c, hv(std::vector<int>(q)) == h0, "vector_hash_equal", "equal vectors of %zu hash differently", q.size()); VH_CHECK(c, all.size() > 1, "vector_hash", "the hash of a vector of %zu does not depend on its element %zu", q.size(), k); }
        // getters
        { Two two; two.a = i; two.b = s; struct Own { int n; int get() const { return n + 1; } const std::string& name() const { return nm; } std::string nm; } own{ 3, s }; auto g = awl::make_getter(&Two::a); auto gb = awl::make_getter(&Two::b); auto f = awl::make_getter(&Own::get); auto fr = awl::make_getter(&Own::name);
          VH_CHECK(c, g(two) == i && &gb(two) == &two.b && f(own) == 4 && &fr(own) == &own.nm && &(awl::tuplizable_getter<Two, 1>()(two)) == &two.b && (awl::tuplizable_getter<Two, 0>()(two)) == i && awl::getter<&Two::a>()(two) == i && &awl::getter<&Two::b>()(two) == &two.b, "getters", "a getter gives another value"); }
        { VH_CHECK(c, awl::object_address(i) == &i, "address", "of a value"); int* p = &i; auto sp = std::make_shared<int>(4); const auto csp = sp; auto up = std::make_unique<int>(6); int* null = nullptr; VH_CHECK(c, awl::object_address(p) == &i && awl::object_address(sp) == sp.get() && awl::object_address(csp) == sp.get() && awl::object_address(up) == up.get() && awl::object_address(null) == nullptr, "address", "of a pointer"); }
        c.count("tuples"); c.distinct(vh::hash_str(text(i) + text(s) + text(v))); if (c.want_sample()) c.sample(text(i) + " " + text(s) + " " + text(v));
    });
}

// What is known about types: as run-time comparisons, so that a wrong answer is a finding and not a compilation error.
namespace
{
    using namespace awl; using namespace awl::mp;
    template <class T> std::string tname() { const auto n = make_type_name<T>(); return std::string(n.begin(), n.end()); }
    struct Known { std::string name, want; uint64_t hash; };
    template <class T> Known known(const char* want) { return { tname<T>(), want, make_type_hash<T>() }; }
    struct In { bool x; int y; AWL_REFLECT(x, y) }; struct Mid { In a; double z; AWL_REFLECT(a, z) }; struct Out { std::string d; Mid b; In a; std::vector<std::string> e; AWL_REFLECT(d, b, a, e) };
    struct Deep { std::map<int, std::vector<In>> m; std::optional<Mid> o; std::shared_ptr<float> p; std::variant<In, char> v; std::set<uint64_t> s; std::array<int, 3> a3; std::array<std::string, 2> as; AWL_REFLECT(m, o, p, v, s, a3, as) };
    template <class T> struct is_small : std::bool_constant<(sizeof(T) < 4)> {};
    template <class A, class B> void type_is(Case& c, const char* what) { c.eval(); c.count("types"); VH_CHECK(c, (std::is_same_v<A, B>), "type", "%s is %s, must be %s", what, vh::type_name(typeid(Box<A>*)).c_str(), vh::type_name(typeid(Box<B>*)).c_str()); }
    template <class S, class V> struct Container : awl::io::PrototypeContainer<V> { using B = awl::io::PrototypeContainer<V>; using B::newPrototypes; using StructV = typename B::StructV; using FieldV = typename B::FieldV; static constexpr size_t count = std::variant_size_v<typename B::StructV>; static auto i2n() { return B::TypeMapBuilder::BuildI2nMap(); } static auto n2i() { return B::TypeMapBuilder::BuildN2iMap(); } Container() {} };
}
VH_CASE(descriptions, 1)
{
    c.iterate(1, [&](uint64_t)
    {
        const std::vector<Known> k =
        {
            known<bool>("int8_t"), known<char>("int8_t"), known<int8_t>("int8_t"), known<uint8_t>("int8_t"), known<int16_t>("int16_t"), known<uint16_t>("int16_t"), known<int32_t>("int32_t"), known<uint32_t>("int32_t"), known<int64_t>("int64_t"), known<uint64_t>("int64_t"), known<wchar_t>("int32_t"), known<float>("float32_t"), known<double>("float64_t"), known<long double>("float128_t"),
            known<std::string>("sequence<int8_t>"), known<std::wstring>("sequence<int32_t>"), known<std::vector<int>>("sequence<int32_t>"), known<std::vector<bool>>("sequence<int8_t>"), known<std::list<double>>("sequence<float64_t>"), known<std::set<std::string>>("sequence<sequence<int8_t>>"), known<std::map<int, std::string>>("sequence<pair<int32_t, sequence<int8_t>>>"), known<std::unordered_map<uint64_t, char>>("sequence<pair<int64_t, int8_t>>"), known<std::deque<std::vector<std::list<char>>>>("sequence<sequence<sequence<int8_t>>>"), known<std::multiset<float>>("sequence<float32_t>"),
            known<std::pair<int, double>>("pair<int32_t, float64_t>"), known<std::pair<const int, double>>("pair<int32_t, float64_t>"), known<std::pair<std::pair<char, char>, std::string>>("pair<pair<int8_t, int8_t>, sequence<int8_t>>"), known<std::optional<int>>("optional<int32_t>"), known<std::optional<std::optional<std::string>>>("optional<optional<sequence<int8_t>>>"), known<std::atomic<int64_t>>("int64_t"), known<std::atomic<bool>>("int8_t"),
            known<std::array<int, 1>>("array<int32_t, 1>"), known<std::array<int, 9>>("array<int32_t, 9>"), known<std::array<int, 10>>("array<int32_t, 10>"), known<std::array<int, 99>>("array<int32_t, 99>"), known<std::array<int, 100>>("array<int32_t, 100>"), known<std::array<char, 1024>>("array<int8_t, 1024>"), known<std::array<char, 65536>>("array<int8_t, 65536>"), known<std::array<std::array<float, 3>, 20>>("array<array<float32_t, 3>, 20>"), known<std::array<std::string, 7>>("array<sequence<int8_t>, 7>"), known<std::array<int, 0>>("array<int32_t, 0>"),
            known<In>("struct"), known<Deep>("struct"), known<std::vector<In>>("sequence<struct>"), known<std::optional<Mid>>("optional<struct>"), known<std::variant<int>>("variant<int32_t, >"), known<std::variant<int, In, std::string>>("variant<int32_t, struct, sequence<int8_t>, >"), known<std::variant<std::string, int>>("variant<sequence<int8_t>, int32_t, >"),
            known<std::shared_ptr<int>>("pointer<int32_t>"), known<std::unique_ptr<int>>("pointer<int32_t>"), known<int*>("pointer<int32_t>"), known<std::shared_ptr<In>>("pointer<struct>"), known<Colour>("int16_t"), known<std::chrono::system_clock::time_point>("int64_t"), known<std::chrono::time_point<std::chrono::steady_clock, std::chrono::seconds>>("int64_t"),
            known<awl::decimal<uint64_t, 4>>("decimal"), known<awl::decimal<uint64_t, 5>>("decimal<int64_t, 5>"), known<awl::decimal<uint32_t, 4>>("decimal<int32_t, 4>"), known<awl::decimal<uint64_t, 10>>("decimal<int64_t, 10>"),
        };
        for (auto& x : k) { c.eval(); VH_CHECK(c, x.name == x.want, "name", "a type is described as '%s', must be '%s'", x.name.c_str(), x.want.c_str()); c.distinct(vh::hash_str(x.name)); c.count("descriptions"); }
        for (auto& x : k) for (auto& y : k) { VH_CHECK(c, (x.hash == y.hash) == (x.name == y.name), "hash", "the hashes of '%s' and '%s' are %s", x.name.c_str(), y.name.c_str(), x.hash == y.hash ? "equal" : "different"); c.count("hash pairs"); }
        c.sample(k[20].name + ", " + k.back().name);
        // the types a structure is made of
        type_is<type_collector<In>::Tuple, std::tuple<In, bool, int>>(c, "the types of In"); type_is<type_collector<Mid>::Tuple, std::tuple<Mid, In, bool, int, double>>(c, "the types of Mid"); type_is<type_collector<Out>::Tuple, std::tuple<Out, std::string, Mid, In, bool, int, double, In, bool, int, std::vector<std::string>, std::string>>(c, "the types of Out");
        type_is<type_collector<Deep>::Tuple, std::tuple<Deep, std::map<int, std::vector<In>>, int, std::vector<In>, In, bool, int, std::optional<Mid>, Mid, In, bool, int, double, std::shared_ptr<float>, float, std::variant<In, char>, In, bool, int, char, std::set<uint64_t>, uint64_t, std::array<int, 3>, std::array<std::string, 2>, std::string>>(c, "the types of Deep");
        type_is<variant_from_struct<Deep>, std::variant<Deep, std::map<int, std::vector<In>>, int, std::vector<In>, In, bool, std::optional<Mid>, Mid, double, std::shared_ptr<float>, float, std::variant<In, char>, char, std::set<uint64_t>, uint64_t, std::array<int, 3>, std::array<std::string, 2>, std::string>>(c, "the variant of Deep");
        type_is<variant_from_structs<In, Mid, In>, std::variant<In, bool, int, Mid, double>>(c, "the variant of In and Mid"); type_is<tuple_to_variant<std::tuple<int, int, bool, int, char, bool>>, std::variant<int, bool, char>>(c, "a variant without duplicates"); type_is<tuple_to_variant<std::tuple<>>, std::variant<>>(c, "an empty variant");
        using S = split_variant<std::variant<char, int, bool, double, short, long>, is_small>; type_is<S::matching, std::variant<char, bool, short>>(c, "the matching part"); type_is<S::non_matching, std::variant<int, double, long>>(c, "the other part"); type_is<filter_variant<std::variant<int, In, Mid>, is_reflectable>, std::variant<In, Mid>>(c, "the structures"); type_is<split_variant<std::variant<int>, is_small>::matching, std::variant<std::monostate>>(c, "an empty part"); type_is<split_variant<std::variant<char>, is_small>::non_matching, std::variant<std::monostate>>(c, "an empty part");
        VH_CHECK(c, (variant_contains<std::variant<int, In>, In>) && !(variant_contains<std::variant<int, In>, Mid>) && !(variant_contains<std::variant<int, In>, const int>), "contains", "variant_contains");
        // flat positions
        using awl::io::countof_fields; using awl::io::indexof_type; using awl::io::no_type_index;
        VH_CHECK(c, countof_fields<In>() == 2 && countof_fields<Mid>() == 3 && countof_fields<Out>() == 7 && countof_fields<int>() == 1 && countof_fields<Wide>() == 40, "count", "fields are counted wrong"); VH_CHECK(c, (indexof_type<Out, std::string>() == 0) && (indexof_type<Out, bool>() == 1) && (indexof_type<Out, int>() == 2) && (indexof_type<Out, double>() == 3) && (indexof_type<Out, std::vector<std::string>>() == 6) && (indexof_type<Out, float>() == no_type_index) && (indexof_type<Mid, double>() == 2) && (indexof_type<int, int>() == 0) && (indexof_type<int, bool>() == no_type_index) && (indexof_type<Wide, std::optional<int>>() == 7), "index", "a field has another index");
        // functions
        auto l0 = [](int, std::string&) { return 2.0; }; auto l1 = [](const Two& x) -> const std::string& { return x.b; }; auto l2 = [] { return true; }; using F0 = function_traits<decltype(l0)>; using F1 = function_traits<decltype(l1)>; using F2 = function_traits<decltype(l2)>; VH_CHECK(c, F0::arity == 2 && F1::arity == 1 && F2::arity == 0, "arity", "wrong"); type_is<F0::result_type, double>(c, "a result"); type_is<F0::arg<1>::type, std::string&>(c, "an argument"); type_is<F0::arg<0>::type, int>(c, "an argument"); type_is<F1::result_type, const std::string&>(c, "a result"); type_is<F1::arg<0>::type, const Two&>(c, "an argument"); type_is<F2::result_type, bool>(c, "a result");
        // traits
        VH_CHECK(c, (is_specialization_v<std::vector<int>, std::vector>) && !(is_specialization_v<std::vector<int>, std::list>) && is_smart_pointer_v<std::shared_ptr<int>> && is_smart_pointer_v<std::unique_ptr<int>> && !is_smart_pointer_v<int*> && is_plain_pointer_v<int*> && !is_plain_pointer_v<int> && is_pointer_v<int*> && is_pointer_v<std::unique_ptr<int>> && !is_pointer_v<std::optional<int>> && is_copyable_pointer_v<int*> && is_copyable_pointer_v<std::shared_ptr<int>> && !is_copyable_pointer_v<std::unique_ptr<int>>, "traits", "a trait is wrong"); type_is<remove_pointer_t<std::shared_ptr<int>>, int>(c, "a pointee"); type_is<remove_pointer_t<std::unique_ptr<In>>, In>(c, "a pointee"); type_is<remove_pointer_t<int* const>, int>(c, "a pointee"); type_is<remove_pointer_t<double>, double>(c, "no pointee");
        VH_CHECK(c, !is_reflectable_v<int> && !is_tuplizable_v<std::string> && !is_reflectable_v<std::vector<In>> && is_reflectable_v<awl::EmptyStringizable> && awl::EmptyStringizable::get_member_names().size() == 0 && std::tuple_size_v<decltype(awl::EmptyStringizable().as_tuple())> == 0, "reflectable", "wrong");
    });
}

// Prototypes list the names and types of the fields of a structure.
VH_CASE(prototypes, 1)
{
    c.iterate(c.n(3000, 60000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; c.eval(); using V = std::variant<bool, std::string, int, double, std::vector<std::string>>; using FC = awl::DetachedPrototype::FieldContainer;
        const awl::AttachedPrototype<V, Out> out; const awl::AttachedPrototype<V, Mid> mid; const awl::AttachedPrototype<V, In> in; const size_t no = awl::Field::NoType;
        auto list = [](const awl::Prototype& p) { std::vector<std::pair<std::string, size_t>> v; for (size_t i = 0; i < p.GetCount(); ++i) { auto f = p.GetField(i); v.emplace_back(std::string(f.name), f.type); } return v; }; using L = std::vector<std::pair<std::string, size_t>>;
        VH_CHECK(c, (list(out) == L{ { "d", 1 }, { "b", no }, { "a", no }, { "e", 4 } }) && (list(mid) == L{ { "a", no }, { "z", 3 } }) && (list(in) == L{ { "x", 0 }, { "y", 2 } }), "attached", "a prototype lists other fields");
        awl::DetachedPrototype dout{ static_cast<const awl::Prototype&>(out) }, dmid{ static_cast<const awl::Prototype&>(mid) }; VH_CHECK(c, list(dout) == list(out) && list(dmid) == list(mid) && !(dout == dmid) && dout != dmid, "detached", "a copy lists other fields");
        std::vector<FC> fields; L want; for (size_t n = r.below(6); n--;) { want.emplace_back(std::string(1 + r.below(30), static_cast<char>('a' + r.below(3))), r.chance(1, 4) ? no : r.below(5)); fields.push_back({ want.back().first, want.back().second }); } awl::DetachedPrototype d(fields), e(d), f; VH_CHECK(c, list(d) == want && list(e) == want && d == e && !(d != e), "list", "a prototype of %zu fields lists others", want.size()); f = d; VH_CHECK(c, f == d, "assign", "differs");
        if (!want.empty()) { const size_t k = r.below(want.size()); if (want[k].second != no) { const size_t t = r.below(9); e.SetFieldType(k, t); auto w = want; w[k].second = t; VH_CHECK(c, list(e) == w && (e == d) == (t == want[k].second) && list(d) == want, "set_type", "field %zu", k); } auto g = fields; g[k].name += "x"; VH_CHECK(c, awl::DetachedPrototype(g) != d && !(awl::DetachedPrototype(g) == d), "names_differ", "prototypes with other names are equal"); const auto x = d.GetField(k), y = f.GetField(k); VH_CHECK(c, x == y && !(x != y) && (want.size() < 2 || (d.GetField(0) == d.GetField(want.size() - 1)) == (want.front() == want.back())), "field_equal", "fields"); }
        if (r.chance(1, 20))
        {
            using DV = awl::mp::variant_from_struct<Deep>; Container<Deep, DV> k; using K = decltype(k); VH_CHECK(c, K::count == 3 && k.newPrototypes.size() == 3, "container", "%zu structures", K::count); auto i2n = K::i2n(); auto n2i = K::n2i(); VH_CHECK(c, i2n.size() == std::variant_size_v<K::FieldV>, "type_names", "%zu names", i2n.size()); for (auto& p : n2i) VH_CHECK(c, p.second < i2n.size() && i2n[p.second] == p.first, "type_names", "'%s'", p.first.c_str());
            for (auto* p : k.newPrototypes) { std::vector<std::string> names; for (auto& x : list(*p)) names.push_back(x.first); const bool known_ = names == std::vector<std::string>{ "m", "o", "p", "v", "s", "a3", "as" } || names == std::vector<std::string>{ "x", "y" } || names == std::vector<std::string>{ "a", "z" }; VH_CHECK(c, known_, "container_names", "%zu names", names.size()); }
            VH_CHECK(c, &k.template FindNewPrototype<Deep>() == k.newPrototypes[0] && list(k.template FindNewPrototype<In>()) == (L{ { "x", awl::find_variant_type_v<bool, K::FieldV> }, { "y", awl::find_variant_type_v<int, K::FieldV> } }) && list(k.template FindNewPrototype<Mid>())[1].first == "z", "container_find", "another prototype"); c.count("containers");
        }
        c.count("prototypes", 4); uint64_t h = 1; for (auto& w : want) h = vh::hash_str(w.first, h ^ w.second); c.distinct(h); if (c.want_sample()) c.sample(fmt("%zu fields", want.size()));
    });
}
VH_MAIN()
