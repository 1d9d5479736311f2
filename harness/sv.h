// Shared by the serialization harnesses: random values of every supported type, an equality of its own
// (floating point and decimals compare as bits), damage of encoded bytes.
#pragma once
#include "hs.h"
#include "Awl/Io/Vts.h"
#include "Awl/Io/PlainReader.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/VersionTolerantSerializable.h"
#include "Awl/Io/HashingSerializable.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/MeasureStream.h"
#include "Awl/Decimal.h"
#include "Awl/BitMap.h"
#include "Awl/EnumTraits.h"
#include "Awl/KeyCompare.h"

#include <deque>
#include <set>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <optional>
#include <variant>
#include <bitset>
#include <array>
#include <chrono>
#include <atomic>
#include <sstream>

namespace sv
{
    using hs::Bytes;
    enum class Plain8 : uint8_t { a, b = 7, c = 255 };
    enum class Plain32 : int32_t { a = -5, b, c = 2000000000 };
    AWL_SEQUENTIAL_ENUM(Seq, First, Second, Third, Fourth, Fifth)
}
AWL_ENUM_TRAITS(sv, Seq)

namespace sv
{
    template <class T> struct G; // static T make(vh::Rng&, unsigned depth); static bool eq(const T&, const T&)
    template <class T> T make(vh::Rng& r, unsigned depth = 3) { return G<T>::make(r, depth); }
    template <class T> bool eq(const T& a, const T& b) { return G<T>::eq(a, b); }

    inline size_t len(vh::Rng& r, unsigned depth) { const size_t cap = depth >= 3 ? 12 : depth == 2 ? 5 : 3; switch (r.below(6)) { case 0: return 0; case 1: return 1; case 2: return depth >= 3 && r.chance(1, 6) ? 40 + r.below(300) : cap; default: return r.below(cap + 1); } }

    template <class T> requires (std::is_arithmetic_v<T> && !std::is_same_v<T, bool>) struct G<T>
    {
        static T make(vh::Rng& r, unsigned)
        {
            T v{}; unsigned char b[sizeof(T)] = {};
            switch (r.below(4)) { case 0: v = static_cast<T>(r.below(5)); return v; case 1: v = std::numeric_limits<T>::max(); return v; case 2: v = std::numeric_limits<T>::lowest(); return v; default: break; }
            for (auto& x : b) x = static_cast<unsigned char>(r.next());
            memcpy(&v, b, sizeof v); return v;
        }
        static bool eq(const T& a, const T& b) { return memcmp(&a, &b, sizeof a) == 0; }
    };
    template <> struct G<bool> { static bool make(vh::Rng& r, unsigned) { return r.flip(); } static bool eq(bool a, bool b) { return a == b; } };
    template <> struct G<Plain8> { static Plain8 make(vh::Rng& r, unsigned) { return r.pick({ Plain8::a, Plain8::b, Plain8::c }); } static bool eq(Plain8 a, Plain8 b) { return a == b; } };
    template <> struct G<Plain32> { static Plain32 make(vh::Rng& r, unsigned) { return r.pick({ Plain32::a, Plain32::b, Plain32::c }); } static bool eq(Plain32 a, Plain32 b) { return a == b; } };
    template <> struct G<Seq> { static Seq make(vh::Rng& r, unsigned) { return static_cast<Seq>(r.below(5)); } static bool eq(Seq a, Seq b) { return a == b; } };
    template <class Ch> struct G<std::basic_string<Ch>>
    {
        using T = std::basic_string<Ch>;
        static T make(vh::Rng& r, unsigned d) { T s; size_t n = len(r, d) * (r.chance(1, 4) ? 4 : 1); for (size_t i = 0; i < n; ++i) s.push_back(r.chance(1, 8) ? Ch(0) : sv::make<Ch>(r)); return s; }
        static bool eq(const T& a, const T& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size() * sizeof(Ch)) == 0; }
    };
    template <> struct G<std::vector<bool>>
    {
        using T = std::vector<bool>;
        static T make(vh::Rng& r, unsigned d) { T v(len(r, d) + (r.chance(1, 4) ? 8 * r.below(4) : 0)); for (size_t i = 0; i < v.size(); ++i) v[i] = r.flip(); return v; }
        static bool eq(const T& a, const T& b) { return a == b; }
    };
    template <class S> struct SeqG
    {
        using E = typename S::value_type;
        static S make(vh::Rng& r, unsigned d) { S v; size_t n = len(r, d); for (size_t i = 0; i < n; ++i) v.push_back(sv::make<E>(r, d ? d - 1 : 0)); return v; }
        static bool eq(const S& a, const S& b) { if (a.size() != b.size()) return false; auto i = a.begin(); auto j = b.begin(); for (; i != a.end(); ++i, ++j) if (!sv::eq<E>(*i, *j)) return false; return true; }
    };
    template <class E> requires (!std::is_same_v<E, bool>) struct G<std::vector<E>> : SeqG<std::vector<E>> {};
    template <class E> struct G<std::deque<E>> : SeqG<std::deque<E>> {};
    template <class E, size_t N> struct G<std::array<E, N>>
    {
        using T = std::array<E, N>;
        static T make(vh::Rng& r, unsigned d) { T v{}; for (auto& e : v) e = sv::make<E>(r, d ? d - 1 : 0); return v; }
        static bool eq(const T& a, const T& b) { for (size_t i = 0; i < N; ++i) if (!sv::eq<E>(a[i], b[i])) return false; return true; }
    };
    template <class S> struct SetG
    {
        using E = typename S::value_type;
        static S make(vh::Rng& r, unsigned d) { S v; size_t n = len(r, d); for (size_t i = 0; i < n; ++i) v.insert(sv::make<E>(r, d ? d - 1 : 0)); return v; }
        static bool eq(const S& a, const S& b) { if (a.size() != b.size()) return false; auto i = a.begin(); auto j = b.begin(); for (; i != a.end(); ++i, ++j) if (!sv::eq<E>(*i, *j)) return false; return true; }
    };
    template <class E, class C> struct G<std::set<E, C>> : SetG<std::set<E, C>> {};
    template <class E, class C> struct G<awl::vector_set<E, C>> : SetG<awl::vector_set<E, C>> {};
    template <class E, class C> struct G<awl::observable_set<E, C>> : SetG<awl::observable_set<E, C>> {};
    template <class E> struct G<std::unordered_set<E>>
    {
        using T = std::unordered_set<E>;
        static T make(vh::Rng& r, unsigned d) { T v; size_t n = len(r, d); for (size_t i = 0; i < n; ++i) v.insert(sv::make<E>(r, d ? d - 1 : 0)); return v; }
        static bool eq(const T& a, const T& b) { return a == b; }
    };
    template <class K, class V, class C> struct G<std::map<K, V, C>>
    {
        using T = std::map<K, V, C>;
        static T make(vh::Rng& r, unsigned d) { T v; size_t n = len(r, d); for (size_t i = 0; i < n; ++i) v.emplace(sv::make<K>(r, d ? d - 1 : 0), sv::make<V>(r, d ? d - 1 : 0)); return v; }
        static bool eq(const T& a, const T& b) { if (a.size() != b.size()) return false; auto i = a.begin(); auto j = b.begin(); for (; i != a.end(); ++i, ++j) if (!sv::eq<K>(i->first, j->first) || !sv::eq<V>(i->second, j->second)) return false; return true; }
    };
    template <class K, class V> struct G<std::unordered_map<K, V>>
    {
        using T = std::unordered_map<K, V>;
        static T make(vh::Rng& r, unsigned d) { T v; size_t n = len(r, d); for (size_t i = 0; i < n; ++i) v.emplace(sv::make<K>(r, d ? d - 1 : 0), sv::make<V>(r, d ? d - 1 : 0)); return v; }
        static bool eq(const T& a, const T& b) { if (a.size() != b.size()) return false; for (auto& p : a) { auto j = b.find(p.first); if (j == b.end() || !sv::eq<V>(p.second, j->second)) return false; } return true; }
    };
    template <class E> struct G<std::optional<E>>
    {
        using T = std::optional<E>;
        static T make(vh::Rng& r, unsigned d) { if (r.chance(1, 3)) return {}; return T(sv::make<E>(r, d ? d - 1 : 0)); }
        static bool eq(const T& a, const T& b) { return a.has_value() == b.has_value() && (!a || sv::eq<E>(*a, *b)); }
    };
    template <class E> struct G<std::shared_ptr<E>>
    {
        using T = std::shared_ptr<E>;
        static T make(vh::Rng& r, unsigned d) { if (r.chance(1, 3)) return {}; return std::make_shared<E>(sv::make<E>(r, d ? d - 1 : 0)); }
        static bool eq(const T& a, const T& b) { return !a == !b && (!a || sv::eq<E>(*a, *b)); }
    };
    template <class E> struct G<std::unique_ptr<E>>
    {
        using T = std::unique_ptr<E>;
        static T make(vh::Rng& r, unsigned d) { if (r.chance(1, 3)) return {}; return std::make_unique<E>(sv::make<E>(r, d ? d - 1 : 0)); }
        static bool eq(const T& a, const T& b) { return !a == !b && (!a || sv::eq<E>(*a, *b)); }
    };
    template <class... E> struct G<std::variant<E...>>
    {
        using T = std::variant<E...>;
        template <size_t... I> static T make_at(size_t k, vh::Rng& r, unsigned d, std::index_sequence<I...>) { T v; ((I == k ? (void)v.template emplace<I>(sv::make<std::variant_alternative_t<I, T>>(r, d)) : void()), ...); return v; }
        static T make(vh::Rng& r, unsigned d) { return make_at(r.below(sizeof...(E)), r, d ? d - 1 : 0, std::index_sequence_for<E...>()); }
        template <size_t... I> static bool eq_at(const T& a, const T& b, std::index_sequence<I...>) { bool ok = true; ((I == a.index() ? (void)(ok = sv::eq(std::get<I>(a), std::get<I>(b))) : void()), ...); return ok; }
        static bool eq(const T& a, const T& b) { return a.index() == b.index() && eq_at(a, b, std::index_sequence_for<E...>()); }
    };
    template <size_t N> struct G<std::bitset<N>>
    {
        using T = std::bitset<N>;
        static T make(vh::Rng& r, unsigned) { T v; for (size_t i = 0; i < N; ++i) v[i] = r.flip(); return v; }
        static bool eq(const T& a, const T& b) { return a == b; }
    };
    template <> struct G<awl::bitmap<Seq>>
    {
        using T = awl::bitmap<Seq>;
        static T make(vh::Rng& r, unsigned) { T v; for (unsigned i = 0; i < 5; ++i) v.set(static_cast<Seq>(i), r.flip()); return v; }
        static bool eq(const T& a, const T& b) { for (unsigned i = 0; i < 5; ++i) if (a.test(static_cast<Seq>(i)) != b.test(static_cast<Seq>(i))) return false; return true; }
    };
    template <class Cl, class D> struct G<std::chrono::time_point<Cl, D>>
    {
        using T = std::chrono::time_point<Cl, D>;
        // Every instant that nanoseconds in 64 bits and the clock's own unit can both represent.
        static T make(vh::Rng& r, unsigned) { using namespace std::chrono; int64_t ns = r.chance(1, 4) ? r.range(-3, 3) : r.chance(1, 4) ? r.pick({ std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min() }) : static_cast<int64_t>(r.next()); return T(duration_cast<D>(nanoseconds(ns))); }
        static bool eq(const T& a, const T& b) { return a == b; }
    };
    template <class U, uint8_t e, template <typename, uint8_t> class Dt> struct G<awl::decimal<U, e, Dt>>
    {
        using T = awl::decimal<U, e, Dt>;
        static T make(vh::Rng& r, unsigned)
        {
            U u = static_cast<U>(r.next()); if (sizeof(U) > 8) u = static_cast<U>((u << 32) << 32) | static_cast<U>(r.next());
            if (r.chance(1, 4)) u = static_cast<U>(r.below(100)); return T::from_bits(u);
        }
        static bool eq(const T& a, const T& b) { return a.to_bits() == b.to_bits(); }
    };
    template <class E> struct G<std::atomic<E>> { static bool eq(const std::atomic<E>& a, const std::atomic<E>& b) { return sv::eq<E>(a.load(), b.load()); } };

    // Structures: memberwise, through a list of member pointers written out by hand (SV_MEMBERS).
    template <class T> concept has_members = requires { T::members(); };
    template <class T> requires has_members<T> struct G<T>
    {
        template <class M> static void one(T& t, M T::* p, vh::Rng& r, unsigned d) { t.*p = sv::make<M>(r, d ? d - 1 : 0); }
        static T make(vh::Rng& r, unsigned d) { T t{}; std::apply([&](auto... p) { (one(t, p, r, d), ...); }, T::members()); return t; }
        template <class M> static bool same(const T& a, const T& b, M T::* p) { return sv::eq<M>(a.*p, b.*p); }
        static bool eq(const T& a, const T& b) { return std::apply([&](auto... p) { return (same(a, b, p) && ...); }, T::members()); }
    };

    // ---- structures of the harnesses
    struct Leaf { int a = 1; std::string s; double d = 0; AWL_REFLECT(a, s, d) static auto members() { return std::make_tuple(&Leaf::a, &Leaf::s, &Leaf::d); } };
    inline bool operator<(const Leaf& x, const Leaf& y) { return x.a < y.a; }
    struct Tup { uint16_t x = 0; std::vector<std::string> v; AWL_TUPLIZABLE(x, v) static auto members() { return std::make_tuple(&Tup::x, &Tup::v); } };
    struct Defaults
    {
        std::set<int> s{ 1, 2 }; std::optional<int> o{ 5 }; std::deque<int> d{ 7 }; std::map<int, std::string> m{ { 1, "x" } }; std::shared_ptr<int> p = std::make_shared<int>(3); std::vector<int> v{ 1, 2, 3 }; std::string t = "default"; std::unordered_set<int> u{ 9 }; std::unordered_map<int, int> um{ { 4, 4 } }; std::variant<int, std::string> var = std::string("v");
        AWL_REFLECT(s, o, d, m, p, v, t, u, um, var)
        static auto members() { return std::make_tuple(&Defaults::s, &Defaults::o, &Defaults::d, &Defaults::m, &Defaults::p, &Defaults::v, &Defaults::t, &Defaults::u, &Defaults::um, &Defaults::var); }
    };
    struct Node { Leaf leaf; std::vector<Leaf> leaves; std::map<std::string, Leaf> named; std::optional<Leaf> opt; std::variant<int, Leaf, std::string> var; std::set<Leaf> set; bool flag = false;
        AWL_REFLECT(leaf, leaves, named, opt, var, set, flag) static auto members() { return std::make_tuple(&Node::leaf, &Node::leaves, &Node::named, &Node::opt, &Node::var, &Node::set, &Node::flag); } };
    struct Deep { std::vector<Node> nodes; std::map<int, std::vector<std::optional<Node>>> m; std::array<Leaf, 3> a; Tup t; Defaults d; std::shared_ptr<Node> p; Seq e = Seq::First; Plain32 f = Plain32::a; awl::decimal<uint64_t, 4> dec; std::chrono::system_clock::time_point tp; 
        AWL_REFLECT(nodes, m, a, t, d, p, e, f, dec, tp) static auto members() { return std::make_tuple(&Deep::nodes, &Deep::m, &Deep::a, &Deep::t, &Deep::d, &Deep::p, &Deep::e, &Deep::f, &Deep::dec, &Deep::tp); } };

    // Declared for set/map keys that are not totally ordered by operator<.
    struct ByBits { bool operator()(double a, double b) const { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x < y; } };

    // The list of plain types every harness runs over: f.template operator()<T>("name").
#define SV_T(...) f.template operator()<__VA_ARGS__>(#__VA_ARGS__)
    template <class F> void scalars(F f)
    {
        SV_T(bool); SV_T(char); SV_T(signed char); SV_T(uint8_t); SV_T(int16_t); SV_T(uint16_t); SV_T(int); SV_T(unsigned); SV_T(int64_t); SV_T(uint64_t); SV_T(long long); SV_T(float); SV_T(double); SV_T(wchar_t); SV_T(char16_t); SV_T(char32_t); SV_T(char8_t);
        SV_T(Plain8); SV_T(Plain32); SV_T(Seq);
        SV_T(awl::decimal<uint64_t, 4>); SV_T(awl::decimal<uint64_t, 5>); SV_T(awl::decimal<uint32_t, 4>);
        SV_T(std::chrono::system_clock::time_point); SV_T(std::chrono::steady_clock::time_point); SV_T(std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>); SV_T(std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds>);
        SV_T(awl::bitmap<Seq>); SV_T(std::bitset<1>); SV_T(std::bitset<8>); SV_T(std::bitset<67>);
    }
    template <class F> void sequences(F f)
    {
        SV_T(std::string); SV_T(std::wstring); SV_T(std::u16string); SV_T(std::u32string);
        SV_T(std::vector<uint8_t>); SV_T(std::vector<int64_t>); SV_T(std::vector<double>); SV_T(std::vector<bool>); SV_T(std::vector<std::string>); SV_T(std::vector<std::vector<uint16_t>>); SV_T(std::vector<std::vector<bool>>);
        SV_T(std::array<int, 5>); SV_T(std::array<bool, 11>); SV_T(std::array<std::string, 3>); SV_T(std::array<std::vector<char>, 2>);
        SV_T(std::deque<int>); SV_T(std::deque<std::string>); SV_T(std::vector<std::optional<int>>); SV_T(std::vector<Leaf>); SV_T(std::deque<Tup>);
    }
    template <class F> void collections(F f)
    {
        SV_T(std::set<int>); SV_T(std::set<std::string>); SV_T(std::set<double, ByBits>); SV_T(std::set<std::vector<int>>); SV_T(std::map<int, std::string>); SV_T(std::map<std::string, std::vector<int>>); SV_T(std::map<std::string, std::map<int, bool>>);
        SV_T(std::unordered_set<int>); SV_T(std::unordered_set<std::string>); SV_T(std::unordered_map<std::string, int>); SV_T(std::unordered_map<int, std::set<int>>);
        SV_T(awl::vector_set<int>); SV_T(awl::vector_set<std::string>); SV_T(awl::observable_set<int>); SV_T(awl::vector_set<int, std::greater<>>);
    }
    template <class F> void composites(F f)
    {
        SV_T(std::optional<int>); SV_T(std::optional<std::string>); SV_T(std::optional<std::vector<std::optional<bool>>>); SV_T(std::variant<int, std::string, bool>); SV_T(std::variant<std::vector<int>, std::variant<char, double>, std::optional<std::string>>);
        SV_T(std::shared_ptr<std::string>); SV_T(std::unique_ptr<int>); SV_T(std::shared_ptr<std::vector<Leaf>>);
        SV_T(Leaf); SV_T(Tup); SV_T(Defaults); SV_T(Node); SV_T(Deep); SV_T(std::vector<Deep>);
    }
#undef SV_T
}
