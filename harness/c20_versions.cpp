// C20: data written by one version of a family of structures and read by another. The conversion every family promises is
// spelled out field by field in gen/vts_K.h (the generator knows which field became which); the monitor compares the
// structure that was read with the one that had to come out, member by member, and what was left in the stream.
#include "sv.h"

namespace sv
{
    // ADL finds conv(const From&, To&) for the structures of two versions.
    template <class A, class B> void cv(const A& a, B& b);
    template <class T> struct is_vec : std::false_type {}; template <class T> struct is_vec<std::vector<T>> : std::true_type {};
    template <class T> struct is_opt : std::false_type {}; template <class T> struct is_opt<std::optional<T>> : std::true_type {};
    template <class T> struct is_ptr : std::false_type {}; template <class T> struct is_ptr<std::shared_ptr<T>> : std::true_type {};
    template <class T> struct is_var : std::false_type {}; template <class... T> struct is_var<std::variant<T...>> : std::true_type {};
    template <class T> struct is_arr : std::false_type {}; template <class T, size_t N> struct is_arr<std::array<T, N>> : std::true_type {};
    template <class T> struct is_bits : std::false_type {};
    template <class T> concept mapping = requires { typename T::mapped_type; };
    template <class T> concept listing = requires(T t) { t.push_back(*t.begin()); };
    template <class A, class B, size_t... I> void cv_var(const A& a, B& b, std::index_sequence<I...>) { ((I == a.index() ? (void)cv(std::get<I>(a), b.template emplace<I>()) : void()), ...); }
    template <class A, class B> void cv(const A& a, B& b)
    {
        if constexpr (has_members<A>) { if constexpr (std::is_same_v<A, B>) b = a; else conv(a, b); }
        else if constexpr (std::is_integral_v<A> || std::is_enum_v<A>) { static_assert(sizeof(A) == sizeof(B)); memcpy(&b, &a, sizeof a); }
        else if constexpr (is_arr<A>::value) { for (size_t i = 0; i < a.size(); ++i) cv(a[i], b[i]); }
        else if constexpr (is_opt<A>::value) { if (a) cv(*a, b.emplace()); else b.reset(); }
        else if constexpr (is_ptr<A>::value) { if (a) { b = std::make_shared<typename B::element_type>(); cv(*a, *b); } else b.reset(); }
        else if constexpr (is_var<A>::value) cv_var(a, b, std::make_index_sequence<std::variant_size_v<A>>());
        else if constexpr (mapping<A>) { b.clear(); for (auto& p : a) { typename B::key_type k{}; cv(p.first, k); cv(p.second, b[k]); } }
        else if constexpr (listing<A>) { b.clear(); for (auto& e : a) { typename B::value_type x{}; cv(e, x); b.push_back(std::move(x)); } }
        else if constexpr (requires { typename A::key_type; }) { b.clear(); for (auto& e : a) { typename B::value_type x{}; cv(e, x); b.insert(x); } }
        else b = a;
    }

    // Whether the elements a vector already has keep what the data do not set is not promised: targets have none.
    template <class T> void scrub(T& t)
    {
        if constexpr (has_members<T>) std::apply([&](auto... p) { (scrub(t.*p), ...); }, T::members());
        else if constexpr (is_vec<T>::value) t.clear();
        else if constexpr (is_arr<T>::value) for (auto& e : t) scrub(e);
    }

}

// The generated structures are written against the names above.
#ifndef VTS_HEADER
#define VTS_HEADER "gen/vts_0.h"
#endif
#include VTS_HEADER

using namespace sv;
using vh::Case;
using awl::io::VectorInputStream; using awl::io::VectorOutputStream;

namespace
{
    template <class T> using V = awl::mp::variant_from_struct<T>;
    template <class T> using Rd = awl::io::Reader<V<T>, VectorInputStream>;
    template <class T> using Wr = awl::io::Writer<V<T>, VectorOutputStream>;

    template <class S> size_t meta_size() { Bytes b; VectorOutputStream o(b); Wr<S>().WriteNewPrototypes(o); return b.size(); }

    // Several values one after another behind one set of prototypes, and bytes of somebody else's at the end.
    template <class F, size_t i, size_t j> void pair(Case& c)
    {
        using A = typename F::template S<i, 0>; using B = typename F::template S<j, 0>;
        const size_t n = 1 + c.rng.below(3); std::vector<A> in; Bytes d; { VectorOutputStream o(d); Wr<A> w; w.WriteNewPrototypes(o); for (size_t k = 0; k < n; ++k) { in.push_back(make<A>(c.rng, 3)); w.WriteV(o, in.back()); } }
        const size_t end = d.size(); const Bytes tail = make<std::vector<uint8_t>>(c.rng); d.insert(d.end(), tail.begin(), tail.end());
        c.distinct(vh::hash_bytes(d.data(), end));
        const std::string what = vh::fmt("%s: version %zu read as version %zu", F::name, i, j);
        VectorInputStream s(d); Rd<B> r; 
        try
        {
            r.ReadOldPrototypes(s);
            for (size_t k = 0; k < n; ++k)
            {
                B got = c.rng.flip() ? B{} : make<B>(c.rng, 2); scrub(got); B want = got; if constexpr (i == j) { B x{}; cv(in[k], x); want = in[k]; } else cv(in[k], want);
                r.ReadV(s, got);
                VH_CHECK(c, eq(want, got), "value", "%s, value %zu of %zu: not the value that was written, converted", what.c_str(), k + 1, n);
                c.eval(); c.count("values");
            }
            // a reader that knows the versions are the same reads the same
            if constexpr (i == j)
            {
                VectorInputStream q(d); { Rd<B> meta; meta.ReadOldPrototypes(q); } const awl::io::PlainReader<V<B>, VectorInputStream> plain;
                for (size_t k = 0; k < n; ++k) { B got = c.rng.flip() ? B{} : make<B>(c.rng, 2), want{}; cv(in[k], want); plain.ReadV(q, got); VH_CHECK(c, eq(want, got), "plain", "%s without conversion, value %zu of %zu: not the value that was written", what.c_str(), k + 1, n); }
                Bytes more(tail.size() + 1); more.resize(q.Read(more.data(), more.size())); VH_CHECK(c, more == tail, "plain-position", "%s without conversion: %zu bytes left instead of %zu", what.c_str(), more.size(), tail.size()); c.count("plain");
            }
            Bytes rest(tail.size() + 1); rest.resize(s.Read(rest.data(), rest.size()));
            VH_CHECK(c, rest == tail, "position", "%s: %zu bytes left instead of %zu", what.c_str(), rest.size(), tail.size());
        }
        catch (const awl::io::IoException& e) { VH_CHECK(c, false, "refused", "%s: %s", what.c_str(), typeid(e).name()); }
        catch (const vh::Violation&) { throw; }
        catch (const std::exception& e) { VH_CHECK(c, false, "refused", "%s: %s", what.c_str(), e.what()); }
        c.count("pairs");
    }

    // The same through the whole-object interfaces.
    template <class F, size_t i, size_t j> void whole(Case& c)
    {
        using A = typename F::template S<i, 0>; using B = typename F::template S<j, 0>;
        A a = make<A>(c.rng, 3); B want{}; cv(a, want); Bytes d;
        const std::string what = vh::fmt("%s: version %zu loaded as version %zu", F::name, i, j);
        try
        {
            { VectorOutputStream o(d); if (c.rng.flip()) awl::io::WriteV(o, a); else { awl::io::VersionTolerantSerializable<A> s(a); s.Write(o); } }
            // Fields the data do not have get the values a new structure has.
            { B b = make<B>(c.rng, 2); awl::io::VersionTolerantSerializable<B> s(b); VectorInputStream in(d); s.Read(in); VH_CHECK(c, eq(want, b) && in.End(), "serializable", "%s through VersionTolerantSerializable", what.c_str()); }
            { B b{}; VectorInputStream in(d); awl::io::ReadV(in, b); VH_CHECK(c, eq(want, b) && in.End(), "readv", "%s through ReadV", what.c_str()); }
            { B b{}; awl::io::CopyV(a, b); VH_CHECK(c, eq(want, b), "copyv", "%s through CopyV", what.c_str()); }
        }
        catch (const awl::io::IoException& e) { VH_CHECK(c, false, "refused", "%s: %s", what.c_str(), typeid(e).name()); }
    }


    template <class F, size_t i, size_t j> void strict(Case& c)
    {
        using A = typename F::template S<i, 0>; using B = typename F::template S<j, 0>;
        A a = make<A>(c.rng, 3); Bytes d; { VectorOutputStream o(d); Wr<A> w; w.WriteNewPrototypes(o); w.WriteV(o, a); }
        VectorInputStream s(d); Rd<B> r; r.allowDelete = false; B got{}; bool refused = false; B want{}; cv(a, want);
        try { r.ReadOldPrototypes(s); r.ReadV(s, got); } catch (const awl::io::FieldNotFoundException&) { refused = true; } catch (const awl::io::IoException& e) { VH_CHECK(c, false, "strict-other", "%s %zu as %zu: %s", F::name, i, j, typeid(e).name()); }
        size_t top = 0; if constexpr (i != j) top = gone(static_cast<const A*>(nullptr), static_cast<const B*>(nullptr));
        if (top > 0) VH_CHECK(c, refused, "strict", "%s %zu as %zu: %zu fields are gone and deletion is not allowed", F::name, i, j, top);
        if (!refused) VH_CHECK(c, eq(want, got) && s.End(), "strict-value", "%s %zu as %zu", F::name, i, j);
        if constexpr (i == j) VH_CHECK(c, !refused, "strict-same", "%s %zu as itself refused", F::name, i);
        c.eval(); c.count(refused ? "strict_refused" : "strict_read");
    }

    template <class F, class G> void all_pairs(Case& c, uint64_t n, G)
    {
        c.iterate(n, [&](uint64_t)
        {
            auto f = [&]<size_t i, size_t j, bool w = false>() { pair<F, i, j>(c); if constexpr (w) { if (c.rng.chance(1, 3)) whole<F, i, j>(c); } if (c.rng.chance(1, 3)) strict<F, i, j>(c); };
#ifdef VH_DEEP
            f.template operator()<0, 1, true>(); f.template operator()<1, 2, true>(); f.template operator()<1, 0, true>(); f.template operator()<2, 1, true>(); f.template operator()<0, 0, true>(); f.template operator()<2, 2>();
#else
            f.template operator()<0, 1>(); f.template operator()<0, 2, true>(); f.template operator()<1, 2>(); f.template operator()<2, 0>(); f.template operator()<1, 1>();
#endif
        });
    }
}

#define X(F) all_pairs<F>(c, c.n(120, 4000), 0);
VH_CASE(families, 2) { VTS_FAMILIES(X) }

VH_MAIN()
