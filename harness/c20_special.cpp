// C20: declared type renames, refused incompatible changes, and a recorded finding.
#include "sv.h"
using namespace sv;
using vh::Case;
using awl::io::VectorInputStream; using awl::io::VectorOutputStream;

namespace
{
    template <class T> using V = awl::mp::variant_from_struct<T>;
    template <class T> using Rd = awl::io::Reader<V<T>, VectorInputStream>;
    template <class T> Bytes versioned(const T& v) { Bytes b; VectorOutputStream o(b); awl::io::WriteV(o, v); return b; }

    // The type table is the first thing in the data: a list of strings. Renames the types as another program would call them.
    Bytes rename_types(const Bytes& b, const std::map<std::string, std::string>& m, size_t& renamed)
    {
        VectorInputStream in(b); std::vector<std::string> t; awl::io::Read(in, t); Bytes head; { VectorOutputStream o(head); awl::io::Write(o, t); } const size_t n = head.size();
        for (auto& s : t) if (auto i = m.find(s); i != m.end()) { s = i->second; ++renamed; }
        Bytes d; { VectorOutputStream o(d); awl::io::Write(o, t); } d.insert(d.end(), b.begin() + static_cast<std::ptrdiff_t>(n), b.end()); return d;
    }

    struct In { std::string s; std::vector<int32_t> v; AWL_REFLECT(s, v) static auto members() { return std::make_tuple(&In::s, &In::v); } };
    struct A { std::string name; std::map<std::string, int32_t> m; double d = 0; In in; std::vector<In> list; std::optional<std::string> o; AWL_REFLECT(name, m, d, in, list, o) static auto members() { return std::make_tuple(&A::name, &A::m, &A::d, &A::in, &A::list, &A::o); } };
    struct B { std::optional<std::string> o; double d = 0; std::string added = "x"; std::string name; std::map<std::string, int32_t> m; std::vector<In> list; AWL_REFLECT(o, d, added, name, m, list) static auto members() { return std::make_tuple(&B::o, &B::d, &B::added, &B::name, &B::m, &B::list); } };

    template <class From, class To> std::string outcome(const From& f, To& t, bool& end)
    {
        const Bytes b = versioned(f); VectorInputStream in(b); end = false;
        try { awl::io::ReadV(in, t); end = in.End(); return "read"; }
        catch (const awl::io::IoException&) { return "refused"; }
        catch (const std::exception& e) { return std::string("foreign ") + e.what(); }
    }
    struct I32 { int32_t x = 1; int32_t y = 5; AWL_REFLECT(x, y) static auto members() { return std::make_tuple(&I32::x, &I32::y); } };
    struct I64 { int64_t x = 1; int32_t y = 5; AWL_REFLECT(x, y) static auto members() { return std::make_tuple(&I64::x, &I64::y); } };
    struct Str { std::string x; int32_t y = 5; AWL_REFLECT(x, y) static auto members() { return std::make_tuple(&Str::x, &Str::y); } };
    struct Dbl { double x = 0; int32_t y = 5; AWL_REFLECT(x, y) static auto members() { return std::make_tuple(&Dbl::x, &Dbl::y); } };
    struct Sub { I32 x; int32_t y = 5; AWL_REFLECT(x, y) static auto members() { return std::make_tuple(&Sub::x, &Sub::y); } };
    struct Vec { std::vector<I32> x; int32_t y = 5; AWL_REFLECT(x, y) static auto members() { return std::make_tuple(&Vec::x, &Vec::y); } };
    struct Opt { std::optional<I32> x; int32_t y = 5; AWL_REFLECT(x, y) static auto members() { return std::make_tuple(&Opt::x, &Opt::y); } };
    struct Var { std::variant<int32_t, std::string> x; int32_t y = 5; AWL_REFLECT(x, y) static auto members() { return std::make_tuple(&Var::x, &Var::y); } };
    struct Arr { std::array<int32_t, 2> x{}; int32_t y = 5; AWL_REFLECT(x, y) static auto members() { return std::make_tuple(&Arr::x, &Arr::y); } };
    struct Ar3 { std::array<int32_t, 3> x{}; int32_t y = 5; AWL_REFLECT(x, y) static auto members() { return std::make_tuple(&Ar3::x, &Ar3::y); } };
    // Every type of the others is known, so that a mismatch is not found merely because a type is unknown.
    template <class T> struct All { T t; int8_t a = 0; std::optional<int64_t> b; std::optional<int32_t> c; std::string d; double e = 0; std::vector<I32> f; std::optional<I32> g; std::variant<int32_t, std::string> h; std::array<int32_t, 2> i{}; std::array<int32_t, 3> j{}; int64_t k = 0; AWL_REFLECT(t, a, b, c, d, e, f, g, h, i, j, k) };
}

VH_CASE(declared_types, 2)
{
    c.iterate(c.n(1500, 40000), [&](uint64_t)
    {
        const A a = make<A>(c.rng); const Bytes b = versioned(a); size_t k = 0; const std::map<std::string, std::string> fwd = { { "sequence<int8_t>", "QString" }, { "sequence<int32_t>", "List" }, { "float64_t", "real" } };
        std::unordered_map<std::string, std::string> back; std::map<std::string, std::string> used; for (auto& p : fwd) if (c.rng.chance(2, 3)) { used.insert(p); back[p.second] = p.first; }
        const Bytes d = rename_types(b, used, k); c.distinct(vh::hash_bytes(d.data(), d.size()));
        auto go = [&]<class T>(T* )
        {
            Rd<T> r; VectorInputStream in(d); T got{}; r.ReadOldPrototypes(in, back); r.ReadV(in, got);
            VH_CHECK(c, in.End() && got.name == a.name && got.m == a.m && memcmp(&got.d, &a.d, 8) == 0 && got.o == a.o && eq(got.list, a.list), "renamed-types", "%zu declared type renames: not the value written", k);
            if constexpr (std::is_same_v<T, A>) VH_CHECK(c, eq(got.in, a.in), "renamed-types", "%zu declared type renames: not the value written", k);
            c.eval(); c.count("renamed_types", k);
        };
        try { go(static_cast<A*>(nullptr)); go(static_cast<B*>(nullptr)); } catch (const awl::io::IoException& e) { VH_CHECK(c, false, "renamed-types-refused", "%zu declared type renames: %s", k, typeid(e).name()); }
        // An undeclared type is refused, not guessed.
        if (k > 0) { bool refused = false; A got{}; try { VectorInputStream in(d); awl::io::ReadV(in, got); } catch (const awl::io::IoException&) { refused = true; } VH_CHECK(c, refused, "unknown-type", "%zu types unknown to the reader, and the data are read", k); c.count("unknown_types"); }
    });
}

// A field that changed its type to one of another form is refused: never read as if nothing had happened.
VH_CASE(incompatible, 1)
{
    c.iterate(c.n(300, 3000), [&](uint64_t)
    {
        auto go = [&]<class F, class T>(const char* what)
        {
            const F f = make<F>(c.rng); bool end;
            { T t{}; const std::string o = outcome(f, t, end); VH_CHECK(c, o == "refused", "incompatible", "%s: %s", what, o.c_str()); }
            // the same inside structures whose reader knows all the types
            { All<F> x; x.t = f; All<T> t; const std::string o = outcome(x, t, end); VH_CHECK(c, o == "refused", "incompatible-nested", "%s inside a structure: %s", what, o.c_str()); }
            c.eval(); c.count("incompatible");
        };
#define P(F, T) go.template operator()<F, T>(#F " as " #T)
        P(I32, I64); P(I64, I32); P(I32, Str); P(Str, I32); P(I64, Dbl); P(Dbl, I64); P(Sub, I32); P(I32, Sub); P(Vec, Sub); P(Sub, Vec); P(Opt, Vec); P(Vec, Opt); P(Var, Str); P(Str, Var); P(Arr, Ar3); P(Ar3, Arr); P(Arr, Vec); P(Opt, Sub);
#undef P
    });
}

namespace
{
    struct Bits1 { std::vector<bool> gone; std::string s; int32_t tail = 0; AWL_REFLECT(gone, s, tail) static auto members() { return std::make_tuple(&Bits1::gone, &Bits1::s, &Bits1::tail); } };
    struct Bits2 { std::string s; int32_t tail = 0; AWL_REFLECT(s, tail) static auto members() { return std::make_tuple(&Bits2::s, &Bits2::tail); } };
}
VH_CASE(bits_fixed, 1)
{
    Bits1 a{ std::vector<bool>(20, true), "abc", 7 }; const Bytes b = versioned(a); VectorInputStream in(b); Bits2 t; std::string o = "read";
    try { awl::io::ReadV(in, t); } catch (const awl::io::IoException& e) { o = typeid(e).name(); }
    c.eval(); c.count("bits");
    if (!(o == "read" && t.s == "abc" && t.tail == 7)) c.fail("removed_vector_bool", vh::fmt("a vector<bool> of 20 that the new version does not have, before a string: %s", o.c_str()));
}

VH_MAIN()
