// C30: bit sets over enums against a vector of flags, and the name tables of sequential enums, over enums of many sizes and layouts.
#include "vh.h"
#include "Awl/BitMap.h"
#include "Awl/LogLevel.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/VectorStream.h"
using vh::Case;

#define D10(p) p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9
#define D50(p) D10(p##0), D10(p##1), D10(p##2), D10(p##3), D10(p##4)
#define D60(p) D50(p), D10(p##5)
#define D100(p) D60(p), D10(p##6), D10(p##7), D10(p##8), D10(p##9)
#define SEQ(...) AWL_SEQUENTIAL_ENUM(__VA_ARGS__)

namespace ns
{
    AWL_SEQUENTIAL_ENUM(E1, Only)
    AWL_SEQUENTIAL_ENUM(E2, Off, On)
    AWL_SEQUENTIAL_ENUM(E3,Car,Train,AirPlain)
    AWL_SEQUENTIAL_ENUM(E6, A ,B,   _c , D_0 ,
        LongNameWithDigits123456789LongNameWithDigits123456789   /* remark, with a comma */,
        // another
        z)
    AWL_SEQUENTIAL_ENUM(E8, Value, value, VALUE, V, v, Va, Valu, Values)
    SEQ(E33, D10(a), D10(b), D10(c), x, y, z)
    SEQ(E60, D60(v)) SEQ(E63, D60(v), x, y, z) SEQ(E64, D60(v), w, x, y, z) SEQ(E65, D60(v), v, w, x, y, z) SEQ(E130, D100(a), D10(b), D10(c), D10(d)) SEQ(E255, D100(a), D100(b), D50(c), v, w, x, y, z)
    struct Holder { AWL_BITMAP(Mode, Read, Write, Append, Truncate, Exclusive) };
    // an enum that describes itself, with more values than a byte can count
    enum class Wide : uint16_t { First, Last = 299 };
    class WideTraits { public: using size_type = uint16_t; static constexpr char EnumNameString[] = "Wide"; static constexpr size_type Count = 300; static inline const awl::helpers::MemberList m_ml = [] { std::string s; for (int i = 0; i < 300; ++i) s += (i ? ", W" : "W") + std::to_string(i); return awl::helpers::MemberList(s.c_str()); }(); };
    // not described: bits chosen by the number of flags only
    enum class Plain : int { P0, P1, P2, P3, P4, P5, P6, P7, P8, P9 };
    enum Old : unsigned char { O0, O1, O2, O3 };
}
#define T(E) AWL_ENUM_TRAITS(ns, E)
T(E1) T(E2) T(E3) T(E6) T(E8) T(E33) T(E60) T(E63) T(E64) T(E65) T(E130) T(E255) T(Wide) AWL_ENUM_TRAITS(ns::Holder, Mode)

namespace
{
    std::vector<std::string> digits(const std::string& p, int n, int width) { std::vector<std::string> v; for (int i = 0; i < n; ++i) { std::string s = std::to_string(i); while (static_cast<int>(s.size()) < width) s = "0" + s; v.push_back(p + s); } return v; }
    std::vector<std::string> join(std::initializer_list<std::vector<std::string>> l) { std::vector<std::string> v; for (auto& x : l) v.insert(v.end(), x.begin(), x.end()); return v; }

    template <class BM, class E> struct Check
    {
        Case& c; const size_t n; const char* what;
        using F = std::vector<bool>;
        E e(size_t i) const { return static_cast<E>(i); }
        F flags() const { return F(n, false); }
        void same(const BM& b, const F& f, const char* op) const
        {
            c.eval(); size_t k = 0; for (size_t i = 0; i < n; ++i) { k += f[i]; VH_CHECK(c, b.test(e(i)) == f[i] && b[e(i)] == f[i], op, "%s: %s: flag %zu of %zu is %d, must be %d", what, op, i, n, static_cast<int>(b.test(e(i))), static_cast<int>(f[i])); }
            VH_CHECK(c, b.count() == k && b.size() == n, op, "%s: %s: counts %u of %u flags, must be %zu of %zu", what, op, static_cast<unsigned>(b.count()), static_cast<unsigned>(b.size()), k, n);
            VH_CHECK(c, b.any() == (k != 0) && b.none() == (k == 0) && b.all() == (k == n) && static_cast<bool>(b) == (k != 0), op, "%s: %s: any/all/none/bool with %zu of %zu flags", what, op, k, n);
        }
        void eq(const BM& a, const F& fa, const BM& b, const F& fb) const { c.eval(); VH_CHECK(c, (a == b) == (fa == fb) && (a != b) == (fa != fb), "comparison", "%s: equality", what); }
        BM make(const F& f) const { BM b; for (size_t i = 0; i < n; ++i) if (f[i]) b |= e(i); return b; }
        void binary(const BM& a, const F& fa, const BM& b, const F& fb) const
        {
            F o = fa, d = fa, x = fa, nf = fa; for (size_t i = 0; i < n; ++i) { o[i] = fa[i] || fb[i]; d[i] = fa[i] && fb[i]; x[i] = fa[i] != fb[i]; nf[i] = !fa[i]; }
            same(a | b, o, "a | b"); same(a & b, d, "a & b"); same(a ^ b, x, "a ^ b"); same(~a, nf, "~a"); { BM t = a; BM& r = t |= b; VH_CHECK(c, &r == &t, "reference", "|="); same(t, o, "a |= b"); } { BM t = a; BM& r = t &= b; VH_CHECK(c, &r == &t, "reference", "&="); same(t, d, "a &= b"); } { BM t = a; BM& r = t ^= b; VH_CHECK(c, &r == &t, "reference", "^="); same(t, x, "a ^= b"); }
            same(a, fa, "operand"); same(b, fb, "operand"); eq(a, fa, b, fb); eq(a | b, o, b, fb); { BM t = a; t |= t; same(t, fa, "a |= a"); t &= t; same(t, fa, "a &= a"); t ^= t; same(t, flags(), "a ^= a"); }
        }
        void unary(const BM& a, const F& fa, size_t i) const
        {
            F o = fa, d = flags(), x = fa, cl = fa; o[i] = true; d[i] = fa[i]; x[i] = !fa[i]; cl[i] = false;
            same(a | e(i), o, "a | value"); same(a & e(i), d, "a & value"); same(a ^ e(i), x, "a ^ value"); { BM t = a; t |= e(i); same(t, o, "a |= value"); } { BM t = a; t &= e(i); same(t, d, "a &= value"); } { BM t = a; t ^= e(i); same(t, x, "a ^= value"); } { BM t = a; t.set(e(i), true); same(t, o, "set(true)"); t.set(e(i), false); same(t, cl, "set(false)"); } { BM t = a; t[e(i)] = true; same(t, o, "[] = true"); t[e(i)] = false; same(t, cl, "[] = false"); t[e(i)] = a[e(i)]; same(t, fa, "[] = []"); t[e(i)].flip(); same(t, x, "flip"); }
        }
        void history()
        {
            F f = flags(); BM b; same(b, f, "default"); BM other; F fo = flags(); for (int k = 0; k < 60; ++k)
            {
                const size_t i = c.rng.below(n); const int op = static_cast<int>(c.rng.below(14));
                switch (op)
                {
                case 0: b |= e(i); f[i] = true; break;
                case 1: b ^= e(i); f[i] = !f[i]; break;
                case 2: b.set(e(i), true).set(e((i + 1) % n), false); f[i] = true; f[(i + 1) % n] = false; break;
                case 3: { const bool v = c.rng.flip(); b[e(i)] = v; f[i] = v; break; }
                case 4: if (c.rng.chance(1, 5)) { b &= e(i); for (size_t j = 0; j < n; ++j) f[j] = f[j] && j == i; } break;
                case 5: b = ~b; f.flip(); break;
                case 6: std::swap(b, other); std::swap(f, fo); break;
                case 7: other = b; fo = f; break;
                case 8: b = b ^ other; for (size_t j = 0; j < n; ++j) f[j] = f[j] != fo[j]; break;
                case 9: b |= other; for (size_t j = 0; j < n; ++j) f[j] = f[j] || fo[j]; break;
                case 10: b &= ~other; for (size_t j = 0; j < n; ++j) f[j] = f[j] && !fo[j]; break;
                case 11: { std::vector<E> l; f = flags(); for (size_t j = 0; j < 3; ++j) { l.push_back(e(c.rng.below(n))); f[static_cast<size_t>(l[j])] = true; } b = BM{ l[0], l[1], l[2] }; break; }
                case 12: { std::vector<uint8_t> d; { awl::io::VectorOutputStream s(d); awl::io::Write(s, b); } awl::io::VectorInputStream s(d); BM t = other; awl::io::Read(s, t); VH_CHECK(c, s.End(), "serialized", "%s: data left", what); same(t, f, "serialized"); b = t; break; }
                case 13: { BM t{ e(i) }; F ft = flags(); ft[i] = true; same(t, ft, "list of one"); eq(t, ft, b, f); same(BM{ e(n - 1), e(0), e(n - 1) }, [&] { F q = flags(); q[0] = q[n - 1] = true; return q; }(), "list"); break; }
                }
                same(b, f, "history"); eq(b, f, other, fo); c.count("steps"); uint64_t h = n; for (size_t j = 0; j < n; ++j) h = h * 3 + f[j]; c.distinct(vh::mix(h));
            }
        }
        void refused()
        {
            F f = flags(); for (size_t i = 0; i < n; ++i) f[i] = c.rng.flip(); BM b = make(f); using U = std::underlying_type_t<E>; std::vector<E> bad; for (uint64_t v : { static_cast<uint64_t>(n), static_cast<uint64_t>(n + 1), uint64_t(64), uint64_t(63), uint64_t(128), uint64_t(255), uint64_t(n + 64), c.rng.below(60000) }) if (v >= n && v <= static_cast<uint64_t>(std::numeric_limits<U>::max())) bad.push_back(static_cast<E>(v));
            for (E x : bad)
            {
                auto out = [&](const char* op, auto g) { bool thrown = false; c.eval(); try { g(); } catch (const std::out_of_range&) { thrown = true; } VH_CHECK(c, thrown, "accepted", "%s: %s accepts value %lld of %zu", what, op, static_cast<long long>(x), n); same(b, f, "after a refused value"); c.count("refused values"); };
                out("test", [&] { return b.test(x); }); out("set", [&] { b.set(x, true); }); out("|=", [&] { b |= x; }); out("&=", [&] { b &= x; }); out("^=", [&] { b ^= x; }); out("|", [&] { return b | x; }); out("&", [&] { return b & x; }); out("^", [&] { return b ^ x; }); out("list", [&] { return BM{ e(0), x }; });
            }
        }
    };
    template <class E, size_t N, class BM> void all(Case& c, const char* what)
    {
        Check<BM, E> k{ c, N, what }; using F = std::vector<bool>;
        if constexpr (N <= 8)
        {
            // every set with every set and every flag
            std::vector<std::pair<BM, F>> s; for (unsigned m = 0; m < (1u << N); ++m) { F f(N); for (size_t i = 0; i < N; ++i) f[i] = m >> i & 1; s.emplace_back(k.make(f), f); k.same(s.back().first, f, "made"); c.distinct(vh::mix(m * 16 + N)); }
            const size_t step = N == 8 ? 1 + c.rng.below(7) : 1; for (auto& a : s) { for (size_t j = c.rng.below(step); j < s.size(); j += step) k.binary(a.first, a.second, s[j].first, s[j].second); for (size_t i = 0; i < N; ++i) k.unary(a.first, a.second, i); } c.count("sets enumerated", s.size());
        }
        else for (int r = 0; r < 6; ++r) { auto rnd = [&] { F f(N); const unsigned d = c.rng.below(5); for (size_t i = 0; i < N; ++i) f[i] = c.rng.below(4) < d; if (c.rng.flip()) { f[N - 1] = c.rng.flip(); f[0] = c.rng.flip(); } return f; }; const F a = rnd(), b = rnd(); const BM A = k.make(a), B = k.make(b); k.binary(A, a, B, b); k.unary(A, a, c.rng.below(N)); k.unary(A, a, N - 1); k.unary(A, a, 0); if (N > 64) { k.unary(A, a, 63); k.unary(A, a, 64); } }
        k.history(); k.refused(); if (c.want_sample()) c.sample(vh::fmt("%s: %zu flags", what, N));
    }

    template <class Q> void names(Case& c, const std::string& name, const std::vector<std::string>& want)
    {
        using Tr = awl::EnumTraits<Q>; using U = std::underlying_type_t<Q>; auto& n = Tr::names(); c.eval();
        VH_CHECK(c, Tr::count() == want.size() && n.size() == want.size() && name == Tr::enum_name() && std::equal(n.begin(), n.end(), want.begin(), want.end()), "names", "%s: names", name.c_str());
        auto raises = [&](auto f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; }; c.distinct(vh::hash_str(name));
        for (size_t i = 0; i < want.size(); ++i)
        {
            const Q v = static_cast<Q>(i); c.eval(7); VH_CHECK(c, awl::enum_to_string(v) == want[i], "to_string", "%s: value %zu is called %s", name.c_str(), i, awl::enum_to_string(v).c_str()); VH_CHECK(c, awl::enum_from_string<Q>(want[i]) == v, "from_string", "%s: %s", name.c_str(), want[i].c_str()); VH_CHECK(c, awl::enum_to_index(v) == i && awl::enum_from_index<Q>(static_cast<U>(i)) == v && awl::enum_to_underlying(v) == i, "index", "%s: index %zu", name.c_str(), i); awl::validate_enum(v); awl::validate_enum_index<Q>(static_cast<U>(i)); awl::io::ValidateEnum(v);
            auto fold = [](std::string s) { for (auto& ch : s) ch = static_cast<char>(ch >= 'A' && ch <= 'Z' ? ch + 32 : ch); return s; }; size_t first = 0; while (fold(want[first]) != fold(want[i])) ++first;
            std::string s = want[i]; for (auto& ch : s) if (c.rng.flip()) ch = static_cast<char>(ch >= 'a' && ch <= 'z' ? ch - 32 : ch >= 'A' && ch <= 'Z' ? ch + 32 : ch); const bool exact = std::find(want.begin(), want.end(), s) != want.end();
            VH_CHECK(c, awl::enum_from_string_i<Q>(s) == static_cast<Q>(first), "from_string_i", "%s: %s", name.c_str(), s.c_str()); VH_CHECK(c, exact || raises([&] { awl::enum_from_string<Q>(s); }), "case", "%s: %s accepted", name.c_str(), s.c_str());
            for (const std::string& bad : { " " + s, s + " ", s + ",", s + std::string(1, '\0'), s.substr(0, s.size() - 1), s + "0", std::string(), std::string("?"), std::to_string(i), name + "::" + s }) { const bool known = std::find_if(want.begin(), want.end(), [&](auto& w) { return fold(w) == fold(bad); }) != want.end(); c.eval(); c.count(known ? "known names" : "unknown names"); if (!known) VH_CHECK(c, raises([&] { awl::enum_from_string_i<Q>(bad); }) && raises([&] { awl::enum_from_string<Q>(bad); }), "unknown", "%s: name %s accepted", name.c_str(), bad.c_str()); }
            std::vector<uint8_t> d; { awl::io::VectorOutputStream o(d); awl::io::Write(o, v); } { awl::io::VectorInputStream in(d); Q q = static_cast<Q>(want.size() - 1); awl::io::Read(in, q); VH_CHECK(c, in.End() && q == v, "serialized", "%s: %zu", name.c_str(), i); }
        }
        for (uint64_t v = want.size(); v <= std::numeric_limits<U>::max(); v += v < 600 ? 1 : 977)
        {
            const Q q = static_cast<Q>(v); const U u = static_cast<U>(v); c.eval(6); c.count("refused values");
            VH_CHECK(c, raises([&] { awl::enum_to_string(q); }) && raises([&] { awl::enum_to_index(q); }) && raises([&] { awl::enum_from_index<Q>(u); }) && raises([&] { awl::validate_enum(q); }) && raises([&] { awl::validate_enum_index<Q>(u); }), "wrong-value", "%s: value %llu accepted", name.c_str(), static_cast<unsigned long long>(v));
            std::vector<uint8_t> d; bool thrown = false; try { awl::io::VectorOutputStream o(d); awl::io::Write(o, q); } catch (const awl::io::IoException&) { thrown = true; } VH_CHECK(c, thrown && d.empty(), "wrong-value-written", "%s: value %llu", name.c_str(), static_cast<unsigned long long>(v));
            d.assign(sizeof(U), 0); memcpy(d.data(), &u, sizeof u); thrown = false; try { awl::io::VectorInputStream in(d); Q r{}; awl::io::Read(in, r); } catch (const awl::io::IoException&) { thrown = true; } VH_CHECK(c, thrown, "wrong-value-read", "%s: value %llu", name.c_str(), static_cast<unsigned long long>(v));
        }
        if (c.want_sample()) c.sample(vh::fmt("%s: %zu names", name.c_str(), want.size()));
    }
}

VH_CASE(bits, 2)
{
    using namespace ns; using awl::bitmap;
    c.iterate(c.n(24, 1500), [&](uint64_t)
    {
        all<E1, 1, bitmap<E1>>(c, "1"); all<E2, 2, bitmap<E2>>(c, "2"); all<E3, 3, bitmap<E3>>(c, "3"); all<E6, 6, bitmap<E6>>(c, "6"); all<E8, 8, bitmap<E8>>(c, "8"); all<E33, 33, bitmap<E33>>(c, "33"); all<E60, 60, bitmap<E60>>(c, "60"); all<E63, 63, bitmap<E63>>(c, "63"); all<E64, 64, bitmap<E64>>(c, "64"); all<E65, 65, bitmap<E65>>(c, "65"); all<E130, 130, bitmap<E130>>(c, "130"); all<E255, 255, bitmap<E255>>(c, "255");
        all<Wide, 300, bitmap<Wide>>(c, "300"); all<Holder::Mode, 5, Holder::ModeBitMap>(c, "in a class"); all<Plain, 10, bitmap<Plain, 10>>(c, "not described"); all<Old, 4, bitmap<Old, 4>>(c, "unscoped"); all<awl::LogLevel, 5, bitmap<awl::LogLevel>>(c, "LogLevel");
    });
}
VH_CASE(enums, 1)
{
    using namespace ns;
    c.iterate(c.n(5, 200), [&](uint64_t)
    {
        const auto v60 = digits("v", 60, 2); names<E1>(c, "E1", { "Only" }); names<E2>(c, "E2", { "Off", "On" }); names<E3>(c, "E3", { "Car", "Train", "AirPlain" }); names<E6>(c, "E6", { "A", "B", "_c", "D_0", "LongNameWithDigits123456789LongNameWithDigits123456789", "z" }); names<E8>(c, "E8", { "Value", "value", "VALUE", "V", "v", "Va", "Valu", "Values" }); names<E33>(c, "E33", join({ digits("a", 10, 1), digits("b", 10, 1), digits("c", 10, 1), { "x", "y", "z" } }));
        names<E60>(c, "E60", v60); names<E63>(c, "E63", join({ v60, { "x", "y", "z" } })); names<E64>(c, "E64", join({ v60, { "w", "x", "y", "z" } })); names<E65>(c, "E65", join({ v60, { "v", "w", "x", "y", "z" } })); names<E130>(c, "E130", join({ digits("a", 100, 2), digits("b", 10, 1), digits("c", 10, 1), digits("d", 10, 1) })); names<E255>(c, "E255", join({ digits("a", 100, 2), digits("b", 100, 2), digits("c", 50, 2), { "v", "w", "x", "y", "z" } }));
        names<Wide>(c, "Wide", digits("W", 300, 1)); names<Holder::Mode>(c, "Mode", { "Read", "Write", "Append", "Truncate", "Exclusive" }); names<awl::LogLevel>(c, "LogLevel", { "Debug", "Trace", "Info", "Warning", "Error" });
    });
}
VH_MAIN()
