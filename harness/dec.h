// Shared by c26..c28: decimal types under test, exact values and generators.
#pragma once
#include "vh.h"
#include "Awl/Decimal.h"
#include "Awl/DecimalTime.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <sstream>

namespace dec
{
    using Big = boost::multiprecision::cpp_int;
    inline Big p10(unsigned n) { Big r = 1; while (n--) r *= 10; return r; }
    template <class U> Big big(U v) { if constexpr (sizeof(U) == 16) return (Big(static_cast<uint64_t>(static_cast<unsigned __int128>(v) >> 64)) << 64) + static_cast<uint64_t>(v); else return Big(v); }
    template <class U> U small(const Big& b) { if constexpr (sizeof(U) == 16) return (static_cast<unsigned __int128>(static_cast<uint64_t>(b >> 64)) << 64) | static_cast<uint64_t>(b & Big(~0ull)); else return static_cast<U>(b); }

    // The exact value n / 10^e.
    struct Val
    {
        Big n; unsigned e = 0;
        std::string str() const { return n.str() + "e-" + std::to_string(e); }
    };
    inline int cmp(const Val& a, const Val& b) { const Big x = a.n * p10(b.e > a.e ? b.e - a.e : 0), y = b.n * p10(a.e > b.e ? a.e - b.e : 0); return x < y ? -1 : x > y; }
    inline Big floor_div(const Big& a, const Big& b) { Big q = a / b; if (a % b != 0 && a < 0) --q; return q; }
    inline Big ceil_div(const Big& a, const Big& b) { Big q = a / b; if (a % b != 0 && a > 0) ++q; return q; }

    template <class D> struct Traits;
    template <class U, uint8_t L> struct Traits<awl::decimal<U, L>>
    {
        using UInt = U; using Int = std::make_signed_t<U>;
        static unsigned man_len() { return sizeof(U) * 8 - L - 1; }
        static Big max_man() { return (Big(1) << man_len()) - 1; }
        // digits whose power of ten the type can hold
        static unsigned max_exp() { unsigned e = (1u << L) - 1; while (p10(e) > (Big(1) << (sizeof(U) * 8)) - 1) --e; return e; }
        static std::string name() { return vh::fmt("decimal<uint%zu,%u>", sizeof(U) * 8, unsigned(L)); }
    };

    template <class D> Val val(const D& d) { Val v{ big(d.unsigned_mantissa()), d.exponent() }; if (d.negative()) v.n = -v.n; return v; }
    template <class D> D make(const Big& n, unsigned e) { using T = Traits<D>; D d(static_cast<uint8_t>(e)); d.set_unsigned_mantissa(small<typename T::UInt>(abs(n))); if (n < 0) d.negate(); return d; }
    template <class D> D make(const Val& v) { return make<D>(v.n, v.e); }
    template <class D> bool fits(const Big& n, unsigned e) { return abs(n) <= Traits<D>::max_man() && e <= Traits<D>::max_exp(); }

    inline Big random_bits(vh::Rng& r, unsigned bits) { Big b = 0; for (unsigned i = 0; i < bits; i += 32) b = (b << 32) + (r.next() & 0xffffffff); return b & ((Big(1) << bits) - 1); }

    // Mantissas of every size, around powers of ten and two and around the limit.
    template <class D> Big mantissa(vh::Rng& r)
    {
        using T = Traits<D>; const Big max = T::max_man(); Big m;
        switch (r.below(9))
        {
        case 0: m = Big(r.below(4)); break;
        case 1: m = max - Big(r.below(4)); break;
        case 2: m = p10(static_cast<unsigned>(r.below(T::max_exp() + 1))) + Big(static_cast<int>(r.below(3))) - 1; break;
        case 3: m = max / p10(static_cast<unsigned>(r.below(T::max_exp() + 1))) + Big(static_cast<int>(r.below(5))) - 2; break;
        case 4: m = Big(r.below(1000)) * p10(static_cast<unsigned>(r.below(T::max_exp() + 1))); break;
        case 5: m = (Big(1) << static_cast<unsigned>(r.below(T::man_len() + 1))) + Big(static_cast<int>(r.below(3))) - 1; break;
        case 6: m = Big(r.below(100000)); break;
        case 7: { const unsigned k = static_cast<unsigned>(r.below(T::max_exp())); const Big t = random_bits(r, static_cast<unsigned>(r.below(T::man_len() + 1))); m = t / p10(k) * p10(k); break; }
        default: m = random_bits(r, static_cast<unsigned>(r.below(T::man_len() + 1))); break;
        }
        if (m < 0) m = 0;
        if (m > max) m = max - Big(r.below(3));
        return m;
    }
    template <class D> unsigned digits(vh::Rng& r) { const unsigned m = Traits<D>::max_exp(); return r.chance(1, 8) ? m : r.chance(1, 8) ? 0 : static_cast<unsigned>(r.below(m + 1)); }
    template <class D> Val value(vh::Rng& r) { Val v{ mantissa<D>(r), digits<D>(r) }; if (r.flip()) v.n = -v.n; return v; }
    // A value related to a: the same number with other digits, a neighbour, its negation, or anything.
    template <class D> Val related(vh::Rng& r, const Val& a)
    {
        using T = Traits<D>; Val b = a;
        switch (r.below(7))
        {
        case 0: while (b.n != 0 && b.e > 0 && b.n % 10 == 0 && r.chance(4, 5)) { b.n /= 10; --b.e; } break;
        case 1: { unsigned k = static_cast<unsigned>(r.below(6)); while (k-- && b.e < T::max_exp() && abs(b.n) * 10 <= T::max_man()) { b.n *= 10; ++b.e; } if (r.flip()) b.n += Big(static_cast<int>(r.below(3))) - 1; break; }
        case 2: b.n += Big(static_cast<int>(r.below(5))) - 2; break;
        case 3: b.n = -b.n; break;
        case 4: { Big rest = T::max_man() - abs(a.n) + Big(static_cast<int>(r.below(3))) - 1; b.n = a.n < 0 ? -rest : rest; if (r.chance(1, 4)) b.n = -b.n; break; }
        default: return value<D>(r);
        }
        if (abs(b.n) > T::max_man()) b.n = b.n < 0 ? -T::max_man() : T::max_man();
        return b;
    }

    // Runs op: the result, or nothing when it threw.
    template <class F> auto attempt(vh::Case& c, const char* what, F op) -> std::optional<decltype(op())>
    {
        try { return op(); }
        catch (const std::exception& e) { return std::nullopt; }
        catch (...) { c.fail("foreign", vh::fmt("%s threw something that is not an exception", what)); return std::nullopt; }
    }

#define DEC_ALL(F, ...) switch (c.rng.below(8)) { \
    case 0: F<awl::decimal<uint64_t, 4>>(__VA_ARGS__); break; case 1: F<awl::decimal<uint64_t, 5>>(__VA_ARGS__); break; case 2: F<awl::decimal<uint64_t, 6>>(__VA_ARGS__); break; \
    case 3: F<awl::decimal<__uint128_t, 4>>(__VA_ARGS__); break; case 4: F<awl::decimal<__uint128_t, 5>>(__VA_ARGS__); break; case 5: F<awl::decimal<__uint128_t, 6>>(__VA_ARGS__); break; \
    case 6: F<awl::decimal<uint32_t, 3>>(__VA_ARGS__); break; default: F<awl::decimal<uint64_t, 4>>(__VA_ARGS__); break; }

    // Exact text.
    inline std::string text(const Val& v)
    {
        std::string s = Big(abs(v.n)).str(); if (s.size() <= v.e) s.insert(0, v.e + 1 - s.size(), '0'); if (v.e) s.insert(s.size() - v.e, "."); return (v.n < 0 ? "-" : "") + s;
    }
}
