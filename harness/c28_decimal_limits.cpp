// C28: a decimal operation returns the exact result if it fits and throws otherwise, and a value that an operation refused to change is unchanged.
#include "dec.h"
#include <optional>
#include <cmath>
using namespace dec; using vh::Case;

namespace
{
    template <class D> struct Judge
    {
        Case& c; std::string what;
        // r must be n * 10^-e if that fits (and `may` says the operands allowed it), and an exception otherwise
        void operator()(const char* op, const std::optional<D>& r, const Big& n, unsigned e, bool may = true) const
        {
            c.eval(); const bool ok = may && fits<D>(n, e); c.count(ok ? "results that fit" : "results that do not fit");
            if (!ok) VH_CHECK(c, !r, op, "%s: %s gives %s, but the result %s does not fit", what.c_str(), op, val(*r).str().c_str(), Val{ n, e }.str().c_str());
            else VH_CHECK(c, r && val(*r).n == n && r->exponent() == e, op, "%s: %s gives %s, expected %s", what.c_str(), op, r ? val(*r).str().c_str() : "an exception", Val{ n, e }.str().c_str());
        }
    };
    template <class D> void kept(Case& c, const D& x, const Val& a, const char* op) { const Val v = val(x); VH_CHECK(c, v.n == a.n && v.e == a.e, "changed", "%s: %s threw and changed %s to %s", Traits<D>::name().c_str(), op, a.str().c_str(), v.str().c_str()); }

    template <class D> void binary(Case& c)
    {
        // near the limits: the second operand is what is missing to the limit
        using T = Traits<D>; Val a = value<D>(c.rng), b = related<D>(c.rng, a);
        if (c.rng.flip()) { const Big lim = T::max_man(); const unsigned e = std::max(a.e, b.e); Big n = lim - abs(a.n * p10(e - a.e)) + Big(static_cast<int>(c.rng.below(5))) - 2; if (abs(n) <= lim) { b = { n, e }; if (a.n < 0) b.n = -b.n; } }
        const D x = make<D>(a), y = make<D>(b); const Judge<D> is{ c, T::name() + " " + a.str() + " and " + b.str() };
        const unsigned e = std::max(a.e, b.e); const Big an = a.n * p10(e - a.e), bn = b.n * p10(e - b.e); const bool aligned = fits<D>(an, e) && fits<D>(bn, e);
        is("addition", attempt(c, "+", [&] { return x + y; }), an + bn, e, aligned); is("subtraction", attempt(c, "-", [&] { return x - y; }), an - bn, e, aligned);
        { D t = x; const auto r = attempt(c, "+=", [&] { return t += y; }); is("+=", r, an + bn, e, aligned); if (!r) kept(c, t, a, "+="); } { D t = x; const auto r = attempt(c, "-=", [&] { return t -= y; }); is("-=", r, an - bn, e, aligned); if (!r) kept(c, t, a, "-="); }
        c.distinct(vh::hash_str(is.what)); if (c.want_sample()) c.sample(is.what);
    }
    template <class D> void product(Case& c)
    {
        using T = Traits<D>; Val a = value<D>(c.rng), b = value<D>(c.rng);
        switch (c.rng.below(3)) { case 0: if (a.n != 0) { b.n = T::max_man() / abs(a.n) + Big(static_cast<int>(c.rng.below(3))) - 1; if (b.n > T::max_man()) b.n = T::max_man(); } break; case 1: b.e = T::max_exp() - std::min(a.e, T::max_exp()) + static_cast<unsigned>(c.rng.below(3)); if (b.e > T::max_exp()) b.e = T::max_exp(); a.n %= 1000; b.n %= 1000; break; default: break; }
        const D x = make<D>(a), y = make<D>(b); const Judge<D> is{ c, T::name() + " " + a.str() + " and " + b.str() }; is("multiplication", attempt(c, "multiply", [&] { return awl::multiply(x, y); }), a.n * b.n, a.e + b.e);
        is("multiplication", attempt(c, "multiply", [&] { return awl::multiply(y, x); }), a.n * b.n, a.e + b.e); c.distinct(vh::hash_str(is.what));
    }
    template <class D> void scale(Case& c)
    {
        using T = Traits<D>; const Val a = value<D>(c.rng); unsigned k = c.rng.chance(1, 6) ? static_cast<unsigned>(c.rng.below(256)) : a.e + static_cast<unsigned>(c.rng.below(T::max_exp() - a.e + 3)); if (k > 255) k = 255; const D x = make<D>(a); const Judge<D> is{ c, vh::fmt("%s: %s to %u digits", T::name().c_str(), a.str().c_str(), k) };
        if (k >= a.e) { const Big n = a.n * p10(k - a.e); is("rescale", attempt(c, "rescale", [&] { return x.rescale(static_cast<uint8_t>(k)); }), n, k); is("rescale without check", attempt(c, "rescale", [&] { return x.rescale(static_cast<uint8_t>(k), false); }), n, k); is("extend", attempt(c, "extend", [&] { return x.extend(static_cast<uint8_t>(k)); }), n, k); const auto m = attempt(c, "rescaled_mantissa", [&] { return x.rescaled_mantissa(static_cast<uint8_t>(k)); }); VH_CHECK(c, m.has_value() == fits<D>(n, k), "rescaled-mantissa", "%s", is.what.c_str()); }
        c.distinct(vh::hash_str(is.what));
    }
    template <class D> void store(Case& c)
    {
        // mantissas of the whole width of the integer types
        using T = Traits<D>; using Int = typename T::Int; using UInt = typename T::UInt; const unsigned bits = sizeof(UInt) * 8; Big m = c.rng.flip() ? random_bits(c.rng, static_cast<unsigned>(c.rng.below(bits + 1))) : (Big(1) << static_cast<unsigned>(T::man_len() - 1 + c.rng.below(bits - T::man_len() + 2))) + Big(static_cast<int>(c.rng.below(5))) - 2; if (m < 0) m = 0; if (m >= Big(1) << bits) m = (Big(1) << bits) - 1;
        const UInt u = small<UInt>(m); const Int i = static_cast<Int>(u); const Big in = i < 0 ? m - (Big(1) << bits) : m; const Val old = value<D>(c.rng); const Judge<D> is{ c, T::name() + " from the integer " + m.str() + " (signed " + in.str() + ")" };
        is("constructor", attempt(c, "constructor", [&] { return D(i, static_cast<uint8_t>(old.e)); }), in, old.e); { D t = make<D>(old); const auto r = attempt(c, "set_mantissa", [&] { t.set_mantissa(i); return t; }); is("set_mantissa", r, in, old.e); if (!r) kept(c, t, old, "set_mantissa"); }
        { D t = make<D>(old); const auto r = attempt(c, "set_unsigned_mantissa", [&] { t.set_unsigned_mantissa(u); return t; }); is("set_unsigned_mantissa", r, old.n < 0 ? -m : m, old.e); if (!r) kept(c, t, old, "set_unsigned_mantissa"); }
        auto from = [&](auto v, const Big& n) { const uint8_t e = static_cast<uint8_t>(old.e); const Big w = n * p10(old.e); is("make_decimal", attempt(c, "make_decimal", [&] { return D::make_decimal(v, e); }), w, old.e); is("make_rounded", attempt(c, "make_rounded", [&] { return D::make_rounded(v, e); }), w, old.e); D t = make<D>(old); const auto r = attempt(c, "operator =", [&] { t = v; return t; }); is("operator =", r, w, old.e); if (!r) kept(c, t, old, "operator ="); };
        if constexpr (sizeof(UInt) >= 8) { const uint64_t v = static_cast<uint64_t>(u) >> c.rng.below(64); from(v, Big(v)); from(static_cast<int64_t>(v), Big(static_cast<int64_t>(v))); } { const int32_t v = static_cast<int32_t>(u); from(v, Big(v)); }
        c.distinct(vh::hash_str(is.what));
    }
    template <class D> void doubles(Case& c)
    {
        using T = Traits<D>; const Val old = value<D>(c.rng); const uint8_t e = static_cast<uint8_t>(old.e); double f;
        switch (c.rng.below(5)) { case 0: f = c.rng.pick({ HUGE_VAL, -HUGE_VAL, std::nan(""), 1e308, -1e308, 1.8446744073709552e19, -9.2233720368547758e18, 3.4e38 }); break; case 1: f = std::ldexp(c.rng.flip() ? 1.0 : -1.0, static_cast<int>(T::man_len())) / std::pow(10.0, e); f = c.rng.flip() ? f : std::nextafter(f, c.rng.flip() ? 0 : f * 2); break; default: f = std::ldexp(static_cast<double>(c.rng.range(-(1ll << 53), 1ll << 53)), static_cast<int>(c.rng.range(-60, 100))); }
        const bool single = f == f && std::fabs(f) < 3e38 && c.rng.chance(1, 4); if (single) f = static_cast<float>(f);
        const double lim = std::ldexp(1.0, static_cast<int>(T::man_len())), p = f * std::pow(10.0, e); const bool surely_out = !(std::fabs(p) <= lim * (1 + 1e-14)), surely_in = std::fabs(p) < lim * (1 - 1e-14) - 1;
        auto is = [&](const char* op, auto fn) { c.eval(); D t = make<D>(old); const auto r = attempt(c, op, [&] { return fn(t); }); c.count(surely_out ? "doubles out of range" : surely_in ? "doubles in range" : "doubles at the limit"); const std::string what = vh::fmt("%s: %s of %.17g with %u digits", T::name().c_str(), op, f, old.e);
            if (surely_out) VH_CHECK(c, !r, op, "%s gives %s", what.c_str(), val(*r).str().c_str()); if (surely_in) VH_CHECK(c, r.has_value(), op, "%s is refused", what.c_str()); if (r) { const double m = static_cast<double>(val(*r).n); VH_CHECK(c, r->exponent() == e && std::fabs(m - p) <= std::fabs(p) * 1e-14 + 1, op, "%s gives %s", what.c_str(), val(*r).str().c_str()); } else kept(c, t, old, op); };
        is("make_decimal", [&](D&) { return D::make_decimal(f, e); }); is("make_rounded", [&](D&) { return D::make_rounded(f, e); }); is("make_ceiled", [&](D&) { return D::make_ceiled(f, e); }); is("make_floored", [&](D&) { return D::make_floored(f, e); }); is("make_truncated", [&](D&) { return D::make_truncated(f, e); }); is("operator =", [&](D& t) { t = f; return t; });
        if (single) is("operator = float", [&](D& t) { t = static_cast<float>(f); return t; });
        // compound operations whose result is out of range, or is not a number
        { D t = make<D>(old); const double x = t.template cast<double>(); for (int k = 0; k < 4; ++k) { D u = t; const double r = k == 0 ? x * f : k == 1 ? x / f : k == 2 ? x + f : x - f, q = r * std::pow(10.0, e), s = f * std::pow(10.0, e); const auto d = attempt(c, "compound", [&] { switch (k) { case 0: u *= f; break; case 1: u /= f; break; case 2: u += f; break; default: u -= f; } return u; }); c.eval();
            const bool out = !(std::fabs(q) <= lim * (1 + 1e-13)) || (k >= 2 && !(std::fabs(s) <= lim * (1 + 1e-13))); if (out) { c.count("compound results out of range"); VH_CHECK(c, !d, "compound", "%s: %s %c= %.17g gives %s", T::name().c_str(), old.str().c_str(), "*/+-"[k], f, val(*d).str().c_str()); } if (!d) kept(c, u, old, "compound assignment"); } }
        c.distinct(vh::mix(static_cast<uint64_t>(old.e)) ^ vh::hash_bytes(&f, sizeof f));
    }
    // texts of numbers around the largest mantissa and around the largest number of digits
    template <class D> void parse(Case& c)
    {
        using T = Traits<D>; Val a = value<D>(c.rng); const int near = static_cast<int>(c.rng.range(-3, 9));
        switch (c.rng.below(4)) { case 0: a.n = T::max_man() + Big(near); break; case 1: a.n = T::max_man() / 10 * 10 + Big(near + 3); break; case 2: { const Big p = p10(static_cast<unsigned>(c.rng.below(T::max_exp() + 1))); a.n = T::max_man() / p * p + Big(c.rng.below(3)) * p + random_bits(c.rng, static_cast<unsigned>(c.rng.below(T::man_len()))) % p; break; } default: a.n = random_bits(c.rng, static_cast<unsigned>(c.rng.below(T::man_len() + 6))); a.e = static_cast<unsigned>(c.rng.below(T::max_exp() + 4)); break; }
        if (c.rng.flip()) a.n = -a.n; while (a.e > 0 && a.n % 10 == 0) { a.n /= 10; --a.e; } std::string s = text(a); if (c.rng.chance(1, 4)) s.insert(s[0] == '-' ? 1 : 0, c.rng.below(30), '0'); if (a.e && c.rng.chance(1, 4)) s += std::string(c.rng.below(300), '0');
        const Judge<D> is{ c, T::name() + " from " + s }; is("parsing", attempt(c, "parsing", [&] { return D(s.c_str()); }), a.n, a.e); const std::wstring w(s.begin(), s.end()); is("parsing wide", attempt(c, "parsing", [&] { return D(w.c_str()); }), a.n, a.e); c.distinct(vh::hash_str(is.what));
    }
    template <class D> void limits(Case& c)
    {
        using T = Traits<D>; using L = std::numeric_limits<D>; const std::string n = T::name();
        VH_CHECK(c, big(D::max_mantissa()) == T::max_man() && D::max_exponent() == T::max_exp(), "limits", "%s: mantissa up to %s, exponent up to %u", n.c_str(), big(D::max_mantissa()).str().c_str(), D::max_exponent()); VH_CHECK(c, val(L::max()).n == T::max_man() && val(L::min()).n == -T::max_man(), "limits", "%s: numeric_limits", n.c_str());
        for (unsigned e = 0; e <= T::max_exp(); ++e) { c.eval(); const D d(static_cast<typename T::Int>(1), static_cast<uint8_t>(e)); VH_CHECK(c, big(d.denominator()) == p10(e) && d.to_astring() == text({ 1, e }), "denominator", "%s: 10^-%u prints as %s", n.c_str(), e, d.to_astring().c_str()); c.distinct(vh::hash_str(n) + e); c.count("exponents"); }
        auto over = [&](const char* op, auto f) { c.eval(); VH_CHECK(c, !attempt(c, op, f), "limits", "%s: %s beyond the limit", n.c_str(), op); }; const D one(static_cast<typename T::Int>(1), 0);
        over("max + 1", [&] { return L::max() + one; }); over("min - 1", [&] { return L::min() - one; }); over("max - min", [&] { return L::max() - L::min(); }); over("max + max", [&] { return L::max() + L::max(); }); over("max * 2", [&] { return awl::multiply(L::max(), one + one); }); over("max * max", [&] { return awl::multiply(L::max(), L::max()); }); over("min * min", [&] { return awl::multiply(L::min(), L::min()); });
        over("text", [&] { return D(Big(T::max_man() + 1).str().c_str()); }); over("text", [&] { return D(("-" + Big(T::max_man() + 1).str()).c_str()); }); over("text", [&] { return D(("0." + std::string(T::max_exp(), '0') + "1").c_str()); });
        Case& k = c; auto fine = [&](const std::string& s, const D& want) { k.eval(); const auto r = attempt(k, "text", [&] { return D(s.c_str()); }); VH_CHECK(k, r && *r == want, "limits", "%s: %s is refused or wrong", n.c_str(), s.c_str()); }; fine(T::max_man().str(), L::max()); fine("-" + T::max_man().str(), L::min()); if (T::max_exp() > 0) fine("0." + std::string(T::max_exp() - 1, '0') + "1", D(static_cast<typename T::Int>(1), static_cast<uint8_t>(T::max_exp())));
    }
}

VH_CASE(binary, 2) { c.iterate(c.n(120000, 3000000), [&](uint64_t) { DEC_ALL(binary, c) }); }
VH_CASE(product, 2) { c.iterate(c.n(120000, 3000000), [&](uint64_t) { DEC_ALL(product, c) }); }
VH_CASE(scale, 1) { c.iterate(c.n(120000, 3000000), [&](uint64_t) { DEC_ALL(scale, c) }); }
VH_CASE(store, 2) { c.iterate(c.n(60000, 1500000), [&](uint64_t) { DEC_ALL(store, c) }); }
VH_CASE(doubles, 2) { c.iterate(c.n(60000, 1500000), [&](uint64_t) { DEC_ALL(doubles, c) }); }
VH_CASE(parse, 1) { c.iterate(c.n(60000, 1500000), [&](uint64_t) { DEC_ALL(parse, c) }); }
VH_CASE(limits, 1) { c.iterate(64, [&](uint64_t) { DEC_ALL(limits, c) }); }
// Known: the constructor from a number of digits stores it modulo 2^exp_len.
VH_CASE(digits_fixed, 1)
{
    c.iterate(1, [&](uint64_t)
    {
        using D = awl::decimal<uint64_t, 4>;
        for (unsigned e = D::max_exponent() + 1; e < 256; ++e)
        {
            c.eval(); c.count("digit counts beyond the limit"); c.distinct(e); const auto r = attempt(c, "constructor", [&] { return D(1, static_cast<uint8_t>(e)); }); if (r) c.fail("stored", vh::fmt("decimal<uint64,4>(1, %u) is %s", e, val(*r).str().c_str()));
        }
        c.sample("decimal<uint64,4>(1, 16..255)");
    });
}
VH_MAIN()
