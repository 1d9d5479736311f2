// C26: decimal arithmetic, comparison and integer conversion against exact integers of unlimited size.
#include "dec.h"
#include <optional>
using namespace dec; using vh::Case;

namespace
{
    template <class D> void arithmetic(Case& c)
    {
        const Val a = value<D>(c.rng), b = related<D>(c.rng, a); const D x = make<D>(a), y = make<D>(b); const std::string what = Traits<D>::name() + " " + a.str() + " and " + b.str();
        auto same = [&](const char* op, const D& r, const Big& n, unsigned e) { c.eval(); const Val v = val(r); VH_CHECK(c, v.n == n && v.e == e, op, "%s: %s gives %s, expected %s", what.c_str(), op, v.str().c_str(), Val{ n, e }.str().c_str()); };
        VH_CHECK(c, val(x).n == a.n && x.exponent() == a.e, "construct", "%s: stored as %s", what.c_str(), val(x).str().c_str());
        same("negation", -x, -a.n, a.e); { D t = x; t.negate(); same("negation", t, -a.n, a.e); t.negate(); same("negation", t, a.n, a.e); }
        const unsigned e = std::max(a.e, b.e); const Big an = a.n * p10(e - a.e), bn = b.n * p10(e - b.e); int done = 0;
        if (fits<D>(an, e) && fits<D>(bn, e))
        {
            if (fits<D>(an + bn, e)) { same("addition", x + y, an + bn, e); D t = x; D& q = t += y; same("+=", t, an + bn, e); VH_CHECK(c, &q == &t, "+=", "+= returned another object"); ++done; c.count("sums"); }
            if (fits<D>(an - bn, e)) { same("subtraction", x - y, an - bn, e); D t = x; t -= y; same("-=", t, an - bn, e); ++done; c.count("differences"); }
            if (fits<D>(an + an, e)) { D t = make<D>(an, e); t += t; same("+= itself", t, an + an, e); }
            { D t = x; t -= t; same("-= itself", t, 0, a.e); VH_CHECK(c, t == D::zero() && !t.negative(), "-= itself", "%s: x - x is not zero", what.c_str()); }
        }
        if (fits<D>(a.n * b.n, a.e + b.e)) { same("multiplication", awl::multiply(x, y), a.n * b.n, a.e + b.e); ++done; c.count("products"); }
        // factors that fit
        { Val p = a, q = b; while (p.n != 0 && abs(p.n) * abs(q.n) > Traits<D>::max_man()) { if (abs(p.n) > abs(q.n)) p.n /= 7; else q.n /= 7; } while (p.e + q.e > Traits<D>::max_exp()) { if (p.e > q.e) --p.e; else --q.e; } same("multiplication", awl::multiply(make<D>(p), make<D>(q)), p.n * q.n, p.e + q.e); c.count("products"); }
        c.distinct(vh::hash_str(what)); if (c.want_sample()) c.sample(what + ": " + std::to_string(done) + " results fit");
    }

    template <class D> void order(Case& c)
    {
        // a pool of related values, all pairs
        std::vector<Val> v; while (v.size() < 12) { if (v.empty() || c.rng.chance(1, 3)) v.push_back(value<D>(c.rng)); else { Val b = related<D>(c.rng, v[c.rng.below(v.size())]); v.push_back(b); if (c.rng.chance(1, 6)) v.push_back({ 0, digits<D>(c.rng) }); } }
        std::vector<D> d; for (auto& x : v) { D t = make<D>(x); if (x.n == 0 && c.rng.flip()) t = -t; d.push_back(t); }
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j)
        {
            const int k = cmp(v[i], v[j]); const D &x = d[i], &y = d[j]; c.eval(); c.count(k == 0 ? i == j ? "the same" : "equal" : "different");
            const bool r[] = { x == y, x != y, x < y, x > y, x <= y, x >= y }, e[] = { k == 0, k != 0, k < 0, k > 0, k <= 0, k >= 0 }; const char* op[] = { "==", "!=", "<", ">", "<=", ">=" };
            for (int o = 0; o < 6; ++o) VH_CHECK(c, r[o] == e[o], "compare", "%s: %s %s %s is %d", Traits<D>::name().c_str(), v[i].str().c_str(), op[o], v[j].str().c_str(), r[o]);
            if (i == j) { VH_CHECK(c, x.negative() == (v[i].n < 0) && x.positive() == (v[i].n >= 0), "sign", "%s: sign of %s", Traits<D>::name().c_str(), v[i].str().c_str()); const D n = x.normalize(); const Val w = val(n); VH_CHECK(c, cmp(w, v[i]) == 0 && n == x && (w.e == 0 || w.n % 10 != 0), "normalize", "%s: %s normalizes to %s", Traits<D>::name().c_str(), v[i].str().c_str(), w.str().c_str()); const D bits = D::from_bits(x.to_bits()); VH_CHECK(c, val(bits).n == v[i].n && bits.exponent() == v[i].e, "bits", "%s: from_bits(to_bits) of %s", Traits<D>::name().c_str(), v[i].str().c_str()); }
            c.distinct(vh::hash_str(v[i].str() + "/" + v[j].str()));
        }
        if (c.want_sample()) c.sample(vh::fmt("%s: all pairs of %zu values, %s ...", Traits<D>::name().c_str(), v.size(), v[0].str().c_str()));
    }

    template <class T> Big bigi(T v) { return v < 0 ? -big(static_cast<std::make_unsigned_t<T>>(static_cast<std::make_unsigned_t<T>>(0) - static_cast<std::make_unsigned_t<T>>(v))) : big(static_cast<std::make_unsigned_t<T>>(v)); }
    template <class D, class T> void integer(Case& c, const char* t)
    {
        if constexpr (sizeof(T) <= sizeof(typename Traits<D>::UInt))
        {
            T n; switch (c.rng.below(4)) { case 0: n = static_cast<T>(c.rng.next()); break; case 1: n = static_cast<T>(c.rng.range(-20, 20)); break; case 2: n = static_cast<T>(std::numeric_limits<T>::max() >> c.rng.below(sizeof(T) * 8)); break; default: n = static_cast<T>(std::numeric_limits<T>::min() >> c.rng.below(sizeof(T) * 8)); break; }
            const unsigned e = digits<D>(c.rng); const Big m = bigi(n) * p10(e);
            if (fits<D>(m, e))
            {
                auto is = [&](const char* f, const D& d) { c.eval(); const Val v = val(d); VH_CHECK(c, v.n == m && v.e == e, "from-integer", "%s: %s(%s %s, %u) gives %s", Traits<D>::name().c_str(), f, t, bigi(n).str().c_str(), e, v.str().c_str()); };
                is("make_decimal", D::make_decimal(n, e)); is("make_rounded", D::make_rounded(n, e)); is("make_ceiled", D::make_ceiled(n, e)); is("make_floored", D::make_floored(n, e)); is("make_truncated", D::make_truncated(n, e)); D d(static_cast<uint8_t>(e)); d = n; is("operator =", d); d = static_cast<T>(0); d = n; is("operator =", d);
                c.count("integers in"); c.distinct(vh::hash_str(bigi(n).str() + t) ^ e);
            }
        }
        // out: truncated towards zero
        const Val a = value<D>(c.rng); const Big q = a.n / p10(a.e);
        if (q >= bigi(std::numeric_limits<T>::min()) && q <= bigi(std::numeric_limits<T>::max())) { c.eval(); c.count("integers out"); const T r = make<D>(a).template cast<T>(); VH_CHECK(c, bigi(r) == q, "to-integer", "%s: cast<%s>(%s) gives %s", Traits<D>::name().c_str(), t, a.str().c_str(), bigi(r).str().c_str()); }
    }
    template <class D> void integers(Case& c) { integer<D, int8_t>(c, "int8_t"); integer<D, uint8_t>(c, "uint8_t"); integer<D, int16_t>(c, "int16_t"); integer<D, int32_t>(c, "int32_t"); integer<D, uint32_t>(c, "uint32_t"); integer<D, int64_t>(c, "int64_t"); integer<D, uint64_t>(c, "uint64_t"); { const bool b = c.rng.flip(); VH_CHECK(c, val(D::make_decimal(b, 0)).n == Big(b), "from-integer", "from bool"); } }

    // + and - with a double act on the double cut to the digits of the decimal; * and / give doubles
    template <class D> void doubles(Case& c)
    {
        Val a = value<D>(c.rng); while (abs(a.n) > Traits<D>::max_man() / 4) a.n /= 3; const D x = make<D>(a); double f;
        switch (c.rng.below(4)) { case 0: f = static_cast<double>(c.rng.range(-1000, 1000)); break; case 1: f = static_cast<double>(c.rng.range(-1000000, 1000000)) / 64; break; case 2: f = std::ldexp(static_cast<double>(c.rng.range(-(1ll << 53), 1ll << 53)), static_cast<int>(c.rng.range(-70, 0))); break; default: f = 0.1 * static_cast<double>(c.rng.range(-1000, 1000)); break; }
        const std::optional<D> y = attempt(c, "make_decimal", [&] { return D::make_decimal(f, static_cast<uint8_t>(a.e)); });
        if (y)
        {
            const Val w = val(*y); const std::string what = vh::fmt("%s: %s with %a", Traits<D>::name().c_str(), a.str().c_str(), f);
            if (fits<D>(a.n + w.n, a.e)) { c.eval(); D t = x; t += f; VH_CHECK(c, val(x + f).n == a.n + w.n && val(t).n == a.n + w.n && t.exponent() == a.e, "add-double", "%s: + gives %s, += %s", what.c_str(), val(x + f).str().c_str(), val(t).str().c_str()); c.count("with doubles"); }
            if (fits<D>(a.n - w.n, a.e)) { c.eval(); D t = x; t -= f; VH_CHECK(c, val(x - f).n == a.n - w.n && val(t).n == a.n - w.n && t.exponent() == a.e, "subtract-double", "%s: - gives %s, -= %s", what.c_str(), val(x - f).str().c_str(), val(t).str().c_str()); c.count("with doubles"); }
            const double m = x * f, q = x / f, dx = x.template cast<double>(); c.eval(); VH_CHECK(c, m == dx * f && (q == dx / f || (std::isnan(q) && std::isnan(dx / f))), "double", "%s: * gives %a, / gives %a", what.c_str(), m, q);
            auto compound = [&](const char* op, double r, auto f2) { D t = x; const std::optional<D> e = attempt(c, op, [&] { return D::make_decimal(r, static_cast<uint8_t>(a.e)); }), g = attempt(c, op, [&] { f2(t); return t; }); c.eval(); VH_CHECK(c, e.has_value() == g.has_value() && (!e || (val(*e).n == val(*g).n && g->exponent() == a.e)), "compound-double", "%s: %s gives %s, expected %s", what.c_str(), op, g ? val(*g).str().c_str() : "an exception", e ? val(*e).str().c_str() : "an exception"); if (!g) VH_CHECK(c, val(t).n == a.n && t.exponent() == a.e, "compound-double", "%s: %s threw and changed the value", what.c_str(), op); };
            compound("*=", m, [&](D& t) { t *= f; }); compound("/=", q, [&](D& t) { t /= f; });
            c.distinct(vh::hash_str(what));
        }
    }
}

VH_CASE(arithmetic, 2) { c.iterate(c.n(60000, 1500000), [&](uint64_t) { DEC_ALL(arithmetic, c) }); }
VH_CASE(order, 2) { c.iterate(c.n(3000, 80000), [&](uint64_t) { DEC_ALL(order, c) }); }
VH_CASE(integers, 1) { c.iterate(c.n(30000, 600000), [&](uint64_t) { DEC_ALL(integers, c) }); }
VH_CASE(doubles, 1) { c.iterate(c.n(60000, 1000000), [&](uint64_t) { DEC_ALL(doubles, c) }); }
VH_MAIN()
