// C27: text, rounding, rescaling and floating point of decimals against exact integers of unlimited size.
#include "dec.h"
#include <optional>
#include <cmath>
using namespace dec; using vh::Case;

namespace
{
    std::wstring wide(const std::string& s) { return std::wstring(s.begin(), s.end()); }
    std::string narrow(const std::wstring& s) { std::string r; for (wchar_t w : s) r += w < 128 ? static_cast<char>(w) : '?'; return r; }

    template <class D> void print(Case& c)
    {
        const Val a = value<D>(c.rng); const D x = make<D>(a); const std::string want = text(a), what = Traits<D>::name() + " " + a.str(); c.eval(); c.count("printed");
        VH_CHECK(c, x.to_astring() == want, "print", "%s prints as %s", what.c_str(), x.to_astring().c_str()); VH_CHECK(c, narrow(x.to_wstring()) == want && std::string(x.to_string()) == want, "print", "%s prints as %s (wide)", what.c_str(), narrow(x.to_wstring()).c_str());
        { std::ostringstream o; o << "<" << x << "|" << std::setw(12) << 42 << "|" << x << ">"; const std::string e = "<" + want + "|          42|" + want + ">"; VH_CHECK(c, o.str() == e, "stream", "%s: a stream got %s, expected %s", what.c_str(), o.str().c_str(), e.c_str()); }
        { std::wostringstream o; o << std::setfill(L'*') << x << std::setw(5) << 7; VH_CHECK(c, narrow(o.str()) == want + "****7", "stream", "%s: a wide stream got %s", what.c_str(), narrow(o.str()).c_str()); }
        // back
        const std::optional<D> b = attempt(c, "parsing", [&] { return D(std::string_view(want)); }), w = attempt(c, "parsing", [&] { return D::template from_string<wchar_t>(wide(want)); });
        VH_CHECK(c, b && w, "reparse", "%s: its own text %s is refused", what.c_str(), want.c_str()); const D n = x.normalize(); VH_CHECK(c, *b == x && *w == x && val(*b).n == val(n).n && b->exponent() == n.exponent() && val(*w).n == val(n).n, "reparse", "%s: its text %s parses to %s", what.c_str(), want.c_str(), val(*b).str().c_str());
        c.distinct(vh::hash_str(what)); if (c.want_sample()) c.sample(what + " <-> " + want);
    }

    // An independent reader of [+-] digits [. digits] with at least one digit.
    std::optional<Val> grammar(const std::string& s)
    {
        size_t i = 0; bool neg = false, any = false; Val v; if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
        Big d = 0; for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) { any = true; d = d * 10 + (s[i] - '0'); }
        if (i < s.size() && s[i] == '.') for (++i; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) { any = true; d = d * 10 + (s[i] - '0'); ++v.e; }
        if (!any || i != s.size()) return {}; while (v.e > 0 && d % 10 == 0) { d /= 10; --v.e; } v.n = neg ? -d : d; return v;
    }
    std::string random_text(Case& c, unsigned len)
    {
        auto run = [&](unsigned n) { std::string s; const unsigned k = static_cast<unsigned>(c.rng.below(3)); while (n--) s += k == 0 ? '0' : k == 1 ? '9' : static_cast<char>('0' + c.rng.below(10)); return s; };
        std::string s = c.rng.pick({ std::string(), std::string(), std::string("-"), std::string("+") }); if (c.rng.chance(1, 4)) s += std::string(c.rng.below(c.rng.chance(1, 20) ? 400 : 6), '0'); s += run(static_cast<unsigned>(c.rng.below(len))); if (c.rng.chance(2, 3)) { s += "."; if (c.rng.chance(1, 4)) s += std::string(c.rng.below(c.rng.chance(1, 10) ? 600 : 8), '0'); s += run(static_cast<unsigned>(c.rng.below(len))); if (c.rng.chance(1, 4)) s += std::string(c.rng.below(c.rng.chance(1, 10) ? 600 : 30), '0'); }
        if (c.rng.chance(1, 3)) for (unsigned k = 1 + static_cast<unsigned>(c.rng.below(2)); k--;) { const size_t p = c.rng.below(s.size() + 1); switch (c.rng.below(4)) { case 0: s.insert(p, 1, c.rng.pick({ '.', '-', '+', ' ', ',', 'e', 'x', '/', ':', '\0', '\x80', '\xb0', '0', '5' })); break; case 1: if (p < s.size()) s.erase(p, 1); break; case 2: if (p < s.size()) s[p] = static_cast<char>(c.rng.next()); break; default: s.resize(p); } }
        return s;
    }
    template <class D> void parse(Case& c)
    {
        const std::string s = random_text(c, sizeof(typename Traits<D>::UInt) == 16 ? 24 : sizeof(typename Traits<D>::UInt) == 8 ? 13 : 7); const std::optional<Val> g = grammar(s); c.eval();
        const std::unique_ptr<char[]> exact(new char[s.size()]); std::copy(s.begin(), s.end(), exact.get()); const std::wstring ws = [&] { std::wstring r; for (char ch : s) r += static_cast<wchar_t>(static_cast<unsigned char>(ch)); return r; }(); const std::unique_ptr<wchar_t[]> wexact(new wchar_t[ws.size()]); std::copy(ws.begin(), ws.end(), wexact.get());
        const std::optional<D> d = attempt(c, "parsing", [&] { return D(std::string_view(exact.get(), s.size())); }), w = attempt(c, "parsing", [&] { return D::template from_string<wchar_t>(std::wstring_view(wexact.get(), ws.size())); });
        const bool fit = g && fits<D>(g->n, g->e); const std::string what = Traits<D>::name() + " from " + vh::json(s);
        VH_CHECK(c, d.has_value() == w.has_value(), "parse", "%s: narrow %s, wide %s", what.c_str(), d ? "accepted" : "refused", w ? "accepted" : "refused");
        if (!g) { c.count("malformed texts"); VH_CHECK(c, !d, "malformed", "%s: malformed, but parsed as %s", what.c_str(), val(*d).str().c_str()); }
        else if (fit) { c.count("well-formed texts"); VH_CHECK(c, d.has_value(), "refused", "%s: refused", what.c_str()); VH_CHECK(c, val(*d).n == g->n && d->exponent() == g->e && val(*w).n == g->n && w->exponent() == g->e, "parse", "%s: parsed as %s, expected %s", what.c_str(), val(*d).str().c_str(), g->str().c_str()); VH_CHECK(c, D(s.c_str()) == *d, "parse", "%s: from a C string", what.c_str()); }
        else { c.count("too large or too precise texts"); VH_CHECK(c, !d, "overflow", "%s: does not fit, but parsed as %s", what.c_str(), val(*d).str().c_str()); }
        // a character that is a digit or a sign only when its code is cut
        if (!ws.empty()) { std::wstring b = ws; wchar_t& ch = b[c.rng.below(b.size())]; ch = c.rng.flip() ? static_cast<wchar_t>(ch + 256 * c.rng.range(1, 0x7fffff)) : c.rng.pick({ L'\u0660', L'\uff11', L'\u0130', L'\u2212', L'\u066b', static_cast<wchar_t>(-1), static_cast<wchar_t>(0x10000 + '5'), static_cast<wchar_t>(0x7fffff00 + '5') }); const auto r = attempt(c, "parsing", [&] { return D::template from_string<wchar_t>(b); }); c.eval(); c.count("wide characters"); VH_CHECK(c, !r, "malformed", "%s with character %lx: parsed as %s", what.c_str(), static_cast<unsigned long>(ch), val(*r).str().c_str()); }
        c.distinct(vh::hash_str(s));
    }

    template <class D> void rounding(Case& c)
    {
        const Val a = value<D>(c.rng); const D x = make<D>(a); const unsigned k = digits<D>(c.rng); const uint8_t k8 = static_cast<uint8_t>(k); const std::string what = vh::fmt("%s: %s to %u digits", Traits<D>::name().c_str(), a.str().c_str(), k);
        auto is = [&](const char* op, const D& r, const Big& n, unsigned e) { c.eval(); c.count(op); const Val v = val(r); VH_CHECK(c, v.n == n && v.e == e, op, "%s: %s gives %s, expected %s", what.c_str(), op, v.str().c_str(), Val{ n, e }.str().c_str()); };
        if (k < a.e)
        {
            const Big d = p10(a.e - k); is("truncate", x.truncate(k8), a.n / d, k); is("floor", x.floor(k8), floor_div(a.n, d), k); is("ceil", x.ceil(k8), ceil_div(a.n, d), k); is("rescale without check", x.rescale(k8, false), a.n / d, k); is("extend", x.extend(k8), a.n, a.e);
            const std::optional<D> r = attempt(c, "rescale", [&] { return x.rescale(k8); }); if (a.n % d == 0) { VH_CHECK(c, r.has_value(), "rescale", "%s: refused although nothing is lost", what.c_str()); is("rescale", *r, a.n / d, k); } else { c.eval(); c.count("rescale refused"); VH_CHECK(c, !r, "rescale-loses", "%s: precision was lost silently", what.c_str()); }
        }
        else
        {
            is("truncate", x.truncate(k8), a.n, a.e); is("floor", x.floor(k8), a.n, a.e); is("ceil", x.ceil(k8), a.n, a.e);
            const Big m = a.n * p10(k - a.e); const std::optional<D> r = attempt(c, "rescale", [&] { return x.rescale(k8); }), e = attempt(c, "extend", [&] { return x.extend(k8); }), u = attempt(c, "rescale", [&] { return x.rescale(k8, false); });
            if (fits<D>(m, k)) { VH_CHECK(c, r && e && u, "rescale", "%s: refused although it fits", what.c_str()); is("rescale", *r, m, k); is("extend", *e, m, k); is("rescale without check", *u, m, k); const auto q = attempt(c, "rescaled_mantissa", [&] { return x.rescaled_mantissa(k8); }); VH_CHECK(c, q && (*q < 0 ? -big(static_cast<typename Traits<D>::UInt>(-*q)) : big(static_cast<typename Traits<D>::UInt>(*q))) == m, "rescaled-mantissa", "%s", what.c_str()); }
            else { c.eval(); c.count("rescale refused"); VH_CHECK(c, !r && !e && !u, "rescale-overflow", "%s: does not fit, but was done", what.c_str()); }
        }
        if constexpr (sizeof(typename Traits<D>::UInt) >= 8)
        {
            // nanoseconds: cut at nine digits
            const Big ns = a.e >= 9 ? a.n / p10(a.e - 9) : a.n * p10(9 - a.e); if (abs(ns) <= Big(std::numeric_limits<int64_t>::max()) && fits<D>(ns, 9)) { c.eval(); c.count("durations"); const auto t = attempt(c, "decimal_to_nanoseconds", [&] { return awl::decimal_to_nanoseconds(x).count(); }); VH_CHECK(c, t && Big(*t) == ns, "nanoseconds", "%s: %s s is %lld ns, expected %s", Traits<D>::name().c_str(), text(a).c_str(), t ? (long long)*t : 0, ns.str().c_str()); }
        }
        c.distinct(vh::hash_str(what)); if (c.want_sample()) c.sample(what);
    }

    double random_double(Case& c)
    {
        switch (c.rng.below(6))
        {
        case 0: return static_cast<double>(c.rng.range(-1000000, 1000000)) / 100; case 1: return std::ldexp(static_cast<double>(c.rng.range(-(1ll << 53), 1ll << 53)), static_cast<int>(c.rng.range(-80, 30))); case 2: return static_cast<double>(c.rng.range(-100, 100)) / 3; case 3: return static_cast<double>(c.rng.range(-20001, 20001)) / 2000;
        case 4: { const double x = static_cast<double>(c.rng.range(-1000000, 1000000)) / 1000; return std::nextafter(x, c.rng.flip() ? 1e9 : -1e9); } default: return std::ldexp(static_cast<double>(c.rng.range(-7, 7)), static_cast<int>(c.rng.range(-6, 40)));
        }
    }
    // exact value of a double as n * 2^-s
    void exact(double f, Big& n, unsigned& s) { int e; const double m = std::frexp(f, &e); n = Big(static_cast<int64_t>(std::ldexp(m, 53))); e -= 53; if (e > 0) { n <<= e; s = 0; } else s = static_cast<unsigned>(-e); }

    template <class D> void from_double(Case& c)
    {
        const double f = random_double(c); const unsigned k = digits<D>(c.rng); const uint8_t k8 = static_cast<uint8_t>(k); const std::string what = vh::fmt("%s: %.17g to %u digits", Traits<D>::name().c_str(), f, k);
        // the product f * 10^k may be rounded once: by 2^-53 of it; 10^k itself is not exact above 10^22
        Big n; unsigned s; exact(f, n, s); const unsigned slack = k > 22 ? 51 : 53; n *= p10(k); const Big lo = (n << slack) - abs(n), hi = (n << slack) + abs(n), d = Big(1) << (s + slack); const Big half = d / 2;
        auto in = [&](const char* op, auto fn, const Big& min, const Big& max) { c.eval(); c.count(op); if (max > Traits<D>::max_man() || min < -Traits<D>::max_man()) return; const auto r = attempt(c, op, fn); VH_CHECK(c, r.has_value(), op, "%s: %s refused it", what.c_str(), op); const Val v = val(*r); VH_CHECK(c, v.e == k && v.n >= min && v.n <= max, op, "%s: %s gives %s, expected %s..%s", what.c_str(), op, v.str().c_str(), min.str().c_str(), max.str().c_str()); };
        in("make_truncated", [&] { return D::make_truncated(f, k8); }, lo / d, hi / d); in("make_decimal", [&] { return D::make_decimal(f, k8); }, lo / d, hi / d); in("operator =", [&] { D x(k8); x = f; return x; }, lo / d, hi / d);
        in("make_floored", [&] { return D::make_floored(f, k8); }, floor_div(lo, d), floor_div(hi, d)); in("make_ceiled", [&] { return D::make_ceiled(f, k8); }, ceil_div(lo, d), ceil_div(hi, d)); in("make_rounded", [&] { return D::make_rounded(f, k8); }, ceil_div(lo - half, d), floor_div(hi + half, d));
        // ties go away from zero, and integers and halves are exact
        { const int64_t i = c.rng.range(-1000000, 1000000); const unsigned k1 = static_cast<unsigned>(c.rng.below(2)); const double h = (static_cast<double>(i) + 0.5) / (k1 ? 1 : 1); const Big want = i >= 0 ? Big(i) + 1 : Big(i); const auto r = attempt(c, "make_rounded", [&] { return D::make_rounded(h, 0); }); c.eval(); VH_CHECK(c, r && val(*r).n == want, "tie", "%s: make_rounded(%g, 0) gives %s", Traits<D>::name().c_str(), h, r ? val(*r).str().c_str() : "an exception"); }
        c.distinct(vh::hash_str(what));
    }
    template <class D> void to_double(Case& c)
    {
        const Val a = value<D>(c.rng); const D x = make<D>(a); const double f = x.template cast<double>(), g = x; const float h = x.template cast<float>(); c.eval();
        VH_CHECK(c, f == g, "double", "%s: %s: cast and conversion differ", Traits<D>::name().c_str(), a.str().c_str());
        // |f - a| <= 2 units in the last place of a, and half a unit if both parts of the division are exact
        auto close = [&](double r, int bits, bool correct) { Big n; unsigned s; exact(r, n, s); const Big diff = abs(n * p10(a.e) - (a.n << s)), m = abs(a.n) << s; return correct ? diff * (Big(1) << (bits + 1)) <= m * 2 : diff * (Big(1) << bits) <= m * 4; };
        VH_CHECK(c, close(f, 53, abs(a.n) <= (Big(1) << 53) && a.e <= 22), "to-double", "%s: %s becomes %.17g", Traits<D>::name().c_str(), a.str().c_str(), f); VH_CHECK(c, close(h, 24, false), "to-float", "%s: %s becomes %.9g", Traits<D>::name().c_str(), a.str().c_str(), h); c.count("to floating point"); c.distinct(vh::hash_str(a.str()));
        // few digits survive a round trip through double
        if (abs(a.n) <= 1000000000000000ll && a.e <= 15) { const auto r = attempt(c, "make_rounded", [&] { return D::make_rounded(f, static_cast<uint8_t>(a.e)); }); c.eval(); VH_CHECK(c, r && val(*r).n == a.n, "double-round-trip", "%s: %s through double is %s", Traits<D>::name().c_str(), a.str().c_str(), r ? val(*r).str().c_str() : "refused"); c.count("through double"); }
    }
}

VH_CASE(print, 2) { c.iterate(c.n(120000, 2000000), [&](uint64_t) { DEC_ALL(print, c) }); }
VH_CASE(parse, 2) { c.iterate(c.n(240000, 5000000), [&](uint64_t) { DEC_ALL(parse, c) }); }
VH_CASE(rounding, 2) { c.iterate(c.n(180000, 4000000), [&](uint64_t) { DEC_ALL(rounding, c) }); }
VH_CASE(from_double, 1) { c.iterate(c.n(180000, 4000000), [&](uint64_t) { DEC_ALL(from_double, c) }); }
VH_CASE(to_double, 1) { c.iterate(c.n(180000, 4000000), [&](uint64_t) { DEC_ALL(to_double, c) }); }
VH_MAIN()
