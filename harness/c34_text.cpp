// C34: text helpers against independent oracles; texts live in buffers of exactly their size, so that a byte read or written outside is seen.
#include "vh.h"
#include "Awl/String.h"
#include "Awl/StringFormat.h"
#include "Awl/FixedString.h"
#include "Awl/Separator.h"
#include "Awl/Time.h"
#include "Awl/IntRange.h"
#include "Awl/Math.h"
#include "Awl/LogString.h"
#include "Awl/RangeUtil.h"
#include "Awl/Int2Array.h"
#include "Awl/Combinator.h"
#include "Awl/StopWatch.h"
#include "Awl/CppStd/StringView.h"
#include <clocale>
#include <cmath>
#include <cstdlib>
#include <ctime>
#include <utility>
#include <list>
#include <memory>
#include <vector>
using vh::Case;

namespace
{
    // A zero-terminated copy with nothing after it.
    template <class Ch> struct Exact { std::unique_ptr<Ch[]> p; explicit Exact(const std::basic_string<Ch>& s) : p(new Ch[s.size() + 1]) { std::copy(s.begin(), s.end(), p.get()); p[s.size()] = 0; } const Ch* get() const { return p.get(); } };
    std::string utf8(const std::wstring& w) { std::string s; for (wchar_t c : w) { const uint32_t u = static_cast<uint32_t>(c); if (u < 0x80) s += static_cast<char>(u); else if (u < 0x800) { s += static_cast<char>(0xC0 | u >> 6); s += static_cast<char>(0x80 | (u & 63)); } else if (u < 0x10000) { s += static_cast<char>(0xE0 | u >> 12); s += static_cast<char>(0x80 | (u >> 6 & 63)); s += static_cast<char>(0x80 | (u & 63)); } else { s += static_cast<char>(0xF0 | u >> 18); s += static_cast<char>(0x80 | (u >> 12 & 63)); s += static_cast<char>(0x80 | (u >> 6 & 63)); s += static_cast<char>(0x80 | (u & 63)); } } return s; }
    wchar_t symbol(Case& c) { switch (c.rng.below(6)) { case 0: case 1: return static_cast<wchar_t>(1 + c.rng.below(127)); case 2: return static_cast<wchar_t>(0x80 + c.rng.below(0x780)); case 3: return static_cast<wchar_t>(0x800 + c.rng.below(0xD000)); case 4: return static_cast<wchar_t>(0xE000 + c.rng.below(0x1FFE)); default: return static_cast<wchar_t>(0x10000 + c.rng.below(0x100000)); } }
    size_t length(Case& c) { switch (c.rng.below(6)) { case 0: return c.rng.below(3); case 1: return 14 + c.rng.below(4); case 2: return 250 + c.rng.below(20); case 3: if (c.rng.chance(1, 100)) return c.rng.below(20000); return c.rng.below(300); default: return c.rng.below(60); } }
    struct Locale { explicit Locale(const char* n) { if (!std::setlocale(LC_ALL, n)) { fprintf(stderr, "VH-ABORT: no locale %s\n", n); abort(); } } ~Locale() { std::setlocale(LC_ALL, "C"); } };
    std::string hex(const std::string& s) { std::string r; for (unsigned char b : s) r += vh::fmt("%02x", b); return r; }
}

VH_CASE(conversion, 1)
{
    c.iterate(c.n(60000, 1500000), [&](uint64_t)
    {
        const bool ascii = c.rng.chance(1, 4); Locale l(ascii ? "C" : "C.utf8"); c.eval(); std::wstring w; const size_t n = length(c); for (size_t i = 0; i < n; ++i) w += ascii ? static_cast<wchar_t>(1 + c.rng.below(127)) : symbol(c); const std::string s = utf8(w); Exact<wchar_t> ew(w); Exact<char> es(s); const std::string in = vh::fmt("%zu symbols %s", n, hex(s.substr(0, 60)).c_str());
        VH_CHECK(c, awl::EncodeString(ew.get()) == s && awl::StringConvertor<char>::Encode(ew.get()) == s && awl::StringConvertor<wchar_t>::EncodeToA(ew.get()) == s && awl::FromWCString(ew.get()) == s && awl::FromWString(w) == s, "encode", "%s", in.c_str());
        VH_CHECK(c, awl::DecodeString(es.get()) == w && awl::StringConvertor<wchar_t>::Decode(es.get()) == w, "decode", "%s", in.c_str());
        VH_CHECK(c, awl::StringConvertor<char>::Decode(es.get()) == s && awl::StringConvertor<char>::EncodeToA(es.get()) == s && awl::StringConvertor<wchar_t>::Encode(ew.get()) == w && awl::FromACString(es.get()) == s && awl::FromAString(s) == s && awl::ToAString(s) == s, "same", "%s", in.c_str());
        VH_CHECK(c, awl::LogString(es.get()).str() == s && awl::LogString(ew.get()).str() == s && awl::LogString(s).str() == s && awl::LogString(w).str() == s, "log", "%s", in.c_str());
        VH_CHECK(c, awl::StrLen(es.get()) == s.size() && awl::StrLen(ew.get()) == w.size(), "length", "%s", in.c_str());
        { std::wostringstream o; using awl::operator<<; o << s; VH_CHECK(c, o.str() == w, "wide", "%s", in.c_str()); std::wostringstream q; awl::operator<<(q, es.get()); VH_CHECK(c, q.str() == w, "wide", "%s", in.c_str()); VH_CHECK(c, (awl::wformat() << s << L'|' << w).str() == w + L"|" + w && (awl::aformat() << s << es.get()).str() == s + s, "wide", "%s", in.c_str()); }
        c.count("texts"); c.count("symbols", n); c.distinct(vh::hash_str(s)); if (c.want_sample()) c.sample(in);
        // what cannot be represented is reported
        if (c.rng.chance(1, 4))
        {
            const size_t at = c.rng.below(n + 1); std::wstring bw = w; bw.insert(bw.begin() + static_cast<std::ptrdiff_t>(at), ascii ? static_cast<wchar_t>(0x416) : static_cast<wchar_t>(0xD800 + c.rng.below(0x800))); std::string bs = utf8(w.substr(0, at)); static const std::vector<std::string> bad = { "\xff", "\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xfe" }; bs += ascii ? std::string("\xd0\x96") : c.rng.pick(bad); if (ascii || c.rng.flip()) bs += utf8(w.substr(at));
            auto fails = [&](auto f) { try { f(); } catch (const std::exception&) { return true; } return false; }; Exact<wchar_t> xw(bw); Exact<char> xs(bs);
            { VH_CHECK(c, fails([&] { awl::EncodeString(xw.get()); }), "bad-encode", "a text with a symbol that cannot be encoded is converted: %s", in.c_str()); if (!ascii) VH_CHECK(c, fails([&] { awl::DecodeString(xs.get()); }), "bad-decode", "a malformed text is converted: %s", hex(bs).c_str()); } c.count("malformed texts");
        }
    });
}

namespace
{
    template <class Ch> Ch any_char(Case& c) { if constexpr (sizeof(Ch) == 1) return c.rng.chance(1, 5) ? static_cast<Ch>(1 + c.rng.below(255)) : c.rng.pick({ 'a', 'A', 'b', 'B', 'z', 'Z', '[', '@', '`', '{', '0', '_' }); else return c.rng.chance(1, 5) ? static_cast<Ch>(0x4E00 + c.rng.below(0x1000)) : static_cast<Ch>(c.rng.pick({ 'a', 'A', 'b', 'B', 'z', 'Z', '[', '@', '`', '{', '0', '_' })); }
    template <class Ch> std::basic_string<Ch> fold(std::basic_string<Ch> s) { for (auto& x : s) if (x >= 'A' && x <= 'Z') x = static_cast<Ch>(x + 32); return s; }
    template <class Ch> std::string shown(const std::basic_string<Ch>& s) { std::string r; for (auto x : s) r += x > 32 && x < 127 ? std::string(1, static_cast<char>(x)) : vh::fmt("\\%x", static_cast<unsigned>(x)); return r; }
    template <class Ch> void compare(Case& c)
    {
        using S = std::basic_string<Ch>; const S base = [&] { S s; for (size_t i = c.rng.below(5); i; --i) s += any_char<Ch>(c); return s; }(); std::vector<S> v; for (int i = 0; i < 4; ++i) { S s = base; switch (c.rng.below(5)) { case 0: for (auto& x : s) if (c.rng.flip()) x = x >= 'a' && x <= 'z' ? static_cast<Ch>(x - 32) : x; break; case 1: s += any_char<Ch>(c); break; case 2: if (!s.empty()) s.pop_back(); break; case 3: if (!s.empty()) s[c.rng.below(s.size())] = any_char<Ch>(c); break; default: s.clear(); for (size_t k = c.rng.below(6); k; --k) s += any_char<Ch>(c); } v.push_back(s); }
        std::vector<Exact<Ch>> e; for (auto& s : v) e.emplace_back(s); const awl::CStringInsensitiveLess<Ch> less; const awl::CStringLess<Ch> strict; const awl::StringInsensitiveEqual<Ch> eq; const awl::StringEqual<Ch> same; c.eval(); bool lt[4][4];
        for (size_t i = 0; i < 4; ++i) for (size_t k = 0; k < 4; ++k)
        {
            const S a = fold(v[i]), b = fold(v[k]); lt[i][k] = less(e[i].get(), e[k].get()); const std::string in = shown(v[i]) + " and " + shown(v[k]); VH_CHECK(c, eq(v[i], v[k]) == (a == b), "insensitive-equal", "%s", in.c_str()); VH_CHECK(c, same(v[i], v[k]) == (v[i] == v[k]), "equal", "%s", in.c_str());
            const bool plain = std::all_of(a.begin(), a.end(), [](Ch x) { return x > 0 && x < 128; }) && std::all_of(b.begin(), b.end(), [](Ch x) { return x > 0 && x < 128; }); if (a == b) VH_CHECK(c, !lt[i][k], "insensitive-less", "%s are equal", in.c_str()); else if (plain) VH_CHECK(c, lt[i][k] == (a < b), "insensitive-less", "%s", in.c_str()); if (plain) VH_CHECK(c, strict(e[i].get(), e[k].get()) == (v[i] < v[k]), "less", "%s", in.c_str()); c.count("comparisons"); c.count("equal", a == b && i != k);
        }
        for (size_t i = 0; i < 4; ++i) for (size_t k = 0; k < 4; ++k) { VH_CHECK(c, fold(v[i]) == fold(v[k]) || lt[i][k] != lt[k][i], "order", "%s and %s are not ordered", shown(v[i]).c_str(), shown(v[k]).c_str()); for (size_t m = 0; m < 4; ++m) VH_CHECK(c, !lt[i][k] || !lt[k][m] || lt[i][m], "order", "not transitive: %s, %s, %s", shown(v[i]).c_str(), shown(v[k]).c_str(), shown(v[m]).c_str()); }
        for (int x = 1; x < 256; ++x) { const Ch a = any_char<Ch>(c), b = static_cast<Ch>(x); VH_CHECK(c, sizeof(Ch) != 1 || awl::CharInsensitiveEqual<Ch>()(a, b) == (fold(S(1, a)) == fold(S(1, b))), "char", "%x and %x", static_cast<unsigned>(a), x); } c.distinct(vh::hash_str(shown(v[0]) + "|" + shown(v[1])));
    }
}
VH_CASE(comparison, 1) { c.iterate(c.n(20000, 500000), [&](uint64_t i) { if (i % 2) compare<char>(c); else compare<wchar_t>(c); }); }

namespace
{
    std::string digits(__uint128_t v) { std::string s; do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } while (v); return s; }
    __uint128_t big(Case& c) { __uint128_t v = static_cast<__uint128_t>(c.rng.next()) << 64 | c.rng.next(); switch (c.rng.below(6)) { case 0: { __uint128_t p = 1; for (size_t i = c.rng.below(39); i; --i) p *= 10; return p - c.rng.below(2); } case 1: return ~static_cast<__uint128_t>(0) - c.rng.below(3); case 2: return c.rng.below(12); case 3: return static_cast<__uint128_t>(1) << 127 | c.rng.below(2); default: return v >> c.rng.below(128); } }
    template <class C> std::basic_string<C> widen(const std::string& s) { return std::basic_string<C>(s.begin(), s.end()); }
    template <class C> void int128(Case& c)
    {
        const __uint128_t v = big(c); const std::string d = digits(v); c.eval(); std::basic_ostringstream<C> o; using awl::operator<<; const std::streamsize width = c.rng.flip() ? 0 : static_cast<std::streamsize>(c.rng.below(50)); const char fill = c.rng.pick({ ' ', '0', '*' }); const bool left = c.rng.chance(1, 3); o << std::setfill(static_cast<C>(fill)) << std::setw(static_cast<int>(width)); if (left) o << std::left; o << v; std::string want = d; const std::string pad(d.size() < static_cast<size_t>(width) ? static_cast<size_t>(width) - d.size() : 0, fill); want = left ? d + pad : pad + d;
        VH_CHECK(c, o.str() == widen<C>(want), "uint128", "%s with width %d and fill '%c' is %s", d.c_str(), static_cast<int>(width), fill, shown(o.str()).c_str()); o << 7; VH_CHECK(c, o.str() == widen<C>(want + "7"), "uint128-width", "the width is left after %s", d.c_str());
        const __int128_t s = static_cast<__int128_t>(v); std::basic_ostringstream<C> q; q << s; VH_CHECK(c, q.str() == widen<C>(s < 0 ? "-" + digits(-v) : d), "int128", "%s is %s", (s < 0 ? "-" + digits(-v) : d).c_str(), shown(q.str()).c_str()); c.count("integers"); c.distinct(static_cast<uint64_t>(v) ^ static_cast<uint64_t>(v >> 64) ^ vh::mix(static_cast<uint64_t>(width))); if (c.want_sample()) c.sample(d);
    }
    struct Own { int v; }; template <class C> std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const Own& x) { return o << static_cast<C>('<') << x.v << static_cast<C>('>'); }
    template <class C> void formats(Case& c)
    {
        awl::basic_format<C> f; std::basic_string<C> want; std::string in; c.eval(); const size_t n = c.rng.below(12);
        for (size_t i = 0; i < n; ++i) switch (c.rng.below(13))
        {
        case 0: { const int v = static_cast<int>(c.rng.next()); f << v; want += widen<C>(std::to_string(v)); in += "i"; break; }
        case 1: { const uint64_t v = c.rng.next(); f << v; want += widen<C>(std::to_string(v)); in += "u"; break; }
        case 2: { const C ch = static_cast<C>('a' + c.rng.below(26)); f << ch; want += ch; in += "c"; break; }
        case 3: { std::basic_string<C> s(c.rng.below(50), static_cast<C>('k')); if (!s.empty()) s[c.rng.below(s.size())] = 0; f << s; want += s; in += "s"; break; }
        case 4: { f << "a literal"; want += widen<C>("a literal"); in += "l"; break; }
        case 5: { const std::string s(c.rng.below(40), 'n'); f << s; want += widen<C>(s); in += "n"; break; }
        case 6: { std::optional<int> v; if (c.rng.flip()) v = static_cast<int>(c.rng.below(100)); f << v; want += widen<C>(v ? std::to_string(*v) : "empty"); in += "o"; break; }
        case 7: { std::optional<std::string> v; if (c.rng.flip()) v = std::string(c.rng.below(20), 'v'); f << v; want += widen<C>(v ? *v : "empty"); in += "O"; break; }
        case 8: { f << awl::basic_format<C>::endl; want += static_cast<C>('\n'); in += "e"; break; }
        case 9: { const int v = static_cast<int>(c.rng.below(100000)), k = static_cast<int>(c.rng.below(9)); f << std::setw(k) << std::setfill(static_cast<C>('0')) << v; std::string d = std::to_string(v); want += widen<C>(std::string(d.size() < static_cast<size_t>(k) ? static_cast<size_t>(k) - d.size() : 0, '0') + d); in += "w"; break; }
        case 10: { const uint32_t v = static_cast<uint32_t>(c.rng.next()); f << std::hex << v << std::dec; want += widen<C>(vh::fmt("%x", v)); in += "x"; break; }
        case 11: { const Own v{ static_cast<int>(c.rng.below(1000)) }; f << v; want += widen<C>("<" + std::to_string(v.v) + ">"); in += "*"; break; }
        default: { const bool v = c.rng.flip(); f << v << std::boolalpha << v << std::noboolalpha; want += widen<C>(v ? "1true" : "0false"); in += "b"; break; }
        }
        const std::basic_string<C> converted = f; VH_CHECK(c, f.str() == want && converted == want, "format", "%s gives %s, must be %s", in.c_str(), shown(f.str()).c_str(), shown(want).c_str()); c.count("formatted arguments", n); c.distinct(vh::hash_str(shown(want)));
        if constexpr (std::is_same_v<C, char>) if (want.find('\0') == want.npos) { const awl::LogString l = f; VH_CHECK(c, l.str() == want, "log", "%s", in.c_str()); }
        // separators
        const std::basic_string<C> s(c.rng.below(4), static_cast<C>(';')); const bool one = c.rng.flip(); awl::basic_separator<C> sep = one ? awl::basic_separator<C>(static_cast<C>(',')) : awl::basic_separator<C>(s); std::basic_ostringstream<C> o; std::basic_string<C> list; const size_t m = c.rng.below(6); using awl::operator<<; for (size_t i = 0; i < m; ++i) { if (c.rng.flip()) o << sep << static_cast<int>(i); else { o << sep; o << static_cast<int>(i); } if (i) list += one ? widen<C>(", ") : s; list += widen<C>(std::to_string(i)); } VH_CHECK(c, o.str() == list && sep.first() == (m == 0), "separator", "%zu values: %s", m, shown(o.str()).c_str());
    }
}
VH_CASE(format, 1) { c.iterate(c.n(60000, 1500000), [&](uint64_t) { int128<char>(c); int128<wchar_t>(c); formats<char>(c); formats<wchar_t>(c); }); }

namespace
{
    template <class C, size_t N> std::basic_string<C> of(const awl::fixed_string<C, N>& f) { return std::basic_string<C>(f.begin(), f.end()); }
    template <class C, size_t N, size_t M> void fixed(Case& c)
    {
        C a[N + 1] = {}, b[N + 1] = {}, m[M + 1] = {}; const bool zeros = c.rng.chance(1, 4); for (size_t i = 0; i < N; ++i) { a[i] = static_cast<C>(zeros ? c.rng.below(3) : 1 + c.rng.below(3)); b[i] = c.rng.chance(1, 8) ? static_cast<C>(c.rng.below(3)) : a[i]; } for (size_t i = 0; i < M; ++i) m[i] = static_cast<C>((zeros ? 0 : 1) + c.rng.below(120)); auto box = [](auto f) { return std::make_unique<decltype(f)>(f); };
        auto fa = box(awl::fixed_string<C, N>(a)), fb = box(awl::fixed_string<C, N>(b)); auto fm = box(awl::fixed_string<C, M>(m)); const std::basic_string<C> sa(a, N), sb(b, N), sm(m, M); c.eval();
        VH_CHECK(c, (*fa == *fb) == (sa == sb) && (*fa != *fb) == (sa != sb), "fixed-equal", "%zu characters", N); VH_CHECK(c, N == M || (!(*fa == *fm) && *fa != *fm), "fixed-equal", "%zu and %zu characters", N, M);
        auto sum = box(*fa + *fm); VH_CHECK(c, sum->size() == N + M && of(*sum) == sa + sm && sum->c_str()[N + M] == 0, "fixed-sum", "%zu and %zu characters", N, M); auto more = box(*sum + *fb); VH_CHECK(c, of(*more) == sa + sm + sb && more->c_str()[more->size()] == 0, "fixed-sum", "of three");
        const std::basic_string<C> s = *fa; const std::basic_string_view<C> v = *fa; VH_CHECK(c, s == sa && v == sa && fa->size() == N && fa->data() == fa->begin() && fa->end() == fa->begin() + N && static_cast<const C*>(*fa) == fa->data() && fa->c_str()[N] == 0, "fixed-view", "%zu characters", N); for (size_t i = 0; i < N; ++i) VH_CHECK(c, (*fa)[i] == a[i] && std::as_const(*fa)[i] == a[i], "fixed-index", "%zu", i);
        if (N) { (*fa)[N - 1] = static_cast<C>(9); VH_CHECK(c, fa->data()[N - 1] == 9 && fa->c_str()[N] == 0 && fa->size() == N, "fixed-index", "assigned"); *fa = *fb; VH_CHECK(c, of(*fa) == sb, "fixed-copy", "%zu", N); } awl::fixed_string<C, N> none; VH_CHECK(c, of(none) == std::basic_string<C>(N, C()), "fixed-empty", "%zu", N); c.count("fixed strings"); c.distinct(N * 64 + M);
    }
    template <class C, size_t... N> void all_fixed(Case& c, std::index_sequence<N...>) { (fixed<C, N, (N * 7 + 3) % 11>(c), ...); }
    template <auto F> constexpr bool constant() { return requires { typename std::bool_constant<F()>; }; }
    template <auto F> constexpr bool holds() { if constexpr (constant<F>()) return F(); else return false; }
    constexpr auto joins_now = [] { auto joined = awl::fixed_string("ab") + awl::fixed_string("") + awl::fixed_string("cde"); return joined == awl::fixed_string("abcde") && joined != awl::fixed_string("abcdf") && joined != awl::fixed_string("abcd") && joined.size() == 5 && joined[4] == 'e' && awl::fixed_string<wchar_t, 3>::from_ascii("xyz")[2] == L'z'; };

    std::string clock_text(int64_t ns, int64_t unit, int fraction) { const bool neg = ns < 0; uint64_t t = neg ? 0 - static_cast<uint64_t>(ns) : static_cast<uint64_t>(ns); const uint64_t per = static_cast<uint64_t>(1000000000 / unit); const uint64_t sec = t / per, f = t % per; std::string s = vh::fmt("%s%02llu:%02llu:%02llu", neg ? "-" : "", static_cast<unsigned long long>(sec / 3600), static_cast<unsigned long long>(sec / 60 % 60), static_cast<unsigned long long>(sec % 60)); if (fraction) { std::string d = std::to_string(f); s += "." + std::string(static_cast<size_t>(fraction) - d.size(), '0') + d; } return s; }
    template <class D> void duration(Case& c, int64_t unit, int fraction) { const int64_t range = static_cast<int64_t>(1) << c.rng.below(unit == 1 ? 62 : unit == 1000 ? 52 : unit == 1000000 ? 42 : 32); const int64_t v = static_cast<int64_t>(c.rng.below(static_cast<uint64_t>(range) * 2)) - range; const std::string want = clock_text(v, unit, fraction); c.eval(); std::ostringstream a; awl::format_duration(a, D(v)); std::wostringstream w; awl::format_duration(w, D(v)); VH_CHECK(c, a.str() == want && w.str() == widen<wchar_t>(want) && awl::duration_to_string<char>(D(v)) == want, "duration", "%lld units of %lld ns are %s, must be %s", static_cast<long long>(v), static_cast<long long>(unit), a.str().c_str(), want.c_str()); c.count("durations"); c.distinct(static_cast<uint64_t>(v)); }
}
VH_CASE(fixed_strings, 1) { VH_CHECK(c, joins_now(), "fixed-constant", "at run time"); VH_CHECK(c, holds<joins_now>(), "fixed-constant", "at compile time"); c.iterate(c.n(3000, 60000), [&](uint64_t) { all_fixed<char>(c, std::make_index_sequence<18>()); all_fixed<wchar_t>(c, std::make_index_sequence<6>()); all_fixed<char16_t>(c, std::make_index_sequence<6>()); { const auto t = awl::text("hello"); std::ostringstream o; using awl::operator<<; o << t; VH_CHECK(c, o.str() == "hello", "fixed-print", "%s", o.str().c_str()); } }); }

VH_CASE(time, 1)
{
    c.iterate(c.n(30000, 600000), [&](uint64_t)
    {
        static const std::vector<std::string> zones = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "MSK-3", "NST3:30", "NPT-5:45", "LINT-14" }; setenv("TZ", c.rng.pick(zones).c_str(), 1); tzset(); const int y = 1971 + static_cast<int>(c.rng.below(180)), mon = static_cast<int>(c.rng.below(12)), d = 1 + static_cast<int>(c.rng.below(28)), h = static_cast<int>(c.rng.below(24)), mi = static_cast<int>(c.rng.below(60)), s = static_cast<int>(c.rng.below(60)); c.eval();
        const auto tp = awl::make_time<std::chrono::system_clock>(y, mon, d, h, mi, s); const time_t t = std::chrono::system_clock::to_time_t(tp); std::tm back{}; localtime_r(&t, &back); const bool gap = h == 2; VH_CHECK(c, gap || (back.tm_year + 1900 == y && back.tm_mon == mon && back.tm_mday == d && back.tm_hour == h && back.tm_min == mi && back.tm_sec == s), "time", "%d-%d-%d %d:%d:%d in %s becomes %d-%d-%d %d:%d:%d", y, mon, d, h, mi, s, getenv("TZ"), back.tm_year + 1900, back.tm_mon, back.tm_mday, back.tm_hour, back.tm_min, back.tm_sec); VH_CHECK(c, tp.time_since_epoch() % std::chrono::seconds(1) == std::chrono::seconds(0), "time", "a fraction of a second appears");
        const std::chrono::nanoseconds f(static_cast<int64_t>(c.rng.below(1000000000))); const auto tf = awl::make_time<std::chrono::system_clock, std::chrono::nanoseconds>(y, mon, d, h, mi, s, f); VH_CHECK(c, tf - tp == f, "time-fraction", "%lld", static_cast<long long>(f.count())); c.count("times"); c.distinct(static_cast<uint64_t>(t));
        switch (c.rng.below(4)) { case 0: duration<std::chrono::nanoseconds>(c, 1, 9); break; case 1: duration<std::chrono::microseconds>(c, 1000, 6); break; case 2: duration<std::chrono::milliseconds>(c, 1000000, 3); break; default: duration<std::chrono::seconds>(c, 1000000000, 0); }
        if (c.rng.chance(1, 100)) { const auto from = std::chrono::steady_clock::now(); awl::StopWatch w(from); const auto limit = std::chrono::microseconds(c.rng.below(50)); while (!w.HasElapsed(limit)) { } const auto now = std::chrono::steady_clock::now(); VH_CHECK(c, now - from >= limit, "watch", "a watch is ahead of time"); const auto e = w.GetElapsedTime(); const auto after = std::chrono::steady_clock::now() - from; VH_CHECK(c, e >= now - from && e <= after, "watch", "the time is wrong"); const auto q = w.GetElapsedCount<int64_t, std::micro>(); VH_CHECK(c, q >= std::chrono::duration_cast<std::chrono::microseconds>(e).count() && q <= std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - from).count(), "watch", "microseconds"); const auto before = std::chrono::steady_clock::now(); w.Reset(); const std::chrono::steady_clock::duration z = w; VH_CHECK(c, z <= std::chrono::steady_clock::now() - before, "watch", "not reset"); c.count("watches"); }
    });
}

namespace
{
    template <class T> void bytes(Case& c) { const T v = static_cast<T>(c.rng.next() >> c.rng.below(64)); const auto a = awl::to_array(v); c.eval(); for (size_t i = 0; i < sizeof(T); ++i) VH_CHECK(c, a[i] == static_cast<uint8_t>(static_cast<uint64_t>(v) >> 8 * (sizeof(T) - 1 - i)), "to-array", "%llx", static_cast<unsigned long long>(v)); VH_CHECK(c, awl::from_array<T>(a) == v, "from-array", "%llx", static_cast<unsigned long long>(v)); c.count("integers"); }
    template <class T> void ranges(Case& c) { const T a = static_cast<T>(static_cast<T>(c.rng.below(100)) - (std::is_signed_v<T> ? static_cast<T>(50) : static_cast<T>(0))), n = static_cast<T>(c.rng.below(20)); T k = a; c.eval(); for (auto i : awl::make_int_range(a, static_cast<T>(a + n))) { VH_CHECK(c, i == k, "range", "%lld", static_cast<long long>(i)); ++k; } VH_CHECK(c, k == static_cast<T>(a + n), "range", "ends at %lld", static_cast<long long>(k)); T m = 0; for (auto i : awl::make_count(n)) { VH_CHECK(c, i == m, "count", "%lld", static_cast<long long>(i)); ++m; } VH_CHECK(c, m == n, "count", "ends at %lld", static_cast<long long>(m)); const auto r = awl::make_count(n); VH_CHECK(c, static_cast<size_t>(r.size()) == static_cast<size_t>(n), "count", "size"); c.count("ranges"); }
    template <class F> void reals(Case& c)
    {
        const F f = static_cast<F>(static_cast<double>(static_cast<int64_t>(c.rng.below(20000001)) - 10000000) / c.rng.pick({ 1.0, 2.0, 3.0, 1000.0, 100000.0 })); c.eval(); const F fl = std::floor(f), part = f - fl; const int r = awl::math::round<int>(f); if (part != static_cast<F>(0.5)) VH_CHECK(c, r == static_cast<int>(part < static_cast<F>(0.5) ? fl : fl + 1), "round", "%.17g gives %d", static_cast<double>(f), r); else VH_CHECK(c, r == static_cast<int>(fl) || r == static_cast<int>(fl) + 1, "round", "%.17g gives %d", static_cast<double>(f), r);
        VH_CHECK(c, awl::math::sign(f) == (f > 0 ? 1 : f < 0 ? -1 : 0), "sign", "%.17g", static_cast<double>(f)); F v = f; const F lo = static_cast<F>(static_cast<int>(c.rng.below(200)) - 100), hi = lo + static_cast<F>(c.rng.below(100)); awl::math::clamp(v, lo, hi); VH_CHECK(c, v == std::clamp(f, lo, hi), "clamp", "%.17g", static_cast<double>(f)); v = f; awl::math::clamp(v, hi, lo, std::greater<>()); VH_CHECK(c, v == std::clamp(f, lo, hi), "clamp", "%.17g", static_cast<double>(f)); const F g = awl::math::raidans_to_degrees(awl::math::degrees_to_radians(f)), e = std::numeric_limits<F>::epsilon() * 8; VH_CHECK(c, std::fabs(g - f) <= std::fabs(f) * e && std::fabs(awl::math::degrees_to_radians(f) - f * static_cast<F>(3.14159265358979323846L / 180)) <= std::fabs(f) * e, "degrees", "%.17g", static_cast<double>(f)); VH_CHECK(c, awl::math::half_pi<F>() * 2 == awl::math::pi<F>() && std::fabs(awl::math::quarter_pi<F>() * 4 - awl::math::pi<F>()) < e * 4 && std::fabs(std::sin(awl::math::pi<F>())) < static_cast<F>(1e-6), "pi", "pi"); c.count("reals"); c.distinct(vh::mix(static_cast<uint64_t>(static_cast<int64_t>(f * 1000))));
    }
}
VH_CASE(numbers, 1)
{
    c.iterate(c.n(100000, 2000000), [&](uint64_t)
    {
        bytes<uint64_t>(c); bytes<int64_t>(c); bytes<uint32_t>(c); bytes<int32_t>(c); bytes<uint16_t>(c); bytes<int16_t>(c); bytes<uint8_t>(c); ranges<int>(c); ranges<size_t>(c); ranges<int8_t>(c); ranges<uint16_t>(c); reals<float>(c); reals<double>(c);
        { std::list<int> l; const size_t n = 1 + c.rng.below(7); for (size_t i = 0; i < n; ++i) l.push_back(static_cast<int>(i) * 10); auto at = std::next(l.begin(), static_cast<std::ptrdiff_t>(c.rng.below(n))); if (c.rng.flip()) *at = static_cast<int>(c.rng.below(80)) - 5; const bool out = (at != l.begin() && !(*std::prev(at) < *at)) || (std::next(at) != l.end() && !(*at < *std::next(at))); VH_CHECK(c, awl::position_changed(l, std::less<>(), at) == out, "position", "%zu elements", n); }
        { const int n = static_cast<int>(c.rng.below(15)); auto f = awl::y_combinator<int, int>([](auto self, int k) -> int { return k < 2 ? k : self(k - 1) + k; }); const int s = f(static_cast<int>(n)); VH_CHECK(c, s == n * (n + 1) / 2, "combinator", "%d gives %d", n, s); }
        { const std::string s(c.rng.below(30), 'v'); const auto v = awl::make_string_view<char>(s.begin(), s.end()); VH_CHECK(c, v == s && (s.empty() || v.data() == s.data()), "view", "%zu", s.size()); }
    });
}
VH_MAIN()
