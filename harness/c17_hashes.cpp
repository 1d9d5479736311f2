// C17: hashes are functions of the bytes alone and equal their definition.
#include "hs.h"
#include "Awl/Crypto/FixedHash.h"
#include "Awl/Int2Array.h"

#include <deque>
#include <list>
#include <array>
#include <thread>
#include <set>
#include <forward_list>

using vh::Case; using namespace hs; using awl::crypto::Crc64; using awl::crypto::Int64Hash;

namespace
{
    uint64_t value(const Crc64::value_type& v) { uint64_t r = 0; for (auto b : v) r = (r << 8) | b; return r; }
    uint64_t pick_seed(vh::Rng& r) { switch (r.below(5)) { case 0: return 0; case 1: return 127; case 2: return ~uint64_t(0); case 3: return uint64_t(1) << r.below(64); default: return r.next(); } }

    // Compile-time results, to be equal to run-time ones.
    constexpr Int64Hash ih; constexpr awl::crypto::FixedHash<Int64Hash> fh; constexpr awl::crypto::FixedHash<Int64Hash> fh9(Int64Hash(9));
    constexpr awl::fixed_string fs("123456789");
    template <auto F> constexpr bool constant() { return requires { typename std::integral_constant<uint64_t, F()>; }; }
    template <auto F> uint64_t ct() { if constexpr (constant<F>()) return std::integral_constant<uint64_t, F()>::value; else return 0xBAD0BAD0BAD0BAD0; }
    const uint64_t ct1 = ct<[] { return fh(fs); }>(), ct2 = ct<[] { return fh9("hello, world"); }>(), ct3 = ct<[] { return fh9(awl::fixed_string("")); }>(), ct4 = ct<[] { return fh(L"wide text"); }>();
}

// The whole table: each entry is the CRC of one byte; then all byte values at all positions, against the bit-serial definition.
VH_CASE(table, 1)
{
    for (unsigned b = 0; b < 256; ++b)
        for (uint64_t seed : { uint64_t(0), uint64_t(127), ~uint64_t(0), uint64_t(0x123456789abcdef0) })
        {
            uint8_t x = static_cast<uint8_t>(b); uint64_t got = value(Crc64(seed)(&x, &x + 1)), want = ref_crc(&x, 1, seed); c.eval(); c.distinct(want);
            if (got != want) c.record({ "crc", vh::fmt("byte %02x seed %llx: %016llx, definition %016llx", b, (unsigned long long)seed, (unsigned long long)got, (unsigned long long)want) });
        }
    c.count("table entries checked", 256);
    for (uint64_t seed : { uint64_t(0), uint64_t(127), ~uint64_t(0), uint64_t(77) }) { uint8_t* none = nullptr; uint64_t got = value(Crc64(seed)(none, none)); if (got != seed) c.record({ "crc-empty", "the CRC of nothing is not the seed" }); }
    const char* t = "123456789"; if (value(Crc64(0)(t, t + 9)) != 0xe9c6d914c4b8d9caull) c.record({ "crc-check", "check value of the published definition" });
}

VH_CASE(random_inputs, 4)
{
    c.iterate(c.n(60000, 1000000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; const size_t n = r.chance(1, 30) ? r.below(20000) : r.below(200); Bytes raw = random_bytes(r, n + 16); const size_t off = r.below(16); const uint64_t seed = pick_seed(r); const Crc64 h(seed);
        const uint8_t* p = raw.data() + off; const uint64_t want = ref_crc(p, n, seed); 
        auto expect = [&](uint64_t got, const char* what) { c.eval(); VH_CHECK(c, got == want, "crc", "%s: length %zu offset %zu seed %llx: %016llx, definition %016llx", what, n, off, (unsigned long long)seed, (unsigned long long)got, (unsigned long long)want); };
        expect(value(h(p, p + n)), "pointer"); expect(value(h(p, p + n)), "same hash again"); Crc64 copy(h); expect(value(copy(p, p + n)), "copy"); copy = Crc64(1); copy = h; expect(value(copy(p, p + n)), "assigned copy");
        Bytes v(p, p + n); expect(value(h(v.begin(), v.end())), "vector"); expect(value(h(v.cbegin(), v.cend())), "const vector");
        std::vector<int8_t> sv(v.begin(), v.end()); expect(value(h(sv.begin(), sv.end())), "signed char"); std::string str(v.begin(), v.end()); expect(value(h(str.begin(), str.end())), "string"); std::string_view view(str); expect(value(h(view.begin(), view.end())), "view");
        if (n < 300) { std::deque<uint8_t> d(v.begin(), v.end()); expect(value(h(d.begin(), d.end())), "deque"); std::list<uint8_t> l(v.begin(), v.end()); expect(value(h(l.begin(), l.end())), "list"); std::forward_list<char> f(v.begin(), v.end()); expect(value(h(f.begin(), f.end())), "forward_list"); }
        // rolling: the hash of the concatenation is the hash of the second part seeded with the first
        const size_t k = r.below(n + 1); expect(value(Crc64(value(h(p, p + k)))(p + k, p + n)), "continued from a prefix");
        // wrappers
        const Int64Hash ih(seed); expect(ih(p, p + n), "Int64Hash"); awl::crypto::FixedHash<Int64Hash> fx{ ih }; expect(fx(str), "FixedHash string"); expect(fx(view), "FixedHash view"); expect(fx(v.begin(), v.end()), "FixedHash range");
        awl::crypto::FixedHash<Crc64> fc{ h }; expect(value(fc(str)), "FixedHash<Crc64> string"); expect(value(fc(view)), "FixedHash<Crc64> view"); expect(value(fc(p, p + n)), "FixedHash<Crc64> range");
        // single-bit difference
        if (n) { const size_t q = r.below(n); uint8_t bit = static_cast<uint8_t>(1u << r.below(8)); v[q] ^= bit; VH_CHECK(c, value(h(v.begin(), v.end())) != want, "single-bit", "one changed bit at %zu of %zu leaves the CRC unchanged", q, n); c.count("single-bit differences"); }
        c.distinct(want); c.count("inputs");
    });
}

// Wider elements hash as their bytes, most significant first.
VH_CASE(wide_elements, 1)
{
    c.iterate(c.n(6000, 200000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; const uint64_t seed = pick_seed(r); const size_t n = r.below(40);
        auto one = [&](auto tag)
        {
            using T = decltype(tag); std::vector<T> v(n); Bytes b;
            for (auto& x : v) { x = static_cast<T>(r.next()); for (size_t i = sizeof(T); i-- > 0;) b.push_back(static_cast<uint8_t>(static_cast<std::make_unsigned_t<T>>(x) >> (8 * i))); }
            uint64_t got = value(Crc64(seed)(v.begin(), v.end())), want = ref_crc(b.data(), b.size(), seed); c.eval();
            VH_CHECK(c, got == want, "wide", "%zu-byte elements, %zu of them: %016llx, expected %016llx", sizeof(T), n, (unsigned long long)got, (unsigned long long)want);
            for (T x : v) { auto a = awl::to_array(x); Bytes e; for (size_t i = sizeof(T); i-- > 0;) e.push_back(static_cast<uint8_t>(static_cast<std::make_unsigned_t<T>>(x) >> (8 * i))); VH_CHECK(c, std::equal(a.begin(), a.end(), e.begin()), "byte-order", "to_array of a %zu-byte integer", sizeof(T)); if constexpr (std::is_unsigned_v<T>) VH_CHECK(c, awl::from_array<T>(a) == x, "byte-order", "from_array(to_array(x)) is not x for a %zu-byte integer", sizeof(T)); }
            c.distinct(want);
        };
        one(uint16_t()); one(uint32_t()); one(uint64_t()); one(int16_t()); one(int32_t()); one(int64_t());
        std::wstring w; Bytes b; for (size_t i = 0; i < n; ++i) { wchar_t ch = static_cast<wchar_t>(r.below(0x10ffff)); w.push_back(ch); for (size_t k = sizeof(wchar_t); k-- > 0;) b.push_back(static_cast<uint8_t>(static_cast<uint32_t>(ch) >> (8 * k))); }
        awl::crypto::FixedHash<Int64Hash> fx{ Int64Hash(seed) }; VH_CHECK(c, fx(w) == ref_crc(b.data(), b.size(), seed), "wide", "wide string of %zu", n);
    });
}

VH_CASE(compile_time, 1)
{
    auto ref = [](const char* s, uint64_t seed) { return ref_crc(reinterpret_cast<const uint8_t*>(s), strlen(s), seed); };
    auto is = [&](uint64_t got, uint64_t want, const char* what) { c.eval(); c.distinct(want); if (got != want) c.record({ "compile-time", vh::fmt("%s: %016llx, definition %016llx", what, (unsigned long long)got, (unsigned long long)want) }); };
    is(ct1, ref("123456789", 0), "constexpr fixed_string"); is(fh(fs), ct1, "run-time fixed_string"); is(ct2, ref("hello, world", 9), "constexpr literal"); is(fh9("hello, world"), ct2, "run-time literal"); is(ct3, 9, "constexpr empty");
    std::wstring w = L"wide text"; is(fh(w), ct4, "wide literal"); is(fh(std::string("123456789")), ct1, "string"); is(fh(std::string_view("123456789")), ct1, "view"); is(fh("123456789"), ct1, "literal");
    const char inner[] = "a\0b"; const uint8_t raw[] = { 'a', 0, 'b' }; is(fh(inner), ref_crc(raw, 3, 0), "embedded zero");
    is(value(Crc64()(raw, raw + 3)), ref_crc(raw, 3, 127), "default seed of Crc64"); is(Int64Hash()(raw, raw + 3), ref_crc(raw, 3, 0), "default seed of Int64Hash");
    VH_CHECK(c, awl::crypto::FixedHash<Crc64>::size() == 8 && Crc64::size() == 8 && awl::crypto::FakeHash::size() == 0, "size", "hash sizes");
    VH_CHECK(c, awl::crypto::FakeHash()(raw, raw + 3).empty(), "size", "FakeHash is empty");
    c.count("compile-time values compared", 4);
}

// All pairs of equal-length inputs that differ in one or two bits within a window have different CRCs (a property
// of the polynomial: detects a wrong table that is still a function).
VH_CASE(distinct_values, 1)
{
    c.iterate(c.n(40, 400), [&](uint64_t)
    {
        const size_t n = 1 + c.rng.below(24); Bytes base = random_bytes(c.rng, n); Crc64 h(pick_seed(c.rng)); std::set<uint64_t> seen; seen.insert(value(h(base.begin(), base.end()))); size_t total = 1;
        for (size_t i = 0; i < n * 8; ++i) for (size_t j = i; j < n * 8; ++j) { Bytes b = base; b[i / 8] ^= static_cast<uint8_t>(1u << (i % 8)); if (j != i) b[j / 8] ^= static_cast<uint8_t>(1u << (j % 8)); seen.insert(value(h(b.begin(), b.end()))); ++total; c.eval(); }
        VH_CHECK(c, seen.size() == total, "collision", "%zu inputs within 2 bits of each other give %zu CRCs", total, seen.size()); c.distinct(*seen.begin()); c.count("two-bit neighbourhoods");
    });
}

VH_CASE(threads, 1)
{
    c.iterate(c.n(20, 200), [&](uint64_t)
    {
        Bytes b = random_bytes(c.rng, 5000); const Crc64 h(pick_seed(c.rng)); const uint64_t want = value(h(b.begin(), b.end())); std::atomic<int> bad{ 0 }; std::vector<std::thread> t;
        for (int i = 0; i < 4; ++i) t.emplace_back([&]() { for (int k = 0; k < 20; ++k) if (value(h(b.begin(), b.end())) != want) ++bad; });
        for (auto& x : t) x.join(); c.eval(80); VH_CHECK(c, bad == 0, "threads", "a shared hash gave different values"); c.distinct(want);
    });
}
VH_MAIN()
