// C18: plain serialization. Whatever is written comes back equal, to the byte, whatever the target held before.
#include "sv.h"

using vh::Case; using namespace sv;

namespace
{
    template <class T> constexpr bool unordered = false;
    template <class E> constexpr bool unordered<std::unordered_set<E>> = true;
    template <class K, class V> constexpr bool unordered<std::unordered_map<K, V>> = true;
    template <> constexpr bool unordered<Defaults> = true;
    template <> constexpr bool unordered<Deep> = true;
    template <> constexpr bool unordered<std::vector<Deep>> = true;

    // Splits writes nowhere, only records them: the encoding must not depend on the stream's static type.
    struct Sink : awl::io::SequentialOutputStream { Bytes b; uint64_t calls = 0; void Write(const uint8_t* p, size_t n) override { ++calls; b.insert(b.end(), p, p + n); } };

    template <class T> Bytes encode(const T& v) { Bytes b; awl::io::VectorOutputStream o(b); awl::io::Write(o, v); return b; }

    template <class T> void check(Case& c, const char* name)
    {
        vh::Rng& r = c.rng;
        const T v = make<T>(r, 3);
        const Bytes b = encode(v);
        if (c.want_sample()) c.sample(vh::fmt("%s -> %s", name, vh::hex(b.data(), b.size()).c_str()));
        c.eval(); c.distinct(vh::hash_bytes(b.data(), b.size(), vh::hash_str(name)));
        c.count("bytes", b.size());
        {
            Sink s; awl::io::SequentialOutputStream& o = s; awl::io::Write(o, v);
            VH_CHECK(c, s.b == b, "stream-type", "%s: written %s to one stream and %s to another", name, vh::hex(b.data(), b.size()).c_str(), vh::hex(s.b.data(), s.b.size()).c_str());
            awl::io::MeasureStream m; awl::io::Write(m, v);
            VH_CHECK(c, m.GetLength() == b.size(), "measure", "%s: measured %zu, written %zu bytes", name, m.GetLength(), b.size());
        }
        // trailing bytes must be left alone
        Bytes t = b; const size_t extra = r.below(20); for (size_t i = 0; i < extra; ++i) t.push_back(static_cast<uint8_t>(r.next()));
        for (int k = 0; k < 3; ++k)
        {
            T w = k == 0 ? T{} : make<T>(r, 3); // a fresh target and targets that hold something else
            awl::io::VectorInputStream in(t);
            try { awl::io::Read(in, w); } catch (const awl::io::IoException&) { c.fail("refused", vh::fmt("%s: cannot read back %s", name, vh::hex(b.data(), b.size()).c_str())); }
            VH_CHECK(c, eq(v, w), k ? "overwrite" : "round-trip", "%s: read back a different value%s from %s (now encodes as %s)", name, k ? " over a used target" : "", vh::hex(b.data(), b.size()).c_str(), [&] { Bytes x = encode(w); return vh::hex(x.data(), x.size()); }().c_str());
            Bytes rest(extra + 1); const size_t n = in.Read(rest.data(), rest.size());
            VH_CHECK(c, n == extra && std::equal(rest.begin(), rest.begin() + static_cast<ptrdiff_t>(n), t.end() - static_cast<ptrdiff_t>(extra)), "consumed", "%s: %zu bytes left after reading, %zu expected", name, n, extra);
            if constexpr (!unordered<T>) VH_CHECK(c, encode(w) == b, "determinism", "%s: an equal value is encoded differently", name);
            c.count("values read back");
        }
        // other streams
        {
            std::stringstream ss; { awl::io::StdOutputStream o(ss); awl::io::Write(o, v); const std::string x = ss.str(); VH_CHECK(c, Bytes(x.begin(), x.end()) == b, "stream-type", "%s: a std stream got other bytes", name); }
            T w = T{}; awl::io::StdInputStream in(ss); awl::io::SequentialInputStream& vin = in; awl::io::Read(vin, w); VH_CHECK(c, eq(v, w) && in.End(), "std-stream", "%s: std stream round trip", name); c.count("std stream round trips");
        }
        {
            Bytes h; const size_t block = 9 + r.below(40); { awl::io::VectorOutputStream vo(h); if (r.flip()) { awl::io::HashOutputStream<awl::crypto::Crc64> o(vo, block); awl::io::Write(o, v); o.Finish(); } else { hs::Bytes h2; } }
            if (!h.empty()) { hs::ShortIn si(h, r.next(), static_cast<unsigned>(r.below(4))); awl::io::HashInputStream<awl::crypto::Crc64> in(si, block); T w = T{}; awl::io::Read(in, w); VH_CHECK(c, eq(v, w), "hash-stream", "%s: hashed stream round trip", name); c.count("hashed stream round trips"); }
            Bytes f; { awl::io::VectorOutputStream vo(f); awl::io::BufferedOutputStream o(vo, 1 + r.below(30)); awl::io::Write(o, v); } VH_CHECK(c, f == b, "stream-type", "%s: the buffered stream got other bytes", name);
            hs::ShortIn si(f, r.next(), static_cast<unsigned>(r.below(4))); awl::io::BufferedInputStream in(si, 1 + r.below(30)); T w = T{}; awl::io::Read(in, w); VH_CHECK(c, eq(v, w), "buffered-stream", "%s: buffered stream round trip", name); c.count("buffered stream round trips");
        }
        // every proper prefix is refused
        if (b.size() <= 200) for (size_t n = 0; n < b.size(); ++n)
        {
            Bytes p(b.begin(), b.begin() + static_cast<ptrdiff_t>(n)); awl::io::VectorInputStream in(p); T w = T{}; bool thrown = false;
            try { awl::io::Read(in, w); } catch (const awl::io::EndOfFileException&) { thrown = true; }
            VH_CHECK(c, thrown, "prefix", "%s: %zu of %zu bytes accepted", name, n, b.size()); c.count("prefixes refused");
        }
    }

    template <class L> void run(Case& c, uint64_t n, L list)
    {
        c.iterate(n, [&](uint64_t) { list([&]<class T>(const char* name) { c.note(name); check<T>(c, name); }); });
    }
}

VH_CASE(scalars, 2) { run(c, c.n(1500, 40000), [](auto f) { scalars(f); }); }
VH_CASE(sequences, 2) { run(c, c.n(500, 12000), [](auto f) { sequences(f); }); }
VH_CASE(collections, 2) { run(c, c.n(500, 12000), [](auto f) { collections(f); }); }
VH_CASE(composites, 3) { run(c, c.n(300, 6000), [](auto f) { composites(f); }); }

// Values written one after another are read one after another; arguments of different kinds share a stream.
VH_CASE(streams_of_values, 2)
{
    c.iterate(c.n(600, 15000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; Bytes b; awl::io::VectorOutputStream out(b); std::vector<std::function<void(awl::io::VectorInputStream&)>> readers; size_t n = 1 + r.below(12); std::string seq; size_t measured = 0;
        auto put = [&]<class T>(const char* name) { auto v = std::make_shared<T>(make<T>(r, 2)); awl::io::Write(out, *v); awl::io::MeasureStream m; awl::io::Write(m, *v); measured += m.GetLength(); seq += std::string(name) + ";"; readers.push_back([v, &c, name](awl::io::VectorInputStream& in) { T w = T{}; awl::io::Read(in, w); VH_CHECK(c, eq(*v, w), "sequence", "%s in a sequence of values came back different", name); }); };
        for (size_t i = 0; i < n; ++i)
        {
            unsigned k = static_cast<unsigned>(r.below(90)), j = 0; auto pick = [&]<class T>(const char* name) { if (j++ == k) put.template operator()<T>(name); };
            scalars(pick); sequences(pick); collections(pick); composites(pick);
        }
        VH_CHECK(c, measured == b.size(), "measure", "measured %zu, written %zu: %s", measured, b.size(), seq.c_str());
        awl::io::VectorInputStream in(b); for (auto& f : readers) f(in); VH_CHECK(c, in.End(), "consumed", "bytes left after %s", seq.c_str());
        c.eval(readers.size()); c.distinct(vh::hash_str(seq)); c.count("sequences");
    });
}

// Large data passes the limits at which reading works in parts (a megabyte at a time).
VH_CASE(large, 4)
{
    c.iterate(c.n(12, 80), [&](uint64_t i)
    {
        vh::Rng& r = c.rng; const size_t mb = 1024 * 1024; const size_t n = i % 3 == 0 ? mb + r.below(3) - 1 : i % 3 == 1 ? r.below(3 * mb) : 2 * mb + r.below(3) - 1;
        auto trip = [&](const auto& v, const char* name) { using T = std::decay_t<decltype(v)>; Bytes b = encode(v); b.push_back(7); awl::io::VectorInputStream in(b); T w{}; if (r.flip()) w.resize(r.below(2 * mb)); awl::io::Read(in, w); VH_CHECK(c, w == v, "large", "%s of %zu elements", name, v.size()); uint8_t x = 0; VH_CHECK(c, in.Read(&x, 1) == 1 && x == 7 && in.End(), "consumed", "%s of %zu elements", name, v.size()); c.eval(); c.distinct(vh::mix(v.size()) ^ vh::hash_str(name)); };
        std::vector<uint8_t> a(n); for (size_t k = 0; k < n; k += 8) { uint64_t x = r.next(); memcpy(a.data() + k, &x, std::min<size_t>(8, n - k)); } trip(a, "vector<uint8_t>");
        std::string s(a.begin(), a.end()); trip(s, "string");
        std::vector<bool> v(n); for (size_t k = 0; k < n; ++k) v[k] = a[k] & 1; trip(v, "vector<bool>");
        std::u32string u(n / 3, U'a'); for (size_t k = 0; k < u.size(); ++k) u[k] = static_cast<char32_t>(a[k] * 1000 + k); trip(u, "u32string");
        std::vector<double> d(n / 5); for (size_t k = 0; k < d.size(); ++k) d[k] = static_cast<double>(k) * 1.5 + a[k]; trip(d, "vector<double>");
        if (i % 3 == 0)
        {
            auto coll = [&](const auto& v, const char* name) { using T = std::decay_t<decltype(v)>; Bytes b = encode(v); b.push_back(7); awl::io::VectorInputStream in(b); T w{}; awl::io::Read(in, w); Bytes rest(2); c.eval(); c.count("bytes of large values", b.size()); VH_CHECK(c, w.size() == v.size() && std::equal(v.begin(), v.end(), w.begin()) && in.Read(rest.data(), 2) == 1, "large", "%s of %zu elements", name, static_cast<size_t>(v.size())); awl::io::MeasureStream m; awl::io::Write(m, v); VH_CHECK(c, m.GetLength() + 1 == b.size(), "measure", "%s of %zu elements", name, static_cast<size_t>(v.size())); };
            const int k = 65536 + static_cast<int>(r.below(9000)) - 300; std::set<int> si; std::map<int, std::string> mp; std::deque<int> dq; awl::vector_set<int> aset; std::unordered_set<int> us;
            for (int q = 0; q < k; ++q) { const int x = q * 7919; si.insert(x); mp.emplace_hint(mp.end(), q, std::string(static_cast<size_t>(q % 4), 'm')); dq.push_back(x); aset.insert(x); us.insert(x); }
            coll(si, "set"); coll(mp, "map"); coll(dq, "deque"); coll(aset, "vector_set");
            Bytes b = encode(us); awl::io::VectorInputStream in(b); std::unordered_set<int> w{ 1, 2 }; awl::io::Read(in, w); VH_CHECK(c, w == us && in.End(), "large", "unordered_set of %d elements", k);
        }
        std::vector<std::string> vs(n / 20); for (size_t k = 0; k < vs.size(); ++k) vs[k] = std::string(a[k] % 5, 'x'); trip(vs, "vector<string>");
    });
}

// A length limit in the context is enforced exactly, on reading and on writing.
VH_CASE(limits, 1)
{
    c.iterate(c.n(4000, 100000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; const size_t n = r.below(60), lim = r.below(60) * (r.chance(1, 3) ? 4 : 1);
        auto go = [&]<class S>(const char* name)
        {
            S s(n, typename S::value_type('x')); const bool fits = n * sizeof(typename S::value_type) <= lim; Bytes b; awl::io::VectorOutputStream o(b); bool thrown = false;
            try { awl::io::Write(o, s, awl::io::LimitedContext{ lim }); } catch (const awl::io::IoError&) { thrown = true; }
            VH_CHECK(c, thrown == !fits && (fits || b.empty()), "write-limit", "%s of %zu characters, limit %zu bytes: %s", name, n, lim, thrown ? "refused" : "written");
            Bytes e = encode(s); awl::io::VectorInputStream in(e); S w(3, typename S::value_type('q')); thrown = false;
            try { awl::io::Read(in, w, awl::io::LimitedContext{ lim }); } catch (const awl::io::IoError&) { thrown = true; }
            VH_CHECK(c, thrown == !fits && (thrown || w == s), "read-limit", "%s of %zu characters, limit %zu bytes: %s", name, n, lim, thrown ? "refused" : "read");
            c.eval(2); c.distinct(vh::mix(n * 1000 + lim));
        };
        go.template operator()<std::string>("string"); go.template operator()<std::wstring>("wstring"); go.template operator()<std::u16string>("u16string");
    });
}

// Values that cannot be assigned (atomics) and tuples of references.
VH_CASE(special, 1)
{
    c.iterate(c.n(3000, 60000), [&](uint64_t)
    {
        vh::Rng& r = c.rng;
        { std::atomic<int> a(static_cast<int>(r.next())), b(0); Bytes x = encode(a); awl::io::VectorInputStream in(x); awl::io::Read(in, b); VH_CHECK(c, a.load() == b.load() && in.End() && x.size() == 4, "atomic", "atomic<int> round trip"); }
        { std::atomic<bool> a(r.flip()), b(r.flip()); Bytes x = encode(a); awl::io::VectorInputStream in(x); awl::io::Read(in, b); VH_CHECK(c, a.load() == b.load() && in.End(), "atomic", "atomic<bool> round trip"); }
        { int a = make<int>(r), a2 = 0; std::string s = make<std::string>(r), s2; Bytes x; awl::io::VectorOutputStream o(x); awl::io::Write(o, std::tie(a, s)); awl::io::VectorInputStream in(x); awl::io::Read(in, std::tie(a2, s2)); VH_CHECK(c, a == a2 && s == s2 && in.End(), "tie", "tie round trip"); }
        { auto cap = 1 + r.below(12); auto push = r.below(30); awl::ring<int> a(cap), b(cap); for (uint64_t i = 0; i < push; ++i) a.push_back(static_cast<int>(i)); Bytes x = encode(a); for (uint64_t i = 0; i < r.below(20); ++i) b.push_back(-1); awl::io::VectorInputStream in(x); awl::io::Read(in, b); VH_CHECK(c, std::equal(a.begin(), a.end(), b.begin(), b.end()) && in.End(), "ring", "ring round trip"); }
        { awl::observable_set<std::string> a = make<awl::observable_set<std::string>>(r), b; b.insert("zzz"); Bytes x = encode(a); awl::io::VectorInputStream in(x); awl::io::Read(in, b); VH_CHECK(c, eq(a, b), "observable_set", "observable_set over a used target"); }
        c.eval(5); c.distinct(c.rng.s);
    });
}

namespace
{
    // An order and a hash that are chosen at run time.
    struct Order { int mod = 0; bool down = false; bool operator()(int a, int b) const { if (mod) { const unsigned x = static_cast<unsigned>(a) % static_cast<unsigned>(mod), y = static_cast<unsigned>(b) % static_cast<unsigned>(mod); if (x != y) return down ? x > y : x < y; } return down ? a > b : a < b; } };
    struct Seeded { size_t seed = 0; size_t operator()(int v) const { return static_cast<size_t>(vh::mix(seed ^ static_cast<uint64_t>(static_cast<uint32_t>(v)))); } };
    struct Watch : awl::Observer<awl::INotifySetChanged<int>> { std::multiset<int> seen; uint64_t calls = 0; void OnAdded(const int& v) override { seen.insert(v); ++calls; } void OnRemoving(const int& v) override { seen.erase(seen.find(v)); ++calls; } void OnClearing() override { seen.clear(); ++calls; } };
}
// What belongs to the target and not to the value stays: the order, the hash function, the observers.
VH_CASE(target_state, 1)
{
    c.iterate(c.n(2000, 60000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; const Order from{ static_cast<int>(r.below(5)), r.flip() }, to{ static_cast<int>(r.below(5)), r.flip() }; std::vector<int> v(r.below(30)); for (auto& x : v) x = static_cast<int>(r.range(-50, 50)); const std::set<int> all(v.begin(), v.end()); std::vector<int> want(all.begin(), all.end());
        auto go = [&](const char* name, auto a, auto b, auto key)
        {
            for (int x : v) { if constexpr (requires { typename decltype(b)::mapped_type; }) a[x] = -x; else a.insert(x); }
            for (uint64_t k = r.below(5); k; --k) { const int x = static_cast<int>(r.range(-50, 50)); if constexpr (requires { typename decltype(b)::mapped_type; }) b[x] = x; else b.insert(x); }
            const Bytes e = encode(a); awl::io::VectorInputStream in(e); awl::io::Read(in, b); c.eval(); c.count(name);
            for (int more : { 51, -51, 7 }) { std::vector<int> got; for (auto& x : b) got.push_back(key(x)); VH_CHECK(c, got == want, "target-state", "%s: a target with an order of its own (modulo %d, %s) gives its %zu elements in another one", name, to.mod, to.down ? "descending" : "ascending", got.size()); if constexpr (requires { typename decltype(b)::mapped_type; }) b[more] = 0; else b.insert(more); if (std::find(want.begin(), want.end(), more) == want.end()) { want.push_back(more); std::sort(want.begin(), want.end(), to); } }
            want.assign(all.begin(), all.end()); std::sort(want.begin(), want.end(), to);
        };
        std::sort(want.begin(), want.end(), to); auto self = [](int x) { return x; };
        go("set", std::set<int, Order>(from), std::set<int, Order>(to), self); go("vector_set", awl::vector_set<int, Order>(from), awl::vector_set<int, Order>(to), self); go("map", std::map<int, int, Order>(from), std::map<int, int, Order>(to), [](auto& p) { return p.first; });
        { std::unordered_set<int, Seeded> a(8, Seeded{ 1 }), b(8, Seeded{ 2 }); for (int x : v) a.insert(x); b.insert(99); const Bytes e = encode(a); awl::io::VectorInputStream in(e); awl::io::Read(in, b); c.eval(); VH_CHECK(c, b.hash_function().seed == 2 && std::set<int>(b.begin(), b.end()) == all, "target-state", "unordered_set: the target's hash function is gone or the value is another"); }
        { std::unordered_map<int, int, Seeded> a(8, Seeded{ 1 }), b(8, Seeded{ 2 }); for (int x : v) a[x] = x; b[99] = 1; const Bytes e = encode(a); awl::io::VectorInputStream in(e); awl::io::Read(in, b); c.eval(); VH_CHECK(c, b.hash_function().seed == 2 && (std::map<int, int>(b.begin(), b.end()) == std::map<int, int>(a.begin(), a.end())), "target-state", "unordered_map: the target's hash function is gone or the value is another"); }
        {
            awl::observable_set<int, Order> a(from), b(to); for (int x : v) a.insert(x); Watch w, w2; b.Subscribe(&w); b.Subscribe(&w2); for (uint64_t k = r.below(5); k; --k) b.insert(static_cast<int>(r.range(-50, 50)));
            const Bytes e = encode(a); awl::io::VectorInputStream in(e); awl::io::Read(in, b); c.eval(); c.count("observed targets"); auto same = [&](const Watch& x) { return x.seen.size() == b.size() && std::equal(x.seen.begin(), x.seen.end(), std::set<int>(b.begin(), b.end()).begin()); };
            VH_CHECK(c, std::equal(b.begin(), b.end(), want.begin(), want.end()), "target-state", "observable_set: the elements or their order are wrong"); VH_CHECK(c, same(w) && same(w2), "observed", "the observers of a set that is read into have not seen the change");
            b.insert(77); VH_CHECK(c, same(w) && w.IsSubscribed() && w2.IsSubscribed(), "observed", "the observers of a set are gone after it was read into");
        }
        c.distinct(vh::mix(r.s));
    });
}

// PlainSerializable: atomic or not, through the virtual interface.
VH_CASE(plain_serializable, 2)
{
    c.iterate(c.n(600, 15000), [&](uint64_t)
    {
        vh::Rng& r = c.rng;
        auto go = [&]<class T, bool atomic>(const char* name)
        {
            T v = make<T>(r), w = make<T>(r); awl::io::PlainSerializable<T, awl::io::SequentialInputStream, awl::io::SequentialOutputStream, atomic> sv_(v), sw(w); Bytes b; awl::io::VectorOutputStream o(b); sv_.Write(o); VH_CHECK(c, b.size() == encode(v).size(), "serializable", "%s: %zu bytes", name, b.size());
            awl::io::VectorInputStream in(b); sw.Read(in); VH_CHECK(c, eq(v, w) && in.End(), "serializable", "%s: PlainSerializable round trip", name); c.eval(); c.distinct(vh::hash_bytes(b.data(), b.size()));
        };
        go.template operator()<Leaf, true>("Leaf"); go.template operator()<Leaf, false>("Leaf"); go.template operator()<Defaults, true>("Defaults"); go.template operator()<Defaults, false>("Defaults"); go.template operator()<Deep, true>("Deep"); go.template operator()<Deep, false>("Deep"); go.template operator()<std::map<std::string, Node>, false>("map"); go.template operator()<std::vector<bool>, true>("vector<bool>");
    });
}

VH_MAIN()
