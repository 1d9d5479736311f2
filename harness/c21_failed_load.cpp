// C21: a load that fails leaves the target as it was. Every read call of a load is made to fail in every way (the library's
// exceptions, foreign ones, end of file, damage), and the target is compared with a copy made before.
#include "sv.h"
#include <new>
using namespace sv;
using vh::Case;
namespace io = awl::io;

namespace
{
    struct Foreign { int k = 0; };
    // Fails at the fail_at-th read call in the chosen way; delivers short reads if asked.
    struct Src : io::SequentialInputStream
    {
        const Bytes& b; size_t pos = 0; uint64_t calls = 0, fail_at = ~uint64_t(0); unsigned how = 0; bool ends = false; bool thrown = false;
        explicit Src(const Bytes& v) : b(v) {}
        void hit() { thrown = true; switch (how) { case 0: throw io::ReadFailException(); case 1: throw io::CorruptionException(); case 2: throw io::EndOfFileException(1, 0); case 3: throw std::runtime_error("a driver of one's own"); case 4: throw Foreign{ 7 }; case 5: throw 42; case 6: throw std::bad_alloc(); default: throw io::IoError(_T("fault")); } }
        bool End() override { if (calls == fail_at && ends) hit(); return pos == b.size(); }
        size_t Read(uint8_t* p, size_t n) override
        {
            if (calls++ == fail_at) { size_t k = std::min(n, b.size() - pos) / 2; if (k) memcpy(p, b.data() + pos, k); hit(); }
            const size_t k = std::min(n, b.size() - pos); if (k) memcpy(p, b.data() + pos, k); pos += k; return k;
        }
    };

    // A structure that can be neither copied nor moved: the loader keeps its old value another way.
    struct Fixed
    {
        std::atomic<int> a{ 3 }; std::string s = "s"; std::vector<Leaf> v; std::optional<std::string> o; std::map<std::string, int> m; std::atomic<uint64_t> u{ 9 }; std::set<int> z; std::variant<int, std::string> var; std::shared_ptr<int> p; Leaf leaf; std::array<int, 3> arr{}; std::deque<int> d; std::vector<bool> bits;
        AWL_REFLECT(a, s, v, o, m, u, z, var, p, leaf, arr, d, bits)
        static auto members() { return std::make_tuple(&Fixed::s, &Fixed::v, &Fixed::o, &Fixed::m, &Fixed::z, &Fixed::var, &Fixed::p, &Fixed::leaf, &Fixed::arr, &Fixed::d, &Fixed::bits); }
        bool operator==(const Fixed& f) const { bool ok = a == f.a && u == f.u; std::apply([&](auto... q) { ((ok = ok && sv::eq(this->*q, f.*q)), ...); }, members()); return ok; }
        void fill(vh::Rng& r) { a = static_cast<int>(r.next()); u = r.next(); std::apply([&](auto... q) { ((this->*q = sv::make<std::remove_reference_t<decltype(this->*q)>>(r, 2)), ...); }, members()); }
        void set(const Fixed& f) { a = f.a.load(); u = f.u.load(); std::apply([&](auto... q) { ((this->*q = f.*q), ...); }, members()); }
    };

    Bytes stored(const io::Serializable<>& s) { Bytes b; io::VectorOutputStream o(b); s.Write(o); return b; }

    struct Big { std::vector<Node> nodes; std::map<int, std::vector<std::optional<Node>>> m; std::array<Leaf, 3> a; Defaults d; std::shared_ptr<Node> p; Plain32 f = Plain32::a; awl::decimal<uint64_t, 4> dec; std::chrono::system_clock::time_point tp;
        AWL_REFLECT(nodes, m, a, d, p, f, dec, tp) static auto members() { return std::make_tuple(&Big::nodes, &Big::m, &Big::a, &Big::d, &Big::p, &Big::f, &Big::dec, &Big::tp); } };

    std::string attempt(io::Serializable<>& s, io::SequentialInputStream& in)
    {
        try { s.Read(in); return ""; }
        catch (const io::IoException& e) { return vh::type_name(typeid(e)); }
        catch (const std::exception& e) { return vh::type_name(typeid(e)); }
        catch (const Foreign& f) { return vh::fmt("Foreign(%d)", f.k); }
        catch (int k) { return vh::fmt("int %d", k); }
        catch (...) { return "?"; }
    }
    const char* names[] = { "ReadFail", "Corruption", "EndOfFile", "runtime_error", "Foreign(7)", "int 42", "bad_alloc", "IoError" };

    // same(): whether the target holds the old value; loaded(): whether it holds the stored one; reset(): puts the old one back.
    template <class Same, class Loaded, class Reset> void faults(Case& c, const char* what, const Bytes& data, io::Serializable<>& target, bool hashed, Same same, Loaded loaded, Reset reset)
    {
        uint64_t calls; { Src in(data); reset(); const std::string e = attempt(target, in); calls = in.calls; VH_CHECK(c, e.empty() && loaded() , "good", "%s: intact data: '%s', value %s", what, e.c_str(), loaded() ? "loaded" : "wrong"); c.count("loads"); }
        const uint64_t step = 1 + calls / 40;
        for (uint64_t k = c.rng.below(step); k < calls; k += step)
        {
            Src in(data); in.fail_at = k; in.how = static_cast<unsigned>(c.rng.below(8)); in.ends = c.rng.chance(1, 5); reset(); const std::string e = attempt(target, in);
            VH_CHECK(c, in.thrown, "harness", "%s: fault %llu was not reached", what, static_cast<unsigned long long>(k));
            VH_CHECK(c, !e.empty(), "swallowed", "%s: read call %llu of %llu failed (%s) and the load reported nothing", what, static_cast<unsigned long long>(k), static_cast<unsigned long long>(calls), names[in.how]);
            VH_CHECK(c, e.find(names[in.how]) != std::string::npos, "other", "%s: read call %llu of %llu failed (%s) and the load reported %s", what, static_cast<unsigned long long>(k), static_cast<unsigned long long>(calls), names[in.how], e.c_str());
            VH_CHECK(c, same(), "changed", "%s: read call %llu of %llu failed (%s) and the value changed", what, static_cast<unsigned long long>(k), static_cast<unsigned long long>(calls), names[in.how]);
            c.eval(); c.count("faults"); c.count(vh::fmt("fault_%s", names[in.how]).c_str()); c.distinct(vh::hash_str(what) ^ vh::mix(k * 16 + in.how) ^ vh::mix(calls));
        }
        const size_t cut = 1 + data.size() / 60;
        for (size_t k = c.rng.below(cut); k < data.size(); k += cut)
        {
            const Bytes d(data.begin(), data.begin() + static_cast<std::ptrdiff_t>(k)); io::VectorInputStream in(d); reset(); const std::string e = attempt(target, in);
            VH_CHECK(c, !e.empty(), "truncated", "%s: %zu of %zu bytes were accepted", what, k, data.size());
            VH_CHECK(c, same(), "truncated-changed", "%s: %zu of %zu bytes: refused (%s) and the value changed", what, k, data.size(), e.c_str()); c.eval(); c.count("truncations");
        }
        for (unsigned q = 0; q < 30; ++q)
        {
            Bytes d = data; const size_t p = c.rng.below(d.size()); d[p] ^= static_cast<uint8_t>(1u << c.rng.below(8)); if (c.rng.chance(1, 4)) d[c.rng.below(d.size())] = static_cast<uint8_t>(c.rng.next()); if (d == data) continue;
            io::VectorInputStream in(d); reset(); const std::string e = attempt(target, in);
            if (e.empty()) { VH_CHECK(c, !hashed, "damage-accepted", "%s: damage at byte %zu of %zu was accepted", what, p, d.size()); c.count("damage_accepted"); }
            else VH_CHECK(c, same(), "damage-changed", "%s: damage at byte %zu of %zu: refused (%s) and the value changed", what, p, d.size(), e.c_str());
            c.eval(); c.count("damaged");
        }
        // and a good load still works on the same object
        { io::VectorInputStream in(data); reset(); const std::string e = attempt(target, in); VH_CHECK(c, e.empty() && loaded(), "good-after", "%s: after the failures intact data: '%s'", what, e.c_str()); }
    }

    template <class T> void movable(Case& c, const char* name)
    {
        const T a = make<T>(c.rng, 2); T old = make<T>(c.rng, 2); T t = old;
        auto same = [&] { return eq(t, old); }; auto loaded = [&] { return eq(t, a); }; auto reset = [&] { t = old; };
        T src = a; const size_t block = 9 + c.rng.below(200);
        { io::PlainSerializable<T> w(src), r(t); faults(c, (std::string("plain ") + name).c_str(), stored(w), r, false, same, loaded, reset); }
        { io::VersionTolerantSerializable<T> w(src), r(t); faults(c, (std::string("versioned ") + name).c_str(), stored(w), r, false, same, loaded, reset); }
        { io::EuphoricallySerializable<T> w(src, block), r(t, block); faults(c, (std::string("hashed ") + name).c_str(), stored(w), r, true, same, loaded, reset); }
        { io::HeaderedSerializable<T> w(io::Header{ "fmt", 3 }, src, block), r(io::Header{ "fmt", 3 }, t, block); faults(c, (std::string("headered ") + name).c_str(), stored(w), r, true, same, loaded, reset); }
        { using HI = io::HashInputStream<awl::crypto::Crc64, io::SequentialInputStream>; using HO = io::HashOutputStream<awl::crypto::Crc64, io::SequentialOutputStream>; io::PlainSerializable<T, HI, HO> pw(src), pr(t); io::HashingSerializable<> w(pw, block), r(pr, block); faults(c, (std::string("hashed plain ") + name).c_str(), stored(w), r, true, same, loaded, reset); }
        c.distinct(vh::hash_str(name) ^ vh::mix(block));
    }
    template <class T> struct Old : io::HeaderedSerializable<T> { using io::HeaderedSerializable<T>::HeaderedSerializable; size_t seen = 0, calls = 0; void ReadOldVersion(size_t v) override { seen = v; ++calls; } };
}

VH_CASE(small, 2) { c.iterate(c.n(60, 3000), [&](uint64_t) { movable<Leaf>(c, "Leaf"); movable<Defaults>(c, "Defaults"); }); }
VH_CASE(nested, 3) { c.iterate(c.n(40, 2000), [&](uint64_t) { movable<Node>(c, "Node"); }); }
VH_CASE(deep, 2) { c.iterate(c.n(8, 400), [&](uint64_t) { movable<Big>(c, "Big"); }); }

VH_CASE(unmovable, 2)
{
    c.iterate(c.n(100, 6000), [&](uint64_t)
    {
        Fixed a, old, t; a.fill(c.rng); old.fill(c.rng); const size_t block = 9 + c.rng.below(200);
        auto same = [&] { return t == old; }; auto loaded = [&] { return t == a; }; auto reset = [&] { t.set(old); };
        { io::VersionTolerantSerializable<Fixed> w(a), r(t); faults(c, "versioned, neither copied nor moved", stored(w), r, false, same, loaded, reset); }
        { io::EuphoricallySerializable<Fixed> w(a, block), r(t, block); faults(c, "hashed, neither copied nor moved", stored(w), r, true, same, loaded, reset); }
        { io::HeaderedSerializable<Fixed> w(io::Header{ "fmt", 3 }, a, block), r(io::Header{ "fmt", 3 }, t, block); faults(c, "headered, neither copied nor moved", stored(w), r, true, same, loaded, reset); }
    });
}

VH_CASE(headers, 2)
{
    c.iterate(c.n(4000, 200000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; const Leaf a = make<Leaf>(r), old = make<Leaf>(r); Leaf src = a, t = old; const size_t block = 9 + r.below(100);
        auto fmt = [&] { return r.chance(1, 2) ? std::string("format") : r.pick({ std::string(""), std::string("forma"), std::string("format "), std::string("FORMAT"), std::string("format\0x", 8), std::string(64, 'x'), std::string(63, 'x') }); };
        auto ver = [&] { return r.chance(1, 2) ? size_t(r.below(4)) : r.pick({ size_t(0), size_t(255), size_t(256), size_t(1) << 32, (size_t(1) << 32) + 1, ~size_t(0), ~size_t(0) - 1 }); };
        const std::string f1 = fmt(), f2 = fmt(); const size_t v1 = ver(), v2 = ver();
        io::HeaderedSerializable<Leaf> w(io::Header{ f1, v1 }, src, block); const Bytes b = stored(w);
        { io::HeaderedSerializable<Leaf> s(io::Header{ f2, v2 }, t, block); io::VectorInputStream in(b); const std::string e = attempt(s, in);
          const bool ok = f1 == f2 && v1 == v2; const std::string what = vh::fmt("format '%s' version %zu loaded as '%s' version %zu: '%s'", f1.c_str(), v1, f2.c_str(), v2, e.c_str());
          VH_CHECK(c, e.empty() == ok, "header", "%s", what.c_str()); if (!ok) VH_CHECK(c, e.find("IoError") != std::string::npos, "header-exception", "%s", what.c_str());
          VH_CHECK(c, eq(t, ok ? a : old), "header-value", "%s: the value is wrong", what.c_str()); c.count(ok ? "accepted" : "refused"); }
        { t = old; Old<Leaf> s(io::Header{ f2, v2 }, t, block); io::VectorInputStream in(b); const std::string e = attempt(s, in); const bool older = f1 == f2 && v1 < v2, ok = f1 == f2 && v1 <= v2;
          const std::string what = vh::fmt("format '%s' version %zu loaded as '%s' version %zu by a reader of old versions: '%s', old version seen %zu times", f1.c_str(), v1, f2.c_str(), v2, e.c_str(), s.calls);
          VH_CHECK(c, e.empty() == ok && s.calls == (older ? 1u : 0u) && (!older || s.seen == v1), "old-version", "%s", what.c_str()); VH_CHECK(c, eq(t, f1 == f2 && v1 == v2 ? a : old), "old-version-value", "%s: the value is wrong", what.c_str()); c.count(older ? "old_versions" : "other_versions"); }
        { // another block size or hash seed reads as corrupted, never as something else
          t = old; const bool seed = r.flip(); const size_t block2 = seed ? block : 9 + r.below(100); io::HeaderedSerializable<Leaf> s(io::Header{ f1, v1 }, t, block2, seed ? awl::crypto::Crc64(5) : awl::crypto::Crc64{}); io::VectorInputStream in(b); const std::string e = attempt(s, in); const bool fits = !seed && (block2 == block || b.size() <= std::min(block, block2));
          VH_CHECK(c, e.empty() == fits, "hash-parameters", "block size %zu read with %zu, %s seed: '%s'", block, block2, seed ? "another" : "the same", e.c_str()); VH_CHECK(c, eq(t, fits ? a : old), "hash-parameters-value", "the value changed"); }
        c.eval(3); c.distinct(vh::hash_str(f1 + "|" + f2) ^ vh::mix(v1) ^ vh::mix(v2 * 3 + 1));
    });
}

// Snapshots carry the same bytes as a direct save.
VH_CASE(snapshots, 1)
{
    c.iterate(c.n(300, 20000), [&](uint64_t)
    {
        Node a = make<Node>(c.rng, 2); const size_t block = 9 + c.rng.below(300);
        { io::EuphoricallySerializable<Node> s(a, block); const auto snap = s.MakeShanshot(); const Bytes direct = stored(s); Node changed = make<Node>(c.rng, 2); Node keep = a; a = changed; Bytes b; io::VectorOutputStream o(b); s.WriteSnapshot(o, snap); a = keep; VH_CHECK(c, b == direct, "snapshot", "a snapshot stores other bytes than a save made at that moment"); }
        { io::HeaderedSerializable<Node> s(io::Header{ "f", 2 }, a, block); const auto snap = s.MakeShanshot(); const Bytes direct = stored(s); Bytes b; io::VectorOutputStream o(b); s.WriteSnapshot(o, snap); VH_CHECK(c, b == direct, "snapshot-header", "a snapshot stores other bytes than a save made at that moment"); }
        c.eval(2); c.count("snapshots", 2); c.distinct(vh::mix(block) ^ vh::mix(c.cur_iter));
    });
}

VH_MAIN()
