// C19: damaged, truncated and hostile input is either decoded or refused with an I/O exception of the library;
// AddressSanitizer and UBSan watch memory, an allocation meter watches proportion, CPU time watches hangs.
#include "sv.h"

#include <new>
#include <malloc.h>

namespace meter
{
    // Counts what the library allocates while a decode runs.
    static thread_local bool on = false; static thread_local size_t live = 0, peak = 0, biggest = 0, base = 0;
    static void add(size_t n) { if (!on) return; live += n; if (live > peak) peak = live; if (n > biggest) biggest = n; }
    static void sub(size_t n) { if (!on) return; live -= std::min(live, n); }
}
void* operator new(size_t n) { meter::add(n); if (n > (size_t(1) << 34)) throw std::bad_alloc(); if (void* p = malloc(n)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) meter::sub(malloc_usable_size(p)); free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

using vh::Case; using namespace sv;

namespace
{
    Bytes damage(vh::Rng& r, Bytes b, const Bytes* other)
    {
        static const uint64_t interesting[] = { 0, 1, 2, 3, 7, 8, 9, 255, 256, 65535, 65536, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 0x7fffffff, 0x80000000u, 0xffffffffu, uint64_t(1) << 32, (uint64_t(1) << 40), uint64_t(1) << 48, uint64_t(1) << 56, uint64_t(1) << 60, uint64_t(1) << 61, (uint64_t(1) << 61) + 1, uint64_t(1) << 62, (uint64_t(1) << 62) + 3, (uint64_t(1) << 63) - 1, uint64_t(1) << 63, (uint64_t(1) << 63) + 5, ~uint64_t(0), ~uint64_t(0) - 7 };
        const unsigned k = 1 + static_cast<unsigned>(r.chance(1, 3) ? r.below(4) : 0);
        for (unsigned i = 0; i < k; ++i)
        {
            switch (r.below(9))
            {
            case 0: if (!b.empty()) b.resize(r.below(b.size())); break;
            case 1: { size_t n = r.below(30); for (size_t j = 0; j < n; ++j) b.push_back(static_cast<uint8_t>(r.next())); break; }
            case 2: if (!b.empty()) b[r.below(b.size())] ^= static_cast<uint8_t>(1u << r.below(8)); break;
            case 3: if (!b.empty()) b[r.below(b.size())] = static_cast<uint8_t>(r.next()); break;
            case 4: case 5: case 6: if (b.size() >= 8) { uint64_t v = r.chance(3, 4) ? interesting[r.below(std::size(interesting))] : r.below(300); size_t p = r.below(b.size() - 7); if (r.flip()) p = p / 8 * 8; memcpy(b.data() + p, &v, 8); } break;
            case 7: if (!b.empty()) { size_t p = r.below(b.size()), n = r.below(b.size() - p + 1); if (r.flip()) b.erase(b.begin() + static_cast<ptrdiff_t>(p), b.begin() + static_cast<ptrdiff_t>(p + n)); else { Bytes cp(b.begin() + static_cast<ptrdiff_t>(p), b.begin() + static_cast<ptrdiff_t>(p + n)); b.insert(b.begin() + static_cast<ptrdiff_t>(p), cp.begin(), cp.end()); } } break;
            case 8: if (other && !other->empty()) { size_t p = r.below(b.size() + 1), q = r.below(other->size()); b.resize(p); b.insert(b.end(), other->begin() + static_cast<ptrdiff_t>(q), other->end()); } break;
            }
        }
        return b;
    }

    double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9; }

    enum Outcome { accepted, refused };

    // Runs one decode under the oracle.
    template <class F> Outcome judge(Case& c, const std::string& what, const Bytes& in, F decode)
    {
        c.note(what + " " + vh::hex(in.data(), in.size(), 400));
        c.eval(); c.distinct(vh::hash_bytes(in.data(), in.size(), vh::hash_str(what)));
        std::string bad; Outcome o = accepted; const double t0 = cpu();
        meter::live = meter::peak = meter::biggest = 0; meter::on = true;
        try { decode(); }
        catch (const awl::io::IoException&) { o = refused; }
        catch (const vh::Violation&) { meter::on = false; throw; }
        catch (const std::exception& e) { meter::on = false; bad = vh::type_name(typeid(e)); }
        catch (...) { meter::on = false; auto t = abi::__cxa_current_exception_type(); bad = t ? vh::type_name(*t) : "?"; }
        meter::on = false; const double dt = cpu() - t0;
        c.count(o == accepted && bad.empty() ? "accepted" : "refused");
        VH_CHECK(c, bad.empty(), "foreign-exception", "%s: %s escaped for %s", what.c_str(), bad.c_str(), vh::hex(in.data(), in.size(), 200).c_str());
        VH_CHECK(c, meter::biggest <= (8u << 20) + 64 * in.size(), "allocation", "%s: one allocation of %zu bytes for %zu bytes of input %s", what.c_str(), meter::biggest, in.size(), vh::hex(in.data(), in.size(), 200).c_str());
        VH_CHECK(c, meter::peak <= (32u << 20) + 4096 * in.size(), "allocation-total", "%s: %zu bytes allocated at once for %zu bytes of input %s", what.c_str(), meter::peak, in.size(), vh::hex(in.data(), in.size(), 200).c_str());
        VH_CHECK(c, dt < 20, "time", "%s: %.1f s of CPU time for %zu bytes of input", what.c_str(), dt, in.size());
        return o;
    }

    template <class T> Bytes plain(const T& v) { Bytes b; awl::io::VectorOutputStream o(b); awl::io::Write(o, v); return b; }
    template <class T> Bytes versioned(const T& v) { Bytes b; awl::io::VectorOutputStream o(b); awl::io::WriteV(o, v); return b; }

    template <class L> void fuzz(Case& c, uint64_t n, L list)
    {
        c.iterate(n, [&](uint64_t)
        {
            Bytes prev;
            list([&]<class T>(const char* name)
            {
                const Bytes b = plain(make<T>(c.rng)); const Bytes d = damage(c.rng, b, &prev); prev = b;
                T w = c.rng.flip() ? T{} : make<T>(c.rng);
                if (judge(c, name, d, [&] { awl::io::VectorInputStream in(d); awl::io::Read(in, w); }) == accepted)
                {
                    // What was accepted is a value of the type: it can be written and read again.
                    Bytes e; T x{}; judge(c, std::string("accepted ") + name, d, [&] { e = plain(w); awl::io::VectorInputStream in(e); awl::io::Read(in, x); VH_CHECK(c, eq(w, x) && in.End(), "unstable", "%s: a value accepted from %s does not survive a round trip", name, vh::hex(d.data(), d.size(), 200).c_str()); });
                }
            });
        });
    }

    // Later versions of the structures: most fields are gone and have to be skipped.
    struct Node2 { bool flag = false; int added = 9; std::vector<Leaf> extra; std::map<std::string, Leaf> m; std::optional<Leaf> o; std::variant<int, Leaf, std::string> v; std::set<Leaf> z; AWL_REFLECT(flag, added, extra, m, o, v, z) };
    struct Mid { int k = 0; Leaf leaf; std::vector<Leaf> list; AWL_REFLECT(k, leaf, list) static auto members() { return std::make_tuple(&Mid::k, &Mid::leaf, &Mid::list); } };
    struct Chain { Mid mid; std::vector<Mid> mids; std::map<int, Mid> named; std::optional<Mid> maybe; std::variant<bool, Mid> var; std::shared_ptr<Mid> p; std::array<Mid, 2> arr; int tail = 0; AWL_REFLECT(mid, mids, named, maybe, var, p, arr, tail) static auto members() { return std::make_tuple(&Chain::mid, &Chain::mids, &Chain::named, &Chain::maybe, &Chain::var, &Chain::p, &Chain::arr, &Chain::tail); } };
    // Knows all the types but none of the fields except the last.
    struct Chain2 { std::vector<Mid> mids2; std::map<int, Mid> named2; std::optional<Mid> maybe2; std::variant<bool, Mid> var2; std::shared_ptr<Mid> p2; std::array<Mid, 2> arr2; int tail = 0; AWL_REFLECT(mids2, named2, maybe2, var2, p2, arr2, tail) };

    void put(Bytes& b, const void* p, size_t n) { b.insert(b.end(), static_cast<const uint8_t*>(p), static_cast<const uint8_t*>(p) + n); }
    void put64(Bytes& b, uint64_t v) { put(b, &v, 8); }
    void put_str(Bytes& b, const std::string& s) { put64(b, s.size()); put(b, s.data(), s.size()); }

    struct Proto { std::vector<std::pair<std::string, uint64_t>> fields; };
    Bytes metadata(const std::vector<std::string>& types, const std::vector<Proto>& protos)
    {
        Bytes b; put64(b, types.size()); for (auto& t : types) put_str(b, t);
        put64(b, protos.size()); for (auto& p : protos) { put64(b, p.fields.size()); for (auto& f : p.fields) { put_str(b, f.first); put64(b, f.second); } }
        return b;
    }
}

VH_CASE(scalars, 2) { fuzz(c, c.n(4000, 150000), [](auto f) { scalars(f); }); }
VH_CASE(sequences, 3) { fuzz(c, c.n(2000, 80000), [](auto f) { sequences(f); }); }
VH_CASE(collections, 2) { fuzz(c, c.n(2000, 80000), [](auto f) { collections(f); }); }
VH_CASE(composites, 3) { fuzz(c, c.n(1200, 40000), [](auto f) { composites(f); }); }

// Nothing but noise.
VH_CASE(noise, 2)
{
    c.iterate(c.n(400, 20000), [&](uint64_t)
    {
        Bytes d(c.rng.below(120)); unsigned style = static_cast<unsigned>(c.rng.below(4)); for (auto& x : d) x = static_cast<uint8_t>(style == 0 ? c.rng.next() : style == 1 ? c.rng.below(3) : style == 2 ? (c.rng.chance(1, 6) ? c.rng.below(4) : 0) : 0xff);
        auto f = [&]<class T>(const char* name) { T w{}; judge(c, name, d, [&] { awl::io::VectorInputStream in(d); awl::io::Read(in, w); }); };
        sequences(f); collections(f); composites(f);
        { Node w; judge(c, "versioned Node", d, [&] { awl::io::VectorInputStream in(d); awl::io::ReadV(in, w); }); }
        { Chain2 w; judge(c, "versioned Chain2", d, [&] { awl::io::VectorInputStream in(d); awl::io::ReadV(in, w); }); }
    });
}

// Versioned data: embedded type tables, prototypes and structure indices are damaged too.
VH_CASE(versioned_same, 3)
{
    c.iterate(c.n(6000, 200000), [&](uint64_t)
    {
        auto go = [&]<class T>(const char* name) { T v = make<T>(c.rng, 2); const Bytes a = plain(v), b = versioned(v), d = damage(c.rng, b, &a); T w{}; judge(c, std::string("versioned ") + name, d, [&] { awl::io::VectorInputStream in(d); awl::io::ReadV(in, w); }); };
        go.template operator()<Node>("Node"); go.template operator()<Chain>("Chain"); go.template operator()<Defaults>("Defaults"); go.template operator()<Leaf>("Leaf");
    });
}
VH_CASE(versioned_evolved, 3)
{
    c.iterate(c.n(8000, 250000), [&](uint64_t)
    {
        auto go = [&]<class T, class U>(const char* name) { const Bytes a = plain(make<Leaf>(c.rng)), b = versioned(make<T>(c.rng, 2)), d = damage(c.rng, b, &a); U w{}; judge(c, name, d, [&] { awl::io::VectorInputStream in(d); awl::io::ReadV(in, w); }); };
        go.template operator()<Node, Node2>("Node as Node2"); go.template operator()<Chain, Chain2>("Chain as Chain2"); go.template operator()<Chain, Node2>("Chain as Node2"); go.template operator()<Node, Chain2>("Node as Chain2"); go.template operator()<Leaf, Node>("Leaf as Node");
    });
}

// Damage aimed at the structure of versioned data: every 8-byte word of the metadata, every structure index.
VH_CASE(versioned_words, 3)
{
    static const uint64_t vals[] = { 0, 1, 2, 3, 5, 40, 0xffff, 0x10000, uint64_t(1) << 31, uint64_t(1) << 32, uint64_t(1) << 61, uint64_t(1) << 63, ~uint64_t(0), ~uint64_t(0) - 1 };
    c.iterate(c.n(60, 1500), [&](uint64_t)
    {
        auto go = [&]<class T, class U>(const char* name)
        {
            const Bytes b = versioned(make<T>(c.rng, 1)); if (b.size() > 3000) return;
            for (size_t p = 0; p < b.size(); p += (c.rng.chance(1, 8) ? 1 : 1 + c.rng.below(5)))
            {
                Bytes d = b; if (c.rng.flip() && p + 8 <= d.size()) { uint64_t v = vals[c.rng.below(std::size(vals))]; memcpy(d.data() + p, &v, 8); } else if (p + 2 <= d.size()) { uint16_t v = static_cast<uint16_t>(c.rng.pick({ 0, 1, 2, 3, 4, 5, 30, 255, 256, 65535 })); memcpy(d.data() + p, &v, 2); }
                U w{}; judge(c, name, d, [&] { awl::io::VectorInputStream in(d); awl::io::ReadV(in, w); });
            }
        };
        go.template operator()<Chain, Chain>("Chain"); go.template operator()<Chain, Chain2>("Chain as Chain2"); go.template operator()<Node, Node2>("Node as Node2");
    });
}

// Prototypes that refer to themselves or to each other, with as much data as they like to eat.
VH_CASE(recursion, 2)
{
    c.iterate(c.n(400, 4000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; const uint64_t no = ~uint64_t(0);
        const std::vector<std::string> types = { "sequence<struct>", "sequence<pair<int32_t, struct>>", "optional<struct>", "variant<int8_t, struct, >", "pointer<struct>", "array<struct, 2>", "int32_t", "sequence<int8_t>" };
        std::vector<Proto> protos; const size_t n = 1 + r.below(5); for (size_t i = 0; i < n; ++i) { Proto p; size_t k = 1 + r.below(4); for (size_t j = 0; j < k; ++j) p.fields.push_back({ "gone" + std::to_string(r.below(6)), r.chance(1, 2) ? no : r.below(types.size()) }); protos.push_back(p); }
        Bytes d = metadata(types, protos); const size_t len = r.chance(1, 6) ? 400000 : r.below(4000);
        const unsigned style = static_cast<unsigned>(r.below(5)); // all zero: index 0, count 0 ...; or small structured data
        if (style == 0) d.resize(d.size() + len);
        else if (style == 1) { while (d.size() < len) { uint16_t i = static_cast<uint16_t>(r.below(n)); put(d, &i, 2); } }
        else if (style == 2) { while (d.size() < len) { uint16_t i = static_cast<uint16_t>(r.below(n)); put(d, &i, 2); put64(d, 1); } }
        else if (style == 3) { while (d.size() < len) { uint16_t i = static_cast<uint16_t>(r.below(n)); put(d, &i, 2); d.push_back(1); } }
        else { while (d.size() < len) { uint16_t i = static_cast<uint16_t>(r.below(n)); put(d, &i, 2); if (r.flip()) put64(d, r.below(3)); else if (r.flip()) d.push_back(1); else { int32_t z = 5; put(d, &z, 4); } } }
        Chain2 w; judge(c, vh::fmt("recursive prototypes, style %u", style), d, [&] { awl::io::VectorInputStream in(d); awl::io::ReadV(in, w); });
    });
}

// A prototype that the table says has a structure where the reader has a scalar and the reverse, unknown types, wrong indices.
VH_CASE(type_tables, 2)
{
    c.iterate(c.n(20000, 400000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; const uint64_t no = ~uint64_t(0);
        const std::vector<std::string> all = { "int32_t", "sequence<int8_t>", "float64_t", "sequence<struct>", "optional<struct>", "struct", "int8_t", "", "sequence<", "nonsense", "int64_t" };
        std::vector<std::string> types; size_t k = r.below(6); for (size_t i = 0; i < k; ++i) types.push_back(all[r.below(all.size())]);
        const std::vector<std::string> names = { "a", "s", "d", "k", "leaf", "list", "mid", "mids", "tail", "x", "", "gone" };
        std::vector<Proto> protos; const size_t n = r.below(4); for (size_t i = 0; i < n; ++i) { Proto p; size_t f = r.below(6); for (size_t j = 0; j < f; ++j) p.fields.push_back({ names[r.below(names.size())], r.chance(1, 3) ? no : r.chance(1, 6) ? r.next() : r.below(types.size() + 1) }); protos.push_back(p); }
        Bytes d = metadata(types, protos); size_t len = r.below(60); for (size_t i = 0; i < len; ++i) d.push_back(static_cast<uint8_t>(r.chance(3, 4) ? 0 : r.below(4)));
        { Leaf w; judge(c, "type table, Leaf", d, [&] { awl::io::VectorInputStream in(d); awl::io::ReadV(in, w); }); }
        { Mid w; judge(c, "type table, Mid", d, [&] { awl::io::VectorInputStream in(d); awl::io::ReadV(in, w); }); }
        { Chain w; judge(c, "type table, Chain", d, [&] { awl::io::VectorInputStream in(d); awl::io::Reader<awl::mp::variant_from_struct<Chain>, awl::io::VectorInputStream> ctx; ctx.allowDelete = r.flip(); ctx.ReadOldPrototypes(in, { { "nonsense", "int32_t" } }); ctx.ReadV(in, w); }); }
    });
}

// Hashed and headered data, damaged as stored and damaged with the checksums recomputed.
VH_CASE(headered, 3)
{
    c.iterate(c.n(6000, 150000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; const size_t block = 9 + r.below(r.flip() ? 20 : 200); const std::string fmt = std::string(r.below(20), 'f'); const size_t ver = r.below(5), limit = r.flip() ? 64 : 20;
        Node v = make<Node>(r, 1); awl::io::HeaderedSerializable<Node> sv_(awl::io::Header{ fmt, ver }, v, block, {}, limit); Bytes st; { awl::io::VectorOutputStream o(st); sv_.Write(o); }
        Bytes pay; { awl::io::VectorInputStream in(st); awl::io::HashInputStream<awl::crypto::Crc64> h(in, block); pay.resize(st.size()); pay.resize(h.Read(pay.data(), pay.size())); }
        Bytes other = plain(make<Leaf>(r));
        Node w = make<Node>(r, 1); awl::io::HeaderedSerializable<Node> sw(awl::io::Header{ fmt, ver }, w, block, {}, limit);
        { Bytes d = damage(r, st, &other); judge(c, "stored", d, [&] { awl::io::VectorInputStream in(d); sw.Read(in); }); }
        { Bytes d; const Bytes p = damage(r, pay, &other); { awl::io::VectorOutputStream o(d); awl::io::HashOutputStream<awl::crypto::Crc64> h(o, block); h.Write(p.data(), p.size()); h.Finish(); } judge(c, "rehashed", d, [&] { awl::io::VectorInputStream in(d); sw.Read(in); }); }
        {
            // A header whose format name claims to be long must be refused by the limit, before anything of that size is allocated.
            Bytes p = pay; uint64_t claim = limit + 1 + r.below(uint64_t(1) << r.below(62)); memcpy(p.data(), &claim, 8); Bytes d; { awl::io::VectorOutputStream o(d); awl::io::HashOutputStream<awl::crypto::Crc64> h(o, block); h.Write(p.data(), p.size()); h.Finish(); }
            meter::biggest = 0; Outcome o = judge(c, "long format name", d, [&] { awl::io::VectorInputStream in(d); awl::io::HashInputStream<awl::crypto::Crc64> h(in, block); awl::io::Header hd; awl::io::Read(h, hd, awl::io::LimitedContext{ limit }); });
            VH_CHECK(c, o == refused && meter::biggest <= 1024, "limit", "a format name of %llu bytes: limit %zu, %s, largest allocation %zu", static_cast<unsigned long long>(claim), limit, o == refused ? "refused" : "accepted", meter::biggest);
        }
        // undamaged data are accepted
        { awl::io::VectorInputStream in(st); Node x; awl::io::HeaderedSerializable<Node> sx(awl::io::Header{ fmt, ver }, x, block, {}, limit); bool ok = judge(c, "intact", st, [&] { sx.Read(in); }) == accepted; VH_CHECK(c, ok && eq(v, x), "false-alarm", "undamaged headered data refused or changed"); }
    });
}

// Values the format cannot hold.
VH_CASE(enums, 1)
{
    c.iterate(c.n(256, 256), [&](uint64_t i)
    {
        Bytes d(1, static_cast<uint8_t>(i)); Seq e = Seq::Second; Outcome o = judge(c, "Seq", d, [&] { awl::io::VectorInputStream in(d); awl::io::Read(in, e); });
        VH_CHECK(c, (o == accepted) == (i < 5) && (o == refused || static_cast<unsigned>(e) == i), "enum", "a sequential enum of 5 values: %u %s", static_cast<unsigned>(i), o == accepted ? "accepted" : "refused");
        Bytes b; bool thrown = false; try { awl::io::VectorOutputStream out(b); awl::io::Write(out, static_cast<Seq>(i)); } catch (const awl::io::IoException&) { thrown = true; }
        VH_CHECK(c, thrown == (i >= 5), "enum-write", "writing %u", static_cast<unsigned>(i));
        Bytes v; put64(v, i); d.clear(); put64(d, i); d.resize(40); std::variant<int, std::string, bool> x; o = judge(c, "variant", d, [&] { awl::io::VectorInputStream in(d); awl::io::Read(in, x); });
        VH_CHECK(c, (o == accepted) == (i < 3) && (o == refused || x.index() == i), "variant", "variant index %u of 3 %s", static_cast<unsigned>(i), o == accepted ? "accepted" : "refused");
    });
}

VH_MAIN()
