// C16: altered or truncated hashed data is reported, and nothing but original bytes is delivered before (or after) the report.
#include "hs.h"
#include "Awl/Io/EuphoricallySerializable.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/Rw/StringReadWrite.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Reflection.h"
#include "Awl/Tuplizable.h"

#include <set>

using vh::Case; using namespace hs;
using Crc = awl::crypto::Crc64;

namespace
{
    struct Layout { size_t block, payload; const Bytes* data; const Bytes* stored; };

    // Reads damaged data with random chunk sizes. `first_bad` is the index of the first damaged stored block;
    // all blocks before it are intact. Returns the bytes delivered before the first report.
    template <class H> void judge(Case& c, const Ref<H>& ref, const Layout& l, const Bytes& damaged, const std::set<size_t>& bad, const std::string& cfg)
    {
        const size_t good_prefix = std::min(l.data->size(), *bad.begin() * l.payload);
        ShortIn s(damaged, c.rng.next(), static_cast<unsigned>(c.rng.below(4)));
        awl::io::HashInputStream<H> in(s, l.block, ref.make());
        Bytes got; bool reported = false; std::vector<uint8_t> buf;
        for (unsigned guard = 0; guard < 10000; ++guard)
        {
            size_t n = 1 + (c.rng.chance(1, 4) ? c.rng.below(l.payload * 3 + 1) : c.rng.below(l.payload + 1)); buf.assign(n, 0x77);
            try
            {
                if (c.rng.chance(1, 4) && in.End()) break;
                size_t k = in.Read(buf.data(), n); if (k == 0) break;
                got.insert(got.end(), buf.begin(), buf.begin() + static_cast<ptrdiff_t>(k));
            }
            catch (const awl::io::CorruptionException&)
            {
                reported = true;
                // Bytes stored into the caller's buffer by the failing call must be original ones as well.
                for (size_t i = 0; i < n; ++i) if (buf[i] != 0x77 && (got.size() + i >= good_prefix || buf[i] != (*l.data)[got.size() + i])) c.fail("partial-delivery", vh::fmt("%s: the failing read put a wrong byte into the buffer at %zu", cfg.c_str(), i));
                break;
            }
        }
        c.eval();
        VH_CHECK(c, reported, "undetected", "%s: no corruption reported, %zu bytes delivered (first damaged block %zu)", cfg.c_str(), got.size(), *bad.begin());
        VH_CHECK(c, got.size() <= good_prefix && std::equal(got.begin(), got.end(), l.data->begin()), "bad-bytes", "%s: %zu bytes delivered, only %zu precede the damage", cfg.c_str(), got.size(), good_prefix);
        // Keep reading after the report: blocks are verified one by one, so a damaged one must never be delivered.
        Bytes rest; unsigned reports = 0;
        for (unsigned guard = 0; guard < 10000; ++guard)
        {
            buf.assign(1 + c.rng.below(l.payload), 0x77);
            try { size_t k = in.Read(buf.data(), buf.size()); if (k == 0) break; rest.insert(rest.end(), buf.begin(), buf.begin() + static_cast<ptrdiff_t>(k)); }
            catch (const awl::io::CorruptionException&) { ++reports; rest.push_back(0); rest.clear(); c.count("further reports"); }
        }
        // Only intact blocks may follow: compare with the concatenation of intact blocks after the last damaged one.
        Bytes tail; { size_t from = std::min(l.data->size(), (*bad.rbegin() + 1) * l.payload); tail.assign(l.data->begin() + static_cast<ptrdiff_t>(from), l.data->end()); }
        const bool all_intact_sized = damaged.size() == l.stored->size();
        if (all_intact_sized) VH_CHECK(c, rest == tail, "bad-bytes-after", "%s: after the report %zu bytes were delivered, the intact tail has %zu", cfg.c_str(), rest.size(), tail.size());
        else VH_CHECK(c, rest.size() <= tail.size(), "bad-bytes-after", "%s: bytes of a truncated block were delivered after the report", cfg.c_str());
    }

    template <class H> void intact(Case& c, const Ref<H>& ref, const Layout& l, const std::string& cfg)
    {
        ShortIn s(*l.stored, c.rng.next(), static_cast<unsigned>(c.rng.below(4))); awl::io::HashInputStream<H> in(s, l.block, ref.make());
        Bytes got(l.data->size() + 5);
        try { size_t n = in.Read(got.data(), got.size()); got.resize(n); } catch (const awl::io::CorruptionException&) { c.fail("false-alarm", cfg + ": undamaged data reported corrupt"); }
        VH_CHECK(c, got == *l.data, "content", "%s: undamaged data read back wrong", cfg.c_str()); c.count("undamaged reads");
    }

    template <class H> Bytes store(const Ref<H>& ref, size_t block, const Bytes& data) { Bytes b; { awl::io::VectorOutputStream v(b); awl::io::HashOutputStream<H> o(v, block, ref.make()); o.Write(data.data(), data.size()); } return b; }
}

// Every stored byte replaced by several other values, one at a time.
VH_CASE(every_byte, 4)
{
    c.iterate(c.n(400, 6000), [&](uint64_t i)
    {
        vh::Rng& r = c.rng; Ref<Crc> ref; ref.reseed(r); const size_t payload = 1 + (i % 12 == 11 ? 300 : r.below(40)), block = payload + 8; const Bytes data = random_bytes(r, payload * r.below(4) + 1 + r.below(payload)); const Bytes st = store(ref, block, data); Layout l{ block, payload, &data, &st };
        std::string cfg = vh::fmt("payload %zu length %zu", payload, data.size()); intact(c, ref, l, cfg);
        for (size_t p = 0; p < st.size(); ++p)
            for (unsigned k = 0; k < 3; ++k)
            {
                Bytes d = st; uint8_t x = k == 0 ? static_cast<uint8_t>(1u << r.below(8)) : k == 1 ? 0xff : static_cast<uint8_t>(1 + r.below(255)); d[p] ^= x;
                judge(c, ref, l, d, { p / block }, cfg + vh::fmt(" byte %zu xor %02x", p, x)); c.count("single-byte damages");
            }
        c.distinct(vh::hash_bytes(st.data(), st.size()));
    });
}

// Blocks of the default size and of megabytes, one bit or one byte damaged.
VH_CASE(large_blocks, 1)
{
    c.iterate(c.n(30, 1000), [&](uint64_t i)
    {
        vh::Rng& r = c.rng; Ref<Crc> ref; ref.reseed(r); const size_t block = std::array<size_t, 5>{ awl::io::defaultBlockSize, 1u << 20, (1u << 16) + 1, 3u << 20, 1u << 17 }[i % 5] + (r.flip() ? 0 : r.below(100)), payload = block - 8, n = 1 + r.below(payload * 2 + payload / 2); Bytes data(n); for (size_t k = 0; k + 8 <= n; k += 8) { const uint64_t x = r.next(); memcpy(&data[k], &x, 8); }
        const Bytes st = store(ref, block, data); Layout l{ block, payload, &data, &st }; const std::string cfg = vh::fmt("block %zu length %zu", block, n); intact(c, ref, l, cfg);
        for (int k = 0; k < 3; ++k) { Bytes d = st; const size_t p = k == 0 ? st.size() - 1 - r.below(8) : k == 1 ? r.below(std::min(st.size(), block)) : r.below(st.size()); const uint8_t x = static_cast<uint8_t>(r.flip() ? 1u << r.below(8) : 1 + r.below(255)); d[p] ^= x; judge(c, ref, l, d, { p / block }, cfg + vh::fmt(" byte %zu xor %02x", p, x)); c.count("damages of large blocks"); }
        c.distinct(vh::hash_bytes(st.data(), std::min<size_t>(st.size(), 4096)));
    });
}

// Every truncation point that cuts a block.
VH_CASE(every_truncation, 2)
{
    c.iterate(c.n(1000, 12000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; Ref<Crc> ref; ref.reseed(r); const size_t payload = 1 + r.below(40), block = payload + 8; const Bytes data = random_bytes(r, payload * r.below(4) + 1 + r.below(payload)); const Bytes st = store(ref, block, data); Layout l{ block, payload, &data, &st };
        for (size_t n = 0; n < st.size(); ++n)
        {
            if (n % block == 0) continue; // cut between blocks: indistinguishable from shorter data, by design
            Bytes d(st.begin(), st.begin() + static_cast<ptrdiff_t>(n)); const size_t last = n % block;
            // e.g. zeros under a zero seed: a shorter block of zeros ends with its own CRC
            if (last >= 8 && ref.of(Bytes(d.end() - static_cast<ptrdiff_t>(last), d.end() - 8)) == Bytes(d.end() - 8, d.end())) { c.count("undetectable by the hash itself"); continue; }
            judge(c, ref, l, d, { n / block }, vh::fmt("payload %zu length %zu cut at %zu of %zu", payload, data.size(), n, st.size())); c.count("truncations");
        }
        c.distinct(vh::hash_bytes(st.data(), st.size()));
    });
}

// Several damaged bytes at once: bursts, swaps, zeroed ranges, overwritten hashes, inserted and removed bytes.
VH_CASE(multi_damage, 4)
{
    c.iterate(c.n(60000, 1000000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; Ref<Crc> ref; ref.reseed(r); const size_t payload = 1 + r.below(60), block = payload + 8; const Bytes data = random_bytes(r, 1 + r.below(payload * 5)); const Bytes st = store(ref, block, data); Layout l{ block, payload, &data, &st };
        Bytes d = st; std::string how;
        switch (r.below(6))
        {
            case 0: { size_t p = r.below(d.size()), n = 1 + r.below(9); for (size_t k = p; k < std::min(d.size(), p + n); ++k) d[k] = static_cast<uint8_t>(r.next()); how = "burst"; break; }
            case 1: { size_t p = r.below(d.size()), q = r.below(d.size()); std::swap(d[p], d[q]); how = "swap"; break; }
            case 2: { size_t p = r.below(d.size()), n = 1 + r.below(d.size()); std::fill(d.begin() + static_cast<ptrdiff_t>(p), d.begin() + static_cast<ptrdiff_t>(std::min(d.size(), p + n)), r.flip() ? 0 : 0xff); how = "fill"; break; }
            case 3: { for (unsigned k = 0; k < 2 + r.below(5); ++k) d[r.below(d.size())] ^= static_cast<uint8_t>(1u << r.below(8)); how = "bits"; break; }
            case 4: { size_t p = r.below(d.size()); d.insert(d.begin() + static_cast<ptrdiff_t>(p), static_cast<uint8_t>(r.next())); how = "insert"; break; }
            default: { size_t p = r.below(d.size()); d.erase(d.begin() + static_cast<ptrdiff_t>(p)); how = "remove"; break; }
        }
        if (d == st) return;
        // Which blocks differ? A 64-bit CRC may collide in principle; decide by the reference whether a block is detectable.
        std::set<size_t> bad; size_t nb = (std::max(d.size(), st.size()) + block - 1) / block;
        for (size_t k = 0; k < nb; ++k)
        {
            auto cut = [&](const Bytes& v) { return k * block >= v.size() ? Bytes() : Bytes(v.begin() + static_cast<ptrdiff_t>(k * block), v.begin() + static_cast<ptrdiff_t>(std::min(v.size(), (k + 1) * block))); };
            Bytes x = cut(d), y = cut(st); if (x == y) continue;
            if (x.size() >= 8) { Bytes pl(x.begin(), x.end() - 8), h(x.end() - 8, x.end()); if (ref.of(pl) == h) { c.count("undetectable by the hash itself"); return; } }
            if (x.empty()) { return; } // exactly the last block disappeared
            bad.insert(k);
        }
        if (bad.empty()) return;
        judge(c, ref, l, d, bad, vh::fmt("%s payload %zu length %zu", how.c_str(), payload, data.size())); c.count("multi-byte damages"); c.distinct(vh::hash_bytes(d.data(), d.size()));
    });
}

// Small user hash: the same oracle, the reference deciding what the hash can see.
VH_CASE(user_hash, 1)
{
    c.iterate(c.n(300, 4000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; Ref<Wide16> ref; ref.reseed(r); const size_t payload = 1 + r.below(20), block = payload + 16; const Bytes data = random_bytes(r, 1 + r.below(payload * 4)); const Bytes st = store(ref, block, data); Layout l{ block, payload, &data, &st };
        intact(c, ref, l, "16-byte hash");
        for (size_t p = 0; p < st.size(); ++p) { Bytes d = st; d[p] ^= static_cast<uint8_t>(1 + r.below(255)); judge(c, ref, l, d, { p / block }, vh::fmt("16-byte hash payload %zu length %zu byte %zu", payload, data.size(), p)); c.count("single-byte damages"); }
        c.distinct(vh::hash_bytes(st.data(), st.size()));
    });
}

// Structured values: any damage of the stored form is reported by Read of the whole value.
namespace
{
    struct Item { int32_t a = 0; std::string s; std::vector<double> v; AWL_REFLECT(a, s, v) };
    struct Root { int64_t id = 0; std::vector<Item> items; std::map<std::string, int> m; AWL_REFLECT(id, items, m) };
    AWL_MEMBERWISE_EQUATABLE(Item)
    AWL_MEMBERWISE_EQUATABLE(Root)
    using Variant = std::variant<int32_t, int64_t, int, double, std::string, std::vector<double>, Item, std::vector<Item>, std::map<std::string, int>, Root>;
    Root make_root(vh::Rng& r) { Root t; t.id = static_cast<int64_t>(r.next()); for (unsigned i = 0, n = static_cast<unsigned>(r.below(5)); i < n; ++i) { Item x; x.a = static_cast<int32_t>(r.next()); x.s = std::string(r.below(20), 'q'); x.v.assign(r.below(4), 1.5); t.items.push_back(x); } for (unsigned i = 0, n = static_cast<unsigned>(r.below(4)); i < n; ++i) t.m[vh::fmt("k%u", i)] = static_cast<int>(r.next()); return t; }
}
VH_CASE(values, 4)
{
    c.iterate(c.n(160, 3000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; Root t = make_root(r); const size_t block = 9 + r.below(150); const bool headed = r.flip();
        auto run = [&](auto& src, auto mk)
        {
            Bytes st; { awl::io::VectorOutputStream v(st); src.Write(v); }
            { Root back; auto dst = mk(back); awl::io::VectorInputStream in(st); dst.Read(in); VH_CHECK(c, back == t, "value", "an undamaged value was read back different"); }
            for (size_t p = 0; p < st.size(); ++p)
            {
                Bytes d = st; const bool cut = r.chance(1, 3);
                if (cut) { if (p % block == 0) continue; d.resize(p); } else d[p] ^= static_cast<uint8_t>(1 + r.below(255));
                Root back; back.id = 42; Root before = back; auto dst = mk(back); awl::io::VectorInputStream in(d); bool rep = false;
                try { dst.Read(in); } catch (const awl::io::IoException&) { rep = true; }
                c.eval(); c.count(cut ? "truncations" : "single-byte damages");
                VH_CHECK(c, rep, "undetected", "value block %zu: damage at %zu of %zu (%s) was not reported", block, p, st.size(), cut ? "cut" : "changed");
                VH_CHECK(c, back == before, "bad-value", "value block %zu: a failed read changed the value", block);
            }
            c.distinct(vh::hash_bytes(st.data(), st.size()));
        };
        using VIn = awl::io::VectorInputStream; using VOut = awl::io::VectorOutputStream;
        if (headed) { using S = awl::io::HeaderedSerializable<Root, VIn, VOut>; S src({ "fmt", 3 }, t, block); run(src, [&](Root& b) { return S({ "fmt", 3 }, b, block); }); }
        else { using S = awl::io::EuphoricallySerializable<Root, VIn, VOut>; S src(t, block); run(src, [&](Root& b) { return S(b, block); }); }
    });
}
// A failing underlying read is not hidden either, and the stream does not deliver unverified bytes afterwards.
VH_CASE(read_faults, 1)
{
    c.iterate(c.n(20000, 200000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; Ref<Crc> ref; const size_t payload = 1 + r.below(40), block = payload + 8; const Bytes data = random_bytes(r, 1 + r.below(payload * 5)); const Bytes st = store(ref, block, data);
        ShortIn s(st, r.next(), static_cast<unsigned>(r.below(4))); s.fail_at = static_cast<int64_t>(r.below(6)); awl::io::HashInputStream<Crc> in(s, block, ref.make());
        Bytes got; bool rep = false; Bytes buf;
        for (unsigned g = 0; g < 100000; ++g)
        {
            buf.assign(1 + r.below(payload * 2), 0); 
            try { size_t k = in.Read(buf.data(), buf.size()); if (k == 0) break; if (!rep) got.insert(got.end(), buf.begin(), buf.begin() + static_cast<ptrdiff_t>(k)); else { for (size_t i = 0; i < k; ++i) { } c.count("bytes after a read error", k); auto pos = std::search(data.begin(), data.end(), buf.begin(), buf.begin() + static_cast<ptrdiff_t>(k)); VH_CHECK(c, pos != data.end(), "unverified", "bytes that were never stored were delivered after a read error"); } }
            catch (const awl::io::ReadFailException&) { rep = true; } catch (const awl::io::CorruptionException&) { rep = true; }
        }
        c.eval(); VH_CHECK(c, got.size() <= data.size() && std::equal(got.begin(), got.end(), data.begin()), "bad-bytes", "wrong bytes delivered around a read error");
        VH_CHECK(c, rep || got == data, "lost", "the stream ended early without an error"); c.count("injected read failures"); c.distinct(vh::mix(st.size() * 64 + static_cast<uint64_t>(s.fail_at)));
    });
}
VH_MAIN()
