// C15: what goes into a hashing (or buffered) output stream comes out of the matching input stream, for any
// block size, total length and splitting of writes, reads and the underlying stream.
#include "hs.h"
#include "Awl/Io/HashingSerializable.h"

using vh::Case; using namespace hs;

namespace
{
    size_t pick_length(vh::Rng& r, size_t payload)
    {
        switch (r.below(5))
        {
            case 0: return r.below(4);
            case 1: return payload * r.below(6);
            case 2: { size_t k = payload * (1 + r.below(5)); return k - 1; }
            case 3: return payload * r.below(5) + 1;
            default: return r.below(payload * 5 + 10);
        }
    }

    // Drives an input stream over `expect`; every byte, every count and every End() is checked.
    template <class In> void drain(Case& c, In& in, const Bytes& expect, size_t payload, const std::string& cfg)
    {
        size_t pos = 0; unsigned after = 0; std::vector<uint8_t> buf;
        while (after < 3)
        {
            if (c.rng.chance(1, 3))
            {
                bool e = in.End(); c.count("end queries");
                VH_CHECK(c, e == (pos == expect.size()), "end", "%s: End() is %d at %zu of %zu", cfg.c_str(), e, pos, expect.size());
            }
            size_t want = c.rng.chance(1, 12) ? expect.size() - pos + c.rng.below(10) : chunk(c.rng, payload * 4 + 20, payload);
            if (c.rng.chance(1, 40)) { size_t got = in.Read(nullptr, 0); VH_CHECK(c, got == 0, "read-count", "%s: reading 0 bytes returned %zu", cfg.c_str(), got); }
            buf.assign(want + 2, 0xA5);
            size_t got = in.Read(buf.data() + 1, want); c.count("reads"); c.eval();
            const size_t must = std::min(want, expect.size() - pos);
            VH_CHECK(c, got == must, "read-count", "%s: reading %zu at %zu of %zu returned %zu", cfg.c_str(), want, pos, expect.size(), got);
            VH_CHECK(c, buf[0] == 0xA5 && (got == want ? true : buf[got + 1] == 0xA5) && buf[want + 1] == 0xA5, "read-outside", "%s: bytes outside the returned range were written", cfg.c_str());
            VH_CHECK(c, got == 0 || memcmp(buf.data() + 1, expect.data() + pos, got) == 0, "content", "%s: reading %zu at %zu of %zu returned other bytes than were written", cfg.c_str(), want, pos, expect.size());
            pos += got; c.count("bytes read back", got);
            if (pos == expect.size()) ++after;
        }
        VH_CHECK(c, in.End(), "end", "%s: End() is false after the last byte", cfg.c_str());
    }

    template <class H> void round_trip(Case& c, const char* hname)
    {
        vh::Rng& r = c.rng; Ref<H> ref; ref.reseed(r); const H hash = ref.make();
        const size_t block = H::size() + 1 + (r.chance(1, 5) ? 0 : r.chance(1, 12) ? 3000 + r.below(70000) : r.below(70));
        const size_t payload = block - H::size();
        const size_t len = std::min<size_t>(pick_length(r, payload), 200000);
        const Bytes data = random_bytes(r, len);
        const unsigned sink = static_cast<unsigned>(r.below(3)), source = static_cast<unsigned>(r.below(6)); const bool finish = r.flip();
        std::string cfg = vh::fmt("%s block %zu length %zu sink %u source %u", hname, block, len, sink, source);
        c.note(cfg);
        Bytes stored; std::ostringstream os; Bytes direct; FaultOut rec;
        auto feed = [&](auto& under)
        {
            awl::io::HashOutputStream<H, std::remove_reference_t<decltype(under)>> out(under, block, hash);
            size_t pos = 0; unsigned zero = 0;
            while (pos < len || zero < 1)
            {
                size_t n = chunk(r, len - pos, payload); if (n == 0) ++zero;
                out.Write(n == 0 && r.flip() ? nullptr : data.data() + pos, n); pos += n; c.count("writes"); c.eval();
            }
            if constexpr (requires { out.Finish(); }) { if (finish) out.Finish(); }
        };
        if (sink == 0) { awl::io::VectorOutputStream v(direct); feed(v); stored = direct; }
        else if (sink == 1) { awl::io::StdOutputStream v(os); feed(v); std::string s = os.str(); stored.assign(s.begin(), s.end()); }
        else { awl::io::SequentialOutputStream& v = rec; feed(v); stored = rec.b; }
        const Bytes model = ref_stored(ref, block, data);
        VH_CHECK(c, stored == model, "stored-form", "%s: stored form depends on something else than the data: %zu bytes, expected %zu", cfg.c_str(), stored.size(), model.size());
        auto back = [&](auto& under) { awl::io::HashInputStream<H, std::remove_reference_t<decltype(under)>> in(under, block, hash); drain(c, in, data, payload, cfg); };
        if (source == 0) { awl::io::VectorInputStream v(stored); back(v); }
        else if (source == 1) { std::istringstream is(std::string(stored.begin(), stored.end())); awl::io::StdInputStream v(is); back(v); }
        else { ShortIn s(stored, r.next(), source - 2); awl::io::SequentialInputStream& v = s; back(v); if (source > 2) c.count("short underlying reads", s.reads); }
        c.distinct(vh::hash_bytes(stored.data(), stored.size(), block)); c.count("round trips");
        if (c.want_sample()) c.sample(cfg);
    }
}

VH_CASE(crc64, 4) { c.iterate(c.n(40000, 900000), [&](uint64_t) { round_trip<awl::crypto::Crc64>(c, "Crc64"); }); }
VH_CASE(no_hash, 2) { c.iterate(c.n(20000, 400000), [&](uint64_t) { round_trip<awl::crypto::FakeHash>(c, "FakeHash"); }); }
VH_CASE(user_hashes, 2) { c.iterate(c.n(20000, 400000), [&](uint64_t i) { if (i & 1) round_trip<Sum1>(c, "1-byte hash"); else round_trip<Wide16>(c, "16-byte hash"); }); }

// Every length 0..6 blocks x every block size from hash+1 to hash+6, every single-chunk read size.
VH_CASE(small_exhaustive, 2)
{
    using H = awl::crypto::Crc64;
    c.iterate(c.n(8, 24), [&](uint64_t k)
    {
        Ref<H> ref; const H hash = ref.make(); const size_t payload = 1 + k, block = payload + H::size();
        for (size_t len = 0; len <= payload * 6 + 1; ++len)
        {
            const Bytes data = random_bytes(c.rng, len);
            for (size_t w = 1; w <= payload * 2 + 1; ++w)
            {
                Bytes stored; { awl::io::VectorOutputStream v(stored); awl::io::HashOutputStream<H, awl::io::VectorOutputStream> out(v, block, hash); for (size_t p = 0; p < len; p += w) out.Write(data.data() + p, std::min(w, len - p)); }
                VH_CHECK(c, stored == ref_stored(ref, block, data), "stored-form", "payload %zu length %zu written by %zu", payload, len, w);
                for (size_t rd = 1; rd <= payload * 2 + 1; ++rd)
                {
                    awl::io::VectorInputStream v(stored); awl::io::HashInputStream<H, awl::io::VectorInputStream> in(v, block, hash);
                    Bytes got; Bytes b(rd); size_t n; while ((n = in.Read(b.data(), rd)) != 0) { got.insert(got.end(), b.begin(), b.begin() + static_cast<ptrdiff_t>(n)); VH_CHECK(c, n == rd || got.size() == len, "read-count", "payload %zu length %zu: short read in the middle", payload, len); }
                    c.eval(); VH_CHECK(c, got == data && in.End(), "content", "payload %zu length %zu written by %zu read by %zu", payload, len, w, rd);
                }
            }
            c.distinct(vh::mix(payload * 1000 + len)); c.count("block/length pairs with all chunk sizes");
        }
    });
}

// Hash streams nested in one another and behind buffering, and the ready-made Buffered streams.
VH_CASE(nested, 2)
{
    c.iterate(c.n(3000, 100000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; Ref<awl::crypto::Crc64> rc; rc.reseed(r); Ref<Sum1> rs; rs.reseed(r);
        const size_t b1 = 9 + r.below(40), b2 = 2 + r.below(50), b3 = 1 + r.below(60); const Bytes data = random_bytes(r, r.below(600));
        std::string cfg = vh::fmt("nested blocks %zu %zu %zu length %zu", b1, b2, b3, data.size()); Bytes stored;
        {
            awl::io::VectorOutputStream v(stored); awl::io::BufferedOutputStream buf(v, b3);
            awl::io::HashOutputStream<Sum1> inner(buf, b2, rs.make()); awl::io::HashOutputStream<awl::crypto::Crc64> out(inner, b1, rc.make());
            for (size_t p = 0; p < data.size();) { size_t n = chunk(r, data.size() - p, b1 - 8); out.Write(data.data() + p, n); p += n; c.count("writes"); }
        }
        const Bytes model = ref_stored(rs, b2, ref_stored(rc, b1, data));
        VH_CHECK(c, stored == model, "stored-form", "%s", cfg.c_str());
        ShortIn s(stored, r.next(), static_cast<unsigned>(r.below(4))); awl::io::BufferedInputStream buf(s, 1 + r.below(60));
        awl::io::HashInputStream<Sum1> inner(buf, b2, rs.make()); awl::io::HashInputStream<awl::crypto::Crc64> in(inner, b1, rc.make());
        drain(c, in, data, b1 - 8, cfg); c.count("round trips"); c.distinct(vh::hash_bytes(data.data(), data.size(), b1 * 1000 + b2));
    });
}

// Several streams share one underlying stream one after another, data following the hashed part excepted: the
// hashed part always extends to the end. Checked through HashingSerializable with a byte-vector value.
namespace
{
    using In = awl::io::HashInputStream<awl::crypto::Crc64, awl::io::SequentialInputStream>; using Out = awl::io::HashOutputStream<awl::crypto::Crc64, awl::io::SequentialOutputStream>;
    struct Blob : awl::io::Serializable<In, Out>
    {
        Bytes v; uint64_t seed; size_t expect = 0;
        void Read(In& s) override { v.clear(); uint8_t b[37]; size_t n; while ((n = s.Read(b, 1 + vh::mix(v.size() + seed) % sizeof b)) != 0) v.insert(v.end(), b, b + n); }
        void Write(Out& s) const override { for (size_t p = 0; p < v.size();) { size_t n = std::min<size_t>(v.size() - p, 1 + vh::mix(p ^ seed) % 50); s.Write(v.data() + p, n); p += n; } }
    };
}
VH_CASE(hashing_serializable, 1)
{
    c.iterate(c.n(3000, 100000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; Ref<awl::crypto::Crc64> ref; ref.reseed(r); Blob a, b; a.seed = r.next(); b.seed = r.next(); const size_t block = r.chance(1, 10) ? awl::io::defaultBlockSize : 9 + r.below(60);
        a.v = random_bytes(r, r.chance(1, 20) ? r.below(200000) : r.below(500));
        FaultOut out; awl::io::HashingSerializable<> hw(a, block, ref.make()); hw.Write(out); const Bytes first = out.b;
        VH_CHECK(c, first == ref_stored(ref, block, a.v), "stored-form", "HashingSerializable block %zu length %zu", block, a.v.size());
        ShortIn in(first, r.next(), static_cast<unsigned>(r.below(4))); awl::io::HashingSerializable<> hr(b, block, ref.make()); hr.Read(in);
        VH_CHECK(c, b.v == a.v, "content", "HashingSerializable block %zu length %zu: %zu bytes back", block, a.v.size(), b.v.size());
        c.eval(); c.count("round trips"); c.distinct(vh::hash_bytes(a.v.data(), a.v.size(), block));
    });
}

// Blocks of megabytes, written and read in chunks of all sizes.
VH_CASE(large_blocks, 1)
{
    c.iterate(c.n(25, 1000), [&](uint64_t i)
    {
        vh::Rng& r = c.rng; const size_t block = std::array<size_t, 4>{ 1u << 20, (1u << 20) + 9, 3u << 20, 1u << 18 }[i % 4] + (r.flip() ? 0 : r.below(100)), payload = block - 8; Bytes data(r.flip() ? 1 + r.below(payload * 2 + 5) : payload * (1 + r.below(2)) + r.below(3) - 1); for (size_t k = 0; k + 8 <= data.size(); k += 8) { const uint64_t x = r.next(); memcpy(&data[k], &x, 8); }
        auto size = [&](size_t left) { return std::min(left, r.flip() ? 1 + r.below(payload * 2) : r.flip() ? payload : 1 + r.below(100000)); };
        Bytes st; { awl::io::VectorOutputStream v(st); awl::io::HashOutputStream<awl::crypto::Crc64> h(v, block); for (size_t p = 0; p < data.size();) { const size_t n = size(data.size() - p); h.Write(data.data() + p, n); p += n; } h.Finish(); }
        const size_t blocks = (data.size() + payload - 1) / payload; c.eval(); c.count("large round trips"); VH_CHECK(c, st.size() == data.size() + blocks * 8, "stored", "block %zu length %zu: %zu bytes are stored", block, data.size(), st.size());
        for (size_t b = 0; b < blocks; ++b) VH_CHECK(c, std::equal(data.begin() + static_cast<ptrdiff_t>(b * payload), data.begin() + static_cast<ptrdiff_t>(std::min(data.size(), (b + 1) * payload)), st.begin() + static_cast<ptrdiff_t>(b * block)), "stored", "block %zu length %zu: block %zu is not the data", block, data.size(), b);
        ShortIn s(st, r.next(), 0); awl::io::HashInputStream<awl::crypto::Crc64> in(s, block); Bytes got(data.size() + 10); size_t n = 0; while (n < got.size()) { const size_t k = in.Read(got.data() + n, size(got.size() - n)); if (k == 0) break; n += k; }
        got.resize(n); VH_CHECK(c, got == data && in.End(), "content", "block %zu length %zu: %zu bytes back", block, data.size(), n); c.distinct(vh::mix(block * 31 + data.size()));
    });
}

namespace { struct LimitedBuf : std::streambuf { size_t limit; Bytes b; LimitedBuf(size_t n) : limit(n) {} int_type overflow(int_type ch) override { if (b.size() == limit || ch == traits_type::eof()) return traits_type::eof(); b.push_back(static_cast<uint8_t>(ch)); return ch; } std::streamsize xsputn(const char* p, std::streamsize n) override { const size_t k = std::min(limit - b.size(), static_cast<size_t>(n)); b.insert(b.end(), p, p + k); return static_cast<std::streamsize>(k); } }; }
// A failing underlying write is reported by Write or by Finish, whatever was stored before it is a prefix of the
// right form, nothing is written again, and destroying the stream afterwards neither throws nor writes.
VH_CASE(write_faults, 1)
{
    c.iterate(c.n(3000, 60000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; Ref<awl::crypto::Crc64> ref; const size_t payload = 1 + r.below(30), block = payload + 8; const Bytes data = random_bytes(r, 1 + r.below(payload * 6)); const Bytes model = ref_stored(ref, block, data);
        const size_t blocks = (data.size() + payload - 1) / payload; FaultOut out; out.fail_at = static_cast<int64_t>(r.below(blocks)); out.part = r.below(block + 1);
        bool reported = false; size_t calls = 0; const int mode = static_cast<int>(r.below(4));
        auto feed = [&](auto& h) { for (size_t p = 0; p < data.size();) { size_t n = chunk(r, data.size() - p, payload); h.Write(data.data() + p, n); p += n; } };
        if (mode == 0)
        {
            // a standard stream whose buffer takes only so many bytes
            LimitedBuf lb(static_cast<size_t>(out.fail_at) * block + out.part); std::ostream os(&lb); awl::io::StdOutputStream so(os); { awl::io::HashOutputStream<awl::crypto::Crc64> h(so, block, ref.make()); try { feed(h); h.Finish(); } catch (const awl::io::WriteFailException&) { reported = true; } }
            const bool fails = lb.limit < model.size(); c.eval(); c.count("limited standard streams"); VH_CHECK(c, reported == fails, "std-fault", "payload %zu length %zu: a standard stream that takes %zu of %zu bytes: failure reported %d", payload, data.size(), lb.limit, model.size(), reported);
            VH_CHECK(c, lb.b.size() == std::min(lb.limit, model.size()) && std::equal(lb.b.begin(), lb.b.end(), model.begin()), "std-prefix", "a standard stream got %zu bytes that are not the beginning of the stored form", lb.b.size()); return;
        }
        if (mode == 1)
        {
            // never finished: the destructor writes the rest, and cannot report that it fails
            out.fail_at = static_cast<int64_t>(blocks - 1); { awl::io::HashOutputStream<awl::crypto::Crc64> h(out, block, ref.make()); try { feed(h); } catch (const awl::io::WriteFailException&) { reported = true; } calls = out.calls.size(); }
            c.eval(); c.count(reported ? "failing last block, full" : "failing last block, in the destructor"); VH_CHECK(c, out.calls.size() == blocks, "write-after-failure", "payload %zu length %zu: %zu writes for %zu blocks", payload, data.size(), out.calls.size(), blocks); return;
        }
        {
            awl::io::HashOutputStream<awl::crypto::Crc64> h(out, block, ref.make());
            try { feed(h); h.Finish(); }
            catch (const awl::io::WriteFailException&) { reported = true; }
            calls = out.calls.size();
        }
        c.eval(); c.count("injected write failures");
        VH_CHECK(c, reported, "fault-unreported", "payload %zu length %zu: the failure of block %lld was not reported", payload, data.size(), (long long)out.fail_at);
        VH_CHECK(c, out.calls.size() == calls, "write-after-failure", "payload %zu: the destructor wrote again after the failure", payload);
        VH_CHECK(c, out.b.size() <= model.size() && std::equal(out.b.begin(), out.b.end(), model.begin()), "fault-prefix", "what was stored before the failure is not a prefix of the stored form");
        c.distinct(vh::mix(payload * 100000 + data.size() * 10 + static_cast<uint64_t>(out.fail_at)));
    });
}
VH_MAIN()
