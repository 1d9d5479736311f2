// Shared by the hashed-stream harnesses: reference CRC, hashes, streams that split and fail.
#pragma once
#include "vh.h"
#include "Awl/Io/IoException.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/StdStream.h"
#include "Awl/Io/BufferedStream.h"
#include "Awl/Io/HashStream.h"
#include "Awl/Crypto/Crc64.h"
#include "Awl/Crypto/IntHash.h"

#include <sstream>

namespace hs
{
    using Bytes = std::vector<uint8_t>;

    // Bit-serial definition, no tables: reflected polynomial of CRC-64/Jones, init = seed, no final xor.
    inline uint64_t ref_crc(const uint8_t* p, size_t n, uint64_t seed)
    {
        uint64_t r = seed;
        for (size_t i = 0; i < n; ++i)
            for (int b = 0; b < 8; ++b)
            {
                const uint64_t in = (p[i] >> b) & 1, out = r & 1;
                r >>= 1;
                if (in ^ out) r ^= 0x95ac9329ac4bc9b5ull;
            }
        return r;
    }

    inline Bytes big_endian(uint64_t v) { Bytes b(8); for (int i = 0; i < 8; ++i) b[static_cast<size_t>(i)] = static_cast<uint8_t>(v >> (8 * (7 - i))); return b; }

    // User-defined hashes: 1 byte and 16 bytes, stateful.
    class Sum1 : public awl::crypto::BasicHash<1>
    {
        uint8_t k;
    public:
        Sum1(uint8_t key = 0x5a) : k(key) {}
        template <class I> value_type operator()(I b, I e) const { uint8_t s = k; for (; b != e; ++b) s = static_cast<uint8_t>(s * 3 + *b); return { s }; }
    };
    class Wide16 : public awl::crypto::BasicHash<16>
    {
        uint64_t k;
    public:
        Wide16(uint64_t key = 7) : k(key) {}
        template <class I> value_type operator()(I b, I e) const
        {
            uint64_t x = vh::mix(k), y = ~x; for (; b != e; ++b) { x = vh::mix(x ^ *b); y += x * 31; }
            value_type v; for (size_t i = 0; i < 8; ++i) { v[i] = static_cast<uint8_t>(x >> (8 * i)); v[8 + i] = static_cast<uint8_t>(y >> (8 * i)); } return v;
        }
    };

    template <class H> struct Ref;
    template <> struct Ref<awl::crypto::Crc64> { uint64_t seed = 127; awl::crypto::Crc64 make() const { return awl::crypto::Crc64(seed); } Bytes of(const Bytes& b) const { return big_endian(ref_crc(b.data(), b.size(), seed)); } void reseed(vh::Rng& r) { seed = r.flip() ? 127 : r.pick({ uint64_t(0), ~uint64_t(0), r.next() }); } };
    template <> struct Ref<awl::crypto::FakeHash> { awl::crypto::FakeHash make() const { return {}; } Bytes of(const Bytes&) const { return {}; } void reseed(vh::Rng&) {} };
    template <> struct Ref<Sum1> { uint8_t key = 1; Sum1 make() const { return Sum1(key); } Bytes of(const Bytes& b) const { auto v = Sum1(key)(b.begin(), b.end()); return Bytes(v.begin(), v.end()); } void reseed(vh::Rng& r) { key = static_cast<uint8_t>(r.next()); } };
    template <> struct Ref<Wide16> { uint64_t key = 1; Wide16 make() const { return Wide16(key); } Bytes of(const Bytes& b) const { auto v = Wide16(key)(b.begin(), b.end()); return Bytes(v.begin(), v.end()); } void reseed(vh::Rng& r) { key = r.next(); } };

    // Underlying input that returns as little as it likes (never 0 before the end).
    struct ShortIn : awl::io::SequentialInputStream
    {
        const Bytes& b; size_t pos = 0; vh::Rng r; unsigned mode; int64_t fail_at = -1; uint64_t reads = 0; bool after_end = false;
        ShortIn(const Bytes& v, uint64_t seed, unsigned m) : b(v), r(seed), mode(m) {}
        bool End() override { return pos == b.size(); }
        size_t Read(uint8_t* p, size_t n) override
        {
            ++reads;
            if (fail_at >= 0 && static_cast<int64_t>(reads) == fail_at + 1) { if (n) memset(p, 0xee, n); throw awl::io::ReadFailException(); }
            size_t a = std::min(n, b.size() - pos);
            if (a > 1 && mode == 1) a = 1 + r.below(a);
            if (a > 1 && mode == 2) a = 1;
            if (a > 1 && mode == 3 && r.flip()) a = a - 1;
            if (a) memcpy(p, b.data() + pos, a);
            pos += a; return a;
        }
    };

    // Underlying output that records each write and fails on request (possibly after a partial write).
    struct FaultOut : awl::io::SequentialOutputStream
    {
        Bytes b; std::vector<size_t> calls; int64_t fail_at = -1; size_t part = 0; uint64_t failed = 0; bool sticky = false;
        void Write(const uint8_t* p, size_t n) override
        {
            const bool hit = fail_at >= 0 && (sticky ? static_cast<int64_t>(calls.size()) >= fail_at : static_cast<int64_t>(calls.size()) == fail_at);
            calls.push_back(n);
            if (hit) { ++failed; size_t k = std::min(part, n); b.insert(b.end(), p, p + k); throw awl::io::WriteFailException(); }
            b.insert(b.end(), p, p + n);
        }
    };

    template <class H> Bytes ref_stored(const Ref<H>& ref, size_t block, const Bytes& data)
    {
        Bytes r; const size_t payload = block - H::size();
        for (size_t i = 0; i < data.size(); i += payload)
        {
            Bytes part(data.begin() + static_cast<ptrdiff_t>(i), data.begin() + static_cast<ptrdiff_t>(std::min(data.size(), i + payload)));
            Bytes h = ref.of(part);
            r.insert(r.end(), part.begin(), part.end()); r.insert(r.end(), h.begin(), h.end());
        }
        return r;
    }

    inline Bytes random_bytes(vh::Rng& r, size_t n)
    {
        Bytes b(n); const unsigned k = static_cast<unsigned>(r.below(4));
        for (auto& x : b) x = k == 0 ? 0 : k == 1 ? 0xff : static_cast<uint8_t>(r.next());
        return b;
    }

    inline size_t chunk(vh::Rng& r, size_t left, size_t payload)
    {
        size_t n = 0;
        switch (r.below(8))
        {
            case 0: n = 0; break;
            case 1: n = 1; break;
            case 2: n = payload; break;
            case 3: n = payload + 1; break;
            case 4: n = payload ? payload - 1 : 0; break;
            case 5: n = r.below(2 * payload + 3); break;
            case 6: n = 1 + r.below(4); break;
            default: n = r.below(5) == 0 ? left : r.below(3 * payload + 8); break;
        }
        return std::min(n, left);
    }
}
