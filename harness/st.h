// Values, storages and recovery checks shared by the storage harnesses (C22, C23, C38).
#pragma once
#include "vfs.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/OptionalStorage.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/ReadWrite.h"
#include <optional>
#include <sstream>

namespace st
{
    namespace io = awl::io;
    using vh::Case;

    struct NullLogger : awl::Logger { uint64_t lines = 0, warnings = 0; void log(awl::LogLevel l, awl::LogString) override { ++lines; if (static_cast<int>(l) >= static_cast<int>(awl::LogLevel::Warning)) ++warnings; } };
    inline NullLogger& logger() { static NullLogger l; return l; }

    // Every part of a value is derived from its number, so that a mixture of two values equals neither.
    struct S
    {
        uint64_t gen = 0; std::vector<uint64_t> words; std::string text; uint64_t last = 0;
        AWL_REFLECT(gen, words, text, last)
        bool operator==(const S& o) const { return gen == o.gen && words == o.words && text == o.text && last == o.last; }
        std::string show() const { return vh::fmt("value %llu (%zu words, %zu letters, first word %llx, end %llx)", (unsigned long long)gen, words.size(), text.size(), words.empty() ? 0ull : (unsigned long long)words[0], (unsigned long long)last); }
    };
    inline S make(uint64_t gen, size_t words, size_t letters)
    {
        S s; s.gen = gen; for (size_t i = 0; i < words; ++i) s.words.push_back(vh::mix(gen * 1000003 + i)); for (size_t i = 0; i < letters; ++i) s.text += static_cast<char>('a' + (gen * 7 + i) % 26); s.last = vh::mix(gen); return s;
    }

    using HI = io::HashInputStream<awl::crypto::Crc64>; using HO = io::HashOutputStream<awl::crypto::Crc64>;
    // The serializable forms a storage is used with.
    enum Form { HEADERED, EUPHORIC, PLAIN_HASHED, FORMS };
    struct Holder
    {
        S val; size_t block; Form form;
        io::PlainSerializable<S, HI, HO> plain{ val };
        std::unique_ptr<io::Serializable<>> ser;
        Holder(Form f, size_t b) : block(b), form(f)
        {
            if (f == HEADERED) ser = std::make_unique<io::HeaderedSerializable<S>>(io::Header{ "store", 3 }, val, b);
            else if (f == EUPHORIC) ser = std::make_unique<io::EuphoricallySerializable<S>>(val, b);
            else ser = std::make_unique<io::HashingSerializable<>>(plain, b);
        }
        Holder(const Holder&) = delete;
    };

    struct Model
    {
        std::optional<S> committed; std::vector<S> attempted; bool unsure = false; // unsure: nothing was ever saved for certain
        bool allows(const S& s) const { if (committed && s == *committed) return true; for (auto& a : attempted) if (s == a) return true; return false; }
        std::string show() const { std::string r = committed ? "saved " + committed->show() : "nothing saved"; for (auto& a : attempted) r += ", tried " + a.show(); return r; }
    };

    inline const char* MASTER = "vfs:m"; inline const char* BACKUP = "vfs:b";

    struct Loaded { bool ok = false; S val; std::string error; bool io_error = false; };
    inline Loaded load(io::AtomicStorage& s, Form f, size_t block)
    {
        Loaded r; Holder h(f, block);
        try { r.ok = s.Load(*h.ser); }
        catch (const io::IoException& e) { r.error = vh::type_name(typeid(e)) + ": " + std::string(e.What()); r.io_error = true; }
        catch (const std::exception& e) { r.error = vh::type_name(typeid(e)) + ": " + e.what(); }
        r.val = h.val; return r;
    }

    // Swaps the simulated disk for the duration of a check.
    struct Sandbox { vfs::Fs saved; Sandbox(vfs::Disk d) : saved(std::move(vfs::fs())) { vfs::fs() = vfs::Fs{}; vfs::fs().disk = std::move(d); vfs::fs().next = saved.next + 1000; } ~Sandbox() { int n = vfs::fs().next; vfs::fs() = std::move(saved); vfs::fs().next = std::max(n, vfs::fs().next); } };

    inline std::string show(const vfs::Disk& d) { std::string r; for (auto& [n, f] : d) r += vh::fmt("%s: %zu bytes (%zu durable, %zu unsynced ops); ", n.c_str(), f.cache.size(), f.durable.size(), f.pending.size()); return r; }

    // Opens and loads a disk image; the outcome must be one the model allows. depth: crashes during the recovery itself are tried too.
    inline S check_image(Case& c, const vfs::Disk& img, const Model& m, Form form, size_t block, const char* what, int depth, bool* loaded = nullptr)
    {
        std::vector<vfs::Capture> caps; Loaded r; vfs::Disk after;
        {
            Sandbox sb(img); vfs::fs().record = depth > 0;
            io::AtomicStorage s(logger());
            try { s.Open(MASTER, BACKUP); r = load(s, form, block); } catch (const io::IoException& e) { r.error = "Open: " + std::string(e.What()); }
            s.Close(); caps = std::move(vfs::fs().captures); after = vfs::fs().disk;
            VH_CHECK(c, vfs::fs().fds.empty() && vfs::fs().closed_twice == 0, "descriptors", "%s: %zu descriptors left open, %llu closed twice", what, vfs::fs().fds.size(), (unsigned long long)vfs::fs().closed_twice);
        }
        c.eval(); c.count(r.ok ? "recoveries with a value" : "recoveries without a value");
        VH_CHECK(c, r.error.empty(), "load-error", "%s: the load failed: %s; %s; disk %s", what, r.error.c_str(), m.show().c_str(), show(img).c_str());
        if (r.ok) VH_CHECK(c, m.allows(r.val), "wrong-value", "%s: loaded %s; %s; disk %s", what, r.val.show().c_str(), m.show().c_str(), show(img).c_str());
        else VH_CHECK(c, !m.committed || m.unsure, "lost", "%s: nothing could be loaded; %s; disk %s", what, m.show().c_str(), show(img).c_str());
        uint64_t h = r.ok ? vh::mix(r.val.gen + 1) : 7; for (auto& [n, f] : img) h = vh::mix(h ^ vh::hash_bytes(f.cache.data(), f.cache.size()) ^ f.pending.size()); c.distinct(h);
        if (loaded) *loaded = r.ok;
        if (depth > 0)
        {
            // a crash of the machine after the load returned, and at an instant inside it
            Model settled; if (r.ok) { settled.committed = r.val; } else settled = m;
            check_image(c, vfs::machine_crash(after, c.rng), settled, form, block, "after a completed recovery", 0);
            for (int k = 0; k < 3 && !caps.empty(); ++k)
            {
                auto& cap = c.rng.pick(caps); auto d = vfs::process_crash(cap, c.rng.below(cap.op.data.size() + 2));
                check_image(c, c.rng.flip() ? d : vfs::machine_crash(d, c.rng), m, form, block, "a crash inside a recovery", depth - 1); c.count("crashes inside a recovery");
            }
        }
        return r.val;
    }
}
