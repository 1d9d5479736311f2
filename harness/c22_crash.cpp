// C22: a storage survives a crash at any instant. The real AtomicStorage runs on a simulated file system that records the disk
// before every mutating call; for each instant, the images that a stopped process or a stopped machine may leave are derived,
// and the real recovery is run on them.
#include "st.h"
using namespace st;

namespace
{
    struct Shape { Form form; size_t block; bool snapshot; };

    struct Session
    {
        std::unique_ptr<io::AtomicStorage> s;
        void open() { s = std::make_unique<io::AtomicStorage>(logger()); s->Open(MASTER, BACKUP); }
    };
    std::mutex g_m;

    // One save; returns whether it succeeded.
    bool save(Case& c, io::AtomicStorage& s, const Shape& sh, const S& v)
    {
        Holder h(sh.form, sh.block); h.val = v; awl::MutexWrapper<std::mutex> w(g_m);
        try { s.Save(*h.ser, sh.snapshot ? static_cast<awl::IMutex*>(&w) : nullptr); }
        catch (const io::IoException&) { return false; }
        return true;
    }

    void examine(Case& c, const std::vector<vfs::Capture>& caps, const Model& m, const Shape& sh, unsigned per, const char* what)
    {
        for (auto& cap : caps)
        {
            const size_t n = cap.has_op ? cap.op.data.size() : 0;
            for (unsigned k = 0; k < per; ++k)
            {
                const size_t part = k == 0 ? 0 : k == 1 ? n : c.rng.below(n + 1);
                auto d = vfs::process_crash(cap, part); c.count("crash instants examined");
                check_image(c, d, m, sh.form, sh.block, what, c.rng.chance(1, 6) ? 2 : 0);
                check_image(c, vfs::machine_crash(vfs::process_crash(cap, n + 1), c.rng), m, sh.form, sh.block, what, c.rng.chance(1, 6) ? 2 : 0);
            }
        }
    }

    S value(Case& c, uint64_t gen, bool same, const S& prev, size_t block)
    {
        if (same && prev.gen) return make(gen, prev.words.size(), prev.text.size());
        const size_t words = c.rng.pick({ size_t(0), size_t(1), block / 8, block / 4, block / 2, size_t(c.rng.below(60)) });
        return make(gen, words, c.rng.below(40));
    }

    void history(Case& c, bool faults)
    {
        Shape sh{ static_cast<Form>(c.rng.below(FORMS)), static_cast<size_t>(c.rng.pick({ 16, 24, 40, 64, 200, 4096 })), false };
        if (sh.form != PLAIN_HASHED) sh.snapshot = c.rng.flip();
        vfs::reset(); Session ses; ses.open(); Model m; uint64_t gen = 1; S prev; const bool same = c.rng.flip();
        { auto r = load(*ses.s, sh.form, sh.block); VH_CHECK(c, !r.ok && r.error.empty(), "empty", "loading from an empty store: %d '%s'", r.ok, r.error.c_str()); }
        for (int cycle = 0; cycle < 4; ++cycle)
        {
            const int saves = 1 + static_cast<int>(c.rng.below(3)); vfs::Capture crash; bool have = false; Model at_crash;
            for (int k = 0; k < saves; ++k)
            {
                const S v = value(c, gen++, same, prev, sh.block); prev = v;
                if (faults && c.rng.flip())
                {
                    // fails from the n-th call of the save on, for a while
                    const uint64_t from = 1 + c.rng.below(24), to = from + c.rng.pick({ 1, 1, 3, 1000 }); uint64_t n = 0; const int err = c.rng.pick({ ENOSPC, EIO }); const unsigned shorts = static_cast<unsigned>(c.rng.below(3));
                    vfs::fs().fault = [=, &c](vfs::Kind k, const std::string&, size_t len) mutable { if (k == vfs::CLOSE || k == vfs::OPEN) return 0; ++n; if (n < from || n >= to) return 0; if (k == vfs::WRITE && shorts == 0 && len > 1) return -1 - static_cast<int>(c.rng.below(len)); return err; };
                }
                vfs::fs().captures.clear(); vfs::fs().record = true;
                m.attempted.push_back(v); const bool ok = save(c, *ses.s, sh, v);
                const bool failed = vfs::fs().failed != 0; vfs::fs().fault = nullptr; vfs::fs().failed = 0; vfs::fs().record = false;
                auto caps = std::move(vfs::fs().captures); vfs::fs().captures.clear();
                examine(c, caps, m, sh, 2, failed ? "crash in a save whose file operations fail" : "crash in a save"); c.count("saves"); if (!ok) c.count("failed saves");
                if (!caps.empty() && c.rng.flip()) { crash = c.rng.pick(caps); at_crash = m; have = true; }
                VH_CHECK(c, ok || failed, "save-error", "a save without any fault failed");
                if (ok) { m.committed = v; m.attempted.clear(); }
                // after the save has returned
                check_image(c, vfs::fs().disk, m, sh.form, sh.block, "after a save", 1); check_image(c, vfs::machine_crash(vfs::fs().disk, c.rng), m, sh.form, sh.block, "machine crash after a save", 1);
                if (c.rng.chance(1, 4)) { auto r = load(*ses.s, sh.form, sh.block); VH_CHECK(c, r.error.empty() && r.ok == (m.committed || r.ok) && (!r.ok || m.allows(r.val)), "reload", "loading in the same object: %d %s, %s; %s", r.ok, r.error.c_str(), r.val.show().c_str(), m.show().c_str()); if (r.ok) { m.committed = r.val; m.attempted.clear(); } }
            }
            // the process or machine stops, somewhere in one of the saves or after them, and the next one recovers
            ses.s.reset(); vfs::Disk d = vfs::fs().disk;
            if (have) { d = vfs::process_crash(crash, c.rng.below(crash.op.data.size() + 2)); m = at_crash; }
            if (c.rng.flip()) { d = vfs::machine_crash(d, c.rng); c.count("machine crashes"); } else c.count("process crashes");
            vfs::reset(d); ses.open(); auto r = load(*ses.s, sh.form, sh.block);
            VH_CHECK(c, r.error.empty() && (r.ok || !m.committed) && (!r.ok || m.allows(r.val)), "recovery", "recovery: %d %s %s; %s; disk %s", r.ok, r.error.c_str(), r.val.show().c_str(), m.show().c_str(), show(d).c_str());
            m.attempted.clear(); m.committed.reset(); if (r.ok) m.committed = r.val; c.eval();
        }
        if (c.want_sample()) c.sample(vh::fmt("form %d, block %zu: %llu saves in 4 crash-and-recover cycles; end: %s", sh.form, sh.block, (unsigned long long)gen - 1, m.show().c_str()));
    }

    // Every byte boundary of every call of one save over an existing value, and every byte boundary of the recoveries from there.
    void exhaustive(Case& c, const Shape& sh, size_t words, size_t letters, size_t words2, size_t letters2)
    {
        vfs::reset(); Session ses; ses.open(); const S v0 = make(1, words, letters), v1 = make(2, words2, letters2); Model m;
        VH_CHECK(c, save(c, *ses.s, sh, v0), "save-error", "a save failed"); m.committed = v0; m.attempted.push_back(v1);
        vfs::fs().record = true; VH_CHECK(c, save(c, *ses.s, sh, v1), "save-error", "a save failed"); auto caps = std::move(vfs::fs().captures); ses.s.reset();
        for (auto& cap : caps)
        {
            const size_t n = cap.has_op ? std::max<size_t>(1, cap.op.data.size()) : 0;
            for (size_t part = 0; part <= n; ++part)
            {
                auto d = vfs::process_crash(cap, part); check_image(c, d, m, sh.form, sh.block, "exhaustive crash point", 0);
                for (int k = 0; k < 4; ++k) check_image(c, vfs::machine_crash(d, c.rng), m, sh.form, sh.block, "exhaustive crash point, machine", 0);
                if (part != 0 && part != n) continue;
                // all crash points of the recovery from this one
                std::vector<vfs::Capture> rc; { Sandbox sb(d); vfs::fs().record = true; io::AtomicStorage s(logger()); s.Open(MASTER, BACKUP); load(s, sh.form, sh.block); s.Close(); rc = std::move(vfs::fs().captures); }
                for (auto& r : rc) { const size_t rn = r.has_op ? std::max<size_t>(1, r.op.data.size()) : 0; for (size_t p = 0; p <= rn; p += std::max<size_t>(1, rn / 6)) { auto d2 = vfs::process_crash(r, p); check_image(c, d2, m, sh.form, sh.block, "exhaustive crash point in a recovery", 0); check_image(c, vfs::machine_crash(d2, c.rng), m, sh.form, sh.block, "exhaustive crash point in a recovery, machine", 0); } }
            }
        }
        c.count("exhaustive saves"); c.count("mutating calls enumerated", caps.size());
    }
}

VH_CASE(crashes, 3) { c.iterate(c.n(45, 3000), [&](uint64_t) { history(c, false); }); }
VH_CASE(crashes_after_faults, 3) { c.iterate(c.n(60, 4000), [&](uint64_t) { history(c, true); }); }
VH_CASE(every_point, 2)
{
    c.iterate(c.n(6, 120), [&](uint64_t i)
    {
        const Form f = static_cast<Form>(i % FORMS); const size_t block = c.rng.pick({ 24, 40, 100 }); const size_t w = c.rng.below(12), l = c.rng.below(20); const bool same = c.rng.flip();
        exhaustive(c, { f, block, f != PLAIN_HASHED && c.rng.flip() }, w, l, same ? w : c.rng.below(12), same ? l : c.rng.below(20));
    });
}

VH_MAIN()
