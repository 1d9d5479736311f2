// C23: a save whose file operations fail reports it and never destroys the saved value. Every file operation of a save is made
// to fail in every way (error, short write, one-shot or lasting), on a simulated disk, and what can be loaded is checked.
#include "st.h"
using namespace st;

namespace
{
    struct Shape { Form form; size_t block; bool snapshot; };
    std::mutex g_m;
    struct Outcome { bool ok = false, io = false; std::string what; };
    template <class Storage> Outcome save(Storage& s, const Shape& sh, const S& v, std::mutex& mu)
    {
        Holder h(sh.form, sh.block); h.val = v; awl::MutexWrapper<std::mutex> w(mu); Outcome o;
        try { s.Save(*h.ser, sh.snapshot ? static_cast<awl::IMutex*>(&w) : nullptr); o.ok = true; }
        catch (const io::IoException& e) { o.io = true; o.what = std::string(e.What()); }
        catch (const std::exception& e) { o.what = vh::type_name(typeid(e)); }
        return o;
    }
    bool unlocked(std::mutex& m) { if (!m.try_lock()) return false; m.unlock(); return true; }

    struct Fault { uint64_t from, to; int err; unsigned mask; std::string only; int shorts; }; // calls [from, to) of the given kinds
    uint64_t g_calls;
    void arm(const Fault& f) { g_calls = 0; vfs::fs().failed = 0; vfs::fs().fault = [f](vfs::Kind k, const std::string& p, size_t len) { if (!(f.mask >> k & 1)) return 0; if (!f.only.empty() && p != f.only) return 0; const uint64_t n = g_calls++; if (n < f.from || n >= f.to) return 0; if (k == vfs::WRITE && f.shorts >= 0) { if (len <= 1) return f.err; return -1 - static_cast<int>(static_cast<size_t>(f.shorts) % len); } return f.err; }; }
    void disarm() { vfs::fs().fault = nullptr; vfs::fs().failed = 0; }

    const unsigned SAVE_OPS = 1u << vfs::WRITE | 1u << vfs::SEEK | 1u << vfs::STAT | 1u << vfs::TRUNC | 1u << vfs::SYNC;

    std::string show(const Fault& f) { std::string k; for (int i = 0; i < vfs::KINDS; ++i) if (f.mask >> i & 1) k += std::string(k.empty() ? "" : "/") + vfs::kind_name(i); return vh::fmt("%s calls %llu..%llu of %s fail with %s", k.c_str(), (unsigned long long)f.from, (unsigned long long)f.to, f.only.empty() ? "both files" : f.only.c_str(), f.shorts >= 0 ? "a short write" : strerror(f.err)); }

    // Other processes see an allowed value, both now and after the machine stops now.
    void others(Case& c, const Model& m, const Shape& sh, const char* what) { check_image(c, vfs::fs().disk, m, sh.form, sh.block, what, 1); check_image(c, vfs::machine_crash(vfs::fs().disk, c.rng), m, sh.form, sh.block, what, 1); }

    void one_save(Case& c, io::AtomicStorage& s, Model& m, const Shape& sh, const S& v, const Fault* f)
    {
        if (f) arm(*f);
        m.attempted.push_back(v); auto o = save(s, sh, v, g_m); const bool failed = vfs::fs().failed != 0; const std::string fs = f ? show(*f) : "no fault"; disarm();
        c.count("saves"); if (failed) c.count("saves with failing operations"); c.eval();
        VH_CHECK(c, !failed || !o.ok, "silent", "a save reported success although an operation of it failed (%s)", fs.c_str());
        VH_CHECK(c, o.ok || o.io, "exception-type", "a failed save threw %s (%s)", o.what.c_str(), fs.c_str());
        VH_CHECK(c, failed || o.ok, "spurious", "a save without a failing operation failed: %s", o.what.c_str());
        VH_CHECK(c, unlocked(g_m), "mutex", "the mutex remained locked after a save (%s)", fs.c_str());
        VH_CHECK(c, vfs::fs().fds.size() == 2 && !vfs::fs().closed_twice, "descriptors", "%zu descriptors are open after a save", vfs::fs().fds.size());
        if (o.ok) { m.committed = v; m.attempted.clear(); }
    }

    // Every operation of the save, one by one, for every kind of failure.
    void systematic(Case& c)
    {
        Shape sh{ static_cast<Form>(c.rng.below(FORMS)), static_cast<size_t>(c.rng.pick({ 24, 40, 64, 200 })), false }; if (sh.form != PLAIN_HASHED) sh.snapshot = c.rng.flip();
        const S v0 = make(1, c.rng.below(20), c.rng.below(30)); const bool same = c.rng.flip(); auto next = [&](uint64_t g) { return same ? make(g, v0.words.size(), v0.text.size()) : make(g, c.rng.below(20), c.rng.below(30)); };
        uint64_t total = 0;
        { vfs::reset(); io::AtomicStorage s(logger(), MASTER, BACKUP); Model m; one_save(c, s, m, sh, v0, nullptr); Fault none{ ~0ull, ~0ull, EIO, SAVE_OPS, "", -1 }; one_save(c, s, m, sh, next(2), &none); total = g_calls; }
        for (uint64_t k = 0; k < total; ++k)
        {
            vfs::reset(); io::AtomicStorage s(logger(), MASTER, BACKUP); Model m; one_save(c, s, m, sh, v0, nullptr); uint64_t gen = 2;
            const uint64_t len = c.rng.pick({ 1, 1, 2, 100000 }); const int err = c.rng.pick({ ENOSPC, EIO, EDQUOT, EINTR, EFBIG });
            Fault f{ k, k + len, err, SAVE_OPS, "", c.rng.flip() ? static_cast<int>(c.rng.below(1000)) : -1 };
            one_save(c, s, m, sh, next(gen++), &f); others(c, m, sh, "after a failed save");
            // the fault repeats, or lasts
            for (uint64_t r = c.rng.below(4); r; --r) { Fault g = f; if (c.rng.flip()) { g.from = c.rng.below(total); g.to = g.from + c.rng.pick({ 1, 100000 }); } one_save(c, s, m, sh, next(gen++), &g); others(c, m, sh, "after repeated failed saves"); }
            if (c.rng.chance(1, 3))
            {
                auto r = load(s, sh.form, sh.block); VH_CHECK(c, r.error.empty() && r.ok && m.allows(r.val), "same-object", "after a failed save the same object loads %d %s %s; %s", r.ok, r.error.c_str(), r.val.show().c_str(), m.show().c_str());
                m.committed = r.val; m.attempted.clear(); others(c, m, sh, "after a load that follows a failed save");
            }
            one_save(c, s, m, sh, next(gen++), nullptr); others(c, m, sh, "after a save that follows failed ones");
            auto r = load(s, sh.form, sh.block); VH_CHECK(c, r.ok && r.error.empty() && r.val == *m.committed, "retry", "a save after the fault went away, then loads %d %s %s; %s", r.ok, r.error.c_str(), r.val.show().c_str(), m.show().c_str());
            c.distinct(vh::mix(k * 131 + err * 7 + len) ^ sh.block); c.count("operations made to fail");
        }
        if (c.want_sample()) c.sample(vh::fmt("form %d, block %zu: each of %llu operations of a save made to fail", sh.form, sh.block, (unsigned long long)total));
    }

    // The storage is handed on: into a new object, or over one that was moved from, is idle, or has other files open, some after a failed save.
    void hand_over(Case& c, std::unique_ptr<io::AtomicStorage>& s, const Shape& sh, uint64_t gen)
    {
        auto n = std::make_unique<io::AtomicStorage>(std::move(*s));
        switch (c.rng.below(4))
        {
        case 0: s = std::move(n); return;
        case 1: *s = std::move(*n); return;
        case 2: s = std::make_unique<io::AtomicStorage>(logger()); *s = std::move(*n); return;
        default:
            {
                auto t = std::make_unique<io::AtomicStorage>(logger(), "other_master", "other_backup");
                if (c.rng.chance(3, 4)) { std::mutex m; if (c.rng.chance(2, 3)) arm({ c.rng.below(6), 100000, ENOSPC, SAVE_OPS, "other_master", -1 }); save(*t, sh, make(1000 + gen, 3, 3), m); disarm(); }
                *t = std::move(*n); s = std::move(t); n.reset(); vfs::fs().disk.erase("other_master"); vfs::fs().disk.erase("other_backup");
            }
        }
    }

    // Long histories: faults of chosen kinds on chosen files, space running out at a byte, loads that fail.
    void history(Case& c)
    {
        Shape sh{ static_cast<Form>(c.rng.below(FORMS)), static_cast<size_t>(c.rng.pick({ 24, 40, 64, 4096 })), false }; if (sh.form != PLAIN_HASHED) sh.snapshot = c.rng.flip();
        vfs::reset(); auto s = std::make_unique<io::AtomicStorage>(logger(), MASTER, BACKUP); Model m; uint64_t gen = 1; const size_t w = c.rng.below(30);
        for (int op = 0; op < 30; ++op)
        {
            const S v = make(gen++, c.rng.flip() ? w : c.rng.below(50), 5);
            switch (c.rng.below(7))
            {
            case 0: case 1: one_save(c, *s, m, sh, v, nullptr); break;
            case 2: case 3: { Fault f{ c.rng.below(8), 0, c.rng.pick({ ENOSPC, EIO }), c.rng.pick({ 1u << vfs::WRITE, 1u << vfs::SYNC, 1u << vfs::TRUNC, 1u << vfs::SEEK, SAVE_OPS }), c.rng.pick({ std::string(), std::string(MASTER), std::string(BACKUP) }), c.rng.chance(1, 3) ? static_cast<int>(c.rng.below(300)) : -1 }; f.to = f.from + c.rng.pick({ 1, 2, 100000 }); one_save(c, *s, m, sh, v, &f); } break;
            case 4: { // the disk fills up: the bytes of both files together are limited
                size_t used = 0; for (auto& [n, f] : vfs::fs().disk) used += f.cache.size(); const size_t cap = used + c.rng.below(300);
                vfs::fs().failed = 0; vfs::fs().fault = [cap](vfs::Kind k, const std::string& p, size_t len) { if (k != vfs::WRITE) return 0; size_t u = 0; for (auto& [n, f] : vfs::fs().disk) u += f.cache.size(); if (u + len <= cap) return 0; return u >= cap ? ENOSPC : -1 - static_cast<int>(cap - u); };
                m.attempted.push_back(v); auto o = save(*s, sh, v, g_m); const bool failed = vfs::fs().failed != 0; disarm(); c.eval(); c.count("saves to a filling disk");
                VH_CHECK(c, o.ok == !failed && (o.ok || o.io), "silent", "a save to a filling disk: reported %d, operations failed %d, %s", o.ok, failed, o.what.c_str()); if (o.ok) { m.committed = v; m.attempted.clear(); } } break;
            case 5: { // a load whose operations fail reports it and destroys nothing
                Fault f{ c.rng.below(10), 0, EIO, c.rng.pick({ 1u << vfs::READ, SAVE_OPS | 1u << vfs::READ }), c.rng.pick({ std::string(), std::string(MASTER), std::string(BACKUP) }), -1 }; f.to = f.from + c.rng.pick({ 1, 2, 100000 });
                arm(f); auto r = load(*s, sh.form, sh.block); const bool failed = vfs::fs().failed != 0; disarm(); c.eval(); c.count("loads with failing operations");
                VH_CHECK(c, r.error.empty() || r.io_error, "exception-type", "a load threw %s", r.error.c_str());
                VH_CHECK(c, !r.ok || m.allows(r.val), "wrong-value", "a load whose operations fail gave %s; %s", r.val.show().c_str(), m.show().c_str());
                VH_CHECK(c, failed || (r.error.empty() && (r.ok || !m.committed)), "spurious", "a load without a failing operation: %d %s; %s", r.ok, r.error.c_str(), m.show().c_str()); } break;
            default: { // another object takes over
                s.reset(); vfs::Disk d = c.rng.flip() ? vfs::fs().disk : vfs::machine_crash(vfs::fs().disk, c.rng); vfs::reset(d); s = std::make_unique<io::AtomicStorage>(logger(), MASTER, BACKUP);
                auto r = load(*s, sh.form, sh.block); VH_CHECK(c, r.error.empty() && (r.ok || !m.committed) && (!r.ok || m.allows(r.val)), "new-object", "a new object loads %d %s %s; %s", r.ok, r.error.c_str(), r.val.show().c_str(), m.show().c_str());
                m.attempted.clear(); m.committed.reset(); if (r.ok) m.committed = r.val; } break;
            }
            others(c, m, sh, "in a history with faults"); if (c.rng.chance(1, 5)) { hand_over(c, s, sh, gen); c.count("moves"); }
            if (c.rng.chance(1, 8)) { s->Close(); VH_CHECK(c, s->Open(MASTER, BACKUP), "reopen", "reopening the files of a storage says that there were none"); auto r = load(*s, sh.form, sh.block); VH_CHECK(c, r.error.empty() && (r.ok || !m.committed) && (!r.ok || m.allows(r.val)), "reopen", "a reopened storage loads %d %s %s; %s", r.ok, r.error.c_str(), r.val.show().c_str(), m.show().c_str()); m.attempted.clear(); m.committed.reset(); if (r.ok) m.committed = r.val; c.count("reopened by the same object"); }
        }
        one_save(c, *s, m, sh, make(gen++, 3, 3), nullptr); others(c, m, sh, "at the end");
        c.distinct(vh::mix(gen) ^ sh.block);
    }

    // OptionalStorage turns the failure into a logged warning, and destroys nothing either.
    void optional(Case& c)
    {
        Shape sh{ static_cast<Form>(c.rng.below(FORMS)), static_cast<size_t>(c.rng.pick({ 24, 40, 64 })), false }; vfs::reset(); Model m; uint64_t gen = 1;
        const bool broken = c.rng.chance(1, 4); NullLogger log;
        if (broken) { int n = static_cast<int>(c.rng.below(2)); vfs::fs().fault = [n](vfs::Kind k, const std::string& p, size_t) mutable { return k == vfs::OPEN && n-- == 0 ? EACCES : 0; }; }
        io::OptionalStorage s(log); bool existed = true; try { existed = s.Open(MASTER, BACKUP); } catch (...) { c.fail("optional", "OptionalStorage::Open threw"); } disarm();
        VH_CHECK(c, !existed && s.IsOpened() == !broken, "optional", "OptionalStorage::Open on %s: existed %d, opened %d", broken ? "a refusing disk" : "an empty disk", existed, s.IsOpened());
        VH_CHECK(c, (log.warnings != 0) == broken, "optional", "%llu warnings", (unsigned long long)log.warnings); c.eval();
        if (broken) { VH_CHECK(c, vfs::fs().fds.empty(), "descriptors", "%zu descriptors left open", vfs::fs().fds.size()); Holder h(sh.form, sh.block); h.val = make(9, 1, 1); bool ok = true; try { ok = s.Load(*h.ser); s.Save(*h.ser); } catch (...) { c.fail("optional", "an operation of an unopened OptionalStorage threw"); } VH_CHECK(c, !ok && h.val == make(9, 1, 1), "optional", "an unopened OptionalStorage loaded a value"); c.count("unopened"); return; }
        for (int op = 0; op < 10; ++op)
        {
            const S v = make(gen++, c.rng.below(20), 5); const bool bad = c.rng.flip(); if (bad) arm({ c.rng.below(20), 100000, ENOSPC, SAVE_OPS, "", -1 }); const uint64_t w = log.warnings;
            m.attempted.push_back(v); auto o = save(s, sh, v, g_m); const bool failed = vfs::fs().failed != 0; disarm(); c.eval(); c.count("optional saves");
            VH_CHECK(c, o.ok, "optional", "OptionalStorage::Save threw %s", o.what.c_str()); VH_CHECK(c, (log.warnings > w) == failed, "silent", "OptionalStorage::Save: operations failed %d, %llu warnings logged", failed, (unsigned long long)(log.warnings - w));
            if (!failed) { m.committed = v; m.attempted.clear(); } others(c, m, sh, "after OptionalStorage::Save");
        }
        c.distinct(vh::mix(gen) ^ sh.block ^ sh.form);
    }
}

VH_CASE(every_operation, 3) { c.iterate(c.n(90, 4000), [&](uint64_t) { systematic(c); }); }
VH_CASE(histories, 3) { c.iterate(c.n(400, 20000), [&](uint64_t) { history(c); }); }
VH_CASE(optional_storage, 1) { c.iterate(c.n(300, 10000), [&](uint64_t) { optional(c); }); }

VH_MAIN()
