// C38: a value saved while other threads modify it under the mutex given to the save.
#include "vh_pc.h"
#include "Awl/Io/AtomicStorage.h"
#include "Awl/Io/OptionalStorage.h"
#include "Awl/Io/HeaderedSerializable.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/VectorStream.h"
#include "Awl/OptionalMutex.h"
#include <errno.h>
#include <fstream>
#include <list>
#include <map>
#include <mutex>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
using vh::Case; using vh::fmt; namespace io = awl::io;

namespace
{
    struct Log : awl::Logger { std::atomic<uint64_t> warnings{ 0 }; void log(awl::LogLevel l, awl::LogString) override { if (static_cast<int>(l) >= static_cast<int>(awl::LogLevel::Warning)) ++warnings; } };

    // every part of a value is derived from its number
    struct Item { int a = 0; std::string s; AWL_REFLECT(a, s) bool operator==(const Item&) const = default; };
    struct V
    {
        uint64_t gen = 0; std::vector<uint64_t> words; Item item; std::optional<Item> opt; std::map<std::string, int> m; std::variant<int, std::string, Item> v; std::vector<Item> items; std::string text; uint64_t last = 0;
        AWL_REFLECT(gen, words, item, opt, m, v, items, text, last)
        bool operator==(const V&) const = default;
    };
    Item make_item(uint64_t g) { return { static_cast<int>(g % 100003), std::string(g % 40, static_cast<char>('a' + g % 26)) }; }
    V make(uint64_t gen, size_t size)
    {
        V x; const uint64_t h = vh::mix(gen + 5); x.gen = gen; for (size_t i = 0; i < size + h % 5; ++i) x.words.push_back(vh::mix(gen * 1000003 + i)); x.item = make_item(h >> 8); if (h & 1) x.opt = make_item(h >> 9); for (size_t i = 0; i < h % 4; ++i) x.m["key" + std::to_string(gen * 10 + i)] = static_cast<int>(h >> 33); switch (h % 3) { case 0: x.v = static_cast<int>(h >> 34); break; case 1: x.v = std::string(h % 50, 'v'); break; default: x.v = make_item(h >> 10); }
        for (size_t i = 0; i < h % 6; ++i) x.items.push_back(make_item(h >> i)); x.text = std::string(size + h % 70, static_cast<char>('A' + gen % 26)); x.last = vh::mix(gen); return x;
    }
    std::string show(const V& x) { return fmt("value %llu (%zu words, %zu letters, end of %s)", (unsigned long long)x.gen, x.words.size(), x.text.size(), x.last == vh::mix(x.gen) ? "the same" : "another"); }

    // the state of the thread that saves
    struct Me
    {
        bool saver = false; int holding = 0; uint64_t ops = 0, io_locked = 0, wrong_unlock = 0, changed_inside = 0, locks = 0; std::vector<uint64_t> gens; int fail_in = -1, fail_kind = 0; bool gate = false, blocked = false; std::atomic<uint64_t>* progress = nullptr; std::atomic<bool>* stop = nullptr; vh::Rng* rng = nullptr; unsigned nap = 0;
        void start() { ops = io_locked = wrong_unlock = changed_inside = locks = 0; gens.clear(); fail_in = -1; gate = blocked = false; }
    };
    thread_local Me me;
    void pause(vh::Rng* r, unsigned percent) { if (r && r->below(100) < percent) { if (r->flip()) sched_yield(); else { timespec t{ 0, static_cast<long>(r->below(60000)) }; nanosleep(&t, nullptr); } } }

    struct MonMutex
    {
        std::mutex m; const V* value = nullptr; std::atomic<int> owners{ 0 }, broken{ 0 };
        void lock() { pause(me.rng, me.nap); m.lock(); if (owners.fetch_add(1) != 0) ++broken; ++me.holding; if (me.saver) { ++me.locks; me.gens.push_back(value->gen); } }
        void unlock() { if (me.holding != 1) { ++me.wrong_unlock; ++broken; return; } if (me.saver && me.gens.back() != value->gen) ++me.changed_inside; --me.holding; owners.fetch_sub(1); m.unlock(); pause(me.rng, me.nap); }
    };
    // what every operation with a file passes through; non-zero is an error
    int file_op(bool writing)
    {
        if (!me.saver) return 0; ++me.ops; if (me.holding) ++me.io_locked; pause(me.rng, me.nap);
        if (me.gate && !me.holding) { me.gate = false; const uint64_t p = me.progress->load(); const auto t0 = std::chrono::steady_clock::now(); while (me.progress->load() < p + 1 && !me.stop->load()) { if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(20)) { me.blocked = true; break; } sched_yield(); } }
        if (me.fail_in >= 0 && me.fail_in-- == 0) return writing && me.fail_kind == 2 ? ENOSPC : EIO; return 0;
    }
}
extern "C"
{
    ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); off_t __real_lseek(int, off_t, int); int __real_ftruncate(int, off_t); int __real_fsync(int); int __real_fstat(int, struct stat*);
    ssize_t __wrap_read(int f, void* b, size_t n) { if (int e = file_op(false)) { errno = e; return -1; } return __real_read(f, b, n); }
    ssize_t __wrap_write(int f, const void* b, size_t n) { if (int e = file_op(true)) { errno = e; return -1; } return __real_write(f, b, n); }
    off_t __wrap_lseek(int f, off_t o, int w) { if (int e = file_op(false)) { errno = e; return -1; } return __real_lseek(f, o, w); }
    int __wrap_ftruncate(int f, off_t o) { if (int e = file_op(true)) { errno = e; return -1; } return __real_ftruncate(f, o); }
    int __wrap_fsync(int f) { if (int e = file_op(true)) { errno = e; return -1; } return me.saver ? 0 : __real_fsync(f); }
    int __wrap_fdatasync(int) { if (int e = file_op(true)) { errno = e; return -1; } return 0; }
    int __wrap_fstat(int f, struct stat* s) { if (int e = file_op(false)) { errno = e; return -1; } return __real_fstat(f, s); }
}

namespace
{
    std::unique_ptr<io::Serializable<>> serializer(V& v, int form, size_t block) { if (form == 0) return std::make_unique<io::EuphoricallySerializable<V>>(v, block); return std::make_unique<io::HeaderedSerializable<V>>(io::Header{ "snapshot", 7 }, v, block); }
    std::string bytes_of(const std::string& f) { std::ifstream i(f, std::ios::binary); return { std::istreambuf_iterator<char>(i), {} }; }
    // what a saving thread has to say is gathered and reported by the main thread
    struct Report { std::string key, text; };
    struct Saver
    {
        std::string dir; int id = 0, form = 0; size_t block = 64, size = 0, saves = 0; bool optional = false, faults = false; V* value = nullptr; MonMutex* mon = nullptr; std::atomic<uint64_t>* progress = nullptr; std::atomic<bool>* stop = nullptr; uint64_t seed = 0; unsigned nap = 0;
        std::vector<Report> bad; uint64_t done = 0, failed = 0, retried = 0, moved = 0, ops = 0, gated = 0, states = 0; std::vector<uint64_t> gens;
        std::string master() const { return dir + fmt("/m%d", id); } std::string backup() const { return dir + fmt("/b%d", id); }
        void say(const char* key, std::string text) { if (bad.size() < 3) bad.push_back({ key, std::move(text) }); }
        template <class Storage> void work()
        {
            vh::Rng r(seed); me = Me{}; me.rng = &r; me.nap = nap; me.progress = progress; me.stop = stop; Log log; auto s = std::make_unique<Storage>(log, master(), backup()); auto ser = serializer(*value, form, block); awl::MutexWrapper<MonMutex> wrapper(*mon); std::optional<uint64_t> committed; uint64_t previous = 0; std::vector<uint64_t> tried;
            for (size_t k = 0; k < saves; ++k)
            {
                me.start(); me.saver = true; me.gate = r.chance(1, 3); gated += me.gate; if (faults && r.chance(1, 3)) { me.fail_in = static_cast<int>(r.below(30)); me.fail_kind = static_cast<int>(r.below(3)); } const bool may_fail = me.fail_in >= 0; const uint64_t warned = log.warnings; bool threw = false;
                try { s->Save(*ser, &wrapper); } catch (const io::IoException&) { threw = true; } catch (const std::exception& e) { me.saver = false; say("exception", std::string("a save throws ") + e.what()); return; } me.saver = false;
                const bool broke = threw || log.warnings != warned; const uint64_t g = me.gens.empty() ? 0 : me.gens.back(); ops += me.ops;
                if (me.holding) { say("left_locked", "a save leaves the mutex locked"); mon->unlock(); return; } if (me.locks == 0) { say("not_locked", "a save does not lock the mutex"); return; } if (me.wrong_unlock) { say("unlock", "a save unlocks a mutex that it does not hold"); return; } if (me.changed_inside) { say("changed_inside", "the value changes while the save holds the mutex"); return; }
                if (me.io_locked) { say("io_locked", fmt("%llu of %llu file operations while the mutex is held", (unsigned long long)me.io_locked, (unsigned long long)me.ops)); return; } if (me.blocked) { say("blocked", "no thread can modify the value while a save performs file operations"); return; } if (broke && !may_fail) { say("failed", "a save fails without a fault"); return; }
                if (!broke && me.ops == 0) { say("no_io", "a save performs no file operations"); return; } if (me.gens.front() != g) moved++;
                if (!broke) tried.clear(); tried.insert(tried.end(), me.gens.begin(), me.gens.end()); if (broke && r.flip() && k + 1 < saves) { ++failed; ++retried; ++done; continue; } // the same storage is used again after a failed save
                auto allowed = [&](const V& x) { if (committed && broke && x == make(*committed, size)) return true; for (uint64_t a : tried) if (x == make(a, size)) return true; return false; };
                std::string now = "the number under the mutex was"; for (uint64_t a : tried) now += fmt(" %llu", (unsigned long long)a);
                if (broke) { ++failed; s.reset(); s = std::make_unique<Storage>(log, master(), backup()); }
                {
                    V got; auto in = serializer(got, form, block); bool ok = false; std::string error; try { if (broke) ok = s->Load(*in); else { Storage other(log, master(), backup()); ok = other.Load(*in); } } catch (const io::IoException& e) { error = awl::ToAString(e.What()); }
                    if (!error.empty()) { say("load_error", "what is saved is not loaded: " + error); return; } if (!ok && (!broke || committed)) { say("lost", fmt("nothing is loaded after save %zu, which %s", k, broke ? "failed" : "succeeded")); return; }
                    if (ok && !allowed(got)) { say("state", show(got) + " is loaded, " + now); return; } if (ok && got.gen < previous) { say("order", fmt("a save stores state %llu after state %llu", (unsigned long long)got.gen, (unsigned long long)previous)); return; }
                    if (ok) { previous = got.gen; committed = got.gen; gens.push_back(got.gen); tried.clear(); }
                }
                ++done;
            }
            // a value without snapshots can't be saved with a mutex; nothing is lost by trying
            if (r.chance(1, 3)) { V copy = make(3, 4); io::PlainSerializable<V, io::HashInputStream<awl::crypto::Crc64>, io::HashOutputStream<awl::crypto::Crc64>> plain(copy); io::HashingSerializable<> hashing(plain); const std::string before = bytes_of(master()); bool failed_ = false; me.start(); me.saver = true; try { s->Save(hashing, &wrapper); } catch (const std::exception&) { failed_ = true; } me.saver = false; if (!failed_ || me.holding || before != bytes_of(master())) say("not_snapshotable", fmt("saving a value that has no snapshots: %s, the mutex is %s", failed_ ? "fails" : "succeeds", me.holding ? "locked" : "free")); if (me.holding) mon->unlock(); }
        }
    };
}

VH_CASE(saving, 6)
{
    c.iterate(c.n(150, 3000), [&](uint64_t)
    {
        vh::Rng& r = c.rng; vh::g_pc.seed = r.next() | 1; vh::g_pc.every = static_cast<unsigned>(r.pick({ 0, 0, 200, 1000 })); const size_t size = r.pick({ 0, 3, 20, 300 }); struct Group { V value; MonMutex mon; std::atomic<uint64_t> progress{ 0 }; std::atomic<int> torn{ 0 }; }; const size_t ng = 1 + r.below(2); Group groups[2]; for (auto& g : groups) { g.value = make(1, size); g.mon.value = &g.value; } std::atomic<bool> stop{ false };
        std::list<Saver> savers; const size_t ns = 1 + r.below(3), nm = 1 + r.below(3);
        for (size_t i = 0; i < ns; ++i) { savers.emplace_back(); Saver& s = savers.back(); s.dir = c.tmp; s.id = static_cast<int>(i); ::unlink(s.master().c_str()); ::unlink(s.backup().c_str()); s.form = static_cast<int>(r.below(2)); s.block = r.pick({ size_t(9), size_t(64), size_t(100), io::defaultBlockSize }); s.size = size; s.saves = 3 + r.below(10); s.optional = r.chance(1, 3); s.faults = r.chance(1, 2); Group& g = groups[i % ng]; s.value = &g.value; s.mon = &g.mon; s.progress = &g.progress; s.stop = &stop; s.seed = r.next(); s.nap = r.pick({ 0u, 10u, 50u }); }
        std::vector<std::thread> mods, th; std::atomic<bool> go{ false }; std::atomic<size_t> left{ ns };
        for (size_t i = 0; i < nm * ng; ++i) mods.emplace_back([&, &g = groups[i % ng], seed = r.next(), nap = r.pick({ 5u, 30u }), quick = r.flip()]
        {
            vh::Rng q(seed); me = Me{}; me.rng = &q; me.nap = nap; V& value = g.value; awl::OptionalMutex<MonMutex> optional(&g.mon); while (!go) sched_yield();
            while (!stop)
            {
                { std::lock_guard<awl::OptionalMutex<MonMutex>> lock(optional); const size_t steps = 1 + q.below(3); for (size_t k = 0; k < steps; ++k) { if (value.last != vh::mix(value.gen)) ++g.torn; V next = make(value.gen + 1, size); value.gen = next.gen; pause(&q, 20); value.words = std::move(next.words); value.item = std::move(next.item); pause(&q, 20); value.opt = std::move(next.opt); value.m = std::move(next.m); value.v = std::move(next.v); pause(&q, 20); value.items = std::move(next.items); value.text = std::move(next.text); value.last = next.last; } }
                ++g.progress; if (!quick || q.chance(1, 4)) { timespec t{ 0, static_cast<long>(q.below(80000)) }; nanosleep(&t, nullptr); }
            }
        });
        for (auto& s : savers) th.emplace_back([&, &s = s] { while (!go) sched_yield(); if (s.optional) s.work<io::OptionalStorage>(); else s.work<io::AtomicStorage>(); me = Me{}; --left; });
        go = true; for (auto& t : th) t.join(); stop = true; for (auto& t : mods) t.join();
        for (auto& s : savers) { c.eval(s.done); c.count("saves", s.done); c.count("saves with a fault", s.failed); c.count("saves repeated after a fault", s.retried); c.count("file operations", s.ops); c.count("saves during which a modification was awaited", s.gated); c.count("saves that locked again", s.moved); std::set<uint64_t> g(s.gens.begin(), s.gens.end()); c.count("distinct states stored", g.size()); for (auto& b : s.bad) VH_CHECK(c, false, b.key.c_str(), "%s (%s, %zu modifying threads)", b.text.c_str(), s.form ? "headered" : "euphoric", nm); uint64_t h = s.id; for (uint64_t x : s.gens) h = vh::mix(h ^ x); c.distinct(h); }
        for (size_t k = 0; k < ng; ++k) { Group& g = groups[k]; VH_CHECK(c, g.torn == 0 && g.mon.broken == 0, "mutex", "the mutex does not exclude: %d torn values, %d misuses", g.torn.load(), g.mon.broken.load()); VH_CHECK(c, g.value == make(g.value.gen, size), "modified", "the save modifies the value"); c.count("modifications", g.progress); if (c.want_sample()) c.sample(fmt("%zu savers, %zu values, each with %zu modifying threads, %llu modifications", ns, ng, nm, (unsigned long long)g.progress.load())); }
        V& value = groups[0].value; MonMutex& mon = groups[0].mon;
        // a save with a mutex stores the same bytes as one without
        { const int form = static_cast<int>(r.below(2)); const size_t block = r.pick({ size_t(9), size_t(64), io::defaultBlockSize }); Log log; auto ser = serializer(value, form, block); awl::MutexWrapper<MonMutex> w(mon); std::string b[2]; for (int k = 0; k < 2; ++k) { const std::string m = c.tmp + "/same", bk = c.tmp + "/same_b"; { std::ofstream f(m, std::ios::binary | std::ios::trunc); if (r.flip()) f << std::string(r.below(5000), 'o'); } ::unlink(bk.c_str()); { io::AtomicStorage s(log, m, bk); s.Save(*ser, k ? &w : nullptr); } b[k] = bytes_of(m); VH_CHECK(c, bytes_of(bk).empty(), "backup_left", "the backup is not empty after a save"); }
          std::vector<uint8_t> v; struct Vec : io::SequentialOutputStream { std::vector<uint8_t>& v; Vec(std::vector<uint8_t>& x) : v(x) {} void Write(const uint8_t* p, size_t n) override { v.insert(v.end(), p, p + n); } } out(v); ser->Write(out); VH_CHECK(c, b[0] == b[1] && b[0] == std::string(v.begin(), v.end()), "bytes", "with a mutex %zu bytes are stored, without %zu, written %zu", b[1].size(), b[0].size(), v.size()); c.eval(); c.count("byte comparisons"); }
    });
}

// Mutexes that are there or not.
VH_CASE(mutexes, 1)
{
    c.iterate(c.n(100, 2000), [&](uint64_t)
    {
        struct Count { std::mutex m; int locks = 0, unlocks = 0; void lock() { m.lock(); ++locks; } void unlock() { ++unlocks; m.unlock(); } } count; awl::OptionalMutex<Count> some(&count), none(nullptr); awl::MutexWrapper<Count> wrapper(count); awl::IMutex& any = wrapper; awl::OptionalMutex<awl::IMutex> both(&any); awl::fake_mutex fake; uint64_t shared = 0; const int per = 20 + static_cast<int>(c.rng.below(200)); std::vector<std::thread> t; std::atomic<bool> go{ false };
        for (int k = 0; k < 3; ++k) t.emplace_back([&, k] { while (!go) sched_yield(); for (int i = 0; i < per; ++i) { if (k == 0) { std::lock_guard l(some); ++shared; } else if (k == 1) { std::unique_lock l(any); ++shared; } else { std::lock_guard l(both); ++shared; } { std::lock_guard f(fake); std::lock_guard n(none); std::lock_guard n2(none); } } });
        go = true; for (auto& x : t) x.join(); VH_CHECK(c, shared == 3u * per && count.locks == 3 * per && count.unlocks == 3 * per, "exclusion", "%llu increments of %d, %d locks, %d unlocks", (unsigned long long)shared, 3 * per, count.locks, count.unlocks); c.eval(); c.count("locks", 3 * per); c.distinct(per);
    });
    c.sample("3 threads");
}
VH_MAIN()
