// C11: UpdateQueue: exactly-once, per-producer order, offline checked over the log of executed calls.
#include "vh_pc.h"
#include "Awl/UpdateQueue.h"

#include <thread>
#include <algorithm>
#include <condition_variable>

using vh::Case;

namespace
{
    struct Token // captured argument with a ledger
    {
        static inline std::atomic<int64_t> live{ 0 }; static inline std::atomic<int> throw_next{ 0 };
        std::string text; uint64_t check;
        Token(uint64_t p, uint64_t s) : text(vh::fmt("producer %llu message %llu (a heap string)", (unsigned long long)p, (unsigned long long)s)), check(vh::hash_str(text)) { ++live; }
        Token(const Token& o) : text(o.text), check(o.check) { if (throw_next.load(std::memory_order_relaxed) > 0 && --throw_next == 0) throw std::bad_alloc(); ++live; }
        ~Token() { check = 0; --live; }
        bool intact() const { return check == vh::hash_str(text); }
    };
    struct Rec { uint32_t producer; uint32_t seq; uint32_t batch; bool intact; };
    struct Ctx { int magic; uint32_t batch; std::vector<Rec>* log; };
    using Queue = awl::UpdateQueue<Ctx&, int>;
}

// Producers and one consumer run freely; the consumer stops after the producers and drains.
VH_CASE(stress, 8)
{
    c.iterate(c.n(240, 6000), [&](uint64_t)
    {
        vh::g_pc.seed = c.rng.next() | 1; vh::g_pc.every = static_cast<unsigned>(c.rng.pick({ 0, 4, 15, 50 }));
        const int64_t live0 = Token::live;
        const unsigned np = 1 + c.rng.below(4), per = static_cast<unsigned>(c.rng.pick({ 1, 7, 60, 250 }));
        const bool clears = c.rng.chance(1, 5), reentrant = c.rng.chance(1, 2), jit = c.rng.flip();
        std::vector<Rec> log; std::vector<std::atomic<uint32_t>> posted(np + 1); for (auto& p : posted) p = 0;
        std::atomic<unsigned> done{ 0 }; std::atomic<bool> go{ false }; std::atomic<uint64_t> early{ 0 }, wrong_args{ 0 };
        uint64_t cleared = 0; uint32_t batches = 0;
        {
            Queue q; const uint32_t self = np; uint32_t self_seq = 0; // calls posted from inside calls
            std::vector<std::thread> th; const uint64_t base = c.rng.next();
            auto post = [&](uint32_t p, uint32_t s, bool again)
            {
                auto tok = std::make_unique<Token>(p, s);
                posted[p].store(s + 1); // happens before Push: executing it earlier than this is impossible unless invented
                Token copy(*tok);
                q.Push([p, s, copy, again, &q, &early, &posted, &wrong_args, &self_seq, self](Ctx& x, int arg)
                {
                    if (x.magic != 0x5afe || arg != 0x1234) ++wrong_args;
                    if (posted[p].load() <= s) ++early;
                    x.log->push_back({ p, s, x.batch, copy.intact() });
                    if (again)
                    {
                        uint32_t s2 = self_seq++; posted[self].store(s2 + 1); Token t2(self, s2);
                        q.Push([self, s2, t2](Ctx& y, int) { y.log->push_back({ self, s2, y.batch, t2.intact() }); });
                    }
                });
            };
            for (unsigned p = 0; p < np; ++p) th.emplace_back([&, p]() { vh::Rng r(base + p); while (!go) sched_yield(); for (uint32_t s = 0; s < per; ++s) { if (jit) vh::jitter(r); post(p, s, reentrant && r.chance(1, 4)); } ++done; });
            vh::Rng r(base + 99); go = true; Ctx ctx{ 0x5afe, 0, &log };
            auto apply = [&]() { const size_t n = log.size(); q.ApplyUpdates(ctx, 0x1234); if (log.size() != n) { ++ctx.batch; ++batches; } };
            while (done < np) { if (jit) vh::jitter(r); apply(); if (clears && r.chance(1, 20)) { q.ClearPending(); ++cleared; } }
            for (auto& t : th) t.join();
            vh::g_pc.every = 0;
            apply(); const size_t after_first = log.size(); apply(); apply(); // a reentrant call posts for the next batch
            (void)after_first;
        }
        VH_CHECK(c, early == 0, "before-posted", "%llu calls ran before they were posted", (unsigned long long)early.load());
        VH_CHECK(c, wrong_args == 0, "arguments", "%llu calls got wrong arguments", (unsigned long long)wrong_args.load());
        std::vector<uint32_t> next(np + 1, 0); std::vector<uint64_t> ran(np + 1, 0); uint64_t h = np;
        for (size_t i = 0; i < log.size(); ++i)
        {
            const Rec& e = log[i];
            VH_CHECK(c, e.producer <= np && e.intact, "torn", "call %zu has a damaged captured argument", i);
            if (clears) VH_CHECK(c, e.seq >= next[e.producer], "order", "producer %u: call %u ran after call %u", e.producer, e.seq, next[e.producer]);
            else VH_CHECK(c, e.seq == next[e.producer], "exactly-once", "producer %u: call %u ran where call %u was expected", e.producer, e.seq, next[e.producer]);
            next[e.producer] = e.seq + 1; ++ran[e.producer]; if (i < 4000) h = vh::mix(h ^ (e.producer + 1) ^ (static_cast<uint64_t>(e.batch) << 8));
        }
        if (!cleared) { for (unsigned p = 0; p < np; ++p) VH_CHECK(c, next[p] == per, "lost", "producer %u: %u calls ran of %u", p, next[p], per); VH_CHECK(c, next[np] == posted[np], "lost", "calls posted from calls: %u ran of %u", next[np], posted[np].load()); }
        VH_CHECK(c, Token::live == live0, "captured", "%lld captured arguments not destroyed", (long long)(Token::live - live0));
        c.eval(log.size()); c.count("calls", log.size()); c.count("injected delays", vh::g_pc.delays.exchange(0)); c.count("batches", batches); c.count("clears", cleared); c.distinct(h);
        if (c.want_sample()) c.sample(vh::fmt("%u producers x %u calls ran in %u batches", np, per, batches));
    });
}

// Posting must not wait for a call that is being executed.
VH_CASE(no_blocking, 1)
{
    c.iterate(c.n(40, 400), [&](uint64_t)
    {
        Queue q; std::vector<Rec> log; Ctx ctx{ 0x5afe, 0, &log }; std::atomic<int> stage{ 0 }; bool pushed_meanwhile = false;
        std::thread other([&]() { while (stage != 1) sched_yield(); q.Push([](Ctx& x, int) { x.log->push_back({ 0, 1, 0, true }); }); stage = 2; });
        q.Push([&](Ctx&, int) { stage = 1; const double t = vh::now_s(); while (stage != 2 && vh::now_s() - t < 20) sched_yield(); pushed_meanwhile = stage == 2; });
        q.ApplyUpdates(ctx, 0x1234); other.join(); q.ApplyUpdates(ctx, 0x1234);
        VH_CHECK(c, pushed_meanwhile, "post-blocked", "posting waited for a running call");
        VH_CHECK(c, log.size() == 1, "lost", "call posted during a batch ran %zu times", log.size());
        c.eval(); c.distinct(c.cur_iter);
    });
}

// Single-threaded histories with an exact model: throwing calls, copies that throw, clears and reuse of blocks.
VH_CASE(histories, 4)
{
    c.iterate(c.n(2000, 40000), [&](uint64_t)
    {
        const int64_t live0 = Token::live;
        {
            Queue q; std::vector<uint32_t> pending, ran, expect; uint32_t seq = 0; std::vector<Rec> log; Ctx ctx{ 0x5afe, 0, &log };
            for (int op = 0; op < 40; ++op)
            {
                const char* what = "?"; log.clear(); expect.clear();
                switch (c.rng.below(8))
                {
                case 0: case 1: case 2: { what = "push"; const uint32_t s = seq++; Token t(0, s); q.Push([s, t](Ctx& x, int) { x.log->push_back({ 0, s, 0, t.intact() }); }); pending.push_back(s); break; }
                case 3: { what = "push a call that throws"; const uint32_t s = seq++ | 0x80000000u; Token t(0, s); q.Push([s, t](Ctx& x, int) { x.log->push_back({ 0, s, 0, t.intact() }); throw std::runtime_error("from a call"); }); pending.push_back(s); break; }
                case 4: { what = "push whose copy throws"; const uint32_t s = seq++; Token t(0, s); const int64_t before = Token::live; bool thrown = false; { std::function<void(Ctx&, int)> f = [s, t](Ctx& x, int) { x.log->push_back({ 0, s, 0, t.intact() }); }; Token::throw_next = 1; try { q.Push(f); } catch (const std::bad_alloc&) { thrown = true; } const bool consumed = Token::throw_next == 0; Token::throw_next = 0; VH_CHECK(c, thrown == consumed, "push-throw", "exception from copying the call was lost"); } VH_CHECK(c, Token::live == before || !thrown, "captured", "failed push leaves a captured argument"); if (!thrown) pending.push_back(s); break; }
                case 5: { what = "clear"; if (c.rng.chance(1, 3)) { q.ClearPending(); pending.clear(); } break; }
                default: { what = "apply"; bool thrown = false; for (uint32_t s : pending) { expect.push_back(s); if (s & 0x80000000u) { thrown = true; break; } } pending.clear(); bool got = false; try { q.ApplyUpdates(ctx, 7); } catch (const std::runtime_error&) { got = true; } VH_CHECK(c, got == thrown, "exception", "exception from a call: got %d, expected %d", got, thrown); break; }
                }
                VH_CHECK(c, log.size() == expect.size(), "exactly-once", "%s: %zu calls ran, expected %zu", what, log.size(), expect.size());
                for (size_t i = 0; i < log.size(); ++i) VH_CHECK(c, log[i].seq == expect[i] && log[i].intact, "exactly-once", "%s: call %u ran, expected %u", what, log[i].seq, expect[i]);
                c.eval(); c.count(what); c.distinct(vh::mix(vh::hash_str(what) ^ pending.size() * 31 ^ expect.size()) ^ c.cur_iter % 1000);
            }
            try { q.ApplyUpdates(ctx, 7); } catch (const std::runtime_error&) {}
        }
        VH_CHECK(c, Token::live == live0, "captured", "%lld captured arguments not destroyed", (long long)(Token::live - live0));
    });
}

// Arguments given by value: every call of a batch gets them whole, whatever the calls before it did to theirs.
VH_CASE(by_value, 2)
{
    c.iterate(c.n(1200, 20000), [&](uint64_t)
    {
        awl::UpdateQueue<std::string, std::shared_ptr<int>, std::vector<int>> q; unsigned ran = 0, pending = 0; std::string bad;
        for (int op = 0; op < 12; ++op)
        {
            const std::string text = vh::fmt("a text long enough for the heap, number %d", op); auto number = std::make_shared<int>(op); std::vector<int> list(static_cast<size_t>(op), op);
            for (size_t i = c.rng.below(6); i; --i) { ++pending; q.Push([&, i](std::string s, std::shared_ptr<int> n, std::vector<int> v) { ++ran; if (s != text || n != number || v != list) bad = vh::fmt("call %zu from the end got other arguments", i); s.clear(); n.reset(); v.push_back(1); std::string taken = std::move(s); }); }
            ran = 0; std::string passed = text; auto passed_number = number; auto passed_list = list;
            if (c.rng.flip()) q.ApplyUpdates(passed, passed_number, passed_list); else q.ApplyUpdates(std::move(passed), std::move(passed_number), std::move(passed_list));
            VH_CHECK(c, ran == pending, "exactly-once", "%u calls ran of %u", ran, pending);
            VH_CHECK(c, bad.empty(), "arguments", "%s", bad.c_str());
            c.eval(pending); c.count("calls", pending); c.distinct(vh::mix(static_cast<uint64_t>(op) * 8 + pending)); pending = 0;
        }
    });
}

// More calls pending at once than any narrow counter holds, posted by several threads before the first batch.
VH_CASE(large, 1)
{
    c.iterate(c.n(2, 20), [&](uint64_t)
    {
        const int64_t live0 = Token::live; const unsigned np = 3, per = 30000 + static_cast<unsigned>(c.rng.below(20000)); std::vector<Rec> log; Ctx ctx{ 0x5afe, 0, &log };
        {
            Queue q;
            for (int round = 0; round < 2; ++round)
            {
                log.clear(); std::vector<std::thread> th;
                for (unsigned p = 0; p < np; ++p) th.emplace_back([&, p]() { for (uint32_t s = 0; s < per; ++s) { Token t(p, s); q.Push([p, s, t](Ctx& x, int) { x.log->push_back({ p, s, 0, t.intact() }); }); } });
                for (auto& t : th) t.join();
                q.ApplyUpdates(ctx, 0x1234);
                std::vector<uint32_t> next(np, 0);
                for (auto& e : log) { VH_CHECK(c, e.intact && e.seq == next[e.producer], "exactly-once", "producer %u: call %u ran where call %u was expected", e.producer, e.seq, next[e.producer]); ++next[e.producer]; }
                VH_CHECK(c, log.size() == size_t(np) * per, "lost", "%zu calls ran of %zu", log.size(), size_t(np) * per);
                q.ApplyUpdates(ctx, 0x1234); VH_CHECK(c, log.size() == size_t(np) * per, "exactly-once", "an empty batch ran %zu calls", log.size() - size_t(np) * per);
                c.eval(log.size()); c.count("calls", log.size()); c.distinct(log.size() * 2 + static_cast<unsigned>(round));
            }
        }
        VH_CHECK(c, Token::live == live0, "captured", "%lld captured arguments not destroyed", (long long)(Token::live - live0));
    });
}

VH_MAIN()
