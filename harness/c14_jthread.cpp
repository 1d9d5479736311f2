// C14: jthread ownership and interruptible condition variable: join/stop/lock-held/no-missed-wakeup monitors under
// schedule fuzzing at every basic block and injected delays around the user's lock.
#include "vh_pc.h"
#include "vh_wall.h"
#include "jthread.hpp"
#include "condition_variable_any2.hpp"

#include <deque>
#include <algorithm>

using vh::Case;

namespace
{
    const double PROMPT = 8.0;
    using Clock = std::chrono::steady_clock;

    void setup(Case& c)
    {
        vh::g_pc.seed = c.rng.next() | 1;
        vh::g_pc.every = static_cast<unsigned>(c.rng.pick({ 0, 3, 10, 30 }));
    }

    struct Arg // argument copies are counted
    {
        static inline std::atomic<int> live{ 0 };
        int v; std::unique_ptr<int> h;
        explicit Arg(int x) : v(x), h(new int(x)) { ++live; }
        Arg(const Arg& o) : v(o.v), h(new int(o.v)) { ++live; }
        Arg(Arg&& o) : v(o.v), h(std::move(o.h)) { ++live; }
        ~Arg() { --live; }
    };

    struct Thr // what a thread saw, checked by its owner
    {
        std::atomic<bool> started{ false }, stopped{ false }, ended{ false }, release{ false }; std::thread::id id; std::stop_token token; int arg = 0;
    };

    struct Obj
    {
        int sum = 0; void plain(int a) { sum += a; } void stoppable(std::stop_token t, int a) { sum += a * 10; (void)t; }
    };
}

VH_CASE(jthread_histories, 8)
{
    c.iterate(c.n(1200, 25000), [&](uint64_t)
    {
        setup(c); const int live0 = Arg::live;
        struct Slot { std::jthread t; std::shared_ptr<Thr> m; bool detached = false; };
        std::vector<std::unique_ptr<Slot>> slots; for (int i = 0; i < 3; ++i) slots.push_back(std::make_unique<Slot>());
        std::vector<std::shared_ptr<Thr>> loose; // detached threads
        auto start = [&](Slot& s)
        {
            auto m = std::make_shared<Thr>(); const unsigned d = static_cast<unsigned>(c.rng.below(120)); const int a = static_cast<int>(c.rng.below(1000)); Arg arg(a);
            const int kind = static_cast<int>(c.rng.below(3)); std::jthread n;
            auto body = [d](std::shared_ptr<Thr> m, int v, std::stop_token* tok) { m->id = std::this_thread::get_id(); m->arg = v; if (tok) m->token = *tok; m->started = true; if (d & 1) vh::nap_us(d); if (tok) { const double t0 = vh::now_s(); while (!tok->stop_requested() && !m->release && vh::now_s() - t0 < 30) vh::nap_us(20); m->stopped = tok->stop_requested(); } vh::nap_us(d); m->ended = true; };
            if (kind == 0) n = std::jthread([m, body](std::stop_token t, Arg x) { body(m, x.h ? *x.h : -1, &t); }, arg);
            else if (kind == 1) n = std::jthread([m, body](const Arg& x) { body(m, x.h ? *x.h : -1, nullptr); }, std::move(arg));
            else { auto u = std::make_unique<int>(a); n = std::jthread([m, body](std::stop_token t, std::unique_ptr<int> x) { body(m, *x, &t); }, std::move(u)); }
            VH_CHECK(c, n.joinable() && n.get_id() != std::thread::id(), "joinable", "a started thread is not joinable");
            while (!m->started) sched_yield();
            VH_CHECK(c, m->arg == a, "argument", "the thread got argument %d instead of %d", m->arg, a);
            VH_CHECK(c, m->id == n.get_id(), "id", "get_id differs from the thread's own");
            if (kind != 1) { VH_CHECK(c, m->token == n.get_stop_token() && m->token.stop_possible(), "token", "the thread's token is not linked to its owner"); }
            s.t = std::move(n); s.m = m; s.detached = false; return m;
        };
        auto gone = [&](std::shared_ptr<Thr> m, const char* w) // the owner has given the thread up: it must have been stopped and joined
        {
            if (!m) return;
            VH_CHECK(c, m->ended, "not-joined", "%s: the thread was still running", w);
            if (m->token.stop_possible()) VH_CHECK(c, m->token.stop_requested() , "not-stopped", "%s: the thread was not asked to stop", w);
        };
        const char* what = "?"; uint64_t h = 0;
        for (int op = 0; op < 10; ++op)
        {
            size_t a = c.rng.below(slots.size()), b = c.rng.below(slots.size()); Slot& s = *slots[a]; Slot& o = *slots[b];
            auto old = s.m && !s.detached && s.t.joinable() ? s.m : nullptr;
            switch (c.rng.below(10))
            {
            case 0: case 1: what = "start (replacing by move assignment)"; start(s); gone(old, what); break;
            case 2: what = "destroy"; slots[a] = std::make_unique<Slot>(); gone(old, what); break;
            case 3: what = "move-assign"; if (a == b) break; { s.t = std::move(o.t); gone(old, what); s.m = o.m; s.detached = o.detached; o.m = nullptr; VH_CHECK(c, !o.t.joinable(), "moved-from", "moved-from thread is joinable"); } break;
            case 4: what = "swap"; s.t.swap(o.t); std::swap(s.m, o.m); std::swap(s.detached, o.detached); break;
            case 5: what = "request stop"; { const bool can = s.t.get_stop_source().stop_possible(); const bool already = s.t.get_stop_token().stop_requested(); const bool r = s.t.request_stop(); VH_CHECK(c, r == (can && !already), "request", "request_stop returned %d", r); if (can) VH_CHECK(c, s.t.get_stop_token().stop_requested(), "request", "stop is not requested"); } break;
            case 6: what = "join"; if (s.t.joinable()) { const bool req = c.rng.flip(); if (req) s.t.request_stop(); else s.m->release = true; const bool was = s.t.get_stop_token().stop_requested(); s.t.join(); VH_CHECK(c, s.m->ended && !s.t.joinable(), "join", "join returned before the thread ended"); VH_CHECK(c, s.t.get_stop_token().stop_requested() == was, "join", "join changed the stop state"); s.m = nullptr; } else { bool thrown = false; try { s.t.join(); } catch (const std::system_error&) { thrown = true; } VH_CHECK(c, thrown, "join", "joining no thread did not throw"); } break;
            case 7: what = "detach"; if (s.t.joinable() && c.rng.chance(1, 2)) { s.t.detach(); VH_CHECK(c, !s.t.joinable(), "detach", "detached thread is joinable"); auto m = s.m; loose.push_back(m); s.m = nullptr; s.detached = true; std::stop_token t = s.t.get_stop_token(); if (!t.stop_requested()) { slots[a] = std::make_unique<Slot>(); VH_CHECK(c, !t.stop_requested(), "detach", "destroying the owner of a detached thread requested stop"); } } break;
            case 8: what = "move-construct"; { std::jthread n(std::move(s.t)); VH_CHECK(c, !s.t.joinable() && s.t.get_id() == std::thread::id(), "moved-from", "moved-from thread is joinable"); VH_CHECK(c, n.joinable() == (old != nullptr), "moved-to", "moved-to thread joinable %d", n.joinable()); if (c.rng.flip()) s.t = std::move(n); else { s.m = nullptr; } } if (!s.m) gone(old, what); break;
            default: what = "default state"; { std::jthread d; VH_CHECK(c, !d.joinable() && !d.get_stop_source().stop_possible() && !d.get_stop_token().stop_possible() && !d.request_stop() && d.get_id() == std::thread::id(), "default", "default-constructed thread object has a thread or a stop state"); } break;
            }
            for (auto& x : slots) if (x->m) { VH_CHECK(c, x->t.joinable() && x->m->id == x->t.get_id(), "ownership", "%s: a thread's owner lost it", what); if (!x->t.get_stop_token().stop_requested() && x->m->token.stop_possible() && !x->m->release) VH_CHECK(c, !x->m->ended, "ended", "%s: thread ended although nobody asked it to", what); h = vh::mix(h ^ x->t.get_stop_token().stop_requested()); }
            h = vh::mix(h ^ vh::hash_str(what)); c.eval(); c.count(what); c.distinct(h);
        }
        for (auto& x : slots) { auto m = x->t.joinable() ? x->m : nullptr; x.reset(); gone(m, "teardown"); }
        for (auto& m : loose) { m->release = true; const double t = vh::now_s(); while (!m->ended && vh::now_s() - t < 40) vh::nap_us(50); VH_CHECK(c, m->ended, "detach", "detached thread did not end"); }
        if (loose.empty()) VH_CHECK(c, Arg::live == live0, "argument", "%d argument copies leaked", Arg::live - live0); else { const double t = vh::now_s(); while (Arg::live != live0 && vh::now_s() - t < 10) vh::nap_us(50); vh::nap_us(2000); }
        { Obj o; { std::jthread t(&Obj::plain, &o, 3); } VH_CHECK(c, o.sum == 3, "member", "member function call gave %d", o.sum); int v = 0; { std::jthread t([](int& r) { r = 7; }, std::ref(v)); } VH_CHECK(c, v == 7, "reference", "reference argument was copied"); }
        if (c.want_sample()) c.sample(vh::fmt("3 owners, 10 operations, last: %s", what));
    });
    vh::g_pc.every = 0;
}

namespace
{
    // User lock that knows its owner and lingers after unlocking and before locking.
    struct Lock
    {
        std::mutex m; std::atomic<std::thread::id> owner{}; std::atomic<unsigned> linger{ 0 }; std::atomic<uint64_t> unlocks{ 0 };
        void lock() { nap(); m.lock(); owner = std::this_thread::get_id(); }
        void unlock() { owner = std::thread::id(); m.unlock(); ++unlocks; nap(); }
        bool mine() { return owner == std::this_thread::get_id(); }
        void nap() { const unsigned l = linger; if (l) { static thread_local uint64_t s = 0; if (!s) s = reinterpret_cast<uintptr_t>(&s) | 1; s = vh::mix(s); if (s & 1) vh::nap_us(static_cast<unsigned>((s >> 8) % l)); else sched_yield(); } }
    };
    struct Err { std::mutex m; std::string s; void operator()(const std::string& w) { std::lock_guard<std::mutex> l(m); if (s.empty()) s = w; } bool empty() { std::lock_guard<std::mutex> l(m); return s.empty(); } };
}

// Producers and consumers with exactly as many notifications as items: a missed one leaves a consumer waiting forever.
VH_CASE(no_missed_notification, 8)
{
    c.iterate(c.n(400, 10000), [&](uint64_t)
    {
        if (!c.violations.empty()) return;
        setup(c); Lock lock; lock.linger = static_cast<unsigned>(c.rng.pick({ 0, 100, 400 })); std::condition_variable_any2 cv; std::deque<int> q; Err err; bool closed = false;
        const unsigned np = 1 + c.rng.below(2), nc = 1 + c.rng.below(3), per = 1 + static_cast<unsigned>(c.rng.below(15)); const uint64_t base = c.rng.next(); const bool stoppable = c.rng.flip();
        std::atomic<unsigned> got{ 0 }, ended{ 0 }; std::stop_source never; std::atomic<uint64_t> wakes{ 0 };
        std::vector<std::thread> th; std::vector<std::atomic<int>> seen(np * per); for (auto& s : seen) s = 0;
        for (unsigned k = 0; k < nc; ++k) th.emplace_back([&, k]()
        {
            vh::Rng r(base + k); std::unique_lock<Lock> l(lock); auto pred = [&]() { if (!lock.mine()) err("the predicate was called without the lock"); ++wakes; return !q.empty() || closed; };
            for (;;)
            {
                bool ok = true;
                switch (r.below(4))
                {
                case 0: cv.wait(l, pred); break;
                case 1: if (stoppable) ok = cv.wait(l, never.get_token(), pred); else while (!pred()) cv.wait(l); break;
                case 2: ok = cv.wait_for(l, std::chrono::seconds(60), pred); break;
                default: ok = stoppable ? cv.wait_until(l, never.get_token(), Clock::now() + std::chrono::seconds(60), pred) : cv.wait_until(l, std::chrono::system_clock::now() + std::chrono::seconds(60), pred); break;
                }
                if (!lock.mine() || !l.owns_lock()) err("wait returned without the lock");
                if (!ok || (q.empty() && !closed)) err("wait returned although the predicate does not hold");
                if (q.empty()) break;
                const int v = q.front(); q.pop_front(); ++seen[v]; ++got;
                if (r.chance(1, 3)) { l.unlock(); vh::jitter(r); l.lock(); }
            }
            ++ended;
        });
        for (unsigned k = 0; k < np; ++k) th.emplace_back([&, k]() { vh::Rng r(base + 50 + k); for (unsigned i = 0; i < per; ++i) { vh::jitter(r); const bool inside = r.flip(); { std::unique_lock<Lock> l(lock); q.push_back(static_cast<int>(k * per + i)); if (inside) cv.notify_one(); } if (!inside) cv.notify_one(); } });
        const double t = vh::now_s(); while (got < np * per && vh::now_s() - t < PROMPT) vh::nap_us(200);
        const unsigned n = got; 
        vh::g_pc.every = 0; lock.linger = 0;
        { std::unique_lock<Lock> l(lock); closed = true; } cv.notify_all();
        const double t2 = vh::now_s(); while (ended < nc && vh::now_s() - t2 < PROMPT) vh::nap_us(200);
        const bool stuck = ended < nc; const double rescue = vh::now_s(); while (ended < nc && vh::now_s() - rescue < 90) { cv.notify_all(); vh::nap_us(1000); }
        for (auto& x : th) x.join();
        VH_CHECK(c, n == np * per, "missed-notification", "%u of %u items were consumed within %.0f s although every one was notified", n, np * per, PROMPT);
        VH_CHECK(c, !stuck, "missed-notification", "a waiter missed notify_all");
        VH_CHECK(c, err.empty(), "wait", "%s", err.s.c_str());
        for (auto& s : seen) VH_CHECK(c, s == 1, "conservation", "an item was consumed %d times", s.load());
        c.eval(n); c.count("items", n); c.count("predicate calls", wakes); c.count("injected delays", vh::g_pc.delays.exchange(0)); c.distinct(vh::mix(wakes * 64 + lock.unlocks) ^ c.cur_iter % 32);
        if (c.want_sample()) c.sample(vh::fmt("%u producers x %u items, %u consumers, %llu predicate calls", np, per, nc, (unsigned long long)wakes.load()));
    });
    vh::g_pc.every = 0;
}

// The stop request arrives at any moment relative to the waiter.
VH_CASE(stop_interrupts, 8)
{
    c.iterate(c.n(900, 20000), [&](uint64_t)
    {
        if (!c.violations.empty()) return;
        setup(c); Lock lock; lock.linger = static_cast<unsigned>(c.rng.pick({ 0, 100, 1500 })); auto cv = std::make_unique<std::condition_variable_any2>(); Err err; std::stop_source src; bool flag = false;
        const unsigned nw = 1 + static_cast<unsigned>(c.rng.below(3)), delay = static_cast<unsigned>(c.rng.below(300)); const int how = static_cast<int>(c.rng.below(4)); const bool before = c.rng.chance(1, 10), set_flag = c.rng.chance(1, 4), throws = c.rng.chance(1, 8);
        if (before) src.request_stop();
        std::atomic<unsigned> ended{ 0 }, entered{ 0 }; std::vector<double> end(nw, 0); std::vector<int> result(nw, -1); std::vector<std::thread> th; const uint64_t base = c.rng.next();
        for (unsigned k = 0; k < nw; ++k) th.emplace_back([&, k]()
        {
            vh::Rng r(base + k); std::unique_lock<Lock> l(lock); unsigned calls = 0;
            auto pred = [&]() -> bool { if (!lock.mine()) err("the predicate was called without the lock"); if (throws && calls++ == 1) throw 5; if (r.chance(1, 3)) vh::nap_us(static_cast<unsigned>(r.below(200))); return flag; };
            ++entered; bool res = false;
            try
            {
                switch (how)
                {
                case 0: case 1: res = cv->wait(l, src.get_token(), pred); break;
                case 2: res = cv->wait_for(l, src.get_token(), std::chrono::seconds(30), pred); break;
                default: res = cv->wait_until(l, src.get_token(), Clock::now() + std::chrono::seconds(30), pred); break;
                }
                if (res != flag) err("the returned value is not the predicate's");
                if (!res && !src.stop_requested()) err("the wait ended without the predicate, a stop or the deadline");
            }
            catch (int) { if (!throws) err("exception out of nowhere"); }
            if (!lock.mine() || !l.owns_lock()) err("wait returned without the lock");
            end[k] = vh::now_s(); result[k] = res; l.unlock(); ++ended;
        });
        while (entered == 0) sched_yield();
        switch (c.rng.below(3)) { case 0: vh::spin(delay * 10); break; case 1: vh::nap_us(delay); break; default: while (entered < nw) sched_yield(); vh::spin(delay); break; }
        const uint64_t phase = lock.unlocks; const double t = vh::now_s(); bool deadlock_free = true;
        if (set_flag) { { std::unique_lock<Lock> l(lock); flag = true; } cv->notify_all(); }
        else if (c.rng.chance(1, 3)) { std::unique_lock<Lock> l(lock); src.request_stop(); } // while holding the waiters' lock
        else src.request_stop();
        const double t2 = vh::now_s(); while (ended < nw && vh::now_s() - t2 < 2 * PROMPT) vh::nap_us(100);
        if (ended < nw && !before) { deadlock_free = false; }
        if (!deadlock_free) { c.record({ set_flag ? "missed-notification" : "missed-stop", vh::fmt("%u of %u waiters did not return within %.0f s of the %s", nw - ended.load(), nw, 2 * PROMPT, set_flag ? "notification" : "stop request") }); const double t3 = vh::now_s(); src.request_stop(); while (ended < nw && vh::now_s() - t3 < 60) { cv->notify_all(); vh::nap_us(1000); } if (ended < nw) { c.write("ok", ""); _exit(1); } }
        // the condition variable may be destroyed as soon as everyone was notified (checked below by ASan) - here all have returned
        for (auto& x : th) x.join();
        VH_CHECK(c, err.empty(), "wait", "%s", err.s.c_str());
        for (unsigned k = 0; k < nw; ++k) VH_CHECK(c, end[k] - t < PROMPT, set_flag ? "missed-notification" : "missed-stop", "a waiter returned %.1f s after", end[k] - t);
        c.eval(nw); c.count(set_flag ? "ended by predicate" : before ? "stop before" : "ended by stop"); if (throws) c.count("predicate throws"); c.distinct(vh::mix(phase * 100 + nw * 10 + static_cast<unsigned>(how)) ^ delay); c.count("injected delays", vh::g_pc.delays.exchange(0));
        if (c.want_sample()) c.sample(vh::fmt("%u waiters, stop after %u us with %llu unlocks seen, all returned in %.4f s", nw, delay, (unsigned long long)phase, vh::now_s() - t));
    });
    vh::g_pc.every = 0;
}

// Deadlines: not earlier, not never.
VH_CASE(timed, 6)
{
    c.iterate(c.n(500, 10000), [&](uint64_t)
    {
        setup(c); Lock lock; lock.linger = static_cast<unsigned>(c.rng.pick({ 0, 200 })); std::condition_variable_any2 cv; std::stop_source src; const int us = static_cast<int>(c.rng.pick({ -1000, 0, 500, 3000, 8000 })); std::atomic<bool> quit{ false }; Err err;
        std::thread noise; if (c.rng.flip()) noise = std::thread([&]() { while (!quit) { cv.notify_all(); vh::nap_us(300); } });
        std::unique_lock<Lock> l(lock); auto pred = [&]() { if (!lock.mine()) err("the predicate was called without the lock"); return false; };
        const auto t0 = Clock::now(); const auto dl = t0 + std::chrono::microseconds(us); bool res = false; std::cv_status st = std::cv_status::timeout; const int how = static_cast<int>(c.rng.below(7)); bool sys = false; const auto sdl = std::chrono::system_clock::now() + std::chrono::microseconds(us);
        if (how != 4) g_step = c.rng.pick({ 0, 0, -3600, 3600 }); // somebody sets the wall clock
        switch (how)
        {
        case 0: res = cv.wait_until(l, dl, pred); break;
        case 1: res = cv.wait_for(l, std::chrono::microseconds(us), pred); break;
        case 2: res = cv.wait_until(l, src.get_token(), dl, pred); break;
        case 3: res = cv.wait_for(l, src.get_token(), std::chrono::microseconds(us), pred); break;
        case 4: res = cv.wait_until(l, src.get_token(), sdl, pred); sys = true; break;
        case 5: do { st = cv.wait_until(l, dl); } while (st == std::cv_status::no_timeout && Clock::now() < dl + std::chrono::seconds(8)); break;
        default: do { st = cv.wait_for(l, std::chrono::microseconds(us)); } while (st == std::cv_status::no_timeout && Clock::now() < dl + std::chrono::seconds(8) && noise.joinable() && (quit = true)); break;
        }
        const auto t1 = Clock::now(); g_step = 0; const auto s1 = std::chrono::system_clock::now(); const bool mine = lock.mine() && l.owns_lock(); l.unlock(); quit = true; if (noise.joinable()) noise.join();
        VH_CHECK(c, mine, "lock-held", "a timed wait returned without the lock");
        VH_CHECK(c, err.empty(), "wait", "%s", err.s.c_str());
        VH_CHECK(c, !res, "value", "a timed wait returned true for a false predicate");
        if (how < 5) { if (!sys) VH_CHECK(c, t1 >= dl, "early", "a timed wait (%d) ended %lld us before its deadline", how, (long long)std::chrono::duration_cast<std::chrono::microseconds>(dl - t1).count()); else VH_CHECK(c, s1 >= sdl - std::chrono::milliseconds(1), "early", "a timed wait on the system clock ended early"); }
        else if (st == std::cv_status::timeout) VH_CHECK(c, t1 >= dl, "early", "timeout was reported before the deadline");
        VH_CHECK(c, t1 < dl + std::chrono::milliseconds(static_cast<int>(PROMPT * 1000)), "late", "a timed wait ended seconds after its deadline");
        c.eval(); c.count("timed waits"); c.distinct(vh::mix(how * 100000 + us + 5000) ^ c.cur_iter % 16);
    });
    vh::g_pc.every = 0;
}

// The condition variable may be destroyed once all waiters were notified, even if they have not returned yet.
VH_CASE(destroyed_after_notify, 4)
{
    c.iterate(c.n(300, 6000), [&](uint64_t)
    {
        setup(c); Lock lock; lock.linger = static_cast<unsigned>(c.rng.pick({ 0, 200 })); auto cv = std::make_unique<std::condition_variable_any2>(); bool flag = false; std::atomic<unsigned> in{ 0 }; std::stop_source src; std::vector<std::thread> th; Err err; const int how = static_cast<int>(c.rng.below(5)); const unsigned n = 1 + static_cast<unsigned>(c.rng.below(3));
        std::condition_variable_any2* p = cv.get();
        for (unsigned k = 0; k < n; ++k) th.emplace_back([&]() { std::unique_lock<Lock> l(lock); ++in; auto pred = [&]() { return flag; }; bool r = true; switch (how) { case 0: p->wait(l, pred); break; case 1: r = p->wait(l, src.get_token(), pred); break; case 2: r = p->wait_for(l, std::chrono::seconds(30), pred); break; case 3: r = p->wait_until(l, src.get_token(), Clock::now() + std::chrono::seconds(30), pred); break; default: if (!flag) p->wait(l); break; } if (!r) err("wait returned false"); });
        while (in < n) sched_yield();
        { std::unique_lock<Lock> l(lock); flag = true; p->notify_all(); } cv.reset();
        for (auto& t : th) t.join();
        VH_CHECK(c, err.empty(), "wait", "%s", err.s.c_str()); c.eval(n); c.distinct(vh::mix(how * 8 + n) ^ c.cur_iter % 32); c.count("waits outliving their condition variable", n);
    });
    vh::g_pc.every = 0;
}

VH_MAIN()
