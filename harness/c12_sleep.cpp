// C12: sleep_for and watch_dog under injected delays around the wait; bounded-progress monitor.
#include "vh_sched.h"
#include "Awl/Sleep.h"
#include "Awl/WatchDog.h"

#include <thread>
#include <dirent.h>

#include "vh_wall.h"

using vh::Case;
using namespace std::chrono_literals;

namespace
{
    const double LONG = 14.0;      // requested sleep when it is going to be cancelled, seconds
    const double PROMPT = 6.0;     // a cancelled sleep that has not ended after this long was missed

    int threads() { int n = 0; if (DIR* d = opendir("/proc/self/task")) { while (dirent* e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); } return n; }
    int settle_threads(int want) { int n = threads(); for (int i = 0; i < 300 && n > want; ++i) { vh::nap_us(1000); n = threads(); } return n; }

    void setup(Case& c, int mode)
    {
        auto& i = vh::inject(); i.off(); i.seed = c.rng.next() | 1;
        switch (mode)
        {
        case 0: break;
        case 1: i.before_wait = 3000; break;
        case 2: i.before_wait = 3000; i.before_lock = 500; break;
        case 3: i.spurious_percent = 40; break;
        case 4: i.before_wait = 1500; i.before_signal = 500; i.after_signal = 500; i.spurious_percent = 20; break;
        default: i.before_lock = 800; i.after_unlock = 800; break;
        }
    }
}

VH_CASE(full_sleep, 3)
{
    c.iterate(c.n(300, 4000), [&](uint64_t)
    {
        if (!c.violations.empty()) return; // a missed stop costs its whole sleep
        setup(c, static_cast<int>(c.rng.below(6)));
        std::stop_source src; const int64_t us = c.rng.pick<int64_t>({ -5000, 0, 1, 300, 2000, 9000 }) + c.rng.range(0, 400);
        g_step = c.rng.pick({ 0, 0, -3600, 3600 });
        const auto t0 = std::chrono::steady_clock::now();
        switch (c.rng.below(3))
        {
        case 0: awl::sleep_for(std::chrono::microseconds(us), src.get_token()); break;
        case 1: awl::sleep_for(std::chrono::duration<double>(us * 1e-6), src.get_token()); break;
        default: awl::sleep_for(std::chrono::nanoseconds(us * 1000), c.rng.flip() ? src.get_token() : std::stop_token()); break;
        }
        const auto dt = std::chrono::steady_clock::now() - t0; g_step = 0;
        VH_CHECK(c, dt < 10s, "late", "slept %.1f s instead of %lld us", std::chrono::duration<double>(dt).count(), (long long)us);
        VH_CHECK(c, dt >= std::chrono::microseconds(us) - 1us, "early", "slept %lld us of %lld us without a stop request", (long long)std::chrono::duration_cast<std::chrono::microseconds>(dt).count(), (long long)us);
        VH_CHECK(c, !src.stop_requested(), "stop", "sleeping requested a stop");
        c.eval(); c.distinct(vh::mix(us)); c.count("spurious wake-ups", vh::inject().spurious.exchange(0)); c.count("sleeps");
    });
    vh::inject().off();
}

VH_CASE(stopped_before, 1)
{
    c.iterate(c.n(200, 2000), [&](uint64_t)
    {
        if (!c.violations.empty()) return; // a missed stop costs its whole sleep
        setup(c, static_cast<int>(c.rng.below(6)));
        std::stop_source src; src.request_stop(); const double t = vh::now_s();
        awl::sleep_for(std::chrono::duration<double>(LONG), src.get_token());
        VH_CHECK(c, vh::now_s() - t < PROMPT, "missed-stop", "stop was requested before the sleep, but it slept %.1f s", vh::now_s() - t);
        c.eval(); c.distinct(c.cur_iter);
    });
    vh::inject().off();
}

// The stop request arrives at a random instant around the sleeper entering its wait.
VH_CASE(stopped_during, 8)
{
    c.iterate(c.n(1600, 30000), [&](uint64_t)
    {
        if (!c.violations.empty()) return; // a missed stop costs its whole sleep
        setup(c, static_cast<int>(c.rng.below(6)));
        const bool aim = c.rng.flip(); const unsigned delay = static_cast<unsigned>(c.rng.below(aim ? 40 : 400)) * 10; const unsigned sleepers = 1 + static_cast<unsigned>(c.rng.below(3));
        std::stop_source src; std::atomic<unsigned> ready{ 0 }, ended{ 0 }; std::atomic<int> w0{ 0 }; std::vector<std::thread> th; std::vector<double> end(sleepers, 0);
        vh::inject().waits = 0;
        for (unsigned k = 0; k < sleepers; ++k) th.emplace_back([&, k]() { ++ready; awl::sleep_for(std::chrono::duration<double>(LONG), src.get_token()); end[k] = vh::now_s(); ++ended; });
        while (ready < sleepers) sched_yield();
        if (aim) { const double t = vh::now_s(); while (vh::inject().in_window == 0 && vh::inject().waits == 0 && vh::now_s() - t < 0.5) sched_yield(); if (c.rng.flip()) vh::nap_us(delay); } // just before the wait
        else { if (c.rng.flip()) vh::spin(delay); else vh::nap_us(delay); }
        const int window = vh::inject().in_window; const uint64_t waits = vh::inject().waits;
        const double t = vh::now_s(); src.request_stop();
        for (auto& x : th) x.join();
        for (unsigned k = 0; k < sleepers; ++k) VH_CHECK(c, end[k] - t < PROMPT, "missed-stop", "the sleeper ended %.1f s after the stop request (%d sleepers were about to wait)", end[k] - t, window);
        c.eval(sleepers); c.count(window ? "stop while about to wait" : waits ? "stop while waiting" : "stop before the wait"); c.distinct(vh::mix(static_cast<uint64_t>(window) * 64 + waits * 8 + sleepers) ^ delay);
        if (c.want_sample()) c.sample(vh::fmt("%u sleepers, stop requested with %d about to wait and %llu waits started, all ended within %.4f s", sleepers, window, (unsigned long long)waits, vh::now_s() - t));
    });
    vh::inject().off();
}

VH_CASE(watchdog, 6)
{
    std::thread([]() {}).join(); // TSan starts its own thread with the first one
    c.iterate(c.n(420, 8000), [&](uint64_t)
    {
        if (!c.violations.empty()) return; // a missed stop costs its whole sleep
        setup(c, static_cast<int>(c.rng.below(6)));
        const int base = threads(); const int mode = static_cast<int>(c.rng.below(5));
        struct Shared { std::atomic<int> fired{ 0 }, live{ 0 }; std::atomic<bool> dead{ false }, after{ false }; std::atomic<int64_t> at{ 0 }; } s;
        struct Cap { Shared* p; Cap(Shared* q) : p(q) { ++p->live; } Cap(const Cap& o) : p(o.p) { ++p->live; } ~Cap() { --p->live; } };
        auto ns = []() { return std::chrono::steady_clock::now().time_since_epoch().count(); };
        std::stop_source user; std::stop_token kept; const int64_t t0 = ns();
        const int64_t timeout = mode == 0 || mode == 4 ? static_cast<int64_t>(c.rng.pick({ 0, 1, 100, 3000 })) * 1000 : static_cast<int64_t>(LONG * 1e9);
        {
            std::function<void()> log; { Cap cap(&s); log = [&s, cap, ns]() { if (s.dead) s.after = true; s.at = ns(); vh::spin(500); ++s.fired; }; }
            if (mode == 3) user.request_stop();
            awl::watch_dog dog(user.get_token(), std::chrono::nanoseconds(timeout), log); log = nullptr;
            if (c.rng.flip()) vh::nap_us(static_cast<unsigned>(c.rng.below(1500)));
            std::stop_token tok = dog.get_token(); kept = tok;
            if (mode == 0) // let it time out
            {
                const double t = vh::now_s(); while (!tok.stop_requested() && vh::now_s() - t < PROMPT) vh::nap_us(200);
                VH_CHECK(c, tok.stop_requested(), "no-timeout", "the watchdog did not stop the token %.1f s after its timeout", vh::now_s() - t);
                VH_CHECK(c, s.fired == 1, "handler", "timeout handler ran %d times when the token was stopped by the timeout", s.fired.load());
                VH_CHECK(c, s.at - t0 >= timeout, "early", "timeout handler ran after %lld ns of %lld", (long long)(s.at - t0), (long long)timeout);
            }
            else if (mode == 4) // the user cancels; the timeout elapses all the same
            {
                user.request_stop(); VH_CHECK(c, tok.stop_requested(), "cancel", "the user's stop did not reach the watchdog's token");
                const double t = vh::now_s(); while (s.fired == 0 && vh::now_s() - t < PROMPT) vh::nap_us(200);
                VH_CHECK(c, s.fired == 1, "handler", "timeout handler ran %d times when the timeout elapsed after the user's cancellation", s.fired.load());
                VH_CHECK(c, s.at - t0 >= timeout, "early", "timeout handler ran after %lld ns of %lld", (long long)(s.at - t0), (long long)timeout);
                if (c.rng.flip()) { vh::nap_us(2000); VH_CHECK(c, s.fired == 1, "handler", "timeout handler ran %d times", s.fired.load()); }
            }
            else if (mode == 1) { VH_CHECK(c, !tok.stop_requested(), "early", "token stopped before the timeout"); } // destroyed at once
            else if (mode == 2) { VH_CHECK(c, !tok.stop_requested(), "early", "token stopped before the timeout"); std::thread canceller([&]() { user.request_stop(); }); canceller.join(); VH_CHECK(c, tok.stop_requested(), "cancel", "the user's stop request does not reach the watchdog's token"); }
            else VH_CHECK(c, tok.stop_requested(), "cancel", "the watchdog's token is not stopped although the user's was before");
            c.note("destroying");
        }
        const int64_t t1 = ns(); s.dead = true;
        VH_CHECK(c, mode == 0 || mode == 4 || t1 - t0 < static_cast<int64_t>(PROMPT * 1e9), "slow-stop", "destroying the watchdog took %.1f s", (t1 - t0) * 1e-9);
        VH_CHECK(c, mode == 0 || mode == 4 || s.fired == 0, "early", "timeout handler ran %d times before the timeout", s.fired.load());
        VH_CHECK(c, s.live == 0, "handler-leak", "%d copies of the handler left", s.live.load());
        VH_CHECK(c, settle_threads(base) <= base, "thread-leak", "%d threads left behind", threads() - base);
        const int fired = s.fired; if (c.rng.chance(1, 4)) { user.request_stop(); vh::nap_us(200); } VH_CHECK(c, s.fired == fired && !s.after, "handler", "handler ran after the watchdog was destroyed");
        c.eval(); c.count(mode == 0 ? "timed out" : mode == 1 ? "destroyed early" : mode == 2 ? "cancelled" : mode == 3 ? "cancelled before" : "cancelled, then timed out"); c.distinct(vh::mix(mode * 1000 + timeout / 1000) ^ c.cur_iter % 64);
    });
    vh::inject().off();
}

VH_MAIN()
