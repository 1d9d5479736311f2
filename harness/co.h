// Shared by c31 and c32: objects that account for themselves, a manual scheduler, and a coroutine of the harness's own.
#pragma once
#include "vh.h"
#include <coroutine>
#include <exception>
#include <list>
#include <optional>
#include <utility>
#include <memory>

namespace co
{
    using vh::Case;
    struct Err { int id; };

    struct World
    {
        Case& c; int64_t live = 0, made = 0, resumed = 0, pending_dropped = 0;
        struct Wait { std::coroutine_handle<> h; bool* granted; };
        std::list<Wait> waits;
        explicit World(Case& cc) : c(cc) {}
        // resumes one waiting coroutine
        void step() { auto i = std::next(waits.begin(), static_cast<std::ptrdiff_t>(c.rng.below(waits.size()))); auto h = i->h; *i->granted = true; waits.erase(i); ++resumed; h.resume(); }
    };

    // Lives in coroutine frames: as a parameter, a local, a temporary.
    struct Probe
    {
        World* w; uint64_t magic = 0x5AFE;
        explicit Probe(World& x) : w(&x) { ++w->live; ++w->made; }
        Probe(const Probe& o) : w(o.w) { o.check(); ++w->live; ++w->made; }
        Probe& operator=(const Probe& o) { check(); o.check(); return *this; }
        ~Probe() { if (magic != 0x5AFE) { fprintf(stderr, "VH-ABORT: an object of a coroutine was destroyed twice\n"); abort(); } magic = 0xDEAD; --w->live; }
        void check() const { if (magic != 0x5AFE) { fprintf(stderr, "VH-ABORT: an object of a coroutine was used after its destruction\n"); abort(); } }
    };

    // Suspends until the driver resumes it; withdraws itself when its coroutine is destroyed.
    struct Waiter
    {
        World& w; bool ready; bool queued = false, granted = false; std::list<World::Wait>::iterator i{};
        Waiter(World& x, bool r) : w(x), ready(r) {}
        Waiter(const Waiter&) = delete;
        bool await_ready() const noexcept { return ready; }
        void await_suspend(std::coroutine_handle<> h) { i = w.waits.insert(w.waits.end(), { h, &granted }); queued = true; }
        void await_resume() noexcept { if (queued && !granted) { fprintf(stderr, "VH-ABORT: a waiting coroutine was resumed by somebody else\n"); abort(); } queued = false; }
        ~Waiter() { if (queued) { w.waits.erase(i); ++w.pending_dropped; } }
    };

    // An eager coroutine that is destroyed by its owner.
    struct Job
    {
        struct promise_type
        {
            std::exception_ptr e; bool* done = nullptr;
            Job get_return_object() { return Job(std::coroutine_handle<promise_type>::from_promise(*this)); }
            std::suspend_never initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { e = std::current_exception(); }
        };
        std::coroutine_handle<promise_type> h;
        Job() = default; explicit Job(std::coroutine_handle<promise_type> x) : h(x) {} Job(Job&& o) noexcept : h(std::exchange(o.h, nullptr)) {} Job& operator=(Job&& o) noexcept { if (h) h.destroy(); h = std::exchange(o.h, nullptr); return *this; } ~Job() { if (h) h.destroy(); }
        bool done() const { return !h || h.done(); }
        void rethrow() { if (h && h.done() && h.promise().e) std::rethrow_exception(h.promise().e); }
        void drop() { if (h) { auto t = h; h = nullptr; t.destroy(); } }
    };
}
