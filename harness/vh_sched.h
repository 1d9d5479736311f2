// Schedule injection: the harness is linked with --wrap for the pthread primitives its translation unit calls,
// so that threads linger inside the windows around locking, waiting and notifying, and waits wake spuriously.
#pragma once
#include "vh.h"
#include <pthread.h>
#include <time.h>

namespace vh
{
    struct Inject
    {
        // microseconds, drawn uniformly in [0, max] with the given probability in percent
        std::atomic<unsigned> before_wait{ 0 }, before_signal{ 0 }, after_signal{ 0 }, before_lock{ 0 }, after_unlock{ 0 };
        std::atomic<unsigned> percent{ 100 }, spurious_percent{ 0 };
        std::atomic<uint64_t> seed{ 1 };
        std::atomic<uint64_t> waits{ 0 }, spurious{ 0 }, delays{ 0 };
        std::atomic<int> in_window{ 0 };       // threads currently lingering before a wait
        void off() { before_wait = before_signal = after_signal = before_lock = after_unlock = 0; spurious_percent = 0; percent = 100; }
    };
    inline Inject& inject() { static Inject i; return i; }
    inline uint64_t inject_rand() { static thread_local uint64_t s = 0; if (!s) s = mix(inject().seed.load() ^ reinterpret_cast<uintptr_t>(&s)); s = mix(s); return s; }
    inline void inject_nap(unsigned maxus)
    {
        if (!maxus) return;
        if (inject_rand() % 100 >= inject().percent.load(std::memory_order_relaxed)) return;
        inject().delays.fetch_add(1, std::memory_order_relaxed);
        nap_us(static_cast<unsigned>(inject_rand() % (maxus + 1)));
    }
    inline bool inject_before_wait()
    {
        auto& i = inject(); i.waits.fetch_add(1, std::memory_order_relaxed);
        i.in_window.fetch_add(1); inject_nap(i.before_wait.load(std::memory_order_relaxed)); i.in_window.fetch_sub(1);
        if (i.spurious_percent.load(std::memory_order_relaxed) && inject_rand() % 100 < i.spurious_percent.load(std::memory_order_relaxed)) { i.spurious.fetch_add(1, std::memory_order_relaxed); return true; }
        return false;
    }
}

extern "C"
{
    int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
    int __real_pthread_cond_signal(pthread_cond_t*);
    int __real_pthread_cond_broadcast(pthread_cond_t*);
    int __real_pthread_mutex_lock(pthread_mutex_t*);
    int __real_pthread_mutex_unlock(pthread_mutex_t*);
    int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { if (vh::inject_before_wait()) return 0; return __real_pthread_cond_clockwait(c, m, k, t); }
    int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { if (vh::inject_before_wait()) return 0; return __real_pthread_cond_timedwait(c, m, t); }
    int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (vh::inject_before_wait()) return 0; return __real_pthread_cond_wait(c, m); }
    int __wrap_pthread_cond_signal(pthread_cond_t* c) { vh::inject_nap(vh::inject().before_signal.load(std::memory_order_relaxed)); int r = __real_pthread_cond_signal(c); vh::inject_nap(vh::inject().after_signal.load(std::memory_order_relaxed)); return r; }
    int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { vh::inject_nap(vh::inject().before_signal.load(std::memory_order_relaxed)); int r = __real_pthread_cond_broadcast(c); vh::inject_nap(vh::inject().after_signal.load(std::memory_order_relaxed)); return r; }
    int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { vh::inject_nap(vh::inject().before_lock.load(std::memory_order_relaxed)); return __real_pthread_mutex_lock(m); }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); vh::inject_nap(vh::inject().after_unlock.load(std::memory_order_relaxed)); return r; }
}
