// Schedule fuzzing at basic-block granularity: the harness is compiled with -fsanitize-coverage=trace-pc, so every
// basic block of the header-only code under test calls the hook below, which now and then lingers.
#pragma once
#include "vh.h"

namespace vh
{
    struct PcFuzz { std::atomic<unsigned> every{ 0 }; std::atomic<uint64_t> seed{ 1 }, delays{ 0 }; };
    extern PcFuzz g_pc;
}
#ifndef VH_PC_EXTERN
vh::PcFuzz vh::g_pc;
extern "C" __attribute__((no_sanitize_coverage, no_sanitize("thread"), no_sanitize("address"), no_sanitize("undefined"), noinline))
void __sanitizer_cov_trace_pc()
{
    static thread_local int left = 0; static thread_local uint64_t s = 0; static thread_local bool in = false;
    if (--left > 0 || in) return;
    const unsigned every = __atomic_load_n(reinterpret_cast<unsigned*>(&vh::g_pc.every), __ATOMIC_RELAXED);
    if (!every) { left = 64; return; }
    in = true;
    if (!s) { uint64_t x = __atomic_load_n(reinterpret_cast<uint64_t*>(&vh::g_pc.seed), __ATOMIC_RELAXED) ^ reinterpret_cast<uintptr_t>(&s); s = x * 0x9e3779b97f4a7c15ull | 1; }
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    left = 1 + static_cast<int>(s % (2 * every));
    __atomic_fetch_add(reinterpret_cast<uint64_t*>(&vh::g_pc.delays), 1, __ATOMIC_RELAXED);
    switch ((s >> 32) % 6)
    {
    case 0: case 1: sched_yield(); break;
    case 2: { timespec t{ 0, static_cast<long>((s >> 40) % 80000) }; nanosleep(&t, nullptr); break; }
    default: { const unsigned k = (s >> 40) % 1500; for (volatile unsigned i = 0; i < k; i = i + 1) {} break; }
    }
    in = false;
}
#endif
