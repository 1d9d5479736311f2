#pragma once
#include <atomic>
#include <ctime>
#include <unistd.h>
#include <sys/syscall.h>

// The wall clock can be stepped: what the program reads is off from what the kernel uses by g_step (as if somebody
// set the clock between the two). Only CLOCK_REALTIME readings are affected.
static std::atomic<int64_t> g_step{ 0 };
extern "C" int clock_gettime(clockid_t id, struct timespec* t)
{
    const long r = syscall(SYS_clock_gettime, id, t);
    if (id == CLOCK_REALTIME && r == 0) t->tv_sec += g_step.load(std::memory_order_relaxed);
    return static_cast<int>(r);
}
