// The clocks seen by the code under test: now_ts is defined by the harness.
#pragma once
#include <sys/time.h>
#include <time.h>
#include <chrono>
static void now_ts(clockid_t id, struct timespec *ts);
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) { now_ts(id, ts); return 0; }
extern "C" int gettimeofday(struct timeval *tv, void *) { timespec t; now_ts(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { timespec t; now_ts(CLOCK_MONOTONIC, &t); return steady_clock::time_point(nanoseconds(t.tv_sec * 1000000000l + t.tv_nsec)); }
system_clock::time_point system_clock::now() noexcept { timespec t; now_ts(CLOCK_REALTIME, &t); return system_clock::time_point(nanoseconds(t.tv_sec * 1000000000l + t.tv_nsec)); }
} } }
