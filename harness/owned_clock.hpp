// The clock of the profiler, replaced by one that the check advances.
#pragma once
#include <chrono>
#include <ctime>

inline long long ticks = 0; // nanoseconds
inline bool      owned = false;
namespace std::chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept
{
    if (owned)
        return time_point(nanoseconds(ticks));
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return time_point(seconds(t.tv_sec) + nanoseconds(t.tv_nsec));
}
} // namespace _V2
} // namespace std::chrono
