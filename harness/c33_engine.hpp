// Forced into every source of C33: the standard engines are replaced by one whose
// outputs the check decides.
#pragma once
#include <cstdint>
#include <deque>
#include <iterator>
#include <list>
#include <random>
#include <ranges>
#include <vector>
namespace mc_engine
{
// the numbers the next draws give; when they are used up, a fixed sequence
inline std::vector<uint64_t> script;
inline size_t                used = 0;
inline uint64_t              next()
{
    uint64_t i = used++;
    if (i < script.size())
        return script[i];
    uint64_t h = (script.empty() ? 0 : script[0]) + (i + 1) * 0x9E3779B97F4A7C15ull;
    h          = (h ^ (h >> 31)) * 0xD6E8FEB86659FD93ull;
    return h ^ (h >> 32);
}
}
namespace std
{
template <class R>
struct McScriptedEngine
{
    typedef R result_type;
    McScriptedEngine() = default;
    template <class S>
    explicit McScriptedEngine(S&&) {}
    static constexpr R min() { return 0; }
    static constexpr R max() { return ~R{0}; }
    template <class S>
    void seed(S&&) {}
    void seed() {}
    R    operator()() { return static_cast<R>(mc_engine::next() >> (64 - 8 * sizeof(R))); }
    void discard(unsigned long long n) { while (n--) mc_engine::next(); }
};
typedef McScriptedEngine<uint64_t> McScripted64;
typedef McScriptedEngine<uint32_t> McScripted32;
}
#define mt19937_64            McScripted64
#define mt19937               McScripted32
#define default_random_engine McScripted64
#define minstd_rand           McScripted32
#define minstd_rand0          McScripted32
#define ranlux48              McScripted64
#define ranlux24              McScripted32
#define knuth_b               McScripted32
