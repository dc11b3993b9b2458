// C33: the utilities the rest is made of: partitions, views, random numbers.
#include "mc.hpp"
#include "Simu/math/Matrix.hpp"
#include "Simu/math/Random.hpp"
#include "Simu/utility/Algo.hpp"
#include "Simu/utility/View.hpp"
#include <algorithm>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <set>
using namespace simu;
#include "c33_views.hpp"

MC_SCENARIO(views) { allViews(ctx); }

// every sequence of elements that go left or right
template <class C>
static void partition(mc::Ctx& ctx, const std::vector<int>& side, size_t from, size_t to)
{
    C c;
    for (size_t i = 0; i < side.size(); ++i)
        c.push_back({side[i], (int)i});
    std::vector<typename C::value_type> before(c.begin(), c.end());
    auto   b = std::next(c.begin(), from), e = std::next(c.begin(), to);
    size_t asked = 0;
    auto   mid   = booleanSort(b, e, [&](auto it) {
        ++asked;
        return it->first == 1;
    });
    std::vector<typename C::value_type> after(c.begin(), c.end());
    size_t m = std::distance(c.begin(), mid), left = 0;
    for (size_t i = from; i < to; ++i)
        left += side[i];
    MC_CHECK(m == from + left, "middle", "%zu of %zu go left, the middle is %zu after the start", left, to - from, m - from);
    for (size_t i = from; i < to; ++i)
        MC_CHECK(after[i].first == (i < m), "side", "element %zu is on the wrong side", i);
    for (size_t i = 0; i < side.size(); ++i)
        if (i < from || i >= to)
            MC_CHECK(after[i] == before[i], "outside", "element %zu outside of the range changed", i);
    std::sort(before.begin(), before.end());
    std::sort(after.begin(), after.end());
    MC_CHECK(before == after, "permutation", "elements are lost or repeated");
    MC_CHECK(asked >= to - from, "asked", "an element was placed without being asked");
    ctx.transition();
    ctx.validated(to - from + 1);
}
MC_SCENARIO(boolean_sort)
{
    int              kind = ctx.choose(3, "sequence"), n = ctx.choose(ctx.tier(9, 13), "elements");
    size_t           from = ctx.choose(n + 1, "from"), to = from + ctx.choose(n - (int)from + 1, "to");
    std::vector<int> side;
    for (int i = 0; i < n; ++i)
        side.push_back(i >= (int)from && i < (int)to ? ctx.flag("left") : i & 1);
    typedef std::pair<int, int> P;
    if (kind == 0)
        partition<std::vector<P>>(ctx, side, from, to);
    else if (kind == 1)
        partition<std::list<P>>(ctx, side, from, to);
    else
        partition<std::deque<P>>(ctx, side, from, to);
    ctx.outcome(from == to ? "nothing" : "partitioned");
}

// what is asked may move: pointers, as in the trees
MC_SCENARIO(boolean_sort_pointers)
{
    int                n = ctx.choose(ctx.tier(9, 13), "elements");
    std::vector<int>   v(n);
    std::vector<int*>  p;
    size_t             left = 0;
    for (int i = 0; i < n; ++i)
    {
        v[i] = ctx.flag("left");
        left += v[i];
        p.push_back(&v[i]);
    }
    int** mid = booleanSort(p.data(), p.data() + n, [](int** it) { return **it == 1; });
    MC_CHECK(mid == p.data() + left, "middle", "%zu of %d go left, %td were put there", left, n, mid - p.data());
    std::set<int*> l(p.data(), mid), r(mid, p.data() + n);
    MC_CHECK(l.size() == left && r.size() == n - left, "permutation", "pointers are lost or repeated");
    for (int* x : l)
        MC_CHECK(*x == 1, "side", "left");
    for (int* x : r)
        MC_CHECK(*x == 0, "side", "right");
    ctx.transition();
    ctx.validated(n + 1);
    ctx.outcome("partitioned");
}

template <class T>
static void clamps(mc::Ctx& ctx, const std::vector<T>& values)
{
    int n = (int)values.size();
    T   x = values[ctx.choose(n, "x")], lo = values[ctx.choose(n, "min")], hi = values[ctx.choose(n, "max")];
    T   sq = squared(x);
    MC_CHECK(sq == x * x, "squared", "%g", (double)x);
    if (!(lo <= hi))
        ctx.prune();
    T r = simu::clamp(x, lo, hi);
    T w = x < lo ? lo : x > hi ? hi : x;
    MC_CHECK(r == w, "clamp", "clamp(%.9g, %.9g, %.9g) = %.9g", (double)x, (double)lo, (double)hi, (double)r);
    ctx.transition();
    ctx.validated(2);
    ctx.outcome(x < lo ? "below" : x > hi ? "above" : "within");
}
MC_SCENARIO(clamped)
{
    if (ctx.flag("integers"))
        clamps<int>(ctx, {0, 1, -1, 7, -7, 100, -100, 46340, -46340});
    else
        clamps<float>(ctx, {0.f, -0.f, 1.f, -1.f, 0.1f, -0.1f, 1e-30f, 1e30f, -1e30f, INFINITY, -INFINITY, 16777216.f, std::nextafterf(1.f, 2.f)});
}

// the numbers of an engine spread over its whole range: as a set, evenly
static std::vector<uint64_t> spread(int bits)
{
    std::vector<uint64_t> r;
    for (uint64_t k = 0; k < (1ull << bits); ++k)
        r.push_back((k << (64 - bits)) | (k & 1 ? (k * 0x9E3779B97F4A7C15ull) >> bits : k & 2 ? ~0ull >> bits : 0));
    return r;
}
template <class T>
static void integers(mc::Ctx& ctx, T lo, T hi)
{
    const auto     draws = spread(ctx.tier(13, 18));
    std::map<T, size_t> count;
    long double    sum = 0;
    for (uint64_t d : draws)
    {
        mc_engine::script = {d};
        mc_engine::used   = 0;
        T x = Random::uniform(lo, hi);
        MC_CHECK(x >= lo && x <= hi, "outside", "uniform(%lld, %lld) gave %lld", (long long)lo, (long long)hi, (long long)x);
        MC_CHECK(mc_engine::used > 0, "engine", "a number was made without the engine");
        ++count[x];
        sum += (long double)x;
    }
    long double width = (long double)hi - (long double)lo + 1;
    if (width <= 64)
    {
        for (T x = lo;; ++x)
        {
            long double want = draws.size() / width;
            MC_CHECK(count[x] > want * 0.9L - 2 && count[x] < want * 1.1L + 2, "even", "%lld came %zu times of %zu out of %.0Lf values", (long long)x, count[x], draws.size(), width);
            if (x == hi)
                break;
        }
        ctx.outcome("every value");
    }
    else
    {
        // the quarters of the range come equally often
        std::vector<size_t> quarter(4);
        for (auto& [x, c] : count)
            quarter[std::min<int>(3, (int)(((long double)x - lo) / width * 4))] += c;
        for (int q = 0; q < 4; ++q)
            MC_CHECK(std::fabs((double)quarter[q] / draws.size() - 0.25) < 0.05, "even", "quarter %d came %zu times of %zu", q, quarter[q], draws.size());
        ctx.outcome("wide range");
    }
    ctx.transition(draws.size());
    ctx.validated(draws.size());
}
template <class T>
static void integerRanges(mc::Ctx& ctx)
{
    constexpr T lowest = std::numeric_limits<T>::min(), highest = std::numeric_limits<T>::max();
    std::vector<T> v{lowest, (T)(lowest + 1), 0, 1, 2, 3, 5, 10, 63, 100, 1000, (T)(highest - 1), highest};
    if (std::is_signed_v<T>)
        for (int x : {1, 2, 7, 100})
            v.push_back((T)-x);
    T lo = ctx.pick(v, "min"), hi = ctx.pick(v, "max");
    if (lo > hi)
        ctx.prune();
    integers<T>(ctx, lo, hi);
}
MC_SCENARIO(random_integers)
{
    switch (ctx.choose(8, "type"))
    {
        case 0: integerRanges<short>(ctx); break;
        case 1: integerRanges<unsigned short>(ctx); break;
        case 2: integerRanges<int>(ctx); break;
        case 3: integerRanges<unsigned>(ctx); break;
        case 4: integerRanges<long>(ctx); break;
        case 5: integerRanges<unsigned long>(ctx); break;
        case 6: integerRanges<long long>(ctx); break;
        default: integerRanges<unsigned long long>(ctx); break;
    }
}
template <class T>
static void reals(mc::Ctx& ctx)
{
    std::vector<T> v{0, 1, -1, (T)0.1, -5, 100, (T)1e-20, (T)-1e-20, (T)1e6, (T)-1e6, (T)3.14159265, (T)1000.5, (T)1e30};
    T lo = ctx.pick(v, "min"), hi = ctx.pick(v, "max");
    if (!(lo <= hi))
        ctx.prune();
    auto draws = spread(ctx.tier(13, 18));
    std::vector<T> got;
    for (uint64_t d : draws)
    {
        mc_engine::script = {d, d};
        mc_engine::used   = 0;
        T x = Random::uniform(lo, hi);
        MC_CHECK(x >= lo && x <= hi, "outside", "uniform(%.9g, %.9g) gave %.9g", (double)lo, (double)hi, (double)x);
        MC_CHECK(mc_engine::used > 0, "engine", "a number was made without the engine");
        got.push_back(x);
    }
    std::sort(got.begin(), got.end());
    double tol = 0.01 * ((double)hi - (double)lo) + 1e-6 * std::max(std::fabs((double)lo), std::fabs((double)hi));
    for (size_t i = 0; i < got.size(); ++i)
    {
        double want = (double)lo + ((double)hi - (double)lo) * (i + 0.5) / got.size();
        MC_CHECK(std::fabs(got[i] - want) <= tol, "even", "of uniform(%.9g, %.9g), the number of rank %zu of %zu is %.9g", (double)lo, (double)hi, i, got.size(), (double)got[i]);
    }
    ctx.transition(draws.size());
    ctx.validated(draws.size());
    ctx.outcome(lo == hi ? "single value" : "range");
}
MC_SCENARIO(random_reals)
{
    switch (ctx.choose(2, "type"))
    {
        case 0: reals<float>(ctx); break;
        default: reals<double>(ctx); break;
    }
}

// a distribution of the user is the one that is used, and keeps its state
template <class D>
static void distribution(mc::Ctx& ctx, D d, D same)
{
    std::vector<uint64_t> values{0, 1ull << 20, 0x3333333333333333ull, 0x8000000000000000ull, 0xC000000000000001ull, 0xF0F0F0F0F0F0F0F0ull};
    std::vector<uint64_t> script;
    for (int i = 0; i < 4; ++i)
        script.push_back(ctx.pick(values, "number"));
    int  n       = 1 + ctx.choose(4, "draws");
    bool by_args = ctx.flag("parameters given each time");
    auto run     = [&](auto&& one) {
        std::vector<double> r;
        mc_engine::script = script;
        mc_engine::used   = 0;
        for (int i = 0; i < n; ++i)
            r.push_back((double)one());
        r.push_back((double)mc_engine::used);
        return r;
    };
    std::mt19937_64 e;
    std::vector<double> got, want;
    if (by_args)
    {
        double a = 1.5, b = 2.5;
        if constexpr (std::is_constructible_v<D, double, double> && std::is_floating_point_v<typename D::result_type>)
        {
            got  = run([&] { return Random::generate<D>(a, b); });
            want = run([&] { D x{a, b}; return x(e); });
        }
        else
            ctx.prune();
    }
    else
    {
        got  = run([&] { return Random::generate(d); });
        want = run([&] { return same(e); });
    }
    for (int i = 0; i <= n; ++i)
        MC_CHECK(got[i] == want[i] || (std::isnan(got[i]) && std::isnan(want[i])), "distribution", i < n ? "draw %d is %g, the distribution gives %g" : "draw %d: the engine was asked %g times, the distribution asks %g", i, got[i], want[i]);
    ctx.transition(n);
    ctx.validated(n + 1);
    ctx.outcome(by_args ? "parameters" : "kept");
}
MC_SCENARIO(random_distributions)
{
    switch (ctx.choose(6, "distribution"))
    {
        case 0: distribution<std::normal_distribution<double>>(ctx, std::normal_distribution<double>{3, 2}, std::normal_distribution<double>{3, 2}); break;
        case 1: distribution<std::bernoulli_distribution>(ctx, std::bernoulli_distribution{0.3}, std::bernoulli_distribution{0.3}); break;
        case 2: distribution<std::uniform_int_distribution<int>>(ctx, std::uniform_int_distribution<int>{-3, 12}, std::uniform_int_distribution<int>{-3, 12}); break;
        case 3: distribution<std::exponential_distribution<double>>(ctx, std::exponential_distribution<double>{2}, std::exponential_distribution<double>{2}); break;
        case 4: distribution<std::uniform_real_distribution<double>>(ctx, std::uniform_real_distribution<double>{-1, 1}, std::uniform_real_distribution<double>{-1, 1}); break;
        default: distribution<std::discrete_distribution<int>>(ctx, std::discrete_distribution<int>{1, 2, 3}, std::discrete_distribution<int>{1, 2, 3}); break;
    }
}
