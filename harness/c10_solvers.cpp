// C10: linear, inequality and complementarity solvers.
#include "Simu/math.hpp"
#include "mc.hpp"
#include <algorithm>
#include <array>
using namespace simu;

namespace
{
typedef std::vector<std::vector<double>> M;

double det(M a)
{
    int    n = (int)a.size();
    double d = 1;
    for (int c = 0; c < n; ++c)
    {
        int p = c;
        for (int r = c + 1; r < n; ++r)
            if (std::abs(a[r][c]) > std::abs(a[p][c]))
                p = r;
        if (a[p][c] == 0)
            return 0;
        if (p != c)
        {
            std::swap(a[p], a[c]);
            d = -d;
        }
        d *= a[c][c];
        for (int r = c + 1; r < n; ++r)
        {
            double k = a[r][c] / a[c][c];
            for (int j = c; j < n; ++j)
                a[r][j] -= k * a[c][j];
        }
    }
    return d;
}
// exact for small integers
long long idet(std::vector<std::vector<long long>> a)
{
    int       n = (int)a.size();
    long long prev = 1, sign = 1;
    for (int k = 0; k < n - 1; ++k)
    {
        if (a[k][k] == 0)
        {
            int p = k + 1;
            while (p < n && a[p][k] == 0)
                ++p;
            if (p == n)
                return 0;
            std::swap(a[k], a[p]);
            sign = -sign;
        }
        for (int i = k + 1; i < n; ++i)
            for (int j = k + 1; j < n; ++j)
                a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev;
        prev = a[k][k];
    }
    return sign * a[n - 1][n - 1];
}
M inverse(M a)
{
    int n = (int)a.size();
    M   b(n, std::vector<double>(n, 0));
    for (int i = 0; i < n; ++i)
        b[i][i] = 1;
    for (int c = 0; c < n; ++c)
    {
        int p = c;
        for (int r = c + 1; r < n; ++r)
            if (std::abs(a[r][c]) > std::abs(a[p][c]))
                p = r;
        std::swap(a[p], a[c]);
        std::swap(b[p], b[c]);
        double k = a[c][c];
        for (int j = 0; j < n; ++j)
        {
            a[c][j] /= k;
            b[c][j] /= k;
        }
        for (int r = 0; r < n; ++r)
            if (r != c && a[r][c] != 0)
            {
                double f = a[r][c];
                for (int j = 0; j < n; ++j)
                {
                    a[r][j] -= f * a[c][j];
                    b[r][j] -= f * b[c][j];
                }
            }
    }
    return b;
}
double maxAbs(const M& a)
{
    double m = 0;
    for (auto& r : a)
        for (double x : r)
            m = std::max(m, std::abs(x));
    return m;
}
template <class T, Uint32 n>
std::string show(const Matrix<T, n, n>& a)
{
    std::string s = "[";
    for (Uint32 i = 0; i < n; ++i)
    {
        for (Uint32 j = 0; j < n; ++j)
            s += mc::fmt(j ? " %g" : "%g", (double)a(i, j));
        s += i + 1 < n ? "; " : "]";
    }
    return s;
}

template <class T, Uint32 n>
void checkSystem(mc::Ctx& ctx, const std::vector<std::vector<long long>>& ia, double scale)
{
    Matrix<T, n, n> A{};
    M               ref(n, std::vector<double>(n));
    for (Uint32 i = 0; i < n; ++i)
        for (Uint32 j = 0; j < n; ++j)
        {
            A(i, j)   = (T)(ia[i][j] * scale);
            ref[i][j] = ia[i][j] * scale;
        }
    long long    d = idet(ia);
    Solver<T, n> s{A};
    if (d == 0)
    {
        ctx.outcome("singular");
        MC_CHECK(!s.isValid(), "singular-accepted", "n=%d: the singular matrix %s is reported valid", (int)n, show(A).c_str());
        bool threw = false;
        try
        {
            s.solve(Vector<T, n>::filled(1));
        }
        catch (const simu::Exception&)
        {
            threw = true;
        }
        MC_CHECK(threw, "singular-solved", "n=%d: solving with the singular matrix %s is not rejected", (int)n, show(A).c_str());
        threw = false;
        try
        {
            invert(A);
        }
        catch (const simu::Exception&)
        {
            threw = true;
        }
        MC_CHECK(threw, "singular-inverted", "n=%d: inverting the singular matrix %s is not rejected", (int)n, show(A).c_str());
        ctx.validated(3);
        return;
    }
    ctx.outcome("regular");
    M      inv  = inverse(ref);
    double cond = maxAbs(inv) * maxAbs(ref) * n;
    MC_CHECK(s.isValid(), "regular-rejected", "n=%d: the regular matrix %s is reported invalid", (int)n, show(A).c_str());
    double eps = std::is_same_v<T, float> ? 1e-6 : 1e-14;
    // right hand sides: the canonical ones and a few others
    std::vector<std::vector<double>> bs;
    for (Uint32 k = 0; k < n; ++k)
    {
        bs.push_back(std::vector<double>(n, 0));
        bs.back()[k] = 1;
    }
    bs.push_back({});
    for (Uint32 k = 0; k < n; ++k)
        bs.back().push_back(k % 2 ? -3.0 : 2.0 + k);
    bs.push_back(std::vector<double>(n, 0));
    bs.push_back(std::vector<double>(n, 100));
    Matrix<T, n, n> I = invert(A);
    for (auto& b : bs)
    {
        Vector<T, n> bv{};
        double       bn = 0;
        for (Uint32 k = 0; k < n; ++k)
        {
            bv[k] = (T)b[k];
            bn    = std::max(bn, std::abs(b[k]));
        }
        Vector<T, n> x1 = solve(A, bv), x2 = s.solve(bv), x3 = I * bv;
        for (Uint32 k = 0; k < n; ++k)
        {
            double x = 0;
            for (Uint32 j = 0; j < n; ++j)
                x += inv[k][j] * b[j];
            double tol = 20 * eps * cond * maxAbs(inv) * bn * n + 1e-30;
            MC_CHECK(std::abs(x1[k] - x) <= tol, "solve", "n=%d: solve of %s gives x%d=%.9g instead of %.9g", (int)n, show(A).c_str(), (int)k, (double)x1[k], x);
            MC_CHECK(std::abs(x2[k] - x) <= tol, "solver", "n=%d: solver of %s gives x%d=%.9g instead of %.9g", (int)n, show(A).c_str(), (int)k, (double)x2[k], x);
            MC_CHECK(std::abs(x3[k] - x) <= tol * n, "invert", "n=%d: inverse of %s gives x%d=%.9g instead of %.9g", (int)n, show(A).c_str(), (int)k, (double)x3[k], x);
            ctx.validated(3);
        }
    }
    Matrix<T, n, n> O = s.original();
    for (Uint32 i = 0; i < n; ++i)
        for (Uint32 j = 0; j < n; ++j)
            MC_CHECK(std::abs(O(i, j) - ref[i][j]) <= 20 * eps * maxAbs(ref) * n, "original", "n=%d: the original of the solver of %s has %.9g at %d,%d", (int)n, show(A).c_str(), (double)O(i, j), (int)i, (int)j);
}

template <Uint32 n>
std::vector<std::vector<long long>> entries(mc::Ctx& ctx, const std::vector<int>& vals, bool symmetric = false)
{
    std::vector<std::vector<long long>> a(n, std::vector<long long>(n));
    for (Uint32 i = 0; i < n; ++i)
        for (Uint32 j = symmetric ? i : 0; j < n; ++j)
        {
            a[i][j] = vals[ctx.choose((int)vals.size(), "entry")];
            if (symmetric)
                a[j][i] = a[i][j];
        }
    return a;
}
const std::vector<double> scales{1, 0.5, 1024, 1.0 / 4096};
} // namespace

MC_SCENARIO(system1)
{
    double sc = ctx.pick(scales, "scale");
    auto   a  = entries<1>(ctx, {0, 1, -1, 2, -2, 3, -7});
    checkSystem<float, 1>(ctx, a, sc);
}
MC_SCENARIO(system2)
{
    double sc = ctx.pick(scales, "scale");
    auto   a  = entries<2>(ctx, {0, 1, -1, 2, -2, 3, 7});
    if (ctx.flag("double"))
        checkSystem<double, 2>(ctx, a, sc);
    else
        checkSystem<float, 2>(ctx, a, sc);
}
MC_SCENARIO(system3)
{
    double sc = ctx.thorough ? ctx.pick(scales, "scale") : 1;
    auto   a  = entries<3>(ctx, ctx.thorough ? std::vector<int>{0, 1, -1, 2} : std::vector<int>{0, 1, -1});
    if (ctx.flag("double"))
        checkSystem<double, 3>(ctx, a, sc);
    else
        checkSystem<float, 3>(ctx, a, sc);
}
MC_SCENARIO(system3sym)
{
    double sc = ctx.pick(scales, "scale");
    auto   a  = entries<3>(ctx, {0, 1, -1, 2, 3}, true);
    checkSystem<float, 3>(ctx, a, sc);
}
MC_SCENARIO(system4)
{
    if (ctx.flag("symmetric"))
        checkSystem<float, 4>(ctx, entries<4>(ctx, {0, 1, -1}, true), 1);
    else
        checkSystem<float, 4>(ctx, entries<4>(ctx, {0, 1}), 1);
}
MC_SCENARIO(system5and6)
{
    // banded matrices with every choice of the band values
    int                                 n = 5 + ctx.choose(2, "n");
    std::vector<std::vector<long long>> a(n, std::vector<long long>(n, 0));
    std::vector<int>                    v{1, -1, 2, 0};
    for (int i = 0; i < n; ++i)
        a[i][i] = v[ctx.choose(ctx.tier(3, 4), "diag")];
    int up = ctx.choose(3, "up") - 1, low = ctx.choose(3, "low") - 1, far = ctx.choose(2, "far");
    for (int i = 0; i + 1 < n; ++i)
    {
        a[i][i + 1] = up;
        a[i + 1][i] = low;
    }
    a[0][n - 1] = far;
    // exchanging rows keeps the system equivalent but changes the order of elimination
    int perm = ctx.choose(3, "rows");
    if (perm == 1)
        std::reverse(a.begin(), a.end());
    if (perm == 2)
        std::rotate(a.begin(), a.begin() + 2, a.end());
    if (n == 5)
        checkSystem<float, 5>(ctx, a, 1);
    else
        checkSystem<float, 6>(ctx, a, 1);
}

// ---------------------------------------------------------------- complementarity
namespace
{
struct Spd
{
    double a, b, d;
};
std::vector<Spd> spds()
{
    // effective masses of two point contacts: m + I r1 r2
    std::vector<Spd> v;
    for (double m : {0.1, 1.0, 3.7})
        for (double I : {0.3, 1.0, 6.0})
            for (auto [r1, r2] : std::vector<std::pair<double, double>>{{-0.5, 0.5}, {-1, 2}, {0, 1}, {0.3, 0.7}, {-0.1, 2}, {2, 3}})
                v.push_back({m + I * r1 * r1, m + I * r1 * r2, m + I * r2 * r2});
    for (auto s : std::vector<Spd>{{1, 0, 1}, {2, 1, 2}, {2, -1, 2}, {3, 1, 7}, {0.1, 0.03, 0.2}, {10, 9, 10}, {1, -0.9, 1}})
        v.push_back(s);
    return v;
}
} // namespace
MC_SCENARIO(lcp)
{
    static const auto mats = spds();
    const Spd&        s    = mats[ctx.choose((int)mats.size(), "matrix")];
    double            sc   = ctx.pick(std::vector<double>{1, 0.01, 100}, "scale");
    Mat2              A{(float)(s.a * sc), (float)(s.b * sc), (float)(s.b * sc), (float)(s.d * sc)};
    // right hand sides: a grid, and the images of solutions on and next to the boundary
    Vec2 b;
    int  mode = ctx.choose(2, "mode");
    if (mode == 0)
    {
        const std::vector<float> g{0, 1, -1, 0.1f, -0.1f, 0.37f, -2.9f, 7, 1e-3f, -1e-3f, 1000};
        b = Vec2{ctx.pick(g, "b0"), ctx.pick(g, "b1")};
    }
    else
    {
        const std::vector<float> g{0.1f, 0.3f, 1, 3.3f, 0.017f, 9.81f, 123.4f, 0.7f, 0.2f, 5.f / 3};
        float                    x  = ctx.pick(g, "x");
        float                    y  = ctx.pick(std::vector<float>{0, 1e-7f, 1e-6f, 1e-4f}, "y");
        bool                     second = ctx.flag("second");
        Vec2                     sol{second ? y : x, second ? x : y};
        float                    r = ctx.pick(std::vector<float>{0, -1e-7f, 1e-7f, -1e-3f}, "residual");
        b                          = A * sol;
        b[second ? 0 : 1] += r * std::abs(b[second ? 0 : 1]);
        ctx.outcome("boundary");
    }
    LcpSolver<float> solver{A};
    MC_CHECK(solver.isValid(), "lcp-valid", "a regular matrix %s is reported invalid", show(A).c_str());
    double scale = std::max({std::abs((double)b[0]), std::abs((double)b[1]), 1e-9});
    for (int way = 0; way < 2; ++way)
    {
        Vec2   x  = way ? solveLcp(A, b) : solver.solve(b);
        double r0 = (double)A(0, 0) * x[0] + (double)A(0, 1) * x[1] - b[0], r1 = (double)A(1, 0) * x[0] + (double)A(1, 1) * x[1] - b[1];
        double k   = (double)A(0, 0) * A(1, 1) / std::max(1e-30, (double)A(0, 0) * A(1, 1) - (double)A(0, 1) * A(1, 0));
        double tol = 3e-6 * scale * k;
        MC_CHECK(x[0] >= 0 && x[1] >= 0, "lcp-negative", "A=%s b=(%.9g,%.9g): solution (%.9g,%.9g) is negative", show(A).c_str(), b[0], b[1], x[0], x[1]);
        MC_CHECK(r0 >= -tol && r1 >= -tol, "lcp-residual", "A=%s b=(%.9g,%.9g): the solution (%.9g,%.9g) leaves the residuals %.4g %.4g", show(A).c_str(), b[0], b[1], x[0], x[1], r0, r1);
        MC_CHECK((x[0] == 0 || std::abs(r0) <= tol) && (x[1] == 0 || std::abs(r1) <= tol), "lcp-complementary", "A=%s b=(%.9g,%.9g): the solution (%.9g,%.9g) is not complementary to its residuals %.4g %.4g", show(A).c_str(), b[0], b[1], x[0], x[1], r0, r1);
        ctx.outcome(x[0] > 0 ? x[1] > 0 ? "both" : "first" : x[1] > 0 ? "second" : "none");
        ctx.validated(3);
    }
    Mat2 O = solver.original();
    for (int i = 0; i < 4; ++i)
        MC_CHECK(std::abs(O[i] - A[i]) <= 1e-6 * std::abs(A[i]), "lcp-original", "the original of the solver differs from %s", show(A).c_str());
}
MC_SCENARIO(lcpInvalid)
{
    const std::vector<float> g{0, 1, -1, 2, 4};
    Mat2                     A{ctx.pick(g, "a"), ctx.pick(g, "b"), ctx.pick(g, "c"), ctx.pick(g, "d")};
    bool                     ok = A(0, 0) * A(1, 1) != A(0, 1) * A(1, 0) && A(0, 0) != 0 && A(1, 1) != 0;
    LcpSolver<float>         s{A};
    MC_CHECK(s.isValid() == ok, "lcp-valid", "validity of %s is reported as %d", show(A).c_str(), (int)s.isValid());
    ctx.outcome(ok ? "valid" : "invalid");
    if (!ok)
    {
        bool threw = false;
        try
        {
            s.solve(Vec2{1, 1});
        }
        catch (const simu::Exception&)
        {
            threw = true;
        }
        MC_CHECK(threw, "lcp-invalid-solved", "solving with the invalid matrix %s is not rejected", show(A).c_str());
    }
}

// ---------------------------------------------------------------- projected Gauss-Seidel
namespace
{
template <Uint32 n>
void pgs(mc::Ctx& ctx, const Matrix<float, n, n>& A, const Vector<float, n>& b, float lo, float hi, const Vector<float, n>& guess, bool rowWise)
{
    uint64_t calls = 0;
    auto     count = [&] {
        if (++calls > 3000000)
            ctx.fail("pgs-endless", "n=%d A=%s b=(%.9g,%.9g..) limits [%g,%g]: no convergence after %d projections", (int)n, show(A).c_str(), b[0], b[n - 1], lo, hi, (int)calls);
    };
    Vector<float, n> x;
    if (rowWise)
        x = solveInequalities(
            A, b,
            [&](const Vector<float, n>& v, Uint32 i) {
                count();
                return std::min(std::max(v[i], lo), hi);
            },
            guess
        );
    else
        x = solveInequalities(
            A, b,
            [&](Vector<float, n> v) {
                count();
                for (auto& e : v)
                    e = std::min(std::max(e, lo), hi);
                return v;
            },
            guess
        );
    double scale = 1e-6;
    M      ref(n, std::vector<double>(n));
    for (Uint32 i = 0; i < n; ++i)
    {
        scale = std::max(scale, (double)std::abs(b[i]));
        for (Uint32 j = 0; j < n; ++j)
            ref[i][j] = A(i, j);
    }
    double cond = maxAbs(inverse(ref)) * maxAbs(ref) * n;
    for (Uint32 i = 0; i < n; ++i)
    {
        double r = -(double)b[i];
        for (Uint32 j = 0; j < n; ++j)
            r += (double)A(i, j) * x[j];
        double tol = (2e-5 * scale + 2e-5 * maxAbs(ref)) * cond;
        MC_CHECK(x[i] >= lo && x[i] <= hi, "pgs-bounds", "n=%d A=%s: x%d=%.9g is out of [%g,%g]", (int)n, show(A).c_str(), (int)i, x[i], lo, hi);
        if (x[i] > lo && x[i] < hi)
            MC_CHECK(std::abs(r) <= tol, "pgs-residual", "n=%d A=%s: x%d=%.9g is free but its residual is %.5g", (int)n, show(A).c_str(), (int)i, x[i], r);
        else if (x[i] == lo && lo < hi)
            MC_CHECK(r >= -tol, "pgs-lower", "n=%d A=%s: x%d=%.9g is at its lower bound but its residual is %.5g", (int)n, show(A).c_str(), (int)i, x[i], r);
        else if (lo < hi)
            MC_CHECK(r <= tol, "pgs-upper", "n=%d A=%s: x%d=%.9g is at its upper bound but its residual is %.5g", (int)n, show(A).c_str(), (int)i, x[i], r);
        ctx.outcome(x[i] == lo ? "lower" : x[i] == hi ? "upper" : "free");
        ctx.validated();
    }
}
} // namespace
MC_SCENARIO(inequalities2)
{
    static const auto mats = spds();
    const Spd&        s    = mats[ctx.choose((int)mats.size(), "matrix")];
    double            sc   = ctx.pick(std::vector<double>{1, 0.01}, "scale");
    Mat2              A{(float)(s.a * sc), (float)(s.b * sc), (float)(s.b * sc), (float)(s.d * sc)};
    const std::vector<float> g{0, 1, -1, 0.1f, -0.37f, 7, 100};
    Vec2  b{ctx.pick(g, "b0"), ctx.pick(g, "b1")};
    auto  lim = ctx.pick(std::vector<std::pair<float, float>>{{0, INFINITY}, {-INFINITY, INFINITY}, {-1, 1}, {0, 0.5f}}, "limits");
    Vec2  guess = ctx.pick(std::vector<Vec2>{Vec2{0, 0}, Vec2{1, -2}, Vec2{50, 50}}, "guess");
    pgs<2>(ctx, A, b, lim.first, lim.second, guess, ctx.flag("rowWise"));
}
MC_SCENARIO(inequalities3)
{
    // A = diagonal dominance over every sign pattern of the coupling
    const std::vector<float> off{0, 1, -1, 0.5f};
    const std::vector<float> dg{2.5f, 4};
    float                    p = ctx.pick(off, "p"), q = ctx.pick(off, "q"), r = ctx.pick(off, "r");
    Mat3                     A{ctx.pick(dg, "d0"), p, q, p, ctx.pick(dg, "d1"), r, q, r, 3};
    const std::vector<float> g{0, 1, -1, 7.3f};
    Vec3                     b{ctx.pick(g, "b0"), ctx.pick(g, "b1"), ctx.pick(g, "b2")};
    auto                     lim = ctx.pick(std::vector<std::pair<float, float>>{{0, INFINITY}, {-1, 1}}, "limits");
    pgs<3>(ctx, A, b, lim.first, lim.second, ctx.flag("guess") ? Vec3{3, -1, 0.2f} : Vec3{}, ctx.flag("rowWise"));
}
MC_SCENARIO(inequalities2nonsymmetric)
{
    // the coupling of the rows differs; the diagonal dominates
    const std::vector<float> off{0, 1, -1, 0.5f, -0.25f};
    Mat2                     A{ctx.pick(std::vector<float>{1.5f, 4}, "d0"), ctx.pick(off, "a01"), ctx.pick(off, "a10"), 2};
    const std::vector<float> g{0, 1, -1, 7.3f};
    Vec2                     b{ctx.pick(g, "b0"), ctx.pick(g, "b1")};
    auto                     lim = ctx.pick(std::vector<std::pair<float, float>>{{0, INFINITY}, {-INFINITY, INFINITY}, {-1, 1}}, "limits");
    pgs<2>(ctx, A, b, lim.first, lim.second, ctx.flag("guess") ? Vec2{3, -1} : Vec2{}, ctx.flag("rowWise"));
}
MC_SCENARIO(inequalities3nonsymmetric)
{
    const std::vector<float> off = ctx.thorough ? std::vector<float>{0, 1, -1, 0.5f} : std::vector<float>{0, 1, -1};
    Mat3                     A{};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            A(i, j) = i == j ? 2.5f + i : ctx.pick(off, "coupling");
    Vec3 b = ctx.pick(std::vector<Vec3>{Vec3{1, -2, 3}, Vec3{-1, 7, 0.5f}, Vec3{0, 0, -4}}, "b");
    auto lim = ctx.pick(std::vector<std::pair<float, float>>{{0, INFINITY}, {-1, 1}}, "limits");
    pgs<3>(ctx, A, b, lim.first, lim.second, Vec3{}, ctx.flag("rowWise"));
}
MC_SCENARIO(inequalities1)
{
    Matrix<float, 1, 1>      A{ctx.pick(std::vector<float>{1, 0.1f, 1000}, "a")};
    Vector<float, 1>         b{ctx.pick(std::vector<float>{0, 1, -1, 1e5f, -1e5f, 0.3f}, "b")};
    auto                     lim = ctx.pick(std::vector<std::pair<float, float>>{{0, INFINITY}, {-1, 1}, {-INFINITY, INFINITY}}, "limits");
    pgs<1>(ctx, A, b, lim.first, lim.second, Vector<float, 1>{ctx.pick(std::vector<float>{0, 5, -9}, "guess")}, ctx.flag("rowWise"));
}
