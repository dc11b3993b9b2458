// C28: matrix and vector algebra against its element-wise definition.
#include "Simu/math.hpp"
#include "mc.hpp"
using namespace simu;

namespace
{
template <class T, Uint32 m, Uint32 n>
Matrix<T, m, n> input(mc::Ctx& ctx, const std::vector<int>& vals, double scale = 1)
{
    Matrix<T, m, n> a{};
    for (Uint32 i = 0; i < m; ++i)
        for (Uint32 j = 0; j < n; ++j)
            a(i, j) = (T)(vals[ctx.choose((int)vals.size(), "entry")] * scale);
    return a;
}
// a matrix with all entries distinct, drawn from a family
template <class T, Uint32 m, Uint32 n>
Matrix<T, m, n> family(int k)
{
    Matrix<T, m, n> a{};
    for (Uint32 i = 0; i < m; ++i)
        for (Uint32 j = 0; j < n; ++j)
        {
            int v   = (int)((i * 7 + j * 3 + k * 5 + i * j * k) % 11) - 5;
            a(i, j) = (T)v;
        }
    return a;
}
#define EQ(a, b, key, ...)                                                     \
    do                                                                         \
    {                                                                          \
        double va_ = (double)(a), vb_ = (double)(b);                           \
        if (!(va_ == vb_))                                                     \
            ctx.fail(key, "%s: %.9g instead of %.9g", mc::fmt(__VA_ARGS__).c_str(), va_, vb_); \
        ctx.validated();                                                       \
    } while (0)

// entries are small integers: every result is exact
template <class T, class U, Uint32 m, Uint32 n>
void elementWise(mc::Ctx& ctx, const Matrix<T, m, n>& a, const Matrix<U, m, n>& b, U s)
{
    auto sum = a + b, dif = a - b;
    auto l = s * a, r = a * s;
    auto q  = a / (s == 0 ? (U)4 : s);
    auto pos = +a, neg = -a;
    auto t   = transpose(a);
    Matrix<T, m, n> ia{a}, da{a}, ma{a};
    ia += b;
    da -= b;
    ma *= s;
    auto rows = a.asRows();
    auto cols = a.asCols();
    auto fr   = Matrix<T, m, n>::fromRows(rows);
    auto fc   = Matrix<T, m, n>::fromCols(cols);
    auto eq = a == b, ne = a != b, lt = a < b, le = a <= b, gt = a > b, ge = a >= b;
    auto conj = lt && ne, disj = lt || eq, inv = !lt;
    bool allLt = true, anyLt = false, allEq = true, anyNe = false;
    Uint32 k = 0;
    for (Uint32 i = 0; i < m; ++i)
        for (Uint32 j = 0; j < n; ++j, ++k)
        {
            double x = (double)a(i, j), y = (double)b(i, j);
            EQ(a[i * n + j], x, "index", "element %d,%d by index", i, j);
            EQ(a.begin()[k], x, "iterate", "element %d,%d by iterator", i, j);
            EQ(sum(i, j), x + y, "add", "%g+%g", x, y);
            EQ(dif(i, j), x - y, "sub", "%g-%g", x, y);
            EQ(ia(i, j), x + y, "add-assign", "%g+=%g", x, y);
            EQ(da(i, j), x - y, "sub-assign", "%g-=%g", x, y);
            EQ(l(i, j), x * (double)s, "scale", "%g*%g", (double)s, x);
            EQ(r(i, j), x * (double)s, "scale", "%g*%g", x, (double)s);
            EQ(ma(i, j), x * (double)s, "scale-assign", "%g*=%g", x, (double)s);
            if constexpr (std::is_floating_point_v<U>)
                EQ(q(i, j), (double)((U)x / (s == 0 ? (U)4 : s)), "divide", "%g/%g", x, (double)s);
            EQ(pos(i, j), x, "plus", "+%g", x);
            EQ(neg(i, j), -x, "minus", "-%g", x);
            EQ(t(j, i), x, "transpose", "transposed %d,%d", i, j);
            EQ(rows[i][j], x, "rows", "row %d element %d", i, j);
            EQ(cols[j][i], x, "cols", "column %d element %d", j, i);
            EQ(fr(i, j), x, "fromRows", "from rows %d,%d", i, j);
            EQ(fc(i, j), x, "fromCols", "from columns %d,%d", i, j);
            EQ(eq(i, j), x == y, "eq", "%g==%g", x, y);
            EQ(ne(i, j), x != y, "ne", "%g!=%g", x, y);
            EQ(lt(i, j), x < y, "lt", "%g<%g", x, y);
            EQ(le(i, j), x <= y, "le", "%g<=%g", x, y);
            EQ(gt(i, j), x > y, "gt", "%g>%g", x, y);
            EQ(ge(i, j), x >= y, "ge", "%g>=%g", x, y);
            EQ(conj(i, j), x < y && x != y, "and", "and of %g %g", x, y);
            EQ(disj(i, j), x < y || x == y, "or", "or of %g %g", x, y);
            EQ(inv(i, j), !(x < y), "not", "not of %g<%g", x, y);
            allLt &= x < y;
            anyLt |= x < y;
            allEq &= x == y;
            anyNe |= x != y;
        }
    EQ(a.end() - a.begin(), m * n, "size", "number of elements");
    EQ(a.size(), m * n, "size", "size");
    EQ(all(lt), allLt, "all", "all less");
    EQ(any(lt), anyLt, "any", "any less");
    EQ(all(eq), allEq, "all", "all equal");
    EQ(any(ne), anyNe, "any", "any different");
    EQ(all(a == b), !any(a != b), "all", "all equal is not any different");
    ctx.outcome(allEq ? "equal" : allLt ? "less" : anyLt ? "mixed" : "other");
    // conversions
    Matrix<double, m, n> d{a};
    Matrix<float, m, n>  f{a};
    Matrix<Int32, m, n>  in{a};
    auto                 mn = std::min(a, a + a), mx = std::max(a, a + a), ab = std::abs(a);
    auto                 fil = Matrix<T, m, n>::filled((T)s);
    for (Uint32 i = 0; i < m * n; ++i)
    {
        double x = (double)a[i];
        EQ(d[i], x, "convert", "to double");
        EQ(f[i], x, "convert", "to float");
        EQ(in[i], std::trunc(x), "convert", "to int");
        EQ(mn[i], std::min(x, 2 * x), "min", "min of %g and %g", x, 2 * x);
        EQ(mx[i], std::max(x, 2 * x), "max", "max of %g and %g", x, 2 * x);
        EQ(ab[i], std::abs(x), "abs", "abs of %g", x);
        EQ(fil[i], (double)(T)s, "filled", "filled");
    }
}
template <class T, class U, Uint32 a, Uint32 b, Uint32 c>
void product(mc::Ctx& ctx, const Matrix<T, a, b>& x, const Matrix<U, b, c>& y)
{
    auto p = x * y;
    for (Uint32 i = 0; i < a; ++i)
        for (Uint32 j = 0; j < c; ++j)
        {
            double v = 0;
            for (Uint32 k = 0; k < b; ++k)
                v += (double)x(i, k) * (double)y(k, j);
            EQ(p(i, j), v, "product", "%dx%d by %dx%d at %d,%d", (int)a, (int)b, (int)b, (int)c, (int)i, (int)j);
        }
    auto t = transpose(y) * transpose(x);
    for (Uint32 i = 0; i < a; ++i)
        for (Uint32 j = 0; j < c; ++j)
            EQ(t(j, i), p(i, j), "product-transpose", "transposed product");
}
template <class T, Uint32 n>
void vectors(mc::Ctx& ctx, const Vector<T, n>& u, const Vector<T, n>& v)
{
    double d = 0, uu = 0, vv = 0;
    for (Uint32 i = 0; i < n; ++i)
    {
        d += (double)u[i] * (double)v[i];
        uu += (double)u[i] * (double)u[i];
        vv += (double)v[i] * (double)v[i];
    }
    EQ(dot(u, v), d, "dot", "dot");
    EQ(normSquared(u), uu, "normSquared", "squared norm");
    auto e = elementWiseMul(u, v);
    for (Uint32 i = 0; i < n; ++i)
        EQ(e[i], (double)u[i] * (double)v[i], "elementWiseMul", "element product");
    if constexpr (std::is_floating_point_v<T>)
    {
        MC_CHECK(std::abs((double)norm(u) - std::sqrt(uu)) <= 1e-6 * std::sqrt(uu), "norm", "norm %.9g instead of %.9g", (double)norm(u), std::sqrt(uu));
        if (uu > 0)
        {
            auto   w = normalized(u);
            double l = 0, c = 0;
            for (Uint32 i = 0; i < n; ++i)
            {
                l += (double)w[i] * (double)w[i];
                c += (double)w[i] * (double)u[i];
            }
            MC_CHECK(std::abs(std::sqrt(l) - 1) < 1e-6, "normalized", "length of the normalised vector is %.9g", std::sqrt(l));
            MC_CHECK(std::abs(c - std::sqrt(uu)) < 2e-6 * std::sqrt(uu), "normalized-direction", "the normalised vector points elsewhere");
        }
        if (vv > 0)
        {
            auto p = projection(u, v);
            for (Uint32 i = 0; i < n; ++i)
                MC_CHECK(std::abs((double)p[i] - (double)v[i] * d / vv) <= 1e-6 * (1 + std::abs((double)v[i] * d / vv)), "projection", "projection component %.9g instead of %.9g", (double)p[i], (double)v[i] * d / vv);
        }
    }
    if constexpr (n == 2)
    {
        EQ(cross(u, v), (double)u[0] * (double)v[1] - (double)u[1] * (double)v[0], "cross", "2d cross");
        auto p = perp(u), q = perp(u, true);
        EQ(p[0], -(double)u[1], "perp", "perp x");
        EQ(p[1], (double)u[0], "perp", "perp y");
        EQ(q[0], (double)u[1], "perp-clockwise", "clockwise perp x");
        EQ(q[1], -(double)u[0], "perp-clockwise", "clockwise perp y");
    }
    if constexpr (n == 3)
    {
        auto c = cross(u, v);
        for (int i = 0; i < 3; ++i)
        {
            int j = (i + 1) % 3, k = (i + 2) % 3;
            EQ(c[i], (double)u[j] * (double)v[k] - (double)u[k] * (double)v[j], "cross3", "3d cross component %d", i);
        }
    }
    ctx.outcome(d > 0 ? "acute" : d < 0 ? "obtuse" : "orthogonal");
}
const std::vector<int> three{0, 1, -1}, five{0, 1, -1, 2, -3};
} // namespace

MC_SCENARIO(elements)
{
    switch (ctx.choose(6, "shape"))
    {
        case 0:
        {
            auto  a = input<float, 2, 1>(ctx, five, 0.5);
            auto  b = input<float, 2, 1>(ctx, five, 0.5);
            elementWise(ctx, a, b, ctx.pick(std::vector<float>{0, 1, -2, 0.5f}, "s"));
            break;
        }
        case 1:
        {
            auto a = input<float, 2, 2>(ctx, three);
            auto b = input<float, 2, 2>(ctx, three);
            elementWise(ctx, a, b, ctx.pick(std::vector<float>{0, -2, 3}, "s"));
            break;
        }
        case 2:
        {
            auto a = input<Int32, 3, 1>(ctx, five);
            auto b = input<float, 3, 1>(ctx, three);
            elementWise(ctx, a, b, ctx.pick(std::vector<float>{0, -2}, "s"));
            break;
        }
        case 3:
        {
            auto a = input<float, 1, 3>(ctx, five);
            auto b = input<float, 1, 3>(ctx, three);
            elementWise(ctx, a, b, -2.f);
            break;
        }
        case 4:
        {
            auto a = input<double, 2, 1>(ctx, five, 0.25);
            auto b = input<Int32, 2, 1>(ctx, five);
            elementWise(ctx, a, b, ctx.pick(std::vector<Int32>{0, 3}, "s"));
            break;
        }
        default:
        {
            int k = ctx.choose(8, "a"), l = ctx.choose(8, "b");
            switch (ctx.choose(6, "big"))
            {
                case 0: elementWise(ctx, family<float, 2, 3>(k), family<float, 2, 3>(l), 2.f); break;
                case 1: elementWise(ctx, family<float, 3, 2>(k), family<float, 3, 2>(l), 2.f); break;
                case 2: elementWise(ctx, family<float, 3, 3>(k), family<float, 3, 3>(l), -0.5f); break;
                case 3: elementWise(ctx, family<float, 4, 4>(k), family<float, 4, 4>(l), 3.f); break;
                case 4: elementWise(ctx, family<float, 2, 6>(k), family<float, 2, 6>(l), 1.f); break;
                default: elementWise(ctx, family<Int32, 6, 6>(k), family<Int32, 6, 6>(l), 2); break;
            }
        }
    }
}
MC_SCENARIO(products)
{
    switch (ctx.choose(4, "shape"))
    {
        case 0:
        {
            auto a = input<float, 2, 2>(ctx, three);
            auto b = input<float, 2, 2>(ctx, three);
            product(ctx, a, b);
            break;
        }
        case 1:
        {
            auto a = input<float, 2, 3>(ctx, three);
            auto b = input<float, 3, 1>(ctx, three);
            product(ctx, a, b);
            break;
        }
        case 2:
        {
            auto a = input<Int32, 1, 3>(ctx, three);
            auto b = input<float, 3, 2>(ctx, three);
            product(ctx, a, b);
            break;
        }
        default:
        {
            int k = ctx.choose(12, "a"), l = ctx.choose(12, "b");
            product(ctx, family<float, 2, 6>(k), family<float, 6, 6>(l));
            product(ctx, family<float, 6, 6>(k), family<float, 6, 2>(l));
            product(ctx, family<float, 3, 3>(k), family<float, 3, 3>(l));
            product(ctx, family<float, 4, 4>(k), family<float, 4, 1>(l));
            product(ctx, family<float, 3, 1>(k), family<float, 1, 5>(l));
            product(ctx, family<float, 1, 6>(k), family<float, 6, 1>(l));
        }
    }
    ctx.outcome("product");
}
MC_SCENARIO(vectors2)
{
    double sc = ctx.pick(std::vector<double>{1, 0.125, 4096}, "scale");
    const std::vector<int> v{0, 1, -1, 2, -3, 5, 7};
    if (ctx.flag("int"))
        vectors<Int32, 2>(ctx, input<Int32, 2, 1>(ctx, v), input<Int32, 2, 1>(ctx, v));
    else
        vectors<float, 2>(ctx, input<float, 2, 1>(ctx, v, sc), input<float, 2, 1>(ctx, v, sc));
}
MC_SCENARIO(vectors34)
{
    if (ctx.flag("four"))
        vectors<float, 4>(ctx, input<float, 4, 1>(ctx, three), input<float, 4, 1>(ctx, three));
    else
        vectors<float, 3>(ctx, input<float, 3, 1>(ctx, five), input<float, 3, 1>(ctx, five));
}
MC_SCENARIO(factories)
{
    int n = 2 + ctx.choose(3, "n");
    int k = ctx.choose(8, "family");
    auto run = [&](auto dim) {
        constexpr Uint32 N = decltype(dim)::value;
        auto             I = Matrix<float, N, N>::identity();
        auto             e = family<float, N, 1>(k);
        auto             D = Matrix<float, N, N>::diagonal(e);
        auto             A = family<float, N, N>(k);
        for (Uint32 i = 0; i < N; ++i)
            for (Uint32 j = 0; j < N; ++j)
            {
                EQ(I(i, j), i == j, "identity", "identity %d,%d", (int)i, (int)j);
                EQ(D(i, j), i == j ? e[i] : 0, "diagonal", "diagonal %d,%d", (int)i, (int)j);
                EQ((I * A)(i, j), A(i, j), "identity-product", "I A");
            }
        auto ui = Vector<float, N>::i(), uj = Vector<float, N>::j(), uk = Vector<float, N>::k(), uw = Vector<float, N>::w();
        for (Uint32 i = 0; i < N; ++i)
        {
            EQ(ui[i], i == 0, "unit", "i");
            EQ(uj[i], i == 1, "unit", "j");
            EQ(uk[i], i == 2, "unit", "k");
            EQ(uw[i], i == 3, "unit", "w");
        }
        auto rounded = std::round(A / 4.f);
        for (Uint32 i = 0; i < N * N; ++i)
            EQ(rounded[i], std::round(A[i] / 4), "round", "round");
        auto B = Matrix<float, N, N>::fromRows(A.asCols());
        auto C = Matrix<float, N, N>::fromCols(A.asRows());
        for (Uint32 i = 0; i < N; ++i)
            for (Uint32 j = 0; j < N; ++j)
            {
                EQ(B(i, j), A(j, i), "fromRows", "from rows");
                EQ(C(i, j), A(j, i), "fromCols", "from columns");
            }
    };
    if (n == 2)
        run(std::integral_constant<Uint32, 2>{});
    else if (n == 3)
        run(std::integral_constant<Uint32, 3>{});
    else
        run(std::integral_constant<Uint32, 4>{});
    Mat2 R = Mat2::fromRows({Vec2{1, 2}, Vec2{3, (float)k}});
    Mat2 C = Mat2::fromCols({Vec2{1, 2}, Vec2{3, (float)k}});
    EQ(R(0, 0), 1, "fromRows", "list");
    EQ(R(0, 1), 2, "fromRows", "list");
    EQ(R(1, 0), 3, "fromRows", "list");
    EQ(R(1, 1), k, "fromRows", "list");
    EQ(C(0, 0), 1, "fromCols", "list");
    EQ(C(1, 0), 2, "fromCols", "list");
    EQ(C(0, 1), 3, "fromCols", "list");
    EQ(C(1, 1), k, "fromCols", "list");
    // wrong number of elements
    for (int c = 0; c < 3; ++c)
    {
        bool threw = false;
        try
        {
            if (c == 0)
                Vec2{std::initializer_list<float>{1}};
            else if (c == 1)
                Mat2{std::initializer_list<float>{1, 2, 3}};
            else
                Vec2{std::initializer_list<float>{1, 2, 3}};
        }
        catch (const simu::Exception&)
        {
            threw = true;
        }
        MC_CHECK(threw, "list-size", "an initializer list of the wrong size is accepted (%d)", c);
    }
    ctx.outcome("factory");
}
