#pragma once
#include "geo_model.hpp"

using namespace simu;
using geo::P;
using geo::Poly;

inline const std::vector<Poly>& latticeShapes(int g, bool quads)
{
    static std::map<std::pair<int, bool>, std::vector<Poly>> cache;
    auto&                                                   c = cache[{g, quads}];
    if (c.empty())
    {
        c = geo::latticeConvex(g, 3);
        if (quads)
            for (auto& q : geo::latticeConvex(g, 4))
                c.push_back(q);
    }
    return c;
}
// shapes whose vertex lists are unusual: collinear or repeated runs, many vertices, slivers
inline const std::vector<Poly>& oddShapes()
{
    static const std::vector<Poly> s{
        {{0, 0}, {1, 0}, {2, 0}, {2, 2}, {0, 2}},                          // collinear vertex
        {{0, 0}, {1, 0}, {2, 0}, {2, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}},  // all midpoints
        {{0, 0}, {4, 0}, {4, 1}, {0, 1}},
        {{0, 0}, {8, 0}, {8, 0.0078125}},                                  // sliver
        {{0, 0}, {1, 0}, {2, 1}, {2, 2}, {1, 3}, {0, 3}, {-1, 2}, {-1, 1}} // octagon
    };
    return s;
}
inline const std::vector<P>& searchDirs()
{
    static const std::vector<P> d{{1, 0}, {0, 0}, {-1, 2}, {0, -1}, {-3, -1}, {0.001, 0.5}};
    return d;
}
inline Poly shifted(const Poly& p, P t)
{
    Poly q = p;
    for (auto& v : q)
        v = v + t;
    return q;
}
// calls f(A, B, dir, exact) for each configuration of the scenario
struct Config
{
    Poly   a, b;
    P      dir;
    bool   exact; // all coordinates are small integers: no rounding anywhere
    double tol;   // absolute tolerance, from the magnitude of the coordinates
};

inline Config latticeConfig(mc::Ctx& ctx)
{
    auto& tri   = latticeShapes(3, true);
    auto& small = latticeShapes(ctx.thorough ? 4 : 3, ctx.thorough);
    Config c;
    c.a = tri[ctx.choose((int)tri.size(), "first shape")];
    c.b = small[ctx.choose((int)small.size(), "second shape")];
    int r = 3;
    int dx = ctx.choose(2 * r + 1, "dx") - r, dy = ctx.choose(2 * r + 1, "dy") - r;
    c.b   = shifted(c.b, {(double)dx, (double)dy});
    int k = ctx.choose((int)c.a.size(), "first vertex");
    std::rotate(c.a.begin(), c.a.begin() + k, c.a.end());
    c.dir   = searchDirs()[ctx.choose(ctx.tier(4, 6), "search direction")];
    c.exact = true;
    c.tol   = 2e-5;
    return c;
}
inline Config oddConfig(mc::Ctx& ctx)
{
    auto&  odd = oddShapes();
    auto&  oth = latticeShapes(3, true);
    Config c;
    c.a   = odd[ctx.choose((int)odd.size(), "first shape")];
    int j = ctx.choose((int)(odd.size() + oth.size()), "second shape");
    c.b   = j < (int)odd.size() ? odd[j] : oth[j - odd.size()];
    int r = 9;
    int dx = ctx.choose(2 * r + 1, "dx") - r, dy = ctx.choose(11, "dy") - 5;
    double half = ctx.flag("half offset") ? 0.5 : 0;
    c.b   = shifted(c.b, {dx + half, dy + half});
    c.dir = searchDirs()[ctx.choose(ctx.tier(3, 6), "search direction")];
    if (ctx.flag("swap"))
        std::swap(c.a, c.b);
    c.exact = true;
    c.tol   = 1e-4;
    return c;
}
// rotated, scaled and far away shapes: coordinates are rounded
inline Config realConfig(mc::Ctx& ctx)
{
    static const std::vector<Poly> base{geo::box(1, 1), geo::box(2, 0.5), geo::regular(3, 1, 0.2), geo::regular(5, 0.8, 0),
                                        geo::regular(12, 1.1, 0.3), {{0, 0}, {1, 0.1}, {0.2, 0.9}}, {{0, 0}, {3, 0}, {3.5, 0.2}, {0.1, 0.3}}};
    static const double angles[]{0, 0.1, M_PI / 4, 1.3, M_PI / 2, 2.9, -0.7};
    static const double scales[]{1, 0.01, 30, 0.3};
    static const P      far[]{{0, 0}, {10.3, -7.7}, {300, 100}};
    int    nb = 7, na = ctx.tier(6, 7);
    Poly   a0 = base[ctx.choose(nb, "first shape")], b0 = base[ctx.choose(nb, "second shape")];
    double ta = angles[ctx.choose(na, "first angle")], tb = angles[ctx.choose(na, "second angle")];
    double s  = scales[ctx.choose(ctx.tier(2, 4), "scale")];
    P      f  = far[ctx.choose(ctx.tier(2, 3), "place")];
    int    n  = ctx.tier(9, 11);
    double step = 4.4 / (n - 1);
    P      off{-2.2 + step * ctx.choose(n, "dx"), -2.2 + step * ctx.choose(n, "dy")};
    Config c;
    c.a     = geo::fromGeo(geo::toVertices(geo::place(a0, ta, f, s)));
    c.b     = geo::fromGeo(geo::toVertices(geo::place(b0, tb, f + off * s, s)));
    c.dir   = ctx.flag("search direction") ? P{-1, 2} : P{1, 0};
    c.exact = false;
    c.tol   = 4e-6 * (geo::sizeOf(c.a) + geo::sizeOf(c.b)) + 2e-5 * s;
    return c;
}
// shapes that touch or nearly touch along edges and at corners, after rotation
inline Config touchingConfig(mc::Ctx& ctx)
{
    static const double angles[]{0, M_PI / 2, M_PI / 4, 0.3, 1.0, 2.2, -1.1, 0.05};
    static const double gaps[]{0, 1e-7, -1e-7, 1e-4, -1e-4, 1e-2, -1e-2, -0.2, 0.3};
    static const double slide[]{0, 0.25, 0.5, 1, 1.5, -0.75, 2};
    double t = angles[ctx.choose(8, "angle")], g = gaps[ctx.choose(9, "gap")], sl = slide[ctx.choose(7, "slide")];
    int    kind = ctx.choose(4, "shapes");
    Poly   a0 = kind == 1 ? geo::regular(3, 1, -M_PI / 2 + M_PI / 3) : kind == 3 ? geo::regular(6, 1, 0) : geo::box(2, 1);
    Poly   b0 = kind == 2 ? geo::regular(4, 1, 0) : geo::box(1, 1);
    double top = -1e9, bot = 1e9;
    for (auto& v : a0)
        top = std::max(top, v.y);
    for (auto& v : b0)
        bot = std::min(bot, v.y);
    P    at = ctx.flag("far") ? P{20.5, -3.25} : P{0, 0};
    Poly b1 = shifted(b0, {sl, top - bot + g});
    Config c;
    c.a     = geo::fromGeo(geo::toVertices(geo::place(a0, t, at)));
    c.b     = geo::fromGeo(geo::toVertices(geo::place(b1, t, at)));
    c.dir   = searchDirs()[ctx.choose(6, "search direction")];
    if (ctx.flag("swap"))
        std::swap(c.a, c.b);
    c.exact = false;
    c.tol   = 4e-6 * (geo::sizeOf(c.a) + geo::sizeOf(c.b)) + 2e-5;
    return c;
}
// round shapes of many corners, flattened or not, that barely or deeply overlap: the search takes its longest
inline Config manyConfig(mc::Ctx& ctx)
{
    static const int    corners[]{24, 48, 100};
    static const double flat[]{1, 0.1, 6}, reach[]{0.3, 0.9, 0.97, 0.99, 0.997, 1.003, 1.02, 1.3}, second[]{1, 0.25};
    int    n = corners[ctx.choose(3, "corners of the first")], m = corners[ctx.choose(3, "corners of the second")];
    double sy = flat[ctx.choose(3, "flattening")], rb = second[ctx.choose(2, "size of the second")];
    int    nt = ctx.tier(10, 24);
    double th = 0.17 + 2 * M_PI * ctx.choose(nt, "where") / nt, k = reach[ctx.choose(8, "reach")];
    double turn = ctx.flag("turned") ? 0.6 : 0;
    Poly   a = geo::regular(n, 1, 0.1), b = geo::regular(m, rb, 0.05);
    for (auto& v : b)
        v = v + P{std::cos(th), std::sin(th)} * ((1 + rb) * k);
    for (auto* q : {&a, &b})
        for (auto& v : *q)
            v.y *= sy;
    Config c;
    c.a     = geo::fromGeo(geo::toVertices(geo::place(a, turn, {0, 0})));
    c.b     = geo::fromGeo(geo::toVertices(geo::place(b, turn, {0, 0})));
    c.dir   = searchDirs()[ctx.choose(ctx.tier(3, 6), "search direction")];
    c.exact = false;
    c.tol   = 4e-6 * (geo::sizeOf(c.a) + geo::sizeOf(c.b)) + 2e-5;
    return c;
}
