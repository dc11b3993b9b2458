// C09: closest points on segments and triangles.
#include "geo_model.hpp"
using namespace simu;
using geo::P;

static std::string sh(P p) { return mc::fmt("(%.9g,%.9g)", p.x, p.y); }

static P closestOnTriangle(P a, P b, P c, P q)
{
    double k = geo::cross(b - a, c - a);
    if (k != 0)
    {
        double s = k > 0 ? 1 : -1;
        if (s * geo::cross(b - a, q - a) >= 0 && s * geo::cross(c - b, q - b) >= 0 && s * geo::cross(a - c, q - c) >= 0)
            return q;
    }
    P best = geo::distPoint(a, b, q);
    for (P p : {geo::distPoint(b, c, q), geo::distPoint(c, a, q)})
        if (geo::norm(p - q) < geo::norm(best - q))
            best = p;
    return best;
}
// rounded and rejected: what the weights can be worth in single precision
static void line(mc::Ctx& ctx, P a, P b, P q, double tol)
{
    LineBarycentric l{geo::toV(a), geo::toV(b), geo::toV(q)};
    P               c = geo::toP(l.closestPoint);
    double          d = geo::segDist(a, b, q), len = geo::norm(b - a);
    MC_CHECK(geo::segDist(a, b, c) <= tol, "segment membership", "closest point %s is not on %s-%s", sh(c).c_str(), sh(a).c_str(), sh(b).c_str());
    MC_CHECK(geo::norm(c - q) <= d + tol, "segment distance", "closest point %s of %s on %s-%s is at %.9g, %.9g is possible", sh(c).c_str(),
             sh(q).c_str(), sh(a).c_str(), sh(b).c_str(), geo::norm(c - q), d);
    MC_CHECK(std::abs((double)l.u + l.v - 1) <= 1e-5 * (1 + std::abs(l.u)), "segment weights", "weights %g %g do not sum to 1", l.u, l.v);
    if (len > 0)
    {
        double t = geo::dot(q - a, b - a) / (len * len);
        P      w = a * l.u + b * l.v, pr = a + (b - a) * t;
        MC_CHECK(geo::norm(w - pr) <= tol + 2e-6 * (std::abs(t) + 1) * (geo::norm(a) + geo::norm(b)), "segment weights",
                 "weights reproduce %s instead of the projection %s", sh(w).c_str(), sh(pr).c_str());
    }
    else
        MC_CHECK(geo::norm(a * l.u + b * l.v - a) <= tol + 1e-5 * geo::norm(a), "segment weights", "weights of a point do not reproduce it");
    ctx.validated(4);
    ctx.transition();
}
static void triangle(mc::Ctx& ctx, P a, P b, P c, P q, double tol, double areaTol)
{
    TriangleBarycentric t{geo::toV(a), geo::toV(b), geo::toV(c), geo::toV(q)};
    P                   p = geo::toP(t.closestPoint), m = closestOnTriangle(a, b, c, q);
    double              area = std::abs(geo::cross(b - a, c - a)) / 2;
    ctx.log("triangle %s %s %s query %s closest %s expected %s", sh(a).c_str(), sh(b).c_str(), sh(c).c_str(), sh(q).c_str(), sh(p).c_str(), sh(m).c_str());
    MC_CHECK(geo::norm(closestOnTriangle(a, b, c, p) - p) <= tol, "triangle membership", "%s is not in the triangle %s %s %s", sh(p).c_str(),
             sh(a).c_str(), sh(b).c_str(), sh(c).c_str());
    MC_CHECK(geo::norm(p - q) <= geo::norm(m - q) + tol, "triangle distance",
             "closest point %s of %s on %s %s %s is at %.9g, %.9g is possible", sh(p).c_str(), sh(q).c_str(), sh(a).c_str(), sh(b).c_str(), sh(c).c_str(),
             geo::norm(p - q), geo::norm(m - q));
    double sum = (double)t.u + t.v + t.w;
    MC_CHECK(std::abs(sum - area) <= areaTol, "triangle weights", "weights %g %g %g sum to %.9g, area %.9g: %s %s %s", t.u, t.v, t.w, sum, area,
             sh(a).c_str(), sh(b).c_str(), sh(c).c_str());
    if (area > 50 * areaTol)
    {
        P w = (a * t.u + b * t.v + c * t.w) * (1 / sum);
        double scale = (geo::norm(a - q) + geo::norm(b - q) + geo::norm(c - q)) * (areaTol / area) + tol;
        MC_CHECK(geo::norm(w - q) <= 3 * scale, "triangle weights", "weights reproduce %s instead of %s", sh(w).c_str(), sh(q).c_str());
    }
    ctx.outcome(area == 0 ? "degenerate" : geo::norm(m - q) == 0 ? "inside" : "outside");
    ctx.validated(5);
    ctx.transition();
}
static P lat(mc::Ctx& ctx, int n, const char* l)
{
    int k = ctx.choose(n * n, l);
    return {(double)(k % n), (double)(k / n)};
}
MC_SCENARIO(lattice_segment)
{
    int n = ctx.tier(5, 7);
    P   a = lat(ctx, n, "a"), b = lat(ctx, n, "b"), q = lat(ctx, n, "q");
    line(ctx, a, b, q, 2e-6 * n);
}
MC_SCENARIO(lattice_triangle)
{
    int n = ctx.tier(5, 6);
    P   a = lat(ctx, n, "a"), b = lat(ctx, n, "b"), c = lat(ctx, n, "c"), q = lat(ctx, n, "q");
    triangle(ctx, a, b, c, q, 2e-6 * n, 0);
}
// the same, at every scale and place
MC_SCENARIO(scaled)
{
    static const double scales[]{1e-4, 1e-3, 0.1, 1 / 3.0, 40, 3000};
    static const P      places[]{{0, 0}, {-1.7, 0.9}, {100, -37}};
    static const double turns[]{0, 0.3, 1.1};
    double              s = scales[ctx.choose(6, "scale")], r = turns[ctx.choose(ctx.tier(2, 3), "turn")];
    P                   o = places[ctx.choose(3, "place")];
    int                 n = ctx.tier(3, 4);
    auto                f = [&](P p) { return geo::toP(geo::toV(geo::rot(p, r) * s + o * s)); };
    P      a = f(lat(ctx, n, "a")), b = f(lat(ctx, n, "b")), c = f(lat(ctx, n, "c"));
    // queries also off the lattice
    int    k = ctx.choose((2 * n) * (2 * n), "q");
    P      q = f({k % (2 * n) / 2.0 - 0.25, k / (2 * n) / 2.0 - 0.25});
    double mag = std::max({geo::norm(a), geo::norm(b), geo::norm(c), geo::norm(q)}), ext = n * s;
    line(ctx, a, b, q, 4e-7 * mag + 2e-6 * ext);
    // a sliver in exact coordinates may be degenerate once rounded: the region tests then
    // decide among edges that nearly coincide, and the point is off by the rounding of the coordinates
    triangle(ctx, a, b, c, q, 2e-6 * mag + 1e-5 * ext, 1e-6 * ext * (ext + mag));
}
// long thin triangles
MC_SCENARIO(slivers)
{
    static const double hs[]{0, 1e-6, -1e-6, 1e-3, -1e-3, 0.5};
    double              h = hs[ctx.choose(6, "height")];
    double              x = ctx.choose(5, "apex") * 2.5 - 2.5;
    P                   v[3]{{0, 0}, {5, 0}, {x, h}};
    int                 perm = ctx.choose(6, "order");
    static const int    perms[6][3]{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    double              t = ctx.choose(4, "angle") * 0.7;
    P                   a = geo::toP(geo::toV(geo::rot(v[perms[perm][0]], t))), b = geo::toP(geo::toV(geo::rot(v[perms[perm][1]], t))),
      c = geo::toP(geo::toV(geo::rot(v[perms[perm][2]], t)));
    static const double ys[]{0, 1e-6, -1e-6, 0.0005, 0.3, -2};
    P q = geo::toP(geo::toV(geo::rot({ctx.choose(13, "qx") * 0.75 - 3, ys[ctx.choose(6, "qy")]}, t)));
    line(ctx, a, b, q, 1e-5);
    triangle(ctx, a, b, c, q, 2e-5, 2e-5);
}
