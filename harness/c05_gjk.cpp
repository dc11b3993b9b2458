// C05: collision verdict and separation vector.
#include "gjk_common.hpp"

static void judge(mc::Ctx& ctx, const Config& c)
{
    Polygon       a = geo::toPolygon(c.a), b = geo::toPolygon(c.b);
    double        gap = geo::signedGap(c.a, c.b);
    Gjk<Polygon>  g{a, b, geo::toV(c.dir)};
    ctx.transition();
    bool expected = gap <= 0;
    ctx.log("%s\n  %s\n  dir (%g,%g) gap %.9g verdict %d", geo::show(c.a).c_str(), geo::show(c.b).c_str(), c.dir.x, c.dir.y, gap,
            (int)g.areColliding());
    if (c.exact || std::abs(gap) > c.tol)
        MC_CHECK(g.areColliding() == expected, "verdict", "verdict %d for shapes %s and %s (gap %.9g)", (int)g.areColliding(),
                 geo::show(c.a).c_str(), geo::show(c.b).c_str(), gap);
    bool verdict = g.areColliding();
    P    s       = geo::toP(g.separation());
    MC_CHECK(g.areColliding() == verdict, "verdict", "asking for the separation changes the verdict");
    double d = geo::distance(c.a, c.b);
    if (verdict)
    {
        MC_CHECK(s.x == 0 && s.y == 0, "null separation", "separation (%g,%g) of colliding shapes", s.x, s.y);
        ctx.outcome("colliding");
    }
    else
    {
        MC_CHECK(std::abs(geo::norm(s) - d) <= c.tol, "separation length", "separation of length %.9g, distance %.9g: %s %s dir (%g,%g)", geo::norm(s), d,
                 geo::show(c.a).c_str(), geo::show(c.b).c_str(), c.dir.x, c.dir.y);
        double after = geo::signedGap(shifted(c.a, s), c.b);
        MC_CHECK(std::abs(after) <= c.tol, "separation direction", "translating by the separation (%.9g,%.9g) leaves a gap of %.9g: %s %s", s.x, s.y,
                 after, geo::show(c.a).c_str(), geo::show(c.b).c_str());
        P again = geo::toP(g.separation());
        MC_CHECK(std::abs(geo::norm(again) - d) <= c.tol, "separation repeated", "asking again gives another separation");
        ctx.outcome("apart");
    }
    // the other way round
    Gjk<Polygon> r{b, a, geo::toV(c.dir)};
    if (c.exact || std::abs(gap) > c.tol)
        MC_CHECK(r.areColliding() == expected, "symmetry", "verdict depends on the order of the shapes");
    ctx.validated(4);
}

MC_SCENARIO(touching) { judge(ctx, touchingConfig(ctx)); }
MC_SCENARIO(odd_shapes) { judge(ctx, oddConfig(ctx)); }
MC_SCENARIO(real_placement) { judge(ctx, realConfig(ctx)); }
MC_SCENARIO(many_corners) { judge(ctx, manyConfig(ctx)); }
MC_SCENARIO(lattice) { judge(ctx, latticeConfig(ctx)); }
