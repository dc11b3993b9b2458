// C06: penetration vector.
#include "gjk_common.hpp"

static void judge(mc::Ctx& ctx, const Config& c)
{
    Polygon       a = geo::toPolygon(c.a), b = geo::toPolygon(c.b);
    double        gap = geo::signedGap(c.a, c.b);
    Gjk<Polygon>  g{a, b, geo::toV(c.dir)};
    ctx.transition();
    P p = geo::toP(g.penetration());
    ctx.log("%s\n  %s\n  dir (%g,%g) gap %.9g penetration (%.9g,%.9g)", geo::show(c.a).c_str(), geo::show(c.b).c_str(), c.dir.x, c.dir.y, gap,
            p.x, p.y);
    double depth = std::max(0.0, -gap);
    if (gap > c.tol || !g.areColliding())
        MC_CHECK(p.x == 0 && p.y == 0, "null penetration", "penetration (%g,%g) of shapes that do not collide", p.x, p.y);
    MC_CHECK(std::isfinite(p.x) && std::isfinite(p.y), "finite", "penetration is not finite");
    MC_CHECK(std::abs(geo::norm(p) - depth) <= c.tol, "depth", "penetration of length %.9g, true depth %.9g: %s %s dir (%g,%g)", geo::norm(p), depth,
             geo::show(c.a).c_str(), geo::show(c.b).c_str(), c.dir.x, c.dir.y);
    if (gap < -c.tol)
    {
        double after = geo::signedGap(c.a, shifted(c.b, p));
        MC_CHECK(std::abs(after) <= c.tol, "direction", "moving the second shape by (%.9g,%.9g) leaves a gap of %.9g: %s %s", p.x, p.y, after,
                 geo::show(c.a).c_str(), geo::show(c.b).c_str());
        after = geo::signedGap(shifted(c.a, p * -1), c.b);
        MC_CHECK(std::abs(after) <= c.tol, "direction", "moving the first shape by the opposite leaves a gap of %.9g", after);
        ctx.outcome("overlap");
    }
    else
        ctx.outcome(gap > c.tol ? "apart" : "touching");
    ctx.validated(3);
}

MC_SCENARIO(touching) { judge(ctx, touchingConfig(ctx)); }
MC_SCENARIO(odd_shapes) { judge(ctx, oddConfig(ctx)); }
MC_SCENARIO(real_placement) { judge(ctx, realConfig(ctx)); }
MC_SCENARIO(many_corners) { judge(ctx, manyConfig(ctx)); }
MC_SCENARIO(lattice) { judge(ctx, latticeConfig(ctx)); }
