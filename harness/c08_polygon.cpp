// C08: polygons: orientation, mass properties, support vertices and edges.
#include "geo_model.hpp"
#include "Simu/math/Edges.hpp"
#include <list>
using namespace simu;
using geo::P;
using geo::Poly;

namespace
{
bool properCross(P a, P b, P c, P d)
{
    auto s = [](double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; };
    auto on = [](P a, P b, P q) {
        return geo::cross(b - a, q - a) == 0 && geo::dot(q - a, q - b) <= 0;
    };
    int s1 = s(geo::cross(b - a, c - a)), s2 = s(geo::cross(b - a, d - a)), s3 = s(geo::cross(d - c, a - c)), s4 = s(geo::cross(d - c, b - c));
    if (s1 * s2 < 0 && s3 * s4 < 0)
        return true;
    return on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b);
}
bool simple(const Poly& p)
{
    int n = (int)p.size();
    for (int i = 0; i < n; ++i)
    {
        P a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n];
        // neighbours only share their vertex
        if (geo::cross(b - a, c - b) == 0 && geo::dot(b - a, c - b) < 0)
            return false;
        for (int j = i + 2; j < n; ++j)
            if (!(i == 0 && j == n - 1) && properCross(a, b, p[j], p[(j + 1) % n]))
                return false;
    }
    return true;
}
bool convex(const Poly& p)
{
    int n = (int)p.size(), s = 0;
    for (int i = 0; i < n; ++i)
    {
        double c = geo::cross(p[(i + 1) % n] - p[i], p[(i + 2) % n] - p[(i + 1) % n]);
        if (c != 0 && s != 0 && (c > 0) != (s > 0))
            return false;
        if (c != 0)
            s = c > 0 ? 1 : -1;
    }
    return true;
}

void checkPolygon(mc::Ctx& ctx, const Poly& in, const Polygon& poly)
{
    Poly out = geo::fromGeo(poly);
    int  n   = (int)in.size();
    MC_CHECK((int)out.size() == n, "vertex-count", "%s is stored with %d vertices", geo::show(in).c_str(), (int)out.size());
    double a = geo::area2(in) / 2;
    auto   m = geo::massOf(in);
    MC_CHECK(geo::area2(out) > 0, "orientation", "%s is stored clockwise: %s", geo::show(in).c_str(), geo::show(out).c_str());
    // the same cyclic sequence, reversed when it was clockwise
    bool same = false;
    for (int o = 0; o < n && !same; ++o)
    {
        same = true;
        for (int i = 0; i < n; ++i)
        {
            P q = in[a > 0 ? (o + i) % n : (o - i + 2 * n) % n];
            same &= out[i].x == q.x && out[i].y == q.y;
        }
    }
    MC_CHECK(same, "vertices", "%s is stored as %s", geo::show(in).c_str(), geo::show(out).c_str());
    GeometricProperties g = poly.properties();
    double              r = geo::sizeOf(in), e = 4e-7 * n;
    MC_CHECK(!g.isDegenerate, "degenerate", "%s is reported degenerate", geo::show(in).c_str());
    MC_CHECK(std::abs(g.area - m.area) <= e * r * r, "area", "%s has area %.9g instead of %.9g", geo::show(in).c_str(), g.area, m.area);
    double ce = e * r * r * r / m.area;
    MC_CHECK(geo::norm(geo::toP(g.centroid) - m.c) <= ce + e * r, "centroid", "%s has centroid (%.9g,%.9g) instead of (%.9g,%.9g)", geo::show(in).c_str(), g.centroid[0], g.centroid[1], m.c.x, m.c.y);
    double me = 4 * e * r * r * r * r;
    MC_CHECK(std::abs(g.momentOfArea - m.I) <= me, "moment", "%s has second moment %.9g instead of %.9g", geo::show(in).c_str(), g.momentOfArea, m.I);
    ctx.validated(6);
    // the same list without the polygon: the sign of the area tells its direction
    auto                vs = geo::toVertices(in);
    GeometricProperties raw{vs};
    MC_CHECK((raw.area > 0) == (a > 0) && std::abs(raw.area - a) <= e * r * r, "raw-area", "the list %s has area %.9g instead of %.9g", geo::show(in).c_str(), raw.area, a);
    MC_CHECK(geo::norm(geo::toP(raw.centroid) - m.c) <= ce + e * r, "raw-centroid", "the list %s has centroid (%.9g,%.9g) instead of (%.9g,%.9g)", geo::show(in).c_str(), raw.centroid[0], raw.centroid[1], m.c.x, m.c.y);
    MC_CHECK(std::abs(raw.momentOfArea - m.I) <= me, "raw-moment", "the list %s has second moment %.9g instead of %.9g", geo::show(in).c_str(), raw.momentOfArea, m.I);
    // other containers
    std::list<Vertex> ls(vs.begin(), vs.end());
    Polygon           q{ls.begin(), ls.end()};
    Poly              o2 = geo::fromGeo(q);
    bool              eq = o2.size() == out.size();
    for (size_t i = 0; eq && i < out.size(); ++i)
        eq = o2[i].x == out[i].x && o2[i].y == out[i].y;
    MC_CHECK(eq, "container", "%s from a list is stored as %s", geo::show(in).c_str(), geo::show(o2).c_str());
    int k = 0;
    for (auto v : poly.vertexView())
    {
        MC_CHECK(k < n && v[0] == out[k].x && v[1] == out[k].y, "view", "the vertex view differs from the vertices");
        ++k;
    }
    MC_CHECK(k == n, "view", "the vertex view has %d vertices", k);
}

void checkEdges(mc::Ctx& ctx, const Polygon& poly)
{
    Poly out = geo::fromGeo(poly);
    int  n   = (int)out.size();
    bool cvx = convex(out);
    auto edges = edgesOf(poly);
    int  k     = 0;
    auto last  = edges.begin();
    auto m     = geo::massOf(out);
    for (auto it = edges.begin(); it != edges.end(); ++it)
    {
        MC_CHECK(k < n, "edge-count", "%s has more edges than vertices", geo::show(out).c_str());
        P f = geo::toP(it->from()), t = geo::toP(it->to());
        P rf = out[(k + n - 1) % n], rt = out[k];
        MC_CHECK(f.x == rf.x && f.y == rf.y && t.x == rt.x && t.y == rt.y, "edge", "edge %d of %s is (%g,%g)-(%g,%g)", k, geo::show(out).c_str(), f.x, f.y, t.x, t.y);
        P d = geo::toP(it->direction()), nn = geo::toP(it->normal()), un = geo::toP(it->normalizedNormal());
        MC_CHECK(geo::norm(d - (t - f)) <= 1e-6 * geo::norm(d), "edge-direction", "direction of an edge");
        MC_CHECK(std::abs(geo::dot(nn, d)) <= 1e-6 * geo::norm(nn) * geo::norm(d) && geo::cross(d, nn) < 0, "edge-normal", "normal (%g,%g) of the edge (%g,%g)-(%g,%g) does not point outwards", nn.x, nn.y, f.x, f.y, t.x, t.y);
        MC_CHECK(std::abs(geo::norm(un) - 1) < 1e-6 && geo::dot(un, nn) > 0.999999 * geo::norm(nn), "edge-unit-normal", "unit normal of an edge");
        if (cvx)
            MC_CHECK(it->isInside(geo::toV(m.c)) && !it->isOutside(geo::toV(m.c)), "edge-inside", "the centroid is not inside of an edge of %s", geo::show(out).c_str());
        auto nx = edges.next(it), pv = edges.previous(it);
        MC_CHECK(geo::toP(nx->from()).x == t.x && geo::toP(nx->from()).y == t.y, "edge-next", "the edge after %d of %s does not start at its end", k, geo::show(out).c_str());
        MC_CHECK(nx->toIt() != it->toIt() && edges.previous(nx) == it, "edge-next", "the edge before the edge after %d of %s is another one", k, geo::show(out).c_str());
        MC_CHECK(geo::toP(pv->to()).x == f.x && geo::toP(pv->to()).y == f.y, "edge-previous", "the edge before %d of %s does not end at its start", k, geo::show(out).c_str());
        MC_CHECK(edges.next(pv) == it, "edge-previous", "the edge after the edge before %d of %s is another one", k, geo::show(out).c_str());
        ctx.validated(7);
        for (double x = -1; x <= 3; x += 2)
            for (double y = -1; y <= 3; y += 1)
            {
                P      q{x + f.x, y + t.y};
                double d2 = geo::segDist(f, t, q);
                double g  = it->distanceSquaredToPoint(geo::toV(q));
                MC_CHECK(std::abs(g - d2 * d2) <= 2e-6 * (1 + geo::norm(q) + geo::norm(f) + geo::norm(t)) * (1 + d2), "edge-distance", "squared distance %.9g instead of %.9g", g, d2 * d2);
                double side = geo::dot(geo::toP(it->normal()), q - t);
                if (std::abs(side) > 1e-4)
                {
                    MC_CHECK(it->isOutside(geo::toV(q)) == (side > 0), "edge-outside", "side of (%g,%g)", q.x, q.y);
                    MC_CHECK(it->isInside(geo::toV(q)) == (side < 0), "edge-outside", "side of (%g,%g)", q.x, q.y);
                }
            }
        ++k;
    }
    MC_CHECK(k == n, "edge-count", "%s has %d edges", geo::show(out).c_str(), k);
}
void checkSupport(mc::Ctx& ctx, const Polygon& poly)
{
    Poly out = geo::fromGeo(poly);
    for (int x = -3; x <= 3; ++x)
        for (int y = -3; y <= 3; ++y)
        {
            if (!x && !y)
                continue;
            Vec2   d{(float)x, (float)y};
            P      v    = geo::toP(furthestVertexInDirection(poly, d));
            double best = -1e300;
            bool   is   = false;
            for (auto& p : out)
            {
                best = std::max(best, geo::dot(p, {(double)x, (double)y}));
                is |= p.x == v.x && p.y == v.y;
            }
            MC_CHECK(is, "support-vertex", "the support (%g,%g) is not a vertex of %s", v.x, v.y, geo::show(out).c_str());
            MC_CHECK(geo::dot(v, {(double)x, (double)y}) >= best - 1e-6 * std::abs(best), "support", "the support (%g,%g) of %s in direction (%d,%d) is not furthest", v.x, v.y, geo::show(out).c_str(), x, y);
            ctx.validated();
        }
    bool threw = false;
    try
    {
        furthestVertexInDirection(poly, Vec2{0, 0});
    }
    catch (const simu::Exception&)
    {
        threw = true;
    }
    MC_CHECK(threw, "support-zero", "a zero direction is accepted");
}

// n distinct lattice points in any order
Poly sequence(mc::Ctx& ctx, int g, int n)
{
    std::vector<P> free;
    for (int i = 0; i < g * g; ++i)
        free.push_back({(double)(i % g), (double)(i / g)});
    Poly p;
    for (int i = 0; i < n; ++i)
    {
        int k = ctx.choose((int)free.size(), "vertex");
        p.push_back(free[k]);
        free.erase(free.begin() + k);
    }
    return p;
}
Poly moved(mc::Ctx& ctx, Poly p)
{
    struct Mv
    {
        double s, x, y;
    };
    static const std::vector<Mv> all{{1, 0, 0}, {1, -1, -1}, {0.0625, 0.5, -0.25}, {16, -40, 8}, {1, 10, -7}, {3, 100, 50}, {1.0 / 8192, 0, 0}, {2048, 0, 0}};
    const Mv&                    m = all[ctx.choose((int)all.size(), "placement")];
    for (auto& v : p)
        v = v * m.s + P{m.x, m.y};
    return p;
}
void lattice(mc::Ctx& ctx, int g, int n)
{
    Poly p = sequence(ctx, g, n);
    if (!simple(p))
    {
        // no area at all: reported
        if (n == 3)
        {
            GeometricProperties r{geo::toVertices(p)};
            Polygon             q = geo::toPolygon(p);
            MC_CHECK(r.isDegenerate && q.properties().isDegenerate && q.properties().area == 0, "flat", "the flat triangle %s is not reported degenerate", geo::show(p).c_str());
            ctx.outcome("flat");
        }
        else
        {
            bool flat = true;
            for (int i = 2; i < n; ++i)
                flat &= geo::cross(p[1] - p[0], p[i] - p[0]) == 0;
            if (flat)
            {
                MC_CHECK(geo::toPolygon(p).properties().isDegenerate, "flat", "the flat list %s is not reported degenerate", geo::show(p).c_str());
                ctx.outcome("flat");
            }
            else
                ctx.outcome("crossing");
        }
        return;
    }
    if (geo::area2(p) == 0)
    {
        MC_CHECK(geo::toPolygon(p).properties().isDegenerate, "flat", "the flat list %s is not reported degenerate", geo::show(p).c_str());
        ctx.outcome("flat");
        return;
    }
    p         = moved(ctx, p);
    Polygon q = geo::toPolygon(p);
    checkPolygon(ctx, p, q);
    checkEdges(ctx, q);
    checkSupport(ctx, q);
    ctx.outcome(convex(p) ? geo::area2(p) > 0 ? "convex ccw" : "convex cw" : geo::area2(p) > 0 ? "concave ccw" : "concave cw");
}
} // namespace

MC_SCENARIO(triangles) { lattice(ctx, ctx.tier(4, 5), 3); }
MC_SCENARIO(quads) { lattice(ctx, 3, 4); }
MC_SCENARIO(quads4)
{
    if (ctx.thorough)
        lattice(ctx, 4, 4);
}
MC_SCENARIO(pentagons) { lattice(ctx, 3, 5); }
MC_SCENARIO(hexagons)
{
    if (ctx.thorough)
        lattice(ctx, 3, 6);
}
MC_SCENARIO(boxes)
{
    const std::vector<float> d{1, 0.5f, 3, 100, 0.01f, 0.3f}, c{0, 1, -2.5f, 50};
    float w = ctx.pick(d, "w"), h = ctx.pick(d, "h"), x = ctx.pick(c, "x"), y = ctx.pick(c, "y");
    if ((std::abs(x) + std::abs(y)) > 400 * std::min(w, h))
        return; // the box would be lost in rounding
    Polygon q   = Polygon::box(Vec2{w, h}, Vec2{x, y});
    Poly    out = geo::fromGeo(q);
    MC_CHECK(out.size() == 4, "box", "a box has %d vertices", (int)out.size());
    double e = 1e-6 * (std::abs(x) + std::abs(y) + w + h);
    int    seen[4]{};
    for (auto& v : out)
        for (int k = 0; k < 4; ++k)
            if (std::abs(v.x - (x + (k & 1 ? w / 2 : -w / 2))) <= e && std::abs(v.y - (y + (k & 2 ? h / 2 : -h / 2))) <= e)
                ++seen[k];
    for (int k = 0; k < 4; ++k)
        MC_CHECK(seen[k] >= 1, "box", "the box %gx%g at (%g,%g) is %s", w, h, x, y, geo::show(out).c_str());
    checkPolygon(ctx, out, q);
    checkEdges(ctx, q);
    checkSupport(ctx, q);
    ctx.outcome("box");
}
MC_SCENARIO(regular)
{
    int    n   = 3 + ctx.choose(14, "n");
    double r   = ctx.pick(std::vector<double>{1, 0.1, 20}, "radius"), ph = ctx.choose(8, "phase") * 0.37;
    bool   cw  = ctx.flag("clockwise");
    Poly   p   = geo::place(geo::regular(n, r, ph), 0, ctx.pick(std::vector<P>{{0, 0}, {5, -3}}, "centre"));
    for (auto& v : p)
        v = {(float)v.x, (float)v.y};
    if (cw)
        std::reverse(p.begin(), p.end());
    Polygon q = geo::toPolygon(p);
    checkPolygon(ctx, p, q);
    checkEdges(ctx, q);
    checkSupport(ctx, q);
    ctx.outcome("regular");
}
MC_SCENARIO(tooFew)
{
    int      n = ctx.choose(3, "n");
    Vertices v;
    for (int i = 0; i < n; ++i)
        v.push_back(Vec2{(float)ctx.choose(3, "x"), (float)ctx.choose(3, "y")});
    bool threw = false;
    try
    {
        Polygon p{v.begin(), v.end()};
    }
    catch (const simu::Exception&)
    {
        threw = true;
    }
    MC_CHECK(threw, "too-few", "a polygon of %d vertices is accepted", n);
    ctx.outcome("rejected");
}
MC_SCENARIO(orientations)
{
    auto  pt = [&] { return Vec2{(float)ctx.choose(3, "x") * 0.5f, (float)ctx.choose(3, "y") * 0.5f}; };
    Vec2  a = pt(), b = pt(), c = pt();
    double k   = geo::cross(geo::toP(b) - geo::toP(a), geo::toP(c) - geo::toP(b));
    auto   o   = orientation(a, b, c);
    auto   ref = k > 0 ? Orientation::positive : k < 0 ? Orientation::negative : Orientation::collinear;
    MC_CHECK(o == ref, "orientation-of-three", "orientation %d for a cross product of %g", (int)o, k);
    float eps = ctx.pick(std::vector<float>{0, 0.3f, 0.6f}, "epsilon");
    auto  o2  = orientation(a, b, c, eps);
    ref       = std::abs(k) <= eps ? Orientation::collinear : ref;
    MC_CHECK(o2 == ref, "orientation-epsilon", "orientation %d for a cross product of %g and epsilon %g", (int)o2, k, eps);
    ctx.outcome(ref == Orientation::positive ? "positive" : ref == Orientation::negative ? "negative" : "collinear");
    ctx.validated(2);
}
