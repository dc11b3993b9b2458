// C22: mass, centroid and motion of a body whose colliders come and go.
#include "world_common.hpp"

struct Part
{
    Poly  p;
    float density;
};
static double unit = 1, weight = 1; // of length, of density
static const std::vector<Part>& parts()
{
    static std::map<std::pair<double, double>, std::vector<Part>> all;
    auto&                                                 s = all[{unit, weight}];
    if (s.empty())
    {
        s = {
            {geo::place(geo::box(1, 1), 0, {0, 0}), 1.f},
            {geo::place(geo::box(2, 0.5), 0, {1.5, 0.5}), 4.f},
            {{{0, 0}, {1, 0}, {0, 2}}, 0.0078125f}, // next to nothing
            {geo::place(geo::regular(6, 0.5, 0.3), 0, {-3, 2}), 10.f},
            {{{0, 0}, {0, 1}, {2, 1}, {2, 0}}, 1.f}, // clockwise
            {geo::place(geo::box(0.1, 3), 0, {0, -4}), 100.f},
        };
        for (auto& part : s)
        {
            part.density = (float)(part.density * weight);
            for (auto& v : part.p)
                v = v * unit;
        }
    }
    return s;
}
static const Poly& vertices(int i)
{
    static std::map<double, std::vector<Poly>> all; // by length, the density does not matter
    auto&                                      v = all[unit];
    if (v.empty())
        for (auto& p : parts())
            v.push_back(geo::fromGeo(geo::toVertices(p.p)));
    return v[i];
}
struct Total
{
    double m = 0, I = 0;
    P      c;
};
static Total total(const std::vector<int>& list)
{
    Total t;
    for (int i : list)
    {
        auto   g = geo::massOf(vertices(i));
        double m = g.area * parts()[i].density;
        t.m += m;
        t.c = t.c + g.c * m;
    }
    if (t.m == 0)
        return t;
    t.c = t.c * (1 / t.m);
    for (int i : list)
    {
        auto   g = geo::massOf(vertices(i));
        double m = g.area * parts()[i].density;
        t.I += g.I * parts()[i].density + m * geo::dot(g.c - t.c, g.c - t.c);
    }
    return t;
}
static void audit(mc::Ctx& ctx, Body* b, const std::vector<int>& list)
{
    Total t = total(list);
    P     c = geo::toP(b->localCentroid());
    ctx.log("m %.9g/%.9g I %.9g/%.9g c (%g,%g)/(%g,%g)", b->mass(), t.m, b->inertia(), t.I, c.x, c.y, t.c.x, t.c.y);
    if (list.empty())
    {
        MC_CHECK(b->mass() == 0.f && b->inertia() == 0.f, "none", "a body without collider has mass %g and inertia %g", b->mass(), b->inertia());
        return;
    }
    MC_CHECK(std::abs(b->mass() - t.m) < 1e-5 * t.m, "mass", "mass %.9g instead of %.9g", b->mass(), t.m);
    MC_CHECK(geo::norm(c - t.c) < 2e-5 * unit, "centroid", "local centroid (%g,%g) instead of (%g,%g)", c.x, c.y, t.c.x, t.c.y);
    double scale = t.I;
    for (int i : list)
        scale += geo::massOf(vertices(i)).area * parts()[i].density * geo::dot(geo::massOf(vertices(i)).c, geo::massOf(vertices(i)).c);
    MC_CHECK(std::abs(b->inertia() - t.I) < 1e-5 * scale, "inertia", "inertia %.9g instead of %.9g", b->inertia(), t.I);
    MC_CHECK(std::abs(b->invMass() * t.m - 1) < 1e-5 && std::abs(b->invInertia() * b->inertia() - 1) < 1e-5, "inverse", "inverse mass or inertia");
    size_t k = 0;
    for (auto& col : b->colliders())
    {
        MassProperties p = col.properties();
        auto           g = geo::massOf(vertices(list[k]));
        double         d = parts()[list[k]].density;
        MC_CHECK(std::abs(p.m - g.area * d) < 1e-5 * g.area * d && std::abs(p.I - g.I * d) < 1e-4 * g.I * d && geo::norm(geo::toP(p.centroid) - g.c) < 1e-5 * unit,
                 "collider", "mass properties of collider %zu", k);
        ++k;
    }
    MC_CHECK(k == list.size(), "count", "%zu colliders instead of %zu", k, list.size());
    P w = geo::toP(b->toWorldSpace() * b->localCentroid());
    MC_CHECK(geo::norm(w - geo::toP(b->centroid())) < 1e-5 * std::max(unit, 1.), "centroid", "world centroid is not the transformed local one");
    ctx.validated(4 + k);
}
static void history(mc::Ctx& ctx, int depth)
{
    World          w;
    BodyDescriptor d;
    d.position    = Vec2{1, -2};
    d.orientation = ctx.flag("turned") ? 0.8f : 0.f;
    Body*                  b = w.makeBody(d);
    // somebody else, to be left alone
    Body* other = w.makeBody(BodyDescriptor{Vec2{4096, 0}});
    other->addCollider(ColliderDescriptor{boxAt(0, 0)});
    std::vector<int>       list;
    std::vector<Collider*> cols;
    int                    n     = (int)parts().size();
    for (int i = 0; i < depth; ++i)
    {
        int    nOps = n + (int)cols.size() + 2;
        int    op   = ctx.choose(nOps, "operation");
        double th   = b->orientation();
        P      v = geo::toP(b->velocity()), lc = geo::toP(b->localCentroid());
        double s = b->angularVelocity();
        if (op < n)
        {
            Material m;
            m.density = parts()[op].density;
            cols.push_back(b->addCollider(ColliderDescriptor{geo::toPolygon(parts()[op].p), m}));
            list.push_back(op);
            ctx.log("add %d", op);
        }
        else if (op < n + (int)cols.size())
        {
            int k = op - n;
            ctx.log("remove the %d-th", k);
            b->removeCollider(cols[k]);
            cols.erase(cols.begin() + k);
            list.erase(list.begin() + k);
        }
        else if (op == nOps - 1)
        {
            ctx.log("spin");
            b->setVelocity(Vec2{0.5f, -1});
            b->setAngularVelocity(i % 2 ? -3.f : 2.f);
        }
        else
        {
            ctx.log("step");
            w.step(0.25f);
            ctx.transition();
        }
        if (op < nOps - 2)
        {
            ctx.transition();
            P dl = geo::rot(geo::toP(b->localCentroid()) - lc, th);
            P want = v + P{-dl.y, dl.x} * s;
            MC_CHECK(std::abs(b->angularVelocity() - s) < 1e-6, "spin", "spin changes from %g to %g", s, b->angularVelocity());
            if (!list.empty())
                MC_CHECK(geo::norm(geo::toP(b->velocity()) - want) < 1e-4 * std::max(unit, 1.), "velocity", "velocity of the centroid (%g,%g) instead of (%g,%g)", b->velocity()[0], b->velocity()[1],
                         want.x, want.y);
            MC_CHECK(std::abs(b->orientation() - th) < 1e-7, "orientation", "orientation changes");
        }
        audit(ctx, b, list);
        MC_CHECK(other->mass() == 1.f && all(other->velocity() == Vec2{}) && all(other->position() == Vec2{4096, 0}), "other", "another body changed");
    }
    // the same body built at once
    Body*          fresh = w.makeBody(d);
    for (int i : list)
    {
        Material m;
        m.density = parts()[i].density;
        fresh->addCollider(ColliderDescriptor{geo::toPolygon(parts()[i].p), m});
    }
    if (!list.empty())
    {
        MC_CHECK(std::abs(fresh->mass() - b->mass()) <= 1e-5 * b->mass() && std::abs(fresh->inertia() - b->inertia()) <= 1e-4 * b->inertia() + 1e-5 * weight * std::pow(unit, 4) &&
                     geo::norm(geo::toP(fresh->localCentroid()) - geo::toP(b->localCentroid())) < 1e-4 * unit,
                 "built", "the body differs from one built from the same colliders");
        ctx.outcome("with colliders");
    }
    else
        ctx.outcome("without collider");
    ctx.state(mc::Hasher().add(list.size()).addf(b->mass()).addf(b->orientation()).addf(b->velocity()[0]).addf(b->velocity()[1]).h);
}
MC_SCENARIO(histories)
{
    unit = weight = 1;
    history(ctx, ctx.tier(5, 6));
}
// crumbs, ships, feathers and lead
MC_SCENARIO(sizes)
{
    static const std::vector<std::array<double, 2>> of{{1 / 128., 1}, {64, 1}, {1 / 16., 1 / 1024.}, {1 / 16., 512}, {16, 1 / 32.}};
    auto&                                           o = of[ctx.choose((int)of.size(), "size")];
    unit = o[0], weight = o[1];
    history(ctx, ctx.tier(4, 5));
    unit = weight = 1;
}
