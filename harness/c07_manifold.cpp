// C07: contact points and normal of two overlapping colliders.
#include "gjk_common.hpp"
#include "Simu/physics.hpp"

struct Pair
{
    World  world;
    Body*  b[2];
    Collider* c[2];
};
static void build(Pair& p, const Poly* local, const P* pos, const double* angle, float pen)
{
    for (int i = 0; i < 2; ++i)
    {
        BodyDescriptor d;
        d.position    = geo::toV(pos[i]);
        d.orientation = (float)angle[i];
        p.b[i]        = p.world.makeBody(d);
        Material m;
        m.penetration = CombinableProperty{pen};
        p.c[i]        = p.b[i]->addCollider(ColliderDescriptor{geo::toPolygon(local[i]), m});
    }
}
static bool onBoundary(const Poly& p, P q, double tol) { return std::abs(geo::pointGap(p, q)) <= tol; }

static void judge(mc::Ctx& ctx, Pair& p, const ContactManifold& m, double pen, const char* when)
{
    Poly   a = geo::fromGeo(*p.c[0]), b = geo::fromGeo(*p.c[1]);
    P      axis;
    double gap = geo::signedGap(a, b, &axis);
    double tol = 4e-6 * (geo::sizeOf(a) + geo::sizeOf(b)) + 3e-5;
    ctx.log("%s: %s\n  %s\n  gap %.9g contacts %u", when, geo::show(a).c_str(), geo::show(b).c_str(), gap, m.nContacts());
    if (gap > -pen + tol)
    {
        MC_CHECK(m.nContacts() == 0, "none", "%s: %u contacts but overlap is only %g (tolerance %g)", when, m.nContacts(), -gap, pen);
        ctx.outcome("apart");
        return;
    }
    if (gap > -pen - tol)
        return;
    std::string s = geo::show(a) + " " + geo::show(b);
    MC_CHECK(m.nContacts() == 1 || m.nContacts() == 2, "count", "%s: %u contacts for an overlap of %g: %s", when, m.nContacts(), -gap, s.c_str());
    Bodies bodies{p.b[0], p.b[1]};
    auto   f = m.frameManifold(bodies);
    P      n = geo::toP(f.normal);
    ctx.log("  normal (%g,%g)", n.x, n.y);
    MC_CHECK(std::abs(geo::norm(n) - 1) < 1e-5, "unit", "%s: normal of length %g", when, geo::norm(n));
    // an edge normal: outwards for the second collider, inwards for the first
    bool edge = false;
    for (int k = 0; k < 2; ++k)
    {
        const Poly& q = k ? b : a;
        double      s = k ? 1 : -1;
        for (size_t i = 0; i < q.size(); ++i)
        {
            P e = q[(i + 1) % q.size()] - q[i];
            P o = P{e.y, -e.x} * (s / geo::norm(e));
            edge |= geo::norm(o - n) < 1e-3;
        }
    }
    MC_CHECK(edge, "edge", "%s: normal (%g,%g) is not an edge normal towards the first body: %s", when, n.x, n.y, s.c_str());
    // overlap of the shapes along the normal: how far A must move along n
    double loA = 1e30, hiB = -1e30;
    for (auto& v : a) loA = std::min(loA, geo::dot(v, n));
    for (auto& v : b) hiB = std::max(hiB, geo::dot(v, n));
    double along = hiB - loA;
    // edges whose directions differ by less than the square root of the rounding error tie
    double diam = 0;
    for (auto& u : a)
        for (auto& v : b)
            diam = std::max(diam, geo::norm(u - v));
    MC_CHECK(along <= -gap + tol + 7e-4 * diam, "minimal", "%s: overlap along the normal (%g,%g) is %g but the shapes separate with %g: %s", when, n.x, n.y, along, -gap, s.c_str());
    double deepest = -1e30;
    for (unsigned c = 0; c < m.nContacts(); ++c)
    {
        P x0 = geo::toP(f.contacts[0][c]), x1 = geo::toP(f.contacts[1][c]);
        ctx.log("  contact (%.9g,%.9g) on first (%.9g,%.9g) on second", x0.x, x0.y, x1.x, x1.y);
        MC_CHECK(onBoundary(a, x0, tol) && onBoundary(b, x1, tol), "boundary", "%s: contact %u is not on the boundaries: %s", when, c, s.c_str());
        MC_CHECK(std::abs(geo::cross(x0 - x1, n)) <= tol, "facing", "%s: the two points of contact %u are %g apart sideways: %s", when, c,
                 geo::cross(x0 - x1, n), s.c_str());
        double depth = -geo::dot(x0 - x1, n);
        MC_CHECK(depth >= -tol, "sign", "%s: depth %g", when, depth);
        deepest = std::max(deepest, depth);
    }
    if (m.nContacts() == 2)
        MC_CHECK(geo::norm(geo::toP(f.contacts[m.incidentIndex()][0]) - geo::toP(f.contacts[m.incidentIndex()][1])) > 0, "distinct", "same contact twice");
    MC_CHECK(std::abs(deepest - along) <= tol + 7e-4 * diam, "depth", "%s: deepest contact %g but the overlap is %g: %s", when, deepest, along, s.c_str());
    ctx.outcome(m.nContacts() == 1 ? "one" : "two");
    ctx.validated(5);
}


// the contact moves rigidly with the bodies
static void judgeMotion(mc::Ctx& ctx, Pair& p, const ContactManifold& m)
{
    static const P      shifts[]{{0, 0}, {3, -1}, {0.01, 0.02}};
    static const double turns[]{0, 0.3, -2};
    Bodies              bodies{p.b[0], p.b[1]};
    auto                f = m.frameManifold(bodies);
    for (int k = 0; k < 2; ++k)
        for (auto sh : shifts)
            for (double t : turns)
            {
                std::vector<Position> pos;
                Velocity              v[2]{Velocity{Vec2{}, 0}, Velocity{Vec2{}, 0}};
                for (int i = 0; i < 2; ++i)
                    pos.emplace_back(p.b[i]->position(), p.b[i]->orientation(), p.b[i]->localCentroid());
                pos[k].advance(geo::toV(sh), (float)t);
                P    c = geo::toP(p.b[k]->centroid());
                auto moved = [&](int b, P x) { return b != k ? x : geo::rot(x - c, (float)t) + c + sh; };
                Proxies pr{SolverProxy{&pos[0], &v[0]}, SolverProxy{&pos[1], &v[1]}, InvMasses{1, 1, 1, 1}};
                auto    g = m.frameManifold(pr);
                MC_CHECK(g.nContacts == f.nContacts, "motion", "number of contacts changed");
                double tol = 1e-4 + 1e-5 * (std::abs(c.x) + std::abs(c.y));
                for (unsigned i = 0; i < f.nContacts; ++i)
                    for (int b = 0; b < 2; ++b)
                        MC_CHECK(geo::norm(moved(b, geo::toP(f.contacts[b][i])) - geo::toP(g.contacts[b][i])) < tol, "motion",
                                 "contact %u of body %d does not follow body %d moved by (%g,%g) and %g", i, b, k, sh.x, sh.y, t);
                P n = geo::toP(f.normal);
                if ((int)m.referenceIndex() == k)
                    n = geo::rot(n, (float)t);
                MC_CHECK(geo::norm(n - geo::toP(g.normal)) < 1e-4, "motion", "normal does not follow the reference body");
                MC_CHECK(std::abs(geo::dot(geo::toP(g.tangent), geo::toP(g.normal))) < 1e-5 && std::abs(geo::norm(geo::toP(g.tangent)) - 1) < 1e-5, "tangent", "tangent is not a unit vector across the normal");
            }
}
static const double pens[]{0.005, 0.02, 0.1};

MC_SCENARIO(lattice)
{
    auto& shapes = latticeShapes(3, true);
    Poly  local[2];
    local[0] = shapes[ctx.choose((int)shapes.size(), "first shape")];
    local[1] = shapes[ctx.choose((int)shapes.size(), "second shape")];
    P      pos[2]{{0, 0}, {0, 0}};
    double angle[2]{0, 0};
    pos[1].x = -2.1 + 0.42 * ctx.choose(11, "dx");
    pos[1].y = -2.1 + 0.42 * ctx.choose(11, "dy");
    Pair p;
    build(p, local, pos, angle, 0.005f);
    ctx.transition();
    ContactManifold m{*p.c[0], *p.c[1]};
    judge(ctx, p, m, 0.005, "built");
    if (m.nContacts() && local[0].size() == 4)
        judgeMotion(ctx, p, m);
}

MC_SCENARIO(placed)
{
    static const std::vector<Poly> base{geo::box(1, 1), geo::box(4, 0.5), geo::regular(3, 1, 0.2), geo::regular(5, 0.8, 0), geo::regular(12, 1.1, 0.3),
                                        {{0, 0}, {1, 0.1}, {0.2, 0.9}}, {{5, 5}, {8, 5}, {8.5, 5.2}, {5.1, 5.3}}};
    static const double angles[]{0, 0.1, M_PI / 4, 1.3, M_PI / 2, 2.9, -0.7};
    static const P      far[]{{0, 0}, {10.3, -7.7}, {300, 100}};
    Poly   local[2]{base[ctx.choose(7, "first shape")], base[ctx.choose(7, "second shape")]};
    double angle[2]{angles[ctx.choose(7, "first angle")], angles[ctx.choose(7, "second angle")]};
    P      f = far[ctx.choose(ctx.tier(2, 3), "place")];
    double pen = pens[ctx.choose(3, "tolerance")];
    P      pos[2];
    int    n = ctx.tier(9, 15);
    P      off{-2.2 + 4.4 / (n - 1) * ctx.choose(n, "dx"), -2.2 + 4.4 / (n - 1) * ctx.choose(n, "dy")};
    for (int i = 0; i < 2; ++i)
    {
        P lc   = geo::massOf(local[i]).c;
        pos[i] = f + (i ? off : P{}) - lc; // centroids at f and f + off
    }
    Pair p;
    build(p, local, pos, angle, (float)pen);
    ctx.transition();
    ContactManifold m{*p.c[0], *p.c[1]};
    MC_CHECK(std::abs(m.minimumPenetration() - pen) < 1e-6, "tolerance", "tolerance of the contact is not that of the materials");
    judge(ctx, p, m, pen, "built");
    if (m.nContacts() && n == 9 && pen == 0.02)
        judgeMotion(ctx, p, m);
}

// resting contacts: edge on edge, edge on corner, at exactly chosen depths, both orders
MC_SCENARIO(shallow)
{
    static const double angles[]{0, M_PI / 2, M_PI / 4, 0.3, 1.0, 2.2, -1.1, 0.05};
    static const double depths[]{0.004, 0.0051, 0.006, 0.01, 0.015, 0.05, 0.2};
    static const double slide[]{0, 0.25, 0.5, 1, 1.4, 1.499, 1.5, 1.501, -0.75, -1.45};
    static const double tilt[]{0, 1e-4, -1e-4, 0.01, -0.3, M_PI / 4, 0.7};
    double t = angles[ctx.choose(8, "angle")], g = -depths[ctx.choose(7, "depth")], sl = slide[ctx.choose(10, "slide")], ti = tilt[ctx.choose(7, "tilt")];
    int    kind = ctx.choose(6, "shapes");
    Poly   a0 = kind == 1 ? geo::regular(3, 1, -M_PI / 2 + M_PI / 3) : kind == 3 ? geo::regular(6, 1, 0) : kind == 5 ? Poly{{-10, -0.5}, {10, -0.5}, {10, 0.5}, {-10, 0.5}} : geo::box(2, 1);
    Poly   b0 = kind == 2 ? geo::regular(4, 1, 0) : kind == 4 ? geo::regular(16, 1, 0) : kind == 5 ? geo::box(0.3, 2) : geo::box(1, 1);
    b0        = geo::place(b0, ti, {0, 0});
    double top = -1e9, bot = 1e9;
    for (auto& v : a0)
        top = std::max(top, v.y);
    for (auto& v : b0)
        bot = std::min(bot, v.y);
    P    at = ctx.flag("far") ? P{20.5, -3.25} : P{0, 0};
    bool swap = ctx.flag("swap");
    Poly   local[2]{a0, b0};
    P      pos[2]{at, at + geo::rot({sl, top - bot + g}, t)};
    double angle[2]{t, t};
    if (swap)
        std::swap(local[0], local[1]), std::swap(pos[0], pos[1]);
    Pair p;
    build(p, local, pos, angle, 0.005f);
    ctx.transition();
    ContactManifold m{*p.c[0], *p.c[1]};
    judge(ctx, p, m, 0.005, "built");
}

// the contact of the world, refreshed at the beginning of a step, stays close to the truth
MC_SCENARIO(world_history)
{
    static const Poly  shapes[]{geo::box(1, 1), geo::regular(3, 0.8, 0.4), geo::regular(6, 0.7, 0), geo::box(2, 0.4)};
    static const Vec2  vel[]{Vec2{0, 0}, Vec2{1, -0.3f}, Vec2{-2, 0}, Vec2{0.1f, -2}};
    static const float spin[]{0, 1.5f, -4};
    World  w;
    Body*  b[2];
    Collider* c[2];
    BodyDescriptor d;
    int    first = ctx.flag("order");
    int    si = ctx.choose(4, "shape"), vi = ctx.choose(4, "velocity"), wi = ctx.choose(3, "spin");
    double x = std::vector<double>{0, 1.4, 2.3}[ctx.choose(3, "place")];
    for (int k = 0; k < 2; ++k)
    {
        int i = k ^ first;
        d             = BodyDescriptor{};
        d.dominance   = i == 0 ? 0.f : 1.f;
        d.position    = i == 0 ? Vec2{0, -0.5f} : Vec2{(float)x, 0.35f};
        d.orientation = i == 0 ? 0.f : 0.1f;
        b[i]          = w.makeBody(d);
        c[i]          = b[i]->addCollider(ColliderDescriptor{geo::toPolygon(i == 0 ? geo::box(4, 1) : shapes[si])});
    }
    b[1]->setVelocity(vel[vi]);
    b[1]->setAngularVelocity(spin[wi]);
    int n = ctx.tier(8, 30);
    for (int k = 0; k < n; ++k)
    {
        w.step(1.f / 60);
        w.step(0.f);
        ctx.transition(2);
        Poly   A = geo::fromGeo(*c[0]), B = geo::fromGeo(*c[1]);
        double gap = geo::signedGap(A, B);
        const double pen = 0.005;
        int    count = 0;
        for (ContactConstraint& cc : w.contacts())
        {
            auto info = cc.contactInfo();
            ++count;
            ctx.log("step %d gap %g contacts %u", k, gap, info.nContacts);
            if (gap < -pen - 1e-4)
                MC_CHECK(info.nContacts >= 1, "history", "step %d: overlap %g without contact", k, -gap);
            if (gap > pen + 1e-4)
                MC_CHECK(info.nContacts == 0, "history", "step %d: apart by %g with %u contacts", k, gap, info.nContacts);
            P n = geo::toP(info.normal);
            for (unsigned i = 0; i < info.nContacts; ++i)
            {
                const Body* second = cc.colliders()[1]->body(); // the normal points out of it
                P r = geo::toP(info.refContacts[i]), q = geo::toP(info.incContacts[i]);
                const Poly &S = second == b[0] ? A : B, &F = second == b[0] ? B : A;
                MC_CHECK(std::abs(geo::pointGap(S, r)) < 2 * pen && std::abs(geo::pointGap(F, q)) < 2 * pen, "history",
                         "step %d: contact %u is %g and %g away from the boundaries", k, i, geo::pointGap(S, r), geo::pointGap(F, q));
                MC_CHECK(std::abs(geo::cross(q - r, n)) < 2 * pen, "history", "step %d: the points of contact %u are %g apart sideways", k, i, geo::cross(q - r, n));
            }
        }
        if (gap < 0)
            MC_CHECK(count == 1, "history", "step %d: overlap %g but %d contacts in the world", k, -gap, count);
        ctx.outcome(count ? "contact" : "none");
        ctx.validated(3);
    }
}
