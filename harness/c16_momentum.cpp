// C16: contacts and joints conserve linear and angular momentum, with the masses of the moment.
#include "joints.hpp"

struct Totals
{
    P      p, com;
    double L = 0, m = 0, scale = 0;
};
// momenta of the velocities of the bodies about the origin, at the given centroids
static Totals totals(const std::vector<Body*>& bodies, const std::vector<P>* at = nullptr)
{
    Totals t;
    for (size_t i = 0; i < bodies.size(); ++i)
    {
        Body*  b = bodies[i];
        double m = b->mass(), I = b->inertia(), w = b->angularVelocity();
        P      v = geo::toP(b->velocity()), c = at ? (*at)[i] : geo::toP(b->centroid());
        t.p      = t.p + v * m;
        t.com    = t.com + geo::toP(b->centroid()) * m;
        t.m += m;
        t.L += geo::cross(c, v) * m + I * w;
        t.scale += m * geo::norm(v) * (1 + geo::norm(c)) + std::abs(I * w);
    }
    t.com = t.com * (1 / t.m);
    return t;
}
static std::vector<P> centroids(const std::vector<Body*>& bodies)
{
    std::vector<P> c;
    for (Body* b : bodies)
        c.push_back(geo::toP(b->centroid()));
    return c;
}
// One step; slack is how far apart the two points of application of a same impulse may be
static void stepAndCheck(mc::Ctx& ctx, World& w, const std::vector<Body*>& bodies, float dt, double slack, const char* what)
{
    auto      before = totals(bodies);
    auto      c      = centroids(bodies);
    std::vector<BodyState> s0;
    std::vector<double>    m0;
    for (Body* b : bodies)
        s0.emplace_back(b), m0.push_back(b->mass());
    w.step(dt);
    ctx.transition();
    auto   after = totals(bodies, &c);
    double moved = 0; // momentum exchanged
    for (size_t i = 0; i < bodies.size(); ++i)
    {
        MC_CHECK(BodyState(bodies[i]).finite(), "finite", "not a number");
        moved += m0[i] * norm(bodies[i]->velocity() - s0[i].v);
    }
    double tol = 2e-5 * (before.scale + after.scale + moved);
    MC_CHECK(geo::norm(after.p - before.p) < tol + 1e-6, "linear", "%s: momentum (%g,%g) becomes (%g,%g), exchanged %g", what, before.p.x, before.p.y, after.p.x, after.p.y, moved);
    MC_CHECK(std::abs(after.L - before.L) < tol + 1e-6 + slack * moved, "angular", "%s: angular momentum %g becomes %g, exchanged %g", what, before.L, after.L, moved);
    P drift = after.com - before.com - after.p * (dt / after.m);
    MC_CHECK(geo::norm(drift) < 2e-5 * (1 + geo::norm(before.com) + geo::norm(after.p) * dt / after.m), "centre", "%s: the centre of mass drifts by (%g,%g)", what, drift.x, drift.y);
    ctx.validated(3);
    ctx.outcome(moved > 1e-4 ? "exchanged" : "nothing exchanged");
    ctx.state(mc::Hasher().addf(after.p.x).addf(after.L).addf(moved).addf(bodies[0]->position()[0]).h);
}
static const std::vector<std::array<double, 3>>& densities()
{
    static const std::vector<std::array<double, 3>> d{{1, 1, 1}, {1, 100, 0.1}, {20, 1, 5}, {1e3, 1e-2, 1}};
    return d;
}
static int changeMass(mc::Ctx& ctx, std::vector<Body*>& bodies, const char* label)
{
    int op = ctx.choose(4, label);
    Material m;
    m.density = 50;
    switch (op)
    {
        case 1: bodies[0]->addCollider(ColliderDescriptor{boxAt(-0.4, 0, 0.5, 0.5), m}); break;
        case 2: bodies[1]->addCollider(ColliderDescriptor{boxAt(0.1, 0.1, 0.25, 0.25), m}); break;
        case 3:
        {
            Body* b = bodies[1];
            int   n = 0;
            for (auto& c : b->colliders())
                (void)c, ++n;
            if (n < 2)
                ctx.prune();
            b->removeCollider(const_cast<Collider*>(&*b->colliders().begin()));
            break;
        }
    }
    return op;
}
MC_SCENARIO(joints)
{
    World              w;
    auto               rho = ctx.pick(densities(), "densities");
    std::vector<Body*> b;
    static const std::vector<std::array<P, 3>> velocities{{P{0, 0}, P{0, 0}, P{0, 0}}, {P{1, 0}, P{-1, 2}, P{0, 0}}, {P{0, 3}, P{0, -1}, P{-2, 1}}, {P{0.5, -0.25}, P{7, -3}, P{1, 1}}};
    auto                                       v     = ctx.pick(velocities, "velocities");
    double                                     spin  = ctx.pick(std::vector<double>{0, 2}, "spin");
    double                                     bent  = ctx.flag("bent") ? 0.5 : 0;
    b.push_back(makeBox(w, {{0, 0}, 0, 1, 1, rho[0], 1, v[0], spin}));
    b.push_back(makeBox(w, {{2, bent}, 0.3, 1, 2, rho[1], 1, v[1], -spin / 2}));
    b.push_back(makeBox(w, {{4, 0}, 0, 1, 1, rho[2], 1, v[2], spin * 2}));
    int k01 = 1 + ctx.choose(nJoints - 1, "first joint"), k12 = ctx.choose(nJoints, "second joint");
    w.makeConstraint<InertConstraint>(Bodies{{b[0], b[2]}}, true); // no contact
    // what a joint holds together, in local space
    struct Shared
    {
        Body *a, *b;
        Vec2  la, lb;
    };
    std::vector<Shared> shared;
    auto join = [&](int kind, int i, int j, bool swap) {
        P      pi = geo::toP(b[i]->centroid()) + P{0.25, 0.5}, pj = geo::toP(b[j]->centroid());
        double d = geo::norm(pi - pj);
        // limits that are exceeded or not according to the kind
        double lo = d * (kind == minDistance ? 1.05 : 1), hi = d * (kind == maxDistance || kind == rangeDistance ? 1.0 : 1.1);
        if (kind == rangeDistance)
            lo = d * 0.8, hi = d * 0.97;
        if (kind == exactDistance)
            lo = d;
        if (kind == hingeJoint || kind == weldJoint)
        {
            Vec2 at = kind == weldJoint ? (b[i]->centroid() + b[j]->centroid()) / 2 : geo::toV((pi + pj) * 0.5);
            shared.push_back({b[i], b[j], b[i]->toLocalSpace() * at, b[j]->toLocalSpace() * at});
        }
        if (swap)
            makeJoint(w, kind, Bodies{{b[j], b[i]}}, (pi + pj) * 0.5, {pj, pi}, lo, hi);
        else
            makeJoint(w, kind, Bodies{{b[i], b[j]}}, (pi + pj) * 0.5, {pi, pj}, lo, hi);
    };
    join(k01, 0, 1, false);
    if (k12)
        join(k12, 1, 2, ctx.flag("reversed"));
    changeMass(ctx, b, "change before");
    float dt    = ctx.pick(std::vector<float>{1.f / 60, 0.1f}, "dt");
    int   steps = ctx.tier(8, 24);
    for (int i = 0; i < steps; ++i)
    {
        if (i == 1)
            changeMass(ctx, b, "change between");
        // a stretched hinge pulls at two points (the velocity solver keeps their offset)
        double slack = 1e-5;
        for (auto& x : shared)
            slack = std::max(slack, 1.01 * norm(x.a->toWorldSpace() * x.la - x.b->toWorldSpace() * x.lb));
        stepAndCheck(ctx, w, b, dt, slack, jointName(k01));
    }
}
MC_SCENARIO(contacts)
{
    World    w;
    auto     rho = ctx.pick(densities(), "densities");
    Material m;
    m.bounciness = CombinableProperty{ctx.flag("bouncy") ? 0.75f : 0.f};
    float fr     = ctx.pick(std::vector<float>{0.f, 0.5f}, "friction");
    m.friction   = CombinableProperty{fr};
    std::vector<Body*> b;
    double             tilt = ctx.pick(std::vector<double>{0, 0.5, 0.7853981}, "tilt"), spin = ctx.pick(std::vector<double>{0, 3}, "spin");
    double             over = ctx.pick(std::vector<double>{0.006, 0.02, 0.1}, "overlap");
    P                  v    = ctx.pick(std::vector<P>{{0, 0}, {0, -2}, {3, -0.5}, {-1, -4}}, "velocity");
    double             side = ctx.pick(std::vector<double>{0, 0.75, -0.5}, "side");
    // the extent of the tilted box
    double half = 0.5 * (std::cos(tilt) + std::sin(tilt));
    b.push_back(makeBox(w, {{side, half + 0.5 - over}, tilt, 1, 1, rho[0], 1, v, spin}, &m));
    b.push_back(makeBox(w, {{0, 0}, 0, 2, 1, rho[1], 1, {0.5, 0}, 0}, &m));
    b.push_back(makeBox(w, {{0, -1.5 + over}, 0, 1, 2, rho[2], 1, {0, ctx.flag("pushed from below") ? 2.0 : 0}, 0}, &m));
    int   changed = changeMass(ctx, b, "change before");
    float dt = 1.f / 60;
    w.step(1e-6f); // finds the contacts
    int n = 0;
    for (auto& x : w.contacts())
        (void)x, ++n;
    MC_CHECK(changed || n >= 2, "contact", "%d contacts", n);
    int steps = ctx.tier(8, 24);
    for (int i = 0; i < steps; ++i)
    {
        if (i == 1)
            changeMass(ctx, b, "change between");
        // friction acts at points separated by the overlap, pushes at points that may have
        // slid by the tolerance
        stepAndCheck(ctx, w, b, dt, fr > 0 ? 0.2 : 0.0055, "contacts");
    }
}
