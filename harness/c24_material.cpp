// C24: how two materials combine, and that contacts act with the combined coefficients.
#include "world_common.hpp"

static double combined(int m1, double a, int m2, double b)
{
    switch (std::max(m1, m2))
    {
        case 0: return (a + b) / 2;
        case 1: return std::min(a, b);
        case 2: return a * b;
        default: return std::max(a, b);
    }
}
static CombinableProperty prop(double v, int m) { return CombinableProperty{(float)v, static_cast<CombinableProperty::Mode>(m)}; }

MC_SCENARIO(combine)
{
    static const std::vector<float> v{0.f, 1.f, 0.5f, 0.25f, 0.1f, 0.3f, 2.f, 0.005f, 1e-3f, -0.5f, 7.f, 1e4f, 1e-6f, 0.99999f};
    int   m1 = ctx.choose(4, "mode of the first"), m2 = ctx.choose(4, "mode of the second");
    float a = ctx.pick(v, "first"), b = ctx.pick(v, "second");
    CombinableProperty c{prop(a, m1), prop(b, m2)}, r{prop(b, m2), prop(a, m1)};
    double want = combined(m1, a, m2, b);
    MC_CHECK(c.mode == std::max(m1, m2) && r.mode == c.mode, "mode", "mode %d and %d (swapped) instead of %d", c.mode, r.mode, std::max(m1, m2));
    MC_CHECK(std::abs(c.value - want) <= 1e-6 * std::abs(want), "value", "modes %d %d values %g %g combine to %.9g instead of %.9g", m1, m2, a, b, c.value, want);
    MC_CHECK(c.value == r.value, "symmetry", "modes %d %d values %g %g combine to %.9g, swapped %.9g", m1, m2, a, b, c.value, r.value);
    // combining again with a third one uses the combined mode
    int                m3 = ctx.choose(4, "mode of the third");
    CombinableProperty t{c, prop(0.75, m3)};
    double             want3 = combined(std::max(m1, m2), want, m3, 0.75);
    MC_CHECK(std::abs(t.value - want3) <= 1e-6 * std::abs(want3) + 1e-12, "value", "third value %.9g instead of %.9g", t.value, want3);
    for (int m = 0; m < 4; ++m)
        MC_CHECK(std::abs(CombinableProperty::combine(static_cast<CombinableProperty::Mode>(m), a, b) - combined(m, a, 0, b)) <= 1e-6 * std::abs(combined(m, a, 0, b)), "value",
                 "combine(%d, %g, %g)", m, a, b);
    ctx.validated(8);
    ctx.transition(2);
    static const char* names[] = {"average", "minimum", "multiply", "maximum"};
    ctx.outcome(names[std::max(m1, m2)]);
}

struct Pair
{
    int    m1, m2;
    double a, b;
    double want;
};
static Pair choosePair(mc::Ctx& ctx, const std::vector<double>& values)
{
    Pair p;
    p.m1   = ctx.choose(4, "mode of the lower");
    p.m2   = ctx.choose(4, "mode of the upper");
    p.a    = ctx.pick(values, "value of the lower");
    p.b    = ctx.pick(values, "value of the upper");
    p.want = combined(p.m1, p.a, p.m2, p.b);
    return p;
}
// The upper body falls on the lower one, which is structural or not; each may have a
// second collider that touches nothing and has misleading coefficients.
struct Setup
{
    World w;
    Body *lower = nullptr, *upper = nullptr;
    float massLower = 0, massUpper = 0;
    bool  structural;
    float turn;
    P     dir(double x, double y) const { return geo::rot({x, y}, turn); }
    Setup(mc::Ctx& ctx, const Material& ml, const Material& mu, double overlap)
    {
        structural      = ctx.flag("structural support");
        bool extra      = ctx.flag("further colliders");
        bool upperFirst = ctx.flag("upper body created first");
        turn            = ctx.flag("sideways") ? 1.5707963f : 0.f;
        Material bad;
        bad.bounciness  = CombinableProperty{0.8f, CombinableProperty::maximum};
        bad.friction    = CombinableProperty{0.9f, CombinableProperty::maximum};
        bad.penetration = CombinableProperty{0.3f, CombinableProperty::maximum};
        auto place      = [&](P c, double w_, double h) { return geo::toPolygon(geo::place(geo::box(w_, h), turn, geo::rot(c, turn))); };
        auto make       = [&](bool up) {
            BodyDescriptor d;
            d.position  = geo::toV(dir(0, up ? 1 - overlap : 0));
            d.dominance = !up && structural ? 0.f : 1.f;
            Body* b     = w.makeBody(d);
            double far  = up ? 1 : -1;
            if (extra && !upperFirst)
                b->addCollider(ColliderDescriptor{place({0, far}, 1, 1), bad});
            b->addCollider(ColliderDescriptor{place({0, 0}, up ? 4 : 8, 1), up ? mu : ml});
            if (extra && upperFirst)
                b->addCollider(ColliderDescriptor{place({0, far}, 1, 1), bad});
            (up ? upper : lower) = b;
        };
        make(upperFirst);
        make(!upperFirst);
    }
    ContactInfo info(mc::Ctx& ctx)
    {
        int         n = 0;
        ContactInfo i{};
        for (ContactConstraint& c : w.contacts())
        {
            i = c.contactInfo();
            ++n;
        }
        MC_CHECK(n == 1, "contact", "%d contacts", n);
        return i;
    }
};
MC_SCENARIO(bounce)
{
    Pair     p = choosePair(ctx, {0.0, 0.25, 0.5, 1.0});
    Material ml, mu;
    ml.bounciness = prop(p.a, p.m1);
    mu.bounciness = prop(p.b, p.m2);
    Setup s(ctx, ml, mu, 0.006);
    s.w.step(1e-4f); // finds the contact
    s.info(ctx);
    double speed = 4;
    s.upper->setVelocity(geo::toV(s.dir(0, -speed)));
    s.w.step(1e-4f);
    ctx.transition(2);
    P      n   = s.dir(0, 1);
    double rel = geo::dot(geo::toP(s.upper->velocity()) - geo::toP(s.lower->velocity()), n);
    MC_CHECK(std::abs(rel - speed * p.want) < 2e-3, "bounce", "modes %d %d values %g %g: rebounds at %g instead of %g", p.m1, p.m2, p.a, p.b, rel, speed * p.want);
    ctx.validated();
    ctx.outcome(p.want > 0 ? "bounces" : "does not bounce");
    ctx.state(mc::Hasher().addf(rel).add(s.structural).h);
}
MC_SCENARIO(friction)
{
    Pair     p = choosePair(ctx, {0.0, 0.25, 0.5, 1.0});
    Material ml, mu;
    ml.friction = prop(p.a, p.m1);
    mu.friction = prop(p.b, p.m2);
    Setup s(ctx, ml, mu, 0.006);
    s.w.step(1e-4f);
    s.info(ctx);
    double speed = ctx.flag("backwards") ? -6 : 6;
    double press = 0.9; // slower than the impacts that bounce
    s.upper->setVelocity(geo::toV(s.dir(speed, -press)));
    double m = s.upper->mass();
    double normal = s.structural ? m * press : press / (1 / m + 1 / s.lower->mass());
    s.w.step(1e-4f);
    ctx.transition(2);
    double dv   = geo::dot(geo::toP(s.upper->velocity()), s.dir(1, 0)) - speed;
    double want = -(speed > 0 ? 1 : -1) * p.want * normal / m;
    MC_CHECK(std::abs(dv - want) < 2e-3, "friction", "modes %d %d values %g %g: sliding velocity changes by %g instead of %g", p.m1, p.m2, p.a, p.b, dv, want);
    ctx.validated();
    ctx.outcome(p.want > 0 ? "friction" : "frictionless");
    ctx.state(mc::Hasher().addf(dv).add(s.structural).h);
}
MC_SCENARIO(penetration)
{
    Pair     p = choosePair(ctx, {0.25, 0.03, 0.1, 0.05});
    Material ml, mu;
    ml.penetration = prop(p.a, p.m1);
    mu.penetration = prop(p.b, p.m2);
    bool  deeper = ctx.flag("deeper than tolerated");
    Setup s(ctx, ml, mu, p.want * (deeper ? 1.02 : 0.98));
    s.w.step(1e-5f);
    ContactInfo i = s.info(ctx);
    MC_CHECK((i.nContacts != 0) == deeper, "penetration", "modes %d %d values %g %g: %u contact points at %s the tolerated penetration %g", p.m1, p.m2, p.a, p.b, i.nContacts,
             deeper ? "1.02 times" : "0.98 times", p.want);
    // and the response agrees: only a tolerated overlap lets the bodies approach
    s.upper->setVelocity(geo::toV(s.dir(0, -0.5)));
    s.w.step(1e-5f);
    ctx.transition(2);
    double rel = geo::dot(geo::toP(s.upper->velocity()) - geo::toP(s.lower->velocity()), s.dir(0, 1));
    MC_CHECK(deeper ? rel > -1e-3 : std::abs(rel + 0.5) < 1e-5, "penetration", "relative velocity %g", rel);
    ctx.validated(2);
    ctx.outcome(deeper ? "contact" : "tolerated");
    ctx.state(mc::Hasher().addf(rel).add(i.nContacts).h);
}
