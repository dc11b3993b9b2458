// C15: force fields act once per collider of their domain, with their defined effect.
#include "world_common.hpp"

struct Recorder : ForceField
{
    mutable std::map<const Collider*, int> calls;
    mutable float                          lastDt = -1;
    Recorder(Domain d) : ForceField{d} {}
    void apply(Collider& c, float dt) const override
    {
        ++calls[&c];
        lastDt = dt;
    }
};
struct Shape
{
    P      at;
    double w, h, density;
};
static const std::vector<std::vector<Shape>>& kinds()
{
    static const std::vector<std::vector<Shape>> k{
        {{{0, 0}, 1, 1, 1}},
        {{{-1.5, 0}, 1, 1, 1}, {{1.5, 0}, 1, 1, 1}},
        {{{0, 0}, 1, 1, 2}, {{2, 0}, 0.5, 3, 1}, {{0, 2}, 1, 0.5, 0.5}},
        {},
    };
    return k;
}
static Body* makeKind(World& w, int kind, P at, float theta, float dominance)
{
    BodyDescriptor d;
    d.position    = geo::toV(at);
    d.orientation = theta;
    d.dominance   = dominance;
    Body* b       = w.makeBody(d);
    for (auto& s : kinds()[kind])
    {
        Material m;
        m.density = (float)s.density;
        b->addCollider(ColliderDescriptor{boxAt(s.at.x, s.at.y, s.w, s.h), m});
    }
    return b;
}
static const std::vector<ForceField::Domain>& domains()
{
    static const std::vector<ForceField::Domain> d{
        ForceField::global(),
        ForceField::region(Vec2{-0.25f, -0.25f}, Vec2{0.25f, 0.25f}),
        ForceField::region(Vec2{0.5f, -10}, Vec2{10, 10}),      // borders the unit box at the origin
        ForceField::region(Vec2{0.75f, -10}, Vec2{0.875f, 10}), // between
        ForceField::region(Vec2{-100, -100}, Vec2{100, 100}),
        ForceField::region(Vec2{-2.5f, -0.5f}, Vec2{-1.25f, -0.5f}), // a segment
        ForceField::region(Vec2{0.f, 2.25f}, Vec2{0.f, 2.25f}),      // a point
        ForceField::region(Vec2{3.25f, 1}, Vec2{6, 6}),
        ForceField::region(Vec2{1, 1}, Vec2{-1, -1}), // invalid: contains nothing
    };
    return d;
}
static const std::vector<P>& spots()
{
    static const std::vector<P> s{{0, 0}, {4, 1}, {-2, -0.5}};
    return s;
}

MC_SCENARIO(domain)
{
    World w;
    // the bodies
    std::vector<Body*> bodies;
    int                nBodies = ctx.tier(2, 3);
    for (int i = 0; i < nBodies; ++i)
    {
        int kind = ctx.choose((int)kinds().size(), "kind");
        bodies.push_back(makeKind(w, kind, spots()[i], i == 1 && ctx.flag("turned") ? 0.7f : 0.f, ctx.flag("structural") ? 0.f : (i == 1 ? 3.f : 1.f)));
    }
    std::vector<Recorder*> fields{w.makeForceField<Recorder>(ctx.pick(domains(), "domain")), w.makeForceField<Recorder>(domains()[0])};
    std::set<const Body*>  dying;
    bool                   fieldDying = false;
    int                    depth      = ctx.tier(2, 3);
    for (int i = 0; i < depth; ++i)
    {
        bool removed = false;
        switch (ctx.choose(7, "operation"))
        {
            case 0: break;
            case 1:
                if (bodies[0]->colliders().begin() == bodies[0]->colliders().end())
                    ctx.prune();
                bodies[0]->removeCollider(const_cast<Collider*>(&*bodies[0]->colliders().begin()));
                break;
            case 2: bodies[1]->addCollider(ColliderDescriptor{boxAt(-3.5, 1.25)}); break;
            case 3: bodies[0]->kill(); dying.insert(bodies[0]); break;
            case 4: bodies[0]->setVelocity(Vec2{2, 0.5f}); bodies[0]->setAngularVelocity(1); break;
            case 5: fields[0]->kill(); fieldDying = true; break;
            case 6: fields.push_back(w.makeForceField<Recorder>(domains()[3])); break;
        }
        for (Body* b : bodies)
            if (dying.count(b))
                removed = true;
        // expected calls, from the geometry at this moment
        std::vector<std::map<const Collider*, int>> want(fields.size());
        float                                       dt = ctx.flag("time advances") ? 0.25f : 0.f;
        if (dt > 0)
            for (size_t f = 0; f < fields.size(); ++f)
                if (!(f == 0 && fieldDying))
                    for (Body* b : bodies)
                        if (!dying.count(b) && !b->isStructural())
                            for (auto& c : b->colliders())
                            {
                                auto d = fields[f]->domain();
                                bool valid = d.region.min()[0] <= d.region.max()[0] && d.region.min()[1] <= d.region.max()[1];
                                if (d.type == ForceField::DomainType::global || (valid && boxesMeet(d.region, c.boundingBox())))
                                    want[f][&c] = 1;
                            }
        for (size_t f = 0; f < fields.size(); ++f)
            fields[f]->calls.clear();
        w.step(dt);
        ctx.transition();
        if (fieldDying)
        {
            fields.erase(fields.begin());
            want.erase(want.begin());
            fieldDying = false;
            // a replacement keeps the index
            fields.insert(fields.begin(), w.makeForceField<Recorder>(domains()[1]));
            want.emplace(want.begin());
        }
        size_t total = 0;
        for (size_t f = 0; f < fields.size(); ++f)
        {
            for (auto& [c, n] : want[f])
            {
                MC_CHECK(fields[f]->calls.count(c) && fields[f]->calls[c] == n, "calls", "field %zu acts %d times on a collider of its domain", f,
                         fields[f]->calls.count(c) ? fields[f]->calls[c] : 0);
            }
            MC_CHECK(fields[f]->calls.size() == want[f].size(), "calls", "field %zu acts on %zu colliders instead of %zu", f, fields[f]->calls.size(), want[f].size());
            MC_CHECK(want[f].empty() || fields[f]->lastDt == dt, "dt", "field told dt %g", fields[f]->lastDt);
            total += want[f].size();
            ctx.validated(want[f].size() + 1);
        }
        if (removed)
        {
            bodies.erase(bodies.begin());
            dying.clear();
            bodies.insert(bodies.begin(), makeKind(w, 0, spots()[0], 0, 1));
        }
        ctx.outcome(total ? "acts" : "acts on nothing");
        ctx.state(mc::Hasher().add(total).addf(bodies[0]->position()[0]).add(fields.size()).h);
    }
}

// body-level effect of the predefined fields
MC_SCENARIO(effect)
{
    World              w;
    int                kind  = ctx.choose(3, "kind");
    float              theta = ctx.pick(std::vector<float>{0.f, 0.7f, -2.f}, "orientation");
    float              dom   = ctx.pick(std::vector<float>{1.f, 5.f, 0.f}, "dominance");
    Body*              b     = makeKind(w, kind, {0, 0}, theta, dom);
    float              k     = ctx.pick(std::vector<float>{1.f, 1e-3f, 1e3f}, "density factor");
    if (k != 1)
    {
        // rebuild with other densities, in a history of removals
        std::vector<Collider*> old;
        for (auto& c : b->colliders())
            old.push_back(const_cast<Collider*>(&c));
        for (auto& s : kinds()[kind])
        {
            Material m;
            m.density = (float)(s.density * k);
            b->addCollider(ColliderDescriptor{boxAt(s.at.x, s.at.y, s.w, s.h), m});
        }
        for (auto* c : old)
            b->removeCollider(c);
    }
    Vec2  v0 = ctx.flag("moving") ? Vec2{1, -2} : Vec2{};
    float s0 = ctx.flag("spinning") ? 1.5f : 0.f;
    b->setVelocity(v0);
    b->setAngularVelocity(s0);
    // the domain covers all of it, one of the colliders, or nothing
    Vec2 f  = ctx.pick(std::vector<Vec2>{Vec2{0, -9.81f}, Vec2{3, 4}, Vec2{0, 0}}, "field");
    float dt = ctx.pick(std::vector<float>{1.f / 60, 0.5f}, "dt");
    int  domain  = ctx.choose(6, "field");
    P    dv{};
    double dw = 0;
    auto linearIn = [&](const ForceField::Domain& d) {
        for (auto& c : b->colliders())
            if (d.type == ForceField::DomainType::global || boxesMeet(d.region, c.boundingBox()))
            {
                auto   m = c.properties();
                P      r = geo::rot(geo::toP(m.centroid) - geo::toP(b->localCentroid()), b->orientation());
                P      J = geo::toP(f) * (dt * (double)m.m / b->mass());
                dv       = dv + J * (1.0 / b->mass());
                dw += geo::cross(r, J) / b->inertia();
            }
    };
    switch (domain)
    {
        case 0: w.makeForceField<Gravity>(f); dv = geo::toP(f) * dt; break;
        case 1: w.makeForceField<LinearField>(f); dv = geo::toP(f) * (dt / (double)b->mass()); break;
        case 2: w.makeForceField<LinearField>(f, domains()[4]); dv = geo::toP(f) * (dt / (double)b->mass()); break;
        case 3: w.makeForceField<LinearField>(f, domains()[2]); linearIn(domains()[2]); break;
        case 4: w.makeForceField<LinearField>(f, domains()[6]); linearIn(domains()[6]); break;
        case 5:
            w.makeForceField<Gravity>(f);
            w.makeForceField<LinearField>(f);
            w.makeForceField<Gravity>();
            dv = geo::toP(f) * dt + geo::toP(f) * (dt / (double)b->mass()) + P{0, -9.81 * dt};
            break;
    }
    if (dom == 0)
        dv = P{}, dw = 0;
    P      p0 = geo::toP(b->centroid());
    double o0 = b->orientation();
    w.step(dt);
    ctx.transition();
    P      got = geo::toP(b->velocity()) - geo::toP(v0);
    double tol = 2e-5 * (1 + geo::norm(dv)) ;
    MC_CHECK(geo::norm(got - dv) < tol, "velocity", "velocity changes by (%g,%g) instead of (%g,%g)", got.x, got.y, dv.x, dv.y);
    MC_CHECK(std::abs(b->angularVelocity() - s0 - dw) < 2e-5 * (1 + std::abs(dw) + geo::norm(dv) * 4), "spin", "spin changes by %g instead of %g", b->angularVelocity() - s0, dw);
    // it moves with the new velocity
    P moved = geo::toP(b->centroid()) - p0;
    MC_CHECK(geo::norm(moved - geo::toP(b->velocity()) * dt) < 1e-5 * (1 + geo::norm(moved)), "move", "moved by (%g,%g)", moved.x, moved.y);
    MC_CHECK(std::abs(b->orientation() - o0 - b->angularVelocity() * dt) < 1e-5 * (1 + std::abs(b->angularVelocity()) * dt), "move", "turned by %g", b->orientation() - o0);
    ctx.validated(4);
    ctx.outcome(dom == 0 ? "structural" : "moved by the field");
    ctx.state(mc::Hasher().addf(dv.x).addf(dv.y).addf(dw).add(kind).h);
}

// impulses given by hand
MC_SCENARIO(impulse)
{
    World                          w;
    int                            kind = ctx.choose(3, "kind");
    Body*                          b = makeKind(w, kind, {1, -1}, ctx.flag("turned") ? 0.7f : 0.f, ctx.flag("dominance") ? 4.f : 1.f);
    static const std::vector<Vec2> v{Vec2{0, 0}, Vec2{1, 0}, Vec2{0, -2}, Vec2{3, 0.5f}, Vec2{-0.25f, 7}};
    P      want{};
    double spin = 0;
    int    depth = ctx.tier(2, 3);
    for (int i = 0; i < depth; ++i)
    {
        Vec2  J = ctx.pick(v, "impulse"), at = ctx.pick(v, "where");
        int   how = ctx.choose(4, "how");
        double k  = 1;
        switch (how)
        {
            case 0: b->applyImpulse(J, at); break;
            case 1: b->applyImpulse(J); at = Vec2{}; break;
            case 2: b->applyForce(J, 0.25f, at); k = 0.25; break;
            case 3: b->applyForce(J, 2.f); k = 2; at = Vec2{}; break;
        }
        ctx.transition();
        want = want + geo::toP(J) * (k / b->mass());
        spin += k * geo::cross(geo::toP(at), geo::toP(J)) / b->inertia();
        MC_CHECK(geo::norm(geo::toP(b->velocity()) - want) < 1e-5 * (1 + geo::norm(want)), "impulse", "velocity (%g,%g) instead of (%g,%g)", b->velocity()[0], b->velocity()[1],
                 want.x, want.y);
        MC_CHECK(std::abs(b->angularVelocity() - spin) < 1e-5 * (1 + std::abs(spin)), "moment", "spin %g instead of %g", b->angularVelocity(), spin);
        ctx.validated(2);
    }
    ctx.outcome("impulse");
    ctx.state(mc::Hasher().addf(want.x).addf(want.y).addf(spin).h);
}
