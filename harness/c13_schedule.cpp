// C13: how often, when and on what every constraint is solved, and that every body is
// integrated exactly once, whatever the graph.
#include "world_common.hpp"

struct Event
{
    enum Kind
    {
        force,
        init,
        warm,
        velocity,
        position
    } kind;
    int who;
};
static std::vector<Event> events;

// pushes its bodies apart by a fixed impulse in every solve, so that each call leaves a trace
struct Probe : Constraint
{
    int                 id;
    bool                active = true;
    int                 asked  = 0;
    std::string         error;
    std::array<Vec2, 2> p0, v0; // what the bodies must look like before the solve
    std::array<Vec2, 2> p1;     // and after the integration
    static constexpr float J = 0.125f, C = 0.0625f;
    static inline float    W = 0.25f, A = 0.03125f;
    Probe(const Bodies& b, int id, bool disables) : Constraint(b, disables), id(id) {}
    // the answer changes as soon as a body moves: only the one given before counts
    bool isActive(const Proxies& p) override
    {
        ++asked;
        return active != (any(p[0].position() != p0[0]) || any(p[1].position() != p0[1]));
    }
    static Proxies::Impulse impulse(float l, float a) { return Proxies::Impulse{l, 0, a, -2 * l, 0, a}; }
    void                    initSolve(const Proxies& p) override
    {
        events.push_back({Event::init, id});
        for (int i = 0; i < 2; ++i)
            if (any(p[i].position() != p0[i]) || norm(p[i].velocity() - v0[i]) > 1e-6f)
                error = mc::fmt("initialised with body %d at (%g,%g) velocity (%g,%g), it is at (%g,%g) with (%g,%g)", i, p[i].position()[0], p[i].position()[1], p[i].velocity()[0],
                                p[i].velocity()[1], p0[i][0], p0[i][1], v0[i][0], v0[i][1]);
    }
    void warmstart(Proxies& p, float) override
    {
        events.push_back({Event::warm, id});
        p.applyImpulse(impulse(J, W));
    }
    void solveVelocities(Proxies& p, float dt) override
    {
        events.push_back({Event::velocity, id});
        if (dt != 0.25f)
            error = "told another dt";
        for (int i = 0; i < 2; ++i)
            if (any(p[i].position() != p0[i]))
                error = mc::fmt("velocities solved after body %d moved", i);
        p.applyImpulse(impulse(J, W));
    }
    void solvePositions(Proxies& p) override
    {
        events.push_back({Event::position, id});
        // before any correction the bodies have been integrated, corrections are along x only
        for (int i = 0; i < 2; ++i)
            if (std::abs(p[i].position()[1] - p1[i][1]) > 1e-5f)
                error = mc::fmt("positions solved before body %d moved", i);
        p.applyPositionCorrection(impulse(C, A));
    }
};
struct Force : ForceField
{
    Force() : ForceField{ForceField::global()} {}
    void apply(Collider& c, float dt) const override
    {
        events.push_back({Event::force, 0});
        c.body()->applyForce(Vec2{0, 0.5f} * c.body()->mass(), dt);
    }
};

struct Model
{
    double x, y, th, vx, vy, w, invM, invI, dominance;
};
struct Rig
{
    World               world;
    std::vector<Body*>  bodies;
    std::vector<Model>  model;
    std::vector<Probe*> probes;
    std::vector<bool>   touching; // body i active contact with body i+1
    bool                forced = false;
    Body*               add(P at, double width, P v, double spin, float dominance)
    {
        BodyDescriptor d;
        d.position  = geo::toV(at);
        d.dominance = dominance;
        Body* b     = world.makeBody(d);
        b->addCollider(ColliderDescriptor{boxAt(0, 0, width, 1), tolerant(0.01f)});
        b->setVelocity(geo::toV(v));
        b->setAngularVelocity((float)spin);
        bodies.push_back(b);
        model.push_back({at.x, at.y, 0, v.x, v.y, spin, b->invMass(), b->invInertia(), dominance});
        return b;
    }
    int  index(const Body* b) const { return int(std::find(bodies.begin(), bodies.end(), b) - bodies.begin()); }
    void step(mc::Ctx& ctx, World::Settings s)
    {
        const double dt = 0.25;
        // reference
        if (forced)
            for (auto& m : model)
                if (m.dominance != 0)
                    m.vy += 0.5 * dt;
        for (Probe* p : probes)
            for (int i = 0; i < 2; ++i)
            {
                auto& m  = model[index(p->bodies()[i])];
                p->p0[i] = p->bodies()[i]->position();
                p->v0[i] = Vec2{(float)m.vx, (float)m.vy};
                p->p1[i] = p->p0[i] + Vec2{0, (float)(m.vy * dt)};
                p->asked = 0;
            }
        auto push = [&](Probe* p, double l, double a, bool velocities) {
            for (int i = 0; i < 2; ++i)
            {
                auto&  m = model[index(p->bodies()[i])];
                double d = i == 0 ? overrides[p->id].first : overrides[p->id].second;
                double f = (d < 0 ? m.dominance : d), k = i == 0 ? 1 : -2;
                if (velocities)
                    m.vx += k * l * m.invM * f, m.w += a * m.invI * f;
                else
                    m.x += k * l * m.invM * f, m.th += a * m.invI * f;
            }
        };
        for (Probe* p : probes)
            if (p->active)
                push(p, Probe::J * (s.nVelocityIterations + s.enableWarmstarting), Probe::W * (s.nVelocityIterations + s.enableWarmstarting), true);
        for (auto& m : model)
            m.x += m.vx * dt, m.y += m.vy * dt, m.th += m.w * dt;
        for (Probe* p : probes)
            if (p->active)
                push(p, Probe::C * s.nPositionIterations, Probe::A * s.nPositionIterations, false);

        events.clear();
        world.updateSettings(s);
        world.step(0.25f);
        ctx.transition();

        size_t forces = 0, lastForce = 0;
        for (size_t i = 0; i < events.size(); ++i)
            if (events[i].kind == Event::force)
                ++forces, lastForce = i + 1;
        MC_CHECK(lastForce == forces, "order", "forces are applied after a constraint started");
        std::map<int, std::vector<size_t>> at[5];
        for (size_t i = 0; i < events.size(); ++i)
            at[events[i].kind][events[i].who].push_back(i);
        auto count = [&](Event::Kind k, Probe* p) { return (Uint32)(at[k].count(p->id) ? at[k][p->id].size() : 0); };
        for (Probe* p : probes)
        {
            MC_CHECK(p->error.empty(), "proxies", "constraint %d: %s", p->id, p->error.c_str());
            Uint32 on = p->active;
            MC_CHECK(count(Event::init, p) == on, "init", "constraint %d (%s) initialised %u times", p->id, on ? "active" : "inactive", count(Event::init, p));
            MC_CHECK(count(Event::warm, p) == on * s.enableWarmstarting, "warm", "constraint %d (%s) warm-started %u times", p->id, on ? "active" : "inactive", count(Event::warm, p));
            MC_CHECK(count(Event::velocity, p) == on * s.nVelocityIterations, "velocity", "constraint %d (%s) solved %u times for velocities instead of %u", p->id,
                     on ? "active" : "inactive", count(Event::velocity, p), on * s.nVelocityIterations);
            MC_CHECK(count(Event::position, p) == on * s.nPositionIterations, "position", "constraint %d (%s) solved %u times for positions instead of %u", p->id,
                     on ? "active" : "inactive", count(Event::position, p), on * s.nPositionIterations);
            MC_CHECK(p->asked == 1, "asked", "constraint %d is asked %d times whether it is active", p->id, p->asked);
            if (!on)
                continue;
            // order, against itself and every active constraint with which it shares a body that
            // is not structural in both
            auto movable = [&](Probe* c, int i) {
                double o = i == 0 ? overrides[c->id].first : overrides[c->id].second;
                return (o < 0 ? c->bodies()[i]->dominance() : o) != 0;
            };
            for (Probe* q : probes)
            {
                bool shares = false;
                for (int i = 0; i < 2; ++i)
                    for (int j = 0; j < 2; ++j)
                        shares = shares || (p->bodies()[i] == q->bodies()[j] && (movable(p, i) || movable(q, j)));
                if (p != q && (!shares || !q->active))
                    continue;
                auto before = [&](Event::Kind a, Event::Kind b) {
                    return at[a][p->id].empty() || at[b][q->id].empty() || at[a][p->id].back() < at[b][q->id].front();
                };
                MC_CHECK(before(Event::init, Event::warm) && before(Event::init, Event::velocity) && before(Event::warm, Event::velocity) && before(Event::velocity, Event::position),
                         "order", "constraints %d and %d are not solved in order", p->id, q->id);
                for (auto k : {Event::velocity, Event::position})
                    for (size_t r = 0; r + 1 < at[k][p->id].size(); ++r)
                        MC_CHECK(at[k][p->id][r] < at[k][q->id][r + 1], "rounds", "constraints %d and %d are not solved in turn", p->id, q->id);
            }
        }
        for (size_t i = 0; i < bodies.size(); ++i)
        {
            auto&  m = model[i];
            Body*  b = bodies[i];
            double e = 2e-5;
            MC_CHECK(std::abs(b->velocity()[0] - m.vx) < e * (1 + std::abs(m.vx)) && std::abs(b->velocity()[1] - m.vy) < e && std::abs(b->angularVelocity() - m.w) < e * (1 + std::abs(m.w)),
                     "impulses", "body %zu has velocity (%g,%g) spin %g instead of (%g,%g) and %g", i, b->velocity()[0], b->velocity()[1], b->angularVelocity(), m.vx, m.vy, m.w);
            MC_CHECK(std::abs(b->position()[0] - m.x) < e * (1 + std::abs(m.x)) && std::abs(b->position()[1] - m.y) < e * (1 + std::abs(m.y)) &&
                         std::abs(b->orientation() - m.th) < e * (1 + std::abs(m.th)),
                     "integrated", "body %zu is at (%g,%g) turned by %g instead of (%g,%g) and %g", i, b->position()[0], b->position()[1], b->orientation(), m.x, m.y, m.th);
            // continue from what the code has
            m = {b->position()[0], b->position()[1], b->orientation(), b->velocity()[0], b->velocity()[1], b->angularVelocity(), m.invM, m.invI, m.dominance};
        }
        ctx.validated(probes.size() * 6 + bodies.size() * 2);
    }
    std::map<int, std::pair<double, double>> overrides; // -1: the dominance of the body
    bool                                     link(int i, int j, int how, bool disables)
    {
        int id = (int)probes.size();
        try
        {
            if (i == j)
            {
                overrides[id] = {1, 1};
                probes.push_back(world.makeConstraint<Probe>(Bodies::singleBody(bodies[i]), id, disables));
            }
            else if (how == 0)
            {
                overrides[id] = {-1, -1};
                probes.push_back(world.makeConstraint<Probe>(Bodies{{bodies[i], bodies[j]}}, id, disables));
            }
            else
            {
                double a = how == 1 ? 0 : how == 2 ? 1 : 2, b = how == 1 ? 1 : how == 2 ? 0 : 0.5;
                overrides[id] = {a, b};
                probes.push_back(world.makeConstraint<Probe>(Bodies{{bodies[i], bodies[j]}, Bodies::Dominance{(float)a, (float)b}}, id, disables));
            }
        }
        catch (simu::Exception&)
        {
            return false; // two structural bodies
        }
        return true;
    }
};
static World::Settings chooseSettings(mc::Ctx& ctx)
{
    static const std::vector<std::array<int, 3>> s{{8, 2, 1}, {1, 0, 0}, {0, 3, 1}};
    auto                                         c = ctx.pick(s, "settings");
    World::Settings                              r;
    r.nVelocityIterations = c[0];
    r.nPositionIterations = c[1];
    r.enableWarmstarting  = c[2];
    return r;
}
// a stack of bodies; neighbours may touch (with a contact that is active but has nothing to do)
MC_SCENARIO(graph)
{
    Probe::W = Probe::A = 0; // a contact would resist spins
    Rig rig;
    int n = ctx.tier(3, 4);
    // bodies of a stack share their vertical velocity, so that a contact has nothing to do
    double y = 0, vy = 0;
    for (int i = 0; i < n; ++i)
    {
        int kind = ctx.choose(4, "kind"); // still, moving, structural still, structural moving
        rig.add({0, y}, 1000, {kind % 2 ? 0.5 + i : 0, kind % 2 ? vy : 0}, 0, kind >= 2 ? 0.f : 1.f);
        bool touch = i + 1 < n && ctx.flag("touches the next");
        y += touch ? 1 - 0.015 : 3;
    }
    int m = ctx.tier(2, 3);
    std::vector<int> pattern;
    for (int k = 0; k < m; ++k)
    {
        int pairs = n + n * (n - 1) / 2;
        int which = ctx.choose(pairs + 1, "between");
        if (which == pairs)
            break;
        int i = 0, j = 0;
        for (int q = 0, a = 0; a < n; ++a)
            for (int b = a; b < n; ++b, ++q)
                if (q == which)
                    i = a, j = b;
        if (!rig.link(i, j, 0, k == 1))
            ctx.prune();
        pattern.push_back(ctx.choose(3, "active"));
    }
    auto settings = chooseSettings(ctx);
    for (int s = 0; s < 2; ++s)
    {
        for (size_t k = 0; k < pattern.size(); ++k)
            rig.probes[k]->active = pattern[k] == 0 || pattern[k] == s + 1;
        rig.step(ctx, settings);
        ctx.state(mc::Hasher().addf(rig.bodies[0]->position()[0]).addf(rig.bodies[1]->position()[0]).addf(rig.bodies[2]->velocity()[0]).h);
    }
    ctx.outcome("graph");
}
// bodies apart, spinning, with dominance overridden, forces, kills in between
MC_SCENARIO(links)
{
    Probe::W = 0.25f, Probe::A = 0.03125f;
    Rig rig;
    for (int i = 0; i < 3; ++i)
    {
        int kind = ctx.choose(4, "kind");
        rig.add({30.0 * i, 0}, 1 + i, {kind % 2 ? 0.5 + i : 0, kind % 2 ? -1.0 : 0}, kind % 2 ? 0.25 : 0, kind >= 2 ? 0.f : i == 1 ? 2.f : 1.f);
    }
    rig.forced = ctx.flag("force");
    if (rig.forced)
        rig.world.makeForceField<Force>();
    for (int k = 0; k < 2; ++k)
        if (!rig.link(k, k + 1, ctx.choose(4, "dominance"), false))
            ctx.prune();
    rig.probes[1]->active = !ctx.flag("second inactive");
    auto settings         = chooseSettings(ctx);
    rig.step(ctx, settings);
    int op = ctx.choose(4, "operation");
    if (op == 1)
    {
        rig.probes[0]->kill();
        rig.probes.erase(rig.probes.begin());
    }
    if (op == 2)
    {
        rig.bodies[2]->kill();
        rig.probes.pop_back();
        rig.bodies.pop_back();
        rig.model.pop_back();
    }
    if (op == 3)
    {
        rig.add({-20, 0}, 1, {1, 1}, 1, 1);
        // ids are positions in the list, which has lost nothing here
        if (!rig.link(3, 0, 0, false))
            ctx.prune();
    }
    rig.step(ctx, chooseSettings(ctx));
    ctx.outcome("links");
    ctx.state(mc::Hasher().addf(rig.bodies[0]->position()[0]).addf(rig.bodies[0]->orientation()).addf(rig.bodies[1]->velocity()[0]).h);
}
// large islands of every form
MC_SCENARIO(large)
{
    Probe::W = 0.25f, Probe::A = 0.03125f;
    Rig              rig;
    static const std::vector<int> sizes{1, 2, 5, 17, 40, 300};
    int              n     = ctx.pick(sizes, "bodies");
    int              form  = ctx.choose(5, "form");
    int              where = ctx.choose(4, "structural"); // none, first, middle, every third
    bool             huge  = n > 200;
    bool             back  = !huge && ctx.flag("linked backwards");
    for (int i = 0; i < n; ++i)
    {
        bool st = (where == 1 && i == 0) || (where == 2 && i == n / 2) || (where == 3 && i % 3 == 1);
        rig.add({50.0 * i, 0}, 1, {i % 2 ? 0.5 : 0, st ? 0.0 : 1.0}, 0, st ? 0.f : 1.f);
    }
    std::vector<std::pair<int, int>> edges;
    for (int i = 0; i + 1 < n; ++i)
    {
        if (form == 0)
            edges.push_back({i, i + 1});
        if (form == 1)
            edges.push_back({0, i + 1});
        if (form == 2)
            edges.push_back({i, n - 1 - i});
        if (form == 3)
            edges.push_back({(i - 1) / 2, i + 1});
        if (form == 4 && i % 2 == 0)
            edges.push_back({i + 1, i});
    }
    if (form == 0 && n > 2)
        edges.push_back({n - 1, 0});
    if (back)
        std::reverse(edges.begin(), edges.end());
    int inactive = huge ? 1 : ctx.choose(3, "inactive");
    for (auto [i, j] : edges)
        if (i != j && rig.link(i, j, 0, false))
            rig.probes.back()->active = !(inactive == 1 && rig.probes.size() % 3 == 0) && !(inactive == 2 && rig.probes.size() % 2 == 0);
    World::Settings settings;
    if (huge)
        settings.nVelocityIterations = 2, settings.nPositionIterations = 1;
    else
        settings = chooseSettings(ctx);
    rig.step(ctx, settings);
    for (auto* p : rig.probes)
        p->active = !p->active;
    rig.step(ctx, settings);
    ctx.outcome("large");
    ctx.state(mc::Hasher().addf(rig.bodies[0]->position()[0]).addf(rig.bodies[n / 2]->position()[0]).add(n).h);
}
