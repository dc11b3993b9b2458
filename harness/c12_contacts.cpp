// C12: the contacts of a world after a step.
#include "world_common.hpp"

struct Counted : ContactConstraint
{
    int serial;
    Counted(Collider& a, Collider& b, int s) : ContactConstraint(a, b), serial(s) {}
};
typedef std::pair<const Collider*, const Collider*> Pair;
static Pair pairOf(const Collider* a, const Collider* b) { return a < b ? Pair{a, b} : Pair{b, a}; }

struct Model
{
    mc::Ctx& ctx;
    int      made = 0;
    World    world;
    std::map<Pair, int> live; // pair -> serial
    std::set<int>       killedByUser;
    std::vector<Body*>  bodies;
    float               pen, dt;

    World::ContactFactory factory()
    {
        return [this](Collider& a, Collider& b, const World::ContactAlloc& al) -> UniquePtr<ContactConstraint> { return makeUnique<Counted>(al, a, b, made++); };
    }
    Model(mc::Ctx& c, float pen, float dt) : ctx(c), world{factory()}, pen(pen), dt(dt) {}
    Body* add(double x, double y, float dominance)
    {
        BodyDescriptor d;
        d.position  = Vec2{(float)x, (float)y};
        d.dominance = dominance;
        Body* b     = world.makeBody(d);
        bodies.push_back(b);
        return b;
    }
    void collider(Body* b, double x, double y, double w = 1) { b->addCollider(ColliderDescriptor{boxAt(x, y, w), tolerant(pen)}); }
    void step(float t)
    {
        world.step(t);
        ctx.transition();
        std::erase_if(bodies, [&](Body* b) {
            for (Body& o : world.bodies())
                if (&o == b)
                    return false;
            return true;
        });
        if (t > 0)
            check();
    }
    void check()
    {
        std::map<Pair, std::pair<Collider*, Collider*>> want;
        std::vector<std::pair<Body*, Collider*>>        all;
        for (Body& b : world.bodies())
            for (auto& c : b.colliders())
                all.push_back({&b, const_cast<Collider*>(&c)});
        for (size_t i = 0; i < all.size(); ++i)
            for (size_t j = i + 1; j < all.size(); ++j)
            {
                Body *p = all[i].first, *q = all[j].first;
                if (p == q || (p->isStructural() && q->isStructural()))
                    continue;
                bool off = false;
                for (Constraint& c : world.constraints())
                    if (c.disablesContacts())
                        off |= (c.bodies()[0] == p && c.bodies()[1] == q) || (c.bodies()[0] == q && c.bodies()[1] == p);
                if (!off && boxesMeet(all[i].second->boundingBox(), all[j].second->boundingBox()))
                    want[pairOf(all[i].second, all[j].second)] = {all[i].second, all[j].second};
            }
        std::map<Pair, int>  have;
        std::map<Body*, std::set<ContactConstraint*>> of;
        for (ContactConstraint& c : world.contacts())
        {
            for (Body* b : c.bodies())
                of[b].insert(&c);
            if (c.isDead())
                continue;
            Pair k = pairOf(c.colliders()[0], c.colliders()[1]);
            MC_CHECK(!have.count(k), "twice", "two live contacts for one pair");
            MC_CHECK(want.count(k), "extra", "a live contact for a pair that does not qualify");
            have[k] = static_cast<Counted&>(c).serial;
            MC_CHECK(c.bodies()[0] == c.colliders()[0]->body() && c.bodies()[1] == c.colliders()[1]->body(), "bodies", "contact joins other bodies than those of its colliders");
        }
        MC_CHECK(have.size() == want.size(), "missing", "%zu live contacts for %zu overlapping pairs", have.size(), want.size());
        for (auto& [k, s] : have)
            if (live.count(k) && !killedByUser.count(live[k]))
                MC_CHECK(live[k] == s, "renewed", "the contact of a pair that kept overlapping was replaced");
            else
                MC_CHECK(!live.count(k) || live[k] != s, "killed", "a killed contact is still there");
        for (Body& b : world.bodies())
        {
            std::set<ContactConstraint*> l;
            size_t                       n = 0;
            for (auto* c : b.contacts())
                l.insert(c), ++n;
            MC_CHECK(l == of[&b] && n == l.size(), "listed", "a body lists %zu contacts but takes part in %zu", n, of[&b].size());
        }
        live = have;
        ctx.log("step: %zu contacts", have.size());
        ctx.validated(want.size() + 1);
    }
};

static void history(mc::Ctx& ctx, float pen, float dt, float v, int depth)
{
    Model m(ctx, pen, dt);
    Body* floor = m.add(0, 0, 0.f);
    m.collider(floor, 0, 0, 2);
    Body* two = m.add(0, 1, 1.f);
    m.collider(two, 0, 0);
    m.collider(two, 2, 0);
    Body* one = m.add(3, 1, 1.f);
    m.collider(one, 0, 0);
    Body* wall = m.add(2, 0, 0.f);
    m.collider(wall, 0, 0);
    Constraint* con = nullptr;
    m.step(dt);
    mc::Hasher seen;
    auto       there = [&](Body* b) { return std::find(m.bodies.begin(), m.bodies.end(), b) != m.bodies.end(); };
    for (int i = 0; i < depth; ++i)
    {
        int   op = ctx.choose(18, "operation");
        Body* moved = nullptr;
        bool  stop = false;
        ctx.log("op %d", op);
        switch (op)
        {
            case 0: break;
            case 1: case 2: case 3: case 4:
                if (!there(two)) ctx.prune();
                moved = two;
                two->setVelocity(Vec2{op == 1 ? v : op == 2 ? -v : 0, op == 3 ? v : op == 4 ? -v : 0});
                break;
            case 5: case 6:
                if (!there(one)) ctx.prune();
                moved = one;
                one->setVelocity(Vec2{op == 5 ? v : -v, 0});
                break;
            case 7:
                moved = wall;
                wall->setVelocity(Vec2{-v, 0});
                break;
            case 8:
                if (!there(one)) ctx.prune();
                m.collider(one, 0, -1);
                break;
            case 9:
                if (!there(two) || two->colliders().begin() == two->colliders().end()) ctx.prune();
                two->removeCollider(const_cast<Collider*>(&*two->colliders().begin()));
                break;
            case 10: case 11:
                if (con || !there(one) || !there(two)) ctx.prune();
                con = m.world.makeConstraint<InertConstraint>(Bodies{one, two}, op == 10);
                break;
            case 12:
                if (!con || con->isDead()) ctx.prune();
                con->kill();
                break;
            case 13:
                if (!there(two) || two->isDead()) ctx.prune();
                two->kill();
                con = nullptr;
                break;
            case 14:
            {
                Body* b = m.add(1, 1.5, 1.f);
                m.collider(b, 0, 0);
                break;
            }
            case 15:
            {
                Counted* first = nullptr;
                for (ContactConstraint& c : m.world.contacts())
                    if (!c.isDead() && (!first || static_cast<Counted&>(c).serial < first->serial))
                        first = static_cast<Counted*>(&c);
                if (!first) ctx.prune();
                first->kill();
                m.killedByUser.insert(first->serial);
                break;
            }
            case 16:
                for (auto& [k, s] : m.live)
                    m.killedByUser.insert(s);
                m.world.setContactFactory(m.factory());
                break;
            case 17:
                m.step(0.f);
                break;
        }
        m.step(dt);
        if (moved && there(moved))
            moved->setVelocity(Vec2{0, 0});
        if (!con || op == 12 || op == 13)
            con = (op == 12 || op == 13) ? nullptr : con;
        (void)stop;
    }
    ctx.outcome(m.live.empty() ? "no contact" : "contacts");
    if (m.made > (int)m.live.size())
        ctx.outcome("contacts ended");
}
MC_SCENARIO(sliding) { history(ctx, 100.f, 1.f, 1.f, ctx.tier(3, 4)); }     // contacts without effect: positions stay on the lattice
MC_SCENARIO(colliding) { history(ctx, 0.005f, 1.f / 4, 2.f, ctx.tier(3, 4)); } // contacts push
MC_SCENARIO(slow) { history(ctx, 0.005f, 1.f / 60, 0.5f, ctx.tier(2, 3)); }

// every placement of three bodies on a lattice, every dominance, every order
MC_SCENARIO(placements)
{
    Model m(ctx, 0.005f, 1.f / 60);
    for (int i = 0; i < 3; ++i)
    {
        Body* b = m.add(i ? ctx.choose(5, "x") * 0.5 : 0, i ? ctx.choose(5, "y") * 0.5 : 0, ctx.flag("structural") ? 0.f : 1.f);
        m.collider(b, 0, 0);
        if (ctx.flag("second collider"))
            m.collider(b, 1, 0.5);
    }
    int link = ctx.choose(4, "constraint");
    if (link && !m.bodies[link - 1]->isStructural() && !m.bodies[link % 3]->isStructural())
        m.world.makeConstraint<InertConstraint>(Bodies{m.bodies[link - 1], m.bodies[link % 3]}, true);
    m.step(m.dt);
    m.step(m.dt);
    ctx.outcome("placed");
}

// hundreds of bodies in a lattice, columns of which slide, die, appear and are tied together
MC_SCENARIO(crowd)
{
    Model                            m(ctx, 100.f, 1.f);
    static const std::vector<double> gaps{0.75, 1, 1.5};
    double                           gap = ctx.pick(gaps, "gap");
    int                              n = ctx.tier(14, 20), fixed = ctx.choose(3, "structural");
    for (int i = 0; i < n * n; ++i)
    {
        Body* b = m.add(i % n * gap, i / n * gap, fixed && i % (fixed + 1) == 0 ? 0.f : 1.f);
        m.collider(b, 0, 0);
    }
    m.step(1);
    int phase = ctx.choose(3, "phase");
    for (int s = 0; s < ctx.tier(3, 4); ++s)
    {
        auto bodies = m.bodies;
        switch ((phase + s * (ctx.thorough ? 1 : 2)) % 4)
        {
            case 0:
                for (size_t i = 0; i < bodies.size(); ++i)
                    bodies[i]->setVelocity(Vec2{0, i % n % 2 ? 0.5f : 0.f});
                break;
            case 1:
                for (size_t i = 0; i < bodies.size(); i += 3)
                    bodies[i]->kill();
                break;
            case 2:
                for (size_t i = 0; i + 1 < bodies.size(); i += 2)
                    if (!bodies[i]->isStructural() || !bodies[i + 1]->isStructural())
                        m.world.makeConstraint<InertConstraint>(Bodies{bodies[i], bodies[i + 1]}, i % 4 == 0);
                break;
            case 3:
                for (int i = 0; i < n * 4; ++i)
                    m.collider(m.add(i % n * gap + gap / 2, i / n * gap, 1.f), 0, 0);
                break;
        }
        m.step(s % 2 ? 0.5f : 1.f);
        for (Body* b : m.bodies)
            b->setVelocity(Vec2{0, 0});
    }
    ctx.outcome("crowd");
}
