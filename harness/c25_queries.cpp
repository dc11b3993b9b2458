// C25: region and point queries of a world, and its views, after any history.
#include "world_common.hpp"

struct NullField : ForceField
{
    using ForceField::ForceField;
    void apply(Collider&, float) const override {}
};
struct Model
{
    mc::Ctx& ctx;
    World    world;
    std::vector<Body*>       bodies;
    std::vector<Constraint*> cons;
    std::vector<ForceField*> fields;
    Model(mc::Ctx& c) : ctx(c) {}
    Body* add(double x, double y, float turn, float dominance = 1)
    {
        BodyDescriptor d;
        d.position    = Vec2{(float)x, (float)y};
        d.orientation = turn;
        d.dominance   = dominance;
        bodies.push_back(world.makeBody(d));
        return bodies.back();
    }
    Collider* collider(Body* b, double x, double y, double w = 1, double h = 1)
    {
        return b->addCollider(ColliderDescriptor{boxAt(x, y, w, h), tolerant(100)});
    }
    void step(float dt)
    {
        std::set<Body*> dying;
        for (Body* b : bodies)
            if (b->isDead())
                dying.insert(b);
        std::erase_if(cons, [](Constraint* c) { return c->isDead(); });
        std::erase_if(fields, [](ForceField* c) { return c->isDead(); });
        std::erase_if(bodies, [&](Body* b) { return dying.count(b); });
        world.step(dt);
        ctx.transition();
    }
    void compare(const char* what, const std::multiset<Body*>& want, const std::multiset<Body*>& have)
    {
        MC_CHECK(want == have, "query", "%s visits %zu colliders instead of %zu, or others", what, have.size(), want.size());
        ctx.validated();
    }
    void audit()
    {
        static const double c[]{-2, -0.5, 0, 0.5, 1.25, 2, 4};
        for (double x0 : c)
            for (double y0 : c)
            {
                for (double w : {0.0, 0.75, 3.0})
                {
                    BoundingBox          box{Vec2{(float)x0, (float)y0}, Vec2{(float)(x0 + w), (float)(y0 + w / 2)}};
                    std::multiset<Body*> want, have;
                    for (Body* b : bodies)
                        for (auto& k : b->colliders())
                            if (boxesMeet(k.boundingBox(), box))
                                want.insert(b);
                    world.forEachIn(box, [&](Body* b) { have.insert(b); });
                    compare("region query", want, have);
                }
                std::multiset<Body*> want, have;
                Vec2                 p{(float)x0, (float)y0};
                for (Body* b : bodies)
                    for (auto& k : b->colliders())
                        if (boxesMeet(k.boundingBox(), BoundingBox{p, p}))
                            want.insert(b);
                world.forEachAt(p, [&](Body* b) { have.insert(b); });
                compare("point query", want, have);
            }
        // points and boxes made from the colliders themselves
        for (Body* b : bodies)
            for (auto& k : b->colliders())
            {
                std::multiset<Body*> have;
                world.forEachAt(k.boundingBox().min(), [&](Body* o) { have.insert(o); });
                MC_CHECK(have.count(b), "corner", "a point query at the corner of a collider misses its body");
                have.clear();
                world.forEachIn(k.boundingBox(), [&](Body* o) { have.insert(o); });
                MC_CHECK(have.count(b), "corner", "a query with the box of a collider misses its body");
            }
        BoundingBox          none{};
        std::multiset<Body*> have;
        std::vector<Body*>   vb;
        for (Body& b : world.bodies())
            vb.push_back(&b);
        MC_CHECK(vb == bodies, "view", "the view of bodies is not the current bodies in creation order");
        std::vector<Constraint*> vc;
        for (Constraint& b : world.constraints())
            vc.push_back(&b);
        MC_CHECK(vc == cons, "view", "the view of constraints is not the current constraints in creation order");
        std::vector<ForceField*> vf;
        for (ForceField& b : world.forceFields())
            vf.push_back(&b);
        MC_CHECK(vf == fields, "view", "the view of force fields is not the current fields in creation order");
        const World& cw = world;
        size_t       n  = 0;
        for (const Body& b : cw.bodies())
            MC_CHECK(&b == bodies[n++], "view", "const view of bodies differs");
        for (auto& c : world.contacts())
            for (Body* b : c.bodies())
                MC_CHECK(std::find(bodies.begin(), bodies.end(), b) != bodies.end(), "view", "a contact of the world refers to an object that is gone");
        ctx.validated(3);
    }
};
MC_SCENARIO(history)
{
    Model m(ctx);
    m.collider(m.add(0, 0, 0.f, 0.f), 0, 0, 3, 0.5);
    Body* a = m.add(0.5, 1, 0.7f);
    m.collider(a, 0, 0);
    m.collider(a, 1.5, 0.25);
    Body* b = m.add(-1, 1, 0.f);
    m.collider(b, 0, 0, 0.5, 2);
    m.fields.push_back(m.world.makeForceField<NullField>(ForceField::global()));
    m.cons.push_back(m.world.makeConstraint<InertConstraint>(Bodies{a, b}));
    m.audit();
    bool warm = ctx.flag("step first");
    if (warm)
        m.step(0.25f);
    int depth = ctx.tier(3, 4);
    for (int i = 0; i < depth; ++i)
    {
        auto at    = [&](size_t k) -> Body* { if (k >= m.bodies.size()) ctx.prune(); return m.bodies[k]; };
        auto first = [&](Body* q) { if (q->colliders().begin() == q->colliders().end()) ctx.prune(); return const_cast<Collider*>(&*q->colliders().begin()); };
        int  op    = ctx.choose(15, "operation");
        ctx.log("op %d", op);
        switch (op)
        {
            case 0: m.step(0.25f); break;
            case 1: m.step(0.f); break;
            case 2: at(1)->setVelocity(Vec2{3, -1}); at(1)->setAngularVelocity(2); break;
            case 3: at(2)->setVelocity(Vec2{-1, 1}); at(2)->setAngularVelocity(-5); break;
            case 4: m.collider(at(1), -0.5, 1.5); break;
            case 5: m.collider(at(2), 1, 1, 0.25); break;
            case 6: at(1)->removeCollider(first(at(1))); break;
            case 7: at(0)->removeCollider(first(at(0))); break;
            case 8: at(0)->kill(); break;
            case 9: at(1)->kill(); break;
            case 10: m.collider(m.add(1, 1, 2.f), 0.5, 0); break;
            case 11: m.cons.push_back(m.world.makeConstraint<InertConstraint>(Bodies{at(2), at(1)})); break;
            case 12: if (m.cons.empty()) ctx.prune(); m.cons[0]->kill(); break;
            case 13: m.fields.push_back(m.world.makeForceField<NullField>(ForceField::region(Vec2{0, 0}, Vec2{1, 1}))); break;
            case 14: m.world.clear(); m.bodies.clear(); m.cons.clear(); m.fields.clear(); m.collider(m.add(0, 1, 0.3f), 1, 0); break;
        }
        m.audit();
    }
    m.step(0.25f);
    m.audit();
    m.world.clear();
    m.bodies.clear(), m.cons.clear(), m.fields.clear();
    m.audit();
    m.step(0.25f);
    ctx.outcome("history");
}
