// C11: death, notification and removal of world objects.
#include "mc.hpp"
#include "Simu/physics.hpp"
#include <algorithm>
#include <memory>

using namespace simu;

enum Kind
{
    BODY,
    CON,
    FIELD,
    CONTACT
};
enum Call
{
    ON_KILL,
    SHOULD_DIE,
    ON_DESTRUCTION,
    PRE,
    POST,
    NCALLS
};
static const char* callName[]{"onKill", "shouldDie", "onDestruction", "preStep", "postStep", "?"};

struct Life;
struct Rec
{
    Kind           kind;
    int            id;
    PhysicsObject* obj      = nullptr;
    Body*          body     = nullptr;
    Constraint*    con      = nullptr;
    int            b[2]     = {-1, -1};  // bodies of constraints and contacts
    bool           cond     = false;     // own death condition
    bool           alive    = true;
    int            notified = 0;
    bool           mustNot  = true;  // nothing asked for its death yet
    int            notBefore = 1 << 30, notAfter = 1 << 30;
    std::vector<Collider*> colliders;
    int            opened = 0, closed = 0;   // calls that open and close the current step
};
enum Phase
{
    OUTSIDE,
    CLEANUP,
    RUNNING
};
struct Trigger
{
    int id;
    int call;
    int action;
    int arg;
    bool done;
};
struct Life
{
    World*           world = nullptr;
    std::vector<std::unique_ptr<Rec>> recs;
    int              step  = 0; // number of steps started
    Phase            phase = OUTSIDE;
    std::string      bad; // first violation
    std::vector<Trigger> triggers;
    bool             erasing = false, inAction = false;
    int              destroyedInCleanup = 0;
    int              openRank = 0, closeRank = 0;
    mc::Ctx*         ctx = nullptr;

    void fault(std::string s)
    {
        if (bad.empty())
            bad = s;
    }
    Rec* make(Kind k, PhysicsObject* o)
    {
        recs.push_back(std::make_unique<Rec>());
        Rec* r  = recs.back().get();
        r->kind = k;
        r->id   = (int)recs.size() - 1;
        r->obj  = o;
        return r;
    }
    std::string name(Rec* r)
    {
        static const char* n[]{"body", "constraint", "field", "contact"};
        return mc::fmt("%s %d", n[r->kind], r->id);
    }
    // death of r requested now
    void request(Rec* r)
    {
        int first = phase == OUTSIDE ? step + 1 : phase == CLEANUP ? step : step + 1;
        int last  = step + 1;
        if (phase == OUTSIDE)
            last = step + 1;
        r->notBefore = std::min(r->notBefore, first);
        r->notAfter  = std::min(r->notAfter, last);
        if (r->kind == BODY)
            for (auto& q : recs)
                if (q->alive && q->b[0] >= 0 && (q->b[0] == r->id || q->b[1] == r->id))
                {
                    q->notBefore = std::min(q->notBefore, first);
                    q->notAfter  = std::min(q->notAfter, last);
                }
    }
    void entered(Rec* r, int call);
    // bodies first, then constraints and contacts, then force fields
    void turn(Rec* r, int& count, int& rank, const char* what)
    {
        int mine = r->kind == BODY ? 0 : r->kind == FIELD ? 2 : 1;
        if (mine < rank)
            fault(name(r) + " has its turn to " + what + " the step too late");
        rank = mine;
        if (++count > 1)
            fault(name(r) + " is called twice to " + what + " the step");
    }
    void gone(Rec* r)
    {
        if (!r->alive)
            fault(name(r) + " destroyed twice");
        r->alive = false;
        if (ctx) ctx->log("%s destroyed", name(r).c_str());
        if (phase == OUTSIDE)
            return; // end of the world
        if (phase == CLEANUP && r->kind != CONTACT)
            ++destroyedInCleanup;
        if (r->kind != CONTACT || r->notBefore <= step)
        {
            if (r->notified != 1)
                fault(name(r) + mc::fmt(" destroyed after %d notifications", r->notified));
            if (r->notBefore > step)
                fault(name(r) + " removed although nothing asked for its death");
        }
        else if (r->notified != 1)
            fault(name(r) + mc::fmt(" destroyed after %d notifications", r->notified));
    }
    bool act(int action, int arg);
};
static Life* life;

template <class Base, Kind K>
struct Traced : Base
{
    Rec* rec;
    template <class... A>
    Traced(A&&... a) : Base(std::forward<A>(a)...)
    {
        rec = life->make(K, this);
    }
    ~Traced() override { life->gone(rec); }
    void onKill() override
    {
        Base::onKill();
        life->request(rec);
        life->entered(rec, ON_KILL);
    }
    bool shouldDie() const override
    {
        bool mine = rec->cond;
        life->entered(rec, SHOULD_DIE);
        return mine || Base::shouldDie();
    }
    void onDestruction(World& w) override
    {
        Base::onDestruction(w);
        ++rec->notified;
        if (rec->notified > 1)
            life->fault(life->name(rec) + " told twice of its destruction");
        if (rec->notBefore > life->step && K != CONTACT)
            life->fault(life->name(rec) + " told of its destruction although nothing asked for it");
        // every dying object is still there: read it
        if (K == CON || K == CONTACT)
            for (int i : rec->b)
            {
                if (!life->recs[i]->alive)
                    life->fault(life->name(rec) + " is told of its destruction after its body is gone");
                else
                    (void)(life->recs[i]->body->velocity() + life->recs[i]->body->centroid());
            }
        if (life->phase == CLEANUP && life->destroyedInCleanup && K != CONTACT)
            life->fault(life->name(rec) + " told of its destruction after another object was released");
        life->entered(rec, ON_DESTRUCTION);
    }
    void preStep() override
    {
        if (K != CONTACT)
            life->phase = RUNNING;
        Base::preStep();
        life->turn(rec, rec->opened, life->openRank, "open");
        life->entered(rec, PRE);
    }
    void postStep() override
    {
        Base::postStep();
        life->turn(rec, rec->closed, life->closeRank, "close");
        life->entered(rec, POST);
    }
};
struct PlainCon : Constraint
{
    PlainCon(const Bodies& b) : Constraint(b, false) {}
    bool isActive(const Proxies&) override { return true; }
    void initSolve(const Proxies&) override {}
    void warmstart(Proxies&, float) override {}
    void solveVelocities(Proxies&, float) override {}
    void solvePositions(Proxies&) override {}
};
struct PlainField : ForceField
{
    PlainField() : ForceField(ForceField::global()) {}
    void apply(Collider& c, float) const override { (void)c.boundingBox(); }
};
typedef Traced<Body, BODY>                 TBody;
typedef Traced<PlainCon, CON>              TCon;
typedef Traced<PlainField, FIELD>          TField;
typedef Traced<ContactConstraint, CONTACT> TContact;

static int bodyId(const Body* b)
{
    for (auto& r : life->recs)
        if (r->kind == BODY && r->alive && r->body == b)
            return r->id;
    return -1;
}
static int addBody(double x)
{
    BodyDescriptor d;
    d.position = Vec2{(float)x, 0};
    auto* b    = life->world->makeBody<TBody>(d);
    b->rec->body = b;
    return b->rec->id;
}
static void addCollider(int id, double dx)
{
    float x = (float)dx;
    life->recs[id]->colliders.push_back(life->recs[id]->body->addCollider(
        ColliderDescriptor{Polygon{Vertex{x - 0.5f, -0.5f}, Vertex{x + 0.5f, -0.5f}, Vertex{x + 0.5f, 0.5f}, Vertex{x - 0.5f, 0.5f}}}));
}
static int addCon(int i, int j)
{
    auto* c = life->world->makeConstraint<TCon>(Bodies{life->recs[i]->body, life->recs[j]->body});
    c->rec->con  = c;
    c->rec->b[0] = i;
    c->rec->b[1] = j;
    // a constraint on a dying body follows it
    for (int k : {i, j})
    {
        c->rec->notBefore = std::min(c->rec->notBefore, life->recs[k]->notBefore);
        c->rec->notAfter  = std::min(c->rec->notAfter, life->recs[k]->notAfter);
    }
    return c->rec->id;
}
static std::vector<int> alive(Kind k, bool dyingToo = true)
{
    std::vector<int> v;
    for (auto& r : life->recs)
        if (r->alive && r->kind == k && (dyingToo || r->notAfter > (1 << 29)))
            v.push_back(r->id);
    return v;
}

enum Action
{
    KILL_BODY0,
    KILL_BODY1,
    KILL_BODY2,
    KILL_CON,
    KILL_FIELD,
    KILL_CONTACT,
    COND_BODY1,
    COND_CON,
    DROP_COLLIDER0,
    DROP_COLLIDER1,
    SWAP_COLLIDER1,
    ADD_COLLIDER2,
    MAKE_BODY,
    MAKE_CON,
    MAKE_FIELD,
    KILL_SELF, // callbacks only
    NACTIONS
};
static const char* actionName[]{"kill body 0", "kill body 1", "kill body 2", "kill constraint", "kill field", "kill contact", "condition of body 1",
                                "condition of constraint", "remove collider of body 0", "remove collider of body 1", "replace collider of body 1",
                                "add collider to body 2", "make body", "make constraint", "make field", "kill self"};

static bool perform(int a, Rec* self)
{
    Life& L = *life;
    auto  kill = [&](int i) {
        if (i < 0 || !L.recs[i]->alive)
            return false;
        L.recs[i]->obj->kill();
        return true;
    };
    auto nth = [&](Kind k, size_t n) {
        auto v = alive(k);
        return n < v.size() ? v[n] : -1;
    };
    auto cond = [&](int i) {
        if (i < 0)
            return false;
        L.recs[i]->cond = true;
        L.request(L.recs[i].get());
        return true;
    };
    auto drop = [&](int i, size_t which) {
        if (i < 0 || L.recs[i]->colliders.size() <= which)
            return false;
        Collider* c = L.recs[i]->colliders[which];
        L.recs[i]->colliders.erase(L.recs[i]->colliders.begin() + which);
        // contacts of that collider die with it
        for (auto& r : L.recs)
            if (r->alive && r->kind == CONTACT)
            {
                auto& cs = static_cast<TContact*>(r->obj)->colliders();
                if (cs[0] == c || cs[1] == c)
                    r->notBefore = std::min(r->notBefore, L.phase == OUTSIDE ? L.step + 1 : L.step);
            }
        L.recs[i]->body->removeCollider(c);
        return true;
    };
    switch (a)
    {
        case KILL_BODY0: return kill(nth(BODY, 0));
        case KILL_BODY1: return kill(nth(BODY, 1));
        case KILL_BODY2: return kill(nth(BODY, 2));
        case KILL_CON: return kill(nth(CON, 0));
        case KILL_FIELD: return kill(nth(FIELD, 0));
        case KILL_CONTACT: return kill(nth(CONTACT, 0));
        case COND_BODY1: return cond(nth(BODY, 1));
        case COND_CON: return cond(nth(CON, 0));
        case DROP_COLLIDER0: return drop(nth(BODY, 0), 0);
        case DROP_COLLIDER1: return drop(nth(BODY, 1), 0);
        case SWAP_COLLIDER1:
            if (!drop(nth(BODY, 1), 0))
                return false;
            addCollider(nth(BODY, 1), 0);
            return true;
        case ADD_COLLIDER2:
            if (nth(BODY, 2) < 0)
                return false;
            addCollider(nth(BODY, 2), 0.25);
            return true;
        case MAKE_BODY:
        {
            int i = addBody(0.4);
            addCollider(i, 0);
            return true;
        }
        case MAKE_CON:
        {
            auto v = alive(BODY, false);
            if (v.size() < 2)
                return false;
            addCon(v[0], v[1]);
            return true;
        }
        case MAKE_FIELD: L.world->makeForceField<TField>(); return true;
        case KILL_SELF: return self && (self->obj->kill(), true);
    }
    return false;
}
void Life::entered(Rec* r, int call)
{
    if (inAction && call != ON_KILL && call != ON_DESTRUCTION)
        return;
    for (auto& t : triggers)
        if (!t.done && t.id == r->id && t.call == call)
        {
            t.done   = true;
            bool was = inAction;
            inAction = true;
            perform(t.action, r);
            inAction = was;
        }
}

struct Scene
{
    Life  L;
    std::unique_ptr<World> world;
    mc::Ctx& ctx;
    Scene(mc::Ctx& c) : ctx(c)
    {
        life  = &L;
        L.ctx = &c;
        world.reset(new World{[](Collider& a, Collider& b, const World::ContactAlloc& al) -> UniquePtr<ContactConstraint> {
            auto p = makeUnique<TContact>(al, a, b);
            Rec* r  = p->rec;
            r->con  = p.get();
            r->b[0] = bodyId(a.body());
            r->b[1] = bodyId(b.body());
            if (r->b[0] < 0 || r->b[1] < 0)
                life->fault("contact made with a removed body");
            else
                for (int k : r->b)
                {
                    r->notBefore = std::min(r->notBefore, life->recs[k]->notBefore);
                    r->notAfter  = std::min(r->notAfter, life->recs[k]->notAfter);
                }
            return p;
        }});
        L.world = world.get();
        int a = addBody(0), b = addBody(0.8), d = addBody(1.6);
        addCollider(a, 0);
        addCollider(a, 0.1);
        addCollider(b, 0);
        addCollider(d, 0);
        addCon(a, d);
        addCon(b, d);
        world->makeForceField<TField>();
    }
    ~Scene()
    {
        L.triggers.clear();
        world.reset();
    }
    void check()
    {
        if (!L.bad.empty())
            ctx.fail("life", "%s", L.bad.c_str());
    }
    void step(float dt)
    {
        ++L.step;
        L.phase              = CLEANUP;
        L.destroyedInCleanup = 0;
        ctx.log("step %d (dt %g)", L.step, dt);
        L.openRank = L.closeRank = 0;
        for (auto& r : L.recs)
            r->opened = r->closed = 0;
        size_t before = L.recs.size();
        world->step(dt);
        for (size_t i = 0; i < before; ++i)
        {
            Rec* r = L.recs[i].get();
            // nobody asked for its death
            if (r->alive && r->notBefore > L.step + 1)
                MC_CHECK(r->opened == 1 && r->closed == 1, "callbacks", "%s is called %d times when step %d opens and %d times when it closes", L.name(r).c_str(),
                         r->opened, L.step, r->closed);
        }
        ctx.transition();
        L.phase = OUTSIDE;
        check();
        audit();
    }
    void audit()
    {
        auto& recs = L.recs;
        for (auto& r : recs)
        {
            if (r->kind != CONTACT)
                MC_CHECK(!r->alive || r->notAfter > L.step, "kept", "%s still there after step %d, death was asked for before", L.name(r.get()).c_str(), L.step);
            if (r->b[0] >= 0 && r->alive)
                for (int i : r->b)
                    MC_CHECK(recs[i]->alive, "dangling", "%s refers to removed body %d", L.name(r.get()).c_str(), i);
            ctx.validated();
        }
        // views of the world and of the bodies
        std::vector<int> seen;
        for (Body& b : world->bodies())
            seen.push_back(static_cast<TBody&>(b).rec->id);
        MC_CHECK(seen == alive(BODY), "bodies", "the bodies of the world are not the live ones");
        seen.clear();
        for (Constraint& c : world->constraints())
            seen.push_back(static_cast<TCon&>(c).rec->id);
        MC_CHECK(seen == alive(CON), "constraints", "the constraints of the world are not the live ones");
        seen.clear();
        for (ForceField& c : world->forceFields())
            seen.push_back(static_cast<TField&>(c).rec->id);
        MC_CHECK(seen == alive(FIELD), "fields", "the force fields of the world are not the live ones");
        seen.clear();
        for (ContactConstraint& c : world->contacts())
            seen.push_back(static_cast<TContact&>(c).rec->id);
        std::sort(seen.begin(), seen.end());
        MC_CHECK(seen == alive(CONTACT), "contacts", "the contacts of the world are not the live ones");
        for (auto& r : recs)
            if (r->alive && r->kind == BODY)
            {
                std::vector<PhysicsObject*> have, want;
                for (auto* c : r->body->constraints())
                    have.push_back(c);
                for (auto* c : r->body->contacts())
                    have.push_back(c);
                for (auto& q : recs)
                    if (q->alive && (q->kind == CON || q->kind == CONTACT) && (q->b[0] == r->id || q->b[1] == r->id))
                        want.push_back(q->kind == CON ? (PhysicsObject*)q->con : (PhysicsObject*)q->con);
                std::sort(have.begin(), have.end());
                std::sort(want.begin(), want.end());
                MC_CHECK(have == want, "listed", "body %d lists %zu constraints and contacts but takes part in %zu", r->id, have.size(), want.size());
                (void)r->body->centroid();
                ctx.validated();
            }
            else if (r->alive && r->kind == CONTACT)
            {
                // its colliders are current ones
                for (auto* c : static_cast<TContact*>(r->obj)->colliders())
                {
                    bool found = false;
                    for (auto& q : recs)
                        if (q->alive && q->kind == BODY)
                            found |= std::find(q->colliders.begin(), q->colliders.end(), c) != q->colliders.end();
                    MC_CHECK(found || r->notBefore <= L.step + 1, "collider", "contact %d of a removed collider", r->id);
                }
            }
    }
    // dying objects are usable until the step
    void touchAll()
    {
        for (auto& r : L.recs)
            if (r->alive)
            {
                if (r->kind == BODY)
                    for (auto& c : r->body->colliders())
                        (void)c.boundingBox();
                if (r->kind == CON || r->kind == CONTACT)
                    for (Body* b : r->con->bodies())
                        (void)b->velocity();
                (void)r->obj->isDead();
                MC_CHECK(r->notAfter > (1 << 29) || r->kind == CONTACT || r->obj->isDead(), "flag", "%s is dying but not dead", L.name(r.get()).c_str());
            }
            else
                MC_CHECK(r->notBefore <= L.step || r->kind == CONTACT, "early", "%s released before the step", L.name(r.get()).c_str());
        check();
    }
};
static const float dts[]{1.f / 60, 0.f};

// histories of operations made between steps
MC_SCENARIO(between_steps)
{
    Scene s(ctx);
    s.step(dts[0]);
    int depth = ctx.tier(3, 4);
    for (int i = 0; i < depth; ++i)
    {
        int a = ctx.choose(KILL_SELF + 3, "operation");
        if (a == KILL_SELF)
            break;
        if (a > KILL_SELF)
        {
            s.step(dts[a - KILL_SELF - 1]);
            continue;
        }
        ctx.log("%s", actionName[a]);
        if (!perform(a, nullptr))
            ctx.prune();
        s.touchAll();
    }
    s.step(dts[0]);
    s.step(dts[0]);
    ctx.outcome("history");
}
// one death (or none), with an operation made from inside a callback
static void callbacks(mc::Ctx& ctx, int nTriggers)
{
    Scene s(ctx);
    s.step(dts[0]);
    int death = ctx.choose(9, "death");
    if (death > 0)
        perform(death - 1, nullptr);
    for (int t = 0; t < nTriggers; ++t)
    {
        Trigger tr{};
        static const int ids[]{0, 1, 2, 3, 4, 5, 6};
        tr.id   = ids[ctx.choose(7, "object")];
        tr.call = ctx.choose(NCALLS, "callback");
        int a   = ctx.choose(NACTIONS, "action");
        tr.action = a;
        s.L.triggers.push_back(tr);
        ctx.log("%s of object %d: %s", callName[tr.call], tr.id, actionName[a]);
    }
    float dt = ctx.flag("second step stops time") ? 0.f : dts[0];
    s.step(dts[0]);
    s.step(dt);
    s.step(dts[0]);
    s.step(dts[0]);
    bool all = true;
    for (auto& t : s.L.triggers)
        all &= t.done;
    ctx.outcome(all ? "callback made" : "callback not reached");
}
MC_SCENARIO(one_callback) { callbacks(ctx, 1); }
MC_SCENARIO(two_callbacks)
{
    if (!ctx.thorough)
        ctx.prune();
    callbacks(ctx, 2);
}
