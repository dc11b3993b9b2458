// C21: the motion of a world depends on its construction and steps only.
#include "joints.hpp"
#include <cstdint>
#include <cstring>
#include <new>
#include <sys/mman.h>

// Where, in which order and with which content memory is handed out to the code under test.
namespace arena
{
enum Mode
{
    system,
    ascending,
    descending,
    scattered
};
constexpr size_t    size = 64u << 20, slot = 1024;
static char*        base = nullptr;
static Mode         mode = system;
static size_t       used = 0;
static unsigned     next = 0;
static unsigned char fill = 0;
static void         start(Mode m, unsigned char f)
{
    if (!base)
        base = (char*)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mode = m;
    fill = f;
    used = 0;
    next = 0;
}
static void* take(size_t n)
{
    size_t r = (n + 15) & ~size_t{15};
    char*  p = nullptr;
    if (mode == scattered && r <= slot)
    {
        // a full-period walk over the upper half
        constexpr unsigned nSlots = unsigned(size / 2 / slot);
        if (used < nSlots)
        {
            next = (next * 5u + 20015u) % nSlots;
            ++used;
            p = base + size / 2 + size_t(next) * slot;
        }
    }
    else if (mode == ascending && used + r <= size)
    {
        p = base + used;
        used += r;
    }
    else if (mode == descending && used + r <= size)
    {
        used += r;
        p = base + size - used;
    }
    if (!p)
        p = (char*)malloc(n);
    if (p)
        memset(p, fill, n);
    return p;
}
static_assert((size / 2 / slot & (size / 2 / slot - 1)) == 0);
} // namespace arena
void* operator new(std::size_t n)
{
    void* p = arena::mode == arena::system ? malloc(n ? n : 1) : arena::take(n ? n : 1);
    if (!p)
        throw std::bad_alloc{};
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void  operator delete(void* p) noexcept
{
    if (arena::base && p >= arena::base && p < arena::base + arena::size)
        return;
    free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

static int kicks = 0;
struct Kick : ForceField // does not scale with the duration
{
    Kick() : ForceField{ForceField::region(Vec2{-100, -100}, Vec2{100, 100})} {}
    void apply(Collider& c, float) const override
    {
        ++kicks;
        c.body()->applyImpulse(Vec2{0.001f, 0.002f} * c.body()->mass());
    }
};
static const P far{5000, 7000};

// something that shares the world without meeting the group
struct Extras
{
    int                kind = 0;
    int                at   = -1;  // moment of its creation
    int                diesAt = -1;
    std::vector<Body*> made;
    enum
    {
        none,
        body,
        moving,
        structural,
        empty,
        touchingPair,
        jointPair,
        crowd,
        field,
        deadJoint,
        nKinds
    };
    ForceField* f = nullptr;
    void moment(World& w, int m)
    {
        if (m == diesAt)
        {
            for (Body* b : made)
                b->kill();
            made.clear();
            if (f)
                f->kill();
            f = nullptr;
        }
        if (m != at)
            return;
        switch (kind)
        {
            case body: made = {makeBox(w, {.at = far})}; break;
            case moving: made = {makeBox(w, {.at = far * -1, .v = {3, 1}, .spin = 2})}; break;
            case structural: made = {makeBox(w, {.at = {0, -4000}, .w = 100, .h = 10, .dominance = 0})}; break;
            case empty: made = {w.makeBody(BodyDescriptor{})}; break; // without colliders, in the middle of the group
            case touchingPair: made = {makeBox(w, {.at = far}), makeBox(w, {.at = far + P{0.8, 0.1}, .spin = 1})}; break;
            case jointPair:
                made = {makeBox(w, {.at = far}), makeBox(w, {.at = far + P{3, 0}, .spin = 1})};
                makeJoint(w, hingeJoint, Bodies{made[0], made[1]}, far + P{1.5, 0}, {}, 0, 0);
                break;
            case crowd:
                for (int i = 0; i < 9; ++i)
                    made.push_back(makeBox(w, {.at = far + P{(i % 3) * 2.5, (i / 3) * 2.5}, .v = {i * 0.1, 0}}));
                break;
            case field: f = w.makeForceField<LinearField>(Vec2{1, 1}, ForceField::region(geo::toV(far), geo::toV(far + P{9, 9}))); break;
            case deadJoint:
            {
                made = {makeBox(w, {.at = far}), makeBox(w, {.at = far + P{3, 0}})};
                makeJoint(w, maxDistance, Bodies{made[0], made[1]}, {}, {far, far + P{3, 0}}, 0, 100);
                break;
            }
        }
    }
};

enum Op
{
    STEPS,
    LONG,
    ZERO,
    KILL,
    ADD_COLLIDER,
    DROP_COLLIDER,
    PUSH,
    NEW_BODY,
    SETTINGS,
    DROP_JOINT,
    NOPS
};
static const char* opName[]{"steps", "longer steps", "zero step", "kill body", "add collider", "remove collider", "push", "new body", "change settings", "kill joint"};
constexpr int      nScenes = 6;

struct Run
{
    std::unique_ptr<World> own;
    World&                 w;
    Extras                 x;
    std::vector<Body*>     group;
    std::vector<Constraint*> joints;
    int                    moment = 0;
    std::function<void()>  disturb; // between any two calls
    std::string            zeroFault;
    int                    scene;

    Run(World& world, int scene) : w(world), scene(scene) {}
    void between()
    {
        x.moment(w, moment++);
        if (disturb)
            disturb();
    }
    Body* box(const BodySpec& s)
    {
        between();
        group.push_back(makeBox(w, s));
        return group.back();
    }
    void joint(Constraint* c)
    {
        joints.push_back(c);
        between();
    }
    void build()
    {
        switch (scene)
        {
            case 0: // stack
                box({.at = {0, -1}, .w = 20, .h = 2, .dominance = 0});
                for (int i = 0; i < 3; ++i)
                    box({.at = {0.1 * i, 0.495 + 0.99 * i}, .theta = i == 2 ? 0.02 : 0});
                w.makeForceField<Gravity>();
                break;
            case 1: // chain
            {
                box({.at = {0, 0}, .dominance = 0});
                for (int i = 1; i < 4; ++i)
                {
                    box({.at = {i * 1.5, 0}, .density = i == 3 ? 4. : 1.});
                    joint(makeJoint(w, hingeJoint, Bodies{group[i - 1], group[i]}, {i * 1.5 - 0.75, 0}, {}, 0, 0));
                }
                joint(makeJoint(w, maxDistance, Bodies{group[0], group[3]}, {}, {P{0, 0}, P{4.5, 0}}, 0, 4.2));
                w.makeForceField<Gravity>();
                break;
            }
            case 2: // collisions in the air
                box({.at = {0, 0}, .v = {2, 0}, .spin = 1});
                box({.at = {1.6, 0.3}, .theta = 0.4, .density = 2});
                box({.at = {1.3, 1.7}, .theta = 1, .w = 1.5, .v = {0, -3}});
                box({.at = {3.2, 0}, .h = 3, .v = {-1, 0}});
                break;
            case 3: // motors
            {
                box({.at = {0, 0}});
                box({.at = {1.5, 0.2}, .spin = 2});
                box({.at = {-3, 1}});
                auto* r = w.makeConstraint<RotationMotor>(Bodies::singleBody(group[0]), RotationMotor::Specs::fromTorque(3.f, 5.f));
                r->direction(Vector<float, 1>{1});
                joint(r);
                auto* t = w.makeConstraint<TranslationMotor>(Bodies::singleBody(group[2]), TranslationMotor::Specs::fromForce(4.f, 6.f));
                t->direction(Vec2{2, 0.5f});
                joint(t);
                w.makeForceField<LinearField>(Vec2{0, -1}, ForceField::region(Vec2{-1, -1}, Vec2{3, 3}));
                break;
            }
            case 4: // several colliders, weld
                for (int i = 0; i < 2; ++i)
                {
                    Body* b = box({.at = {i * 2.4, i * 0.2}, .w = 0.5, .v = {i ? -1.5 : 1., 0}, .offset = {-0.6, 0}});
                    b->addCollider(ColliderDescriptor{boxAt(0.6, 0.1, 0.5, 1.5)});
                }
                box({.at = {0.3, 2}});
                joint(w.makeConstraint<WeldConstraint>(Bodies{group[0], group[2]}, true));
                w.makeForceField<Kick>();
                break;
            case 5: // single touching pair
                box({.at = {0, -1}, .w = 20, .h = 2, .dominance = 0});
                box({.at = {0.1, 0.5}, .theta = 0.05, .v = {1, -1}, .spin = -0.5});
                w.makeForceField<Gravity>();
                break;
        }
        between();
    }
    void step(float dt)
    {
        w.step(dt);
        between();
    }
    int pick(int i) const { return i < (int)group.size() ? i : (int)group.size() - 1; }
    void apply(int op)
    {
        switch (op)
        {
            case STEPS:
                for (int i = 0; i < 8; ++i)
                    step(1.f / 60);
                break;
            case LONG:
                for (int i = 0; i < 4; ++i)
                    step(1.f / 25);
                break;
            case ZERO: zero(); break;
            case KILL:
                if (group[1])
                    group[1]->kill();
                step(1.f / 60);
                group[1] = nullptr;
                if (scene == 1)
                    joints[0] = nullptr; // died with its body
                break;
            case ADD_COLLIDER:
                if (group[1])
                    group[1]->addCollider(ColliderDescriptor{boxAt(0.3, 0.7, 0.7, 0.7)});
                if (group.size() > 2 && group[2])
                    group[2]->addCollider(ColliderDescriptor{boxAt(-0.2, 0.6, 0.4, 1)});
                break;
            case DROP_COLLIDER:
            {
                Body* b = group[pick(2)];
                // a body without any collider has no mass
                if (b && std::next(b->colliders().begin()) != b->colliders().end())
                    b->removeCollider(const_cast<Collider*>(&*b->colliders().begin()));
                break;
            }
            case PUSH:
                if (Body* b = group[pick(2)])
                    b->applyImpulse(Vec2{0.5f, 1}, Vec2{0.3f, 0});
                break;
            case NEW_BODY: box({.at = {0.4, 3.2}, .v = {0, -4}}); break;
            case SETTINGS:
            {
                auto s               = w.settings();
                s.enableWarmstarting = !s.enableWarmstarting;
                s.nVelocityIterations = 5;
                w.updateSettings(s);
                break;
            }
            case DROP_JOINT:
                if (!joints.empty() && joints[0])
                    joints[0]->kill();
                step(1.f / 60);
                if (!joints.empty())
                    joints[0] = nullptr;
                break;
        }
    }
    void states(std::vector<BodyState>& out) const
    {
        for (Body* b : group)
            if (b)
                out.push_back(BodyState{b});
    }
    void zero()
    {
        std::vector<BodyState> a, b;
        states(a);
        int k = kicks;
        w.step(0.f);
        states(b);
        if (kicks != k)
            zeroFault = mc::fmt("a force field was applied %d times in a zero step", kicks - k);
        for (size_t i = 0; i < a.size(); ++i)
            if (!(a[i] == b[i]))
                zeroFault = mc::fmt("a zero step changed body %d from %s to %s", (int)i, a[i].str().c_str(), b[i].str().c_str());
        between();
    }
};

// what else happens around a run
enum Around
{
    nothing,
    lowToHigh,  // addresses grow with time, memory is zeroed
    highToLow,  // addresses decrease with time, memory is garbage
    anywhere,   // addresses are scattered
    otherWorld, // another world is stepped between any two calls
    usedBefore, // the world was used for something else, then cleared
    observed,   // queries, profiler and views are used between any two calls
    nAround
};
static const char* aroundName[]{"nothing", "increasing addresses", "decreasing addresses", "scattered addresses", "another world", "a world used before", "observation"};

struct Outcome
{
    std::vector<BodyState> states;
    std::string            zeroFault;
};
static Outcome& play(Outcome& out, int scene, const std::vector<int>& ops, int around, const Extras& x = {}, int zeroAt = -1, int zeros = 1)
{
    out.states.clear();
    out.states.reserve(4096);
    out.zeroFault.clear();
    char fault[300] = "";
    switch (around)
    {
        case lowToHigh: arena::start(arena::ascending, 0); break;
        case highToLow: arena::start(arena::descending, 0xCD); break;
        case anywhere: arena::start(arena::scattered, 0xFF); break;
    }
    {
        World w, other;
        Run   r(w, scene), o(other, (scene + 1) % nScenes);
        if (around == usedBefore)
        {
            {
                Run before(w, (scene + 2) % nScenes);
                before.build();
                before.apply(STEPS);
            }
            w.clear();
        }
        if (around == otherWorld)
        {
            o.build();
            r.disturb = [&] { other.step(1.f / 50); };
        }
        if (around == observed)
            r.disturb = [&] {
                int n = 0;
                w.forEachIn(BoundingBox{Vec2{-5, -5}, Vec2{5, 5}}, [&](Body*) { ++n; });
                w.forEachAt(Vec2{0, 0}, [&](Body*) { ++n; });
                for (auto& c : w.contacts())
                    n += c.bodies()[0] == c.bodies()[1];
                for (auto& b : w.bodies())
                    for (auto& c : b.colliders())
                        n += c.boundingBox().isValid();
                w.profiler().reset();
                w.updateSettings(w.settings());
            };
        r.x = x;
        r.build();
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if ((int)i == zeroAt)
                for (int k = 0; k < zeros; ++k)
                    r.zero();
            r.apply(ops[i]);
            r.states(out.states);
        }
        for (int i = 0; i < 6; ++i)
        {
            r.step(1.f / 60);
            r.states(out.states);
        }
        snprintf(fault, sizeof fault, "%s", r.zeroFault.c_str());
    }
    arena::mode   = arena::system;
    out.zeroFault = fault;
    return out;
}
static std::vector<int> history(mc::Ctx& ctx, int depth)
{
    std::vector<int> ops{STEPS};
    for (int i = 0; i < depth; ++i)
    {
        int op = ctx.choose(NOPS, "operation");
        ctx.log("%s", opName[op]);
        ops.push_back(op);
    }
    return ops;
}
static void compare(mc::Ctx& ctx, const char* key, const char* what, const Outcome& a, const Outcome& b, double tol = 0)
{
    MC_CHECK(a.states.size() == b.states.size(), key, "%s changes the number of states", what);
    for (size_t i = 0; i < a.states.size(); ++i)
        MC_CHECK(tol > 0 ? a.states[i].differs(b.states[i]) <= tol : memcmp(&a.states[i], &b.states[i], sizeof(BodyState)) == 0, key, "%s: state %d is %s instead of %s", what, (int)i, b.states[i].str().c_str(), a.states[i].str().c_str());
    ctx.validated(a.states.size());
}

MC_SCENARIO(reproducible)
{
    int  scene = ctx.choose(nScenes, "scene");
    auto ops   = history(ctx, ctx.tier(3, 4));
    static thread_local Outcome a, b;
    play(a, scene, ops, nothing);
    mc::Hasher h;
    for (auto& s : a.states)
        h.addf(s.p[0]).addf(s.p[1]).addf(s.th);
    ctx.state(h.h);
    for (int around = 0; around < nAround; ++around)
    {
        play(b, scene, ops, around);
        ctx.transition();
        compare(ctx, "repeat", aroundName[around], a, b);
        MC_CHECK(b.zeroFault.empty(), "zero", "%s", b.zeroFault.c_str());
    }
    bool finite = true;
    for (auto& s : a.states)
        finite &= s.finite();
    MC_CHECK(finite, "finite", "a state is not finite");
    ctx.outcome("reproduced");
}
// zero steps anywhere in a history change nothing, then or later; contacts are looked for again from the normal found
// last, so that roundings choose another of two parallel faces of a stack, which is then shaken by what was just added
MC_SCENARIO(zeroSteps)
{
    int  scene = ctx.choose(nScenes, "scene");
    auto ops   = history(ctx, ctx.tier(3, 4));
    static thread_local Outcome a, b;
    play(a, scene, ops, nothing);
    for (int at = 0; at < (int)ops.size(); ++at)
        for (int n = 1; n < 3; ++n)
        {
            play(b, scene, ops, nothing, {}, at, n);
            ctx.transition();
            MC_CHECK(b.zeroFault.empty(), "zero", "%s", b.zeroFault.c_str());
            compare(ctx, "inert", "zero steps", a, b, scene == 0 ? 0.3 : 1e-3);
        }
    ctx.outcome("inert");
}
// bodies elsewhere do not disturb the group
MC_SCENARIO(local)
{
    int    scene = ctx.choose(nScenes, "scene");
    Extras x;
    x.kind = 1 + ctx.choose(Extras::nKinds - 1, "extra");
    x.at   = ctx.choose(8, "moment of creation");
    x.diesAt = ctx.choose(3, "death") * 9;
    if (x.diesAt == 0)
        x.diesAt = -1;
    std::vector<int> ops{STEPS};
    for (int i = 0; i < ctx.tier(1, 3); ++i)
        ops.push_back(ctx.choose(NOPS, "operation"));
    static thread_local Outcome a, b;
    play(a, scene, ops, nothing);
    play(b, scene, ops, nothing, x);
    ctx.transition();
    compare(ctx, "local", "an unrelated body", a, b);
    ctx.outcome("local");
}

// a free body moves straight at constant speed and spin, whatever it is made of
MC_SCENARIO(freeBody)
{
    World w;
    P     at   = ctx.pick(std::vector<P>{{0, 0}, {3, -40}, {-1000, 2}}, "position");
    P     v    = ctx.pick(std::vector<P>{{0, 0}, {1, 0}, {-3, 7}, {0.01, 250}}, "velocity");
    double spin  = ctx.pick(std::vector<double>{0, 0.3, -12, 100}, "spin");
    double theta = ctx.pick(std::vector<double>{0, 1, -4}, "angle");
    int    shape = ctx.choose(4, "shape");
    BodyDescriptor d;
    d.position    = geo::toV(at);
    d.orientation = (float)theta;
    d.dominance   = ctx.pick(std::vector<float>{1, 8}, "dominance");
    Body* b       = w.makeBody(d);
    if (shape > 0)
        b->addCollider(ColliderDescriptor{boxAt(shape == 2 ? 5 : 0, 0, 1, 0.3)});
    if (shape == 3)
        b->addCollider(ColliderDescriptor{boxAt(-2, 3, 1, 2)});
    b->setVelocity(geo::toV(v));
    b->setAngularVelocity((float)spin);
    // others which do not act on it
    int company = ctx.choose(4, "company");
    if (company == 1)
        makeBox(w, {.at = {0, -9000}, .dominance = 0});
    if (company == 2)
        w.makeForceField<Gravity>(Vec2{0, -10}); // acts on colliders
    if (company == 3)
    {
        Body* o = makeBox(w, {.at = at + P{20000, 0}});
        w.makeConstraint<DistanceConstraint>(Bodies{b, o}, std::array<Vec2, 2>{b->centroid(), o->centroid()}, std::nullopt, std::optional<float>{1e6f}, true);
    }
    if (company == 2 && shape != 0)
        ctx.prune();
    if (company == 3 && shape == 0)
        ctx.prune();
    float  dt = ctx.pick(std::vector<float>{1.f / 60, 0.25f}, "dt");
    int    n  = ctx.tier(60, 400);
    Vec2   v0 = b->velocity();
    float  w0 = b->angularVelocity();
    P      p0 = geo::toP(b->position()), c0 = geo::toP(b->centroid()), p{p0};
    double th0 = b->orientation(), err = 1e-6, therr = 1e-6;
    for (int i = 1; i <= n; ++i)
    {
        bool zero = i % 7 == 3;
        w.step(zero ? 0.f : dt);
        if (zero)
        {
            p0 = p0 - geo::toP(v0) * dt;
            c0 = c0 - geo::toP(v0) * dt;
            th0 -= (double)w0 * dt;
        }
        ctx.transition();
        MC_CHECK(all(b->velocity() == v0) && b->angularVelocity() == w0, "speed", "step %d: a free body %s began with (%g,%g) and spin %g", i, BodyState(b).str().c_str(), v0[0], v0[1], w0);
        P      want = p0 + geo::toP(v0) * (double(dt) * i), cw = c0 + geo::toP(v0) * (double(dt) * i);
        double tw   = th0 + (double)w0 * (double)dt * i;
        err += 2.5e-7 * (geo::norm(want) + geo::norm(cw));
        therr += 2.5e-7 * std::abs(tw);
        MC_CHECK(geo::norm(geo::toP(b->position()) - want) <= err, "straight", "step %d: at (%.9g,%.9g) instead of (%.9g,%.9g)", i, b->position()[0], b->position()[1], want.x, want.y);
        MC_CHECK(geo::norm(geo::toP(b->centroid()) - cw) <= err, "straight", "step %d: centroid at (%.9g,%.9g) instead of (%.9g,%.9g)", i, b->centroid()[0], b->centroid()[1], cw.x, cw.y);
        MC_CHECK(std::abs(b->orientation() - tw) <= therr, "angle", "step %d: turned %.9g instead of %.9g", i, b->orientation(), tw);
        ctx.validated(4);
    }
    ctx.outcome("straight");
}
