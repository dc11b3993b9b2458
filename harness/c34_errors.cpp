// C34: requests that are refused, and steps that an error cuts short.
#include "joints.hpp"
#include <cstdlib>
#include <limits>
#include <list>
#include <new>

// bytes given by the system and not yet returned
static long liveBytes = 0;
void*       operator new(std::size_t n)
{
    auto* p = (size_t*)malloc(n + 16);
    if (!p)
        throw std::bad_alloc{};
    p[0] = n;
    liveBytes += (long)n;
    return p + 2;
}
void operator delete(void* q) noexcept
{
    if (!q)
        return;
    auto* p = (size_t*)q - 2;
    liveBytes -= (long)p[0];
    free(p);
}
void* operator new[](std::size_t n) { return operator new(n); }
void  operator delete[](void* p) noexcept { operator delete(p); }
void  operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void  operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

// what the explorer itself needs is not counted
static long begin(mc::Ctx& ctx)
{
    ctx.path_.reserve(64);
    ctx.n_.reserve(64);
    return liveBytes;
}

struct Boom
{
    int serial;
};

////////////////////////////////////////////////////////////////
// requests that are refused
////////////////////////////////////////////////////////////////
enum BadBodies
{
    firstNull,
    secondNull,
    bothNull,
    nullWithDominances,
    singleNull,
    oneBody,
    threeBodies,
    twoStructural,
    sameStructural,
    madeStructural,
    sameMadeStructural,
    nBadBodies
};
static constexpr int nOn = 7;
enum Refused
{
    noDensity,
    negativeDensity,
    undefinedDensity,
    alignedPolygon,
    pointPolygon,
    foldedPolygon,
    twoVertices,
    noVertices,
    bodyOutside,
    noLimits,
    zeroMin,
    negativeMin,
    zeroMax,
    negativeMax,
    crossedLimits,
    zeroDistance,
    bodyThrows,
    constraintThrows,
    constraintThrowsLate,
    fieldThrows,
    fieldThrowsLate,
    badPairs, // nBadBodies * nOn from here
    nRefused = badPairs + nBadBodies * nOn
};
struct BoomBody : Body
{
    BoomBody(const BodyDescriptor& d) : Body(d) { throw Boom{bodyThrows}; }
};
struct BoomLater : InertConstraint
{
    std::unique_ptr<int> mine = std::make_unique<int>(3);
    BoomLater(const Bodies& b) : InertConstraint(b) {}
    void onConstruction(World&) override { throw Boom{constraintThrowsLate}; }
};
struct BoomNow : InertConstraint
{
    BoomNow(const Bodies& b) : InertConstraint(b) { throw Boom{constraintThrows}; }
};
struct BoomField : LinearField
{
    bool late;
    BoomField(bool late) : LinearField{Vec2{0, 1}, ForceField::global()}, late(late)
    {
        if (!late)
            throw Boom{fieldThrows};
    }
    void onConstruction(World&) override { throw Boom{fieldThrowsLate}; }
};
static Polygon poly(std::vector<Vec2> v) { return Polygon{v.begin(), v.end()}; }

static Bodies badBodies(int k, Body* a, Body* b, Body* s, Body* t)
{
    typedef Bodies::Dominance D;
    switch (k)
    {
        case firstNull: return Bodies{nullptr, a};
        case secondNull: return Bodies{b, nullptr};
        case bothNull: return Bodies{nullptr, nullptr};
        case nullWithDominances: return Bodies{{a, nullptr}, D{1.f, 1.f}};
        case singleNull: return Bodies::singleBody(nullptr);
        case oneBody: return Bodies{a};
        case threeBodies: return Bodies{a, b, s};
        case twoStructural: return Bodies{s, t};
        case sameStructural: return Bodies{s, s};
        case madeStructural: return Bodies{{a, b}, D{0.f, 0.f}};
        default: return Bodies{{b, b}, D{0.f, 0.f}};
    }
}
static const char* const kBadBodies[]{"no first body", "no second body", "no bodies", "no second body, with dominances", "no single body", "one body", "three bodies", "two structural bodies", "a structural body twice", "two bodies made structural", "a body made structural twice"};
static void makeOn(World& w, int kind, const Bodies& b)
{
    std::array<Vec2, 2> p{Vec2{0, 0}, Vec2{1, 0}};
    switch (kind)
    {
        case 0: w.makeConstraint<HingeConstraint>(b, Vec2{0, 0}); break;
        case 1: w.makeConstraint<RotationConstraint>(b); break;
        case 2: w.makeConstraint<WeldConstraint>(b); break;
        case 3: w.makeConstraint<DistanceConstraint>(b, p, 1.f); break;
        case 4: w.makeConstraint<RotationMotor>(b, RotationMotor::Specs::fromTorque(1.f, 1.f)); break;
        case 5: w.makeConstraint<TranslationMotor>(b, TranslationMotor::Specs::fromForce(1.f, 1.f)); break;
        default: w.makeConstraint<InertConstraint>(b); break;
    }
}

static const char* const kRefused[]{"density 0", "negative density", "undefined density", "aligned vertices", "equal vertices", "folded polygon", "two vertices", "no vertices", "body outside of a world", "distance without limits", "minimal distance 0", "negative minimal distance", "maximal distance 0", "negative maximal distance", "minimal distance above the maximal one", "distance 0", "body constructor throws", "constraint constructor throws", "constraint throws when put in the world", "field constructor throws", "field throws when put in the world"};
static std::string refusedName(int k)
{
    return k < badPairs ? kRefused[k] : mc::fmt("%s for a constraint of kind %d", kBadBodies[(k - badPairs) / nOn], (k - badPairs) % nOn);
}

struct Scene
{
    World             world;
    Body *            a, *b, *s, *t;
    Constraint*       joint = nullptr;
    std::vector<Collider*> more;
    bool bAlive = true, aAlive = true;
    Scene()
    {
        a = makeBox(world, {.at = {0, 1}, .v = {0.5, 0}});
        b = makeBox(world, {.at = {0.9, 1.02}, .density = 2, .spin = 0.3});
        s = makeBox(world, {.at = {0, 0}, .w = 8, .dominance = 0});
        t = makeBox(world, {.at = {2.5, 1}, .dominance = 0});
        world.makeForceField<LinearField>(Vec2{0, -10}, ForceField::global());
    }
    // nothing must be kept by the caller of a refused request
    void refused(mc::Ctx& ctx, int k)
    {
        bool        thrown = false, right = false;
        long        before = 0;
        std::string what   = refusedName(k);
        Body*       on     = aAlive ? a : s;
        Body*       other  = bAlive ? b : on;
        std::array<Vec2, 2>  p{Vec2{0, 0}, Vec2{1, 0}};
        std::optional<float> none = std::nullopt, one = 1.f, two = 2.f, zero = 0.f, neg = -1.f;
        if (!aAlive && !bAlive && k >= noLimits)
            ctx.prune();
        Bodies               pair{{on == s ? other : on, s}, Bodies::Dominance{1.f, 0.f}};
        Material m;
        Polygon  square = boxAt(0.2, 0.1);
        std::vector<Vec2> v;
        before = liveBytes;
        try
        {
            switch (k)
            {
                case noDensity: m.density = 0.f; on->addCollider({square, m}); break;
                case negativeDensity: m.density = -2.f; other->addCollider({square, m}); break;
                case undefinedDensity: m.density = std::numeric_limits<float>::quiet_NaN(); on->addCollider({square, m}); break;
                case alignedPolygon: other->addCollider({poly({Vec2{0, 0}, Vec2{1, 1}, Vec2{2, 2}})}); break;
                case pointPolygon: on->addCollider({poly({Vec2{1, 0}, Vec2{1, 0}, Vec2{1, 0}})}); break;
                case foldedPolygon: on->addCollider({poly({Vec2{0, 0}, Vec2{1, 0}, Vec2{2, 0}, Vec2{1, 0}})}); break;
                case twoVertices: on->addCollider({poly({Vec2{0, 0}, Vec2{1, 0}})}); break;
                case noVertices: on->addCollider({poly({})}); break;
                case bodyOutside:
                {
                    Body outside{BodyDescriptor{}};
                    outside.addCollider({square, m});
                    break;
                }
                case noLimits: world.makeConstraint<DistanceConstraint>(pair, p, none, none); break;
                case zeroMin: world.makeConstraint<DistanceConstraint>(pair, p, zero, two); break;
                case negativeMin: world.makeConstraint<DistanceConstraint>(pair, p, neg, none); break;
                case zeroMax: world.makeConstraint<DistanceConstraint>(pair, p, none, zero); break;
                case negativeMax: world.makeConstraint<DistanceConstraint>(pair, p, one, neg); break;
                case crossedLimits: world.makeConstraint<DistanceConstraint>(pair, p, two, one); break;
                case zeroDistance: world.makeConstraint<DistanceConstraint>(pair, p, 0.f); break;
                case bodyThrows: world.makeBody<BoomBody>(BodyDescriptor{}); break;
                case constraintThrows: world.makeConstraint<BoomNow>(pair); break;
                case constraintThrowsLate: world.makeConstraint<BoomLater>(pair); break;
                case fieldThrows: world.makeForceField<BoomField>(false); break;
                case fieldThrowsLate: world.makeForceField<BoomField>(true); break;
                default: makeOn(world, (k - badPairs) % nOn, badBodies((k - badPairs) / nOn, on, other, s, t)); break;
            }
        }
        catch (const simu::Exception& e)
        {
            thrown = true;
            right  = k < bodyThrows || k >= badPairs;
            right  = right && e.what() && *e.what();
        }
        catch (const Boom& boom)
        {
            thrown = true;
            right  = k >= bodyThrows && k < badPairs && boom.serial == k;
        }
        MC_CHECK(thrown, "accepted", "%s was accepted", what.c_str());
        MC_CHECK(right, "error", "%s: another error came out", what.c_str());
        MC_CHECK(liveBytes == before, "memory", "%s: %ld bytes are not returned", what.c_str(), liveBytes - before);
        ctx.validated(3);
    }
    void valid(mc::Ctx& ctx, int op)
    {
        switch (op)
        {
            case 0: world.step(1.f / 64); break;
            case 1: s->addCollider({boxAt(0, -0.5, 2)}); break;
            case 2:
                if (!aAlive) ctx.prune();
                more.push_back(a->addCollider({boxAt(0.4, 0.3, 0.5)}));
                break;
            case 3:
                if (more.empty() || !aAlive) ctx.prune();
                a->removeCollider(more.back());
                more.pop_back();
                break;
            case 4:
                if (!bAlive) ctx.prune();
                b->kill();
                bAlive = false;
                joint  = nullptr;
                world.step(1.f / 64);
                break;
            case 5:
                if (joint || !aAlive || !bAlive) ctx.prune();
                joint = world.makeConstraint<HingeConstraint>(Bodies{a, b}, Vec2{0.45f, 1.f}, false);
                break;
            case 6:
                if (!joint) ctx.prune();
                joint->kill();
                joint = nullptr;
                world.step(1.f / 64);
                break;
            case 7: makeBox(world, {.at = {-1.2, 1.4}, .v = {1, 0}}); break;
            case 8:
                if (!aAlive) ctx.prune();
                a->setVelocity(Vec2{1, 1});
                break;
            default:
                if (!aAlive) ctx.prune();
                a->kill();
                aAlive = false;
                joint  = nullptr;
                more.clear();
                world.step(0.f);
                break;
        }
    }
    static constexpr int nValid = 10;
    void view(std::vector<uint64_t>& out)
    {
        auto f = [&](float x) { uint32_t u; memcpy(&u, &x, 4); out.push_back(u); };
        auto v = [&](Vec2 x) { f(x[0]); f(x[1]); };
        std::map<const void*, int> id;
        for (Body& x : world.bodies())
        {
            id[&x] = (int)id.size();
            out.push_back(0xB0);
            v(x.position()), v(x.velocity()), v(x.centroid()), v(x.localCentroid());
            f(x.orientation()), f(x.angularVelocity()), f(x.mass()), f(x.inertia()), f(x.dominance());
            out.push_back(x.isDead());
            for (auto& c : x.colliders())
            {
                id[&c] = (int)id.size();
                out.push_back(0xC0);
                v(c.boundingBox().min()), v(c.boundingBox().max()), f(c.material().density);
                for (Vec2 q : c)
                    v(q);
            }
        }
        for (Constraint& c : world.constraints())
        {
            id[&c] = (int)id.size();
            out.push_back(0xD0);
            for (Body* x : c.bodies())
                out.push_back(id[x]);
        }
        for (ForceField& x : world.forceFields())
            out.push_back(x.isDead() + 0xE0);
        std::multiset<std::pair<int, int>> pairs;
        for (ContactConstraint& c : world.contacts())
        {
            int x = id[c.colliders()[0]], y = id[c.colliders()[1]];
            pairs.insert({std::min(x, y), std::max(x, y)});
        }
        for (auto [x, y] : pairs)
            out.push_back(0xF00000 + x * 1000 + y);
        for (Body& x : world.bodies())
        {
            out.push_back(0xAA);
            for (Constraint* c : x.constraints())
                out.push_back(id[c]);
            size_t n = 0;
            for (auto* c : x.contacts())
                ++n, (void)c;
            out.push_back(n);
        }
        std::multiset<int> found;
        world.forEachIn(BoundingBox{Vec2{-1000, -1000}, Vec2{1000, 1000}}, [&](Body* x) { found.insert(id.count(x) ? id[x] : -1); });
        for (int x : found)
            out.push_back(x);
        world.forEachAt(Vec2{0.3f, 1.2f}, [&](Body* x) { out.push_back(id.count(x) ? id[x] : -1); });
    }
};

// the same history, with and without the requests
static void compareHistories(mc::Ctx& ctx, const std::vector<int>& ops, const std::vector<std::pair<int, int>>& requests)
{
    std::vector<uint64_t> with, without;
    auto                  run = [&](bool r, std::vector<uint64_t>& out) {
        Scene sc;
        for (size_t i = 0; i <= ops.size(); ++i)
        {
            if (r)
                for (auto [at, k] : requests)
                    if (at == (int)i)
                        sc.refused(ctx, k);
            sc.view(out);
            if (i < ops.size())
            {
                sc.valid(ctx, ops[i]);
                ctx.transition();
            }
            sc.view(out);
        }
        for (int i = 0; i < 3; ++i)
        {
            sc.world.step(1.f / 64);
            sc.view(out);
        }
        sc.valid(ctx, 7);
        sc.view(out);
    };
    with.reserve(1 << 13);
    without.reserve(1 << 13);
    run(false, without);
    long empty = liveBytes;
    {
        run(true, with);
    }
    MC_CHECK(liveBytes == empty, "leak", "%ld bytes are still held after the world is gone", liveBytes - empty);
    MC_CHECK(with.size() == without.size(), "trace", "the history of the world differs after a refused request (%s)", refusedName(requests[0].second).c_str());
    for (size_t i = 0; i < with.size(); ++i)
        MC_CHECK(with[i] == without[i], "trace", "the history of the world differs after a refused request (%s)", refusedName(requests[0].second).c_str());
    ctx.validated(with.size());
    ctx.outcome(requests[0].second < noLimits ? "collider" : requests[0].second < bodyThrows ? "distance" : requests[0].second < badPairs ? "constructor" : "bodies");
}
// every request at every moment of every short history
MC_SCENARIO(refused)
{
    int              depth = ctx.tier(2, 4);
    std::vector<int> ops;
    int              k = ctx.choose(nRefused, "request");
    if (k >= badPairs && (k - badPairs) % nOn)
        depth = ctx.tier(1, 2);
    int at = ctx.choose(depth + 1, "moment");
    for (int i = 0; i < depth; ++i)
        ops.push_back(ctx.choose(Scene::nValid, "operation"));
    compareHistories(ctx, ops, {{at, k}});
}
// two requests
MC_SCENARIO(refused_twice)
{
    std::vector<int> kinds;
    for (int k = 0; k < badPairs; ++k)
        kinds.push_back(k);
    for (int i = 0; i < nBadBodies; ++i)
        kinds.push_back(badPairs + i * nOn + (i % nOn));
    int k = ctx.pick(kinds, "first request"), l = ctx.pick(kinds, "second request");
    int op = ctx.tier(0, 1) ? ctx.choose(Scene::nValid, "operation") : 2 * ctx.choose(2, "operation");
    compareHistories(ctx, {op, 0}, {{0, k}, {ctx.choose(3, "moment"), l}});
}

// values that are refused
MC_SCENARIO(values)
{
    int  k = ctx.choose(ctx.tier(9, 9), "value");
    bool thrown = false;
    long before = begin(ctx);
    try
    {
        switch (k)
        {
            case 0: { Mass m{0.f, 1.f}; break; }
            case 1: { Mass m{1.f, 0.f}; break; }
            case 2: { Mass m{-1.f, 1.f}; break; }
            case 3: { Mass m{1.f, -1.f}; break; }
            case 4: { Mass m{GeometricProperties{boxAt(0, 0)}, 0.f}; break; }
            case 5: { Mass m{GeometricProperties{boxAt(0, 0)}, -1.f}; break; }
            case 6: { MassProperties m{boxAt(0, 0), 0.f}; break; }
            case 7: { MassProperties m{poly({Vec2{0, 0}, Vec2{1, 1}, Vec2{2, 2}}), 1.f}; break; }
            default: { Polygon p = poly({Vec2{0, 0}, Vec2{1, 1}}); break; }
        }
    }
    catch (const simu::Exception&)
    {
        thrown = true;
    }
    MC_CHECK(thrown, "accepted", "invalid value %d was accepted", k);
    MC_CHECK(liveBytes == before, "memory", "value %d: memory is not returned", k);
    ctx.transition();
    ctx.validated(2);
    ctx.outcome("refused");
}

// limits that are changed: those that cross are refused and the previous ones stay
struct Adjustable : DistanceConstraint
{
    Adjustable(const Bodies& b, std::array<Vec2, 2> p) : DistanceConstraint(b, p, std::optional<float>{1.f}, std::optional<float>{4.f}) {}
    void set(bool lower, std::optional<float> v)
    {
        std::optional<Value> l;
        if (v)
            l = Value{*v * *v};
        if (lower)
            solver.setLowerLimit(l);
        else
            solver.setUpperLimit(l);
    }
};
MC_SCENARIO(limits)
{
    typedef std::optional<float>    Limit;
    const std::vector<Limit>        values{std::nullopt, 1.f, 2.f, 3.f, 4.f};
    std::array<Limit, 2>            now{1.f, 4.f};
    int                             depth = ctx.tier(3, 4);
    std::vector<std::pair<int, Limit>> asked;
    std::vector<bool>               good;
    for (int i = 0; i < depth; ++i)
    {
        int   side = ctx.choose(2, "side");
        Limit v    = ctx.pick(values, "limit");
        auto  then = now;
        then[side] = v;
        bool ok    = !then[0] || !then[1] || *then[0] <= *then[1];
        if (ok)
            now = then;
        asked.push_back({side, v});
        good.push_back(ok);
    }
    double at = ctx.pick(std::vector<double>{0.5, 1.5, 2.5, 5}, "distance");
    std::vector<BodyState> got[2];
    for (int all = 0; all < 2; ++all)
    {
        World w;
        Body* a = makeBox(w, {.at = {0, 0}, .v = {0.5, 0}});
        Body* b = makeBox(w, {.at = {at, 0}, .v = {-0.25, 0.5}});
        auto* c = w.makeConstraint<Adjustable>(Bodies{a, b}, std::array<Vec2, 2>{Vec2{0, 0}, Vec2{(float)at, 0}});
        for (int i = 0; i < depth; ++i)
        {
            if (!all && !good[i])
                continue;
            bool thrown = false;
            try
            {
                c->set(asked[i].first == 0, asked[i].second);
            }
            catch (const simu::Exception&)
            {
                thrown = true;
            }
            MC_CHECK(thrown == !good[i], "limits", "limits are %s", thrown ? "refused" : "accepted");
        }
        for (int i = 0; i < 2; ++i)
        {
            w.step(1.f / 64);
            got[all].push_back(BodyState{a});
            got[all].push_back(BodyState{b});
        }
        ctx.transition(2);
    }
    for (size_t i = 0; i < got[0].size(); ++i)
        MC_CHECK(got[0][i] == got[1][i], "limits", "limits that were refused have an effect");
    ctx.validated(depth + 4);
    ctx.outcome(std::count(good.begin(), good.end(), false) ? "some refused" : "all accepted");
}

////////////////////////////////////////////////////////////////
// objects made by the pool whose constructors throw
////////////////////////////////////////////////////////////////
struct Counted
{
    static inline int alive = 0, made = 0, throwAt = -1;
    int64_t           x[3];
    Counted()
    {
        if (made++ == throwAt)
            throw Boom{9};
        ++alive;
    }
    ~Counted() { --alive; }
};
MC_SCENARIO(unique)
{
    Counted::alive = Counted::made = 0;
    int  n  = ctx.choose(ctx.tier(6, 10), "objects"), kept = ctx.choose(3, "before");
    bool array = ctx.flag("array");
    int  at = ctx.choose(n + 1, "throws");
    if (!array && n > 1)
        ctx.prune();
    Counted::throwAt = -1;
    const char* out  = "";
    long start = begin(ctx);
    {
        FreeListAllocator<int>             alloc;
        std::list<UniquePtr<Counted>> keep;
        for (int i = 0; i < kept; ++i)
            keep.push_back(makeUnique<Counted>(alloc));
        long before      = liveBytes;
        Counted::made    = 0;
        Counted::throwAt = at;
        bool thrown      = false;
        try
        {
            if (array)
            {
                auto p = makeUnique<Counted[]>(alloc, n);
                MC_CHECK(Counted::alive == kept + n, "made", "%d objects made instead of %d", Counted::alive - kept, n);
            }
            else
            {
                auto p = makeUnique<Counted>(alloc);
                MC_CHECK(Counted::alive == kept + 1, "made", "no object made");
            }
        }
        catch (const Boom&)
        {
            thrown = true;
        }
        MC_CHECK(thrown == (at < (array ? n : 1)), "error", "the error of a constructor is lost");
        MC_CHECK(Counted::alive == kept, "destroyed", "%d objects are left, %d expected", Counted::alive, kept);
        MC_CHECK(liveBytes == before, "memory", "%ld bytes are not returned", liveBytes - before);
        out = thrown ? "thrown" : "made";
    }
    MC_CHECK(liveBytes == start && Counted::alive == 0, "leak", "%ld bytes are left", liveBytes - start);
    ctx.outcome(out);
    ctx.transition(n + kept);
    ctx.validated(4);
}

////////////////////////////////////////////////////////////////
// steps cut short by an error
////////////////////////////////////////////////////////////////
enum Point
{
    bodyPre, bodyPost, bodyGone,
    conPre, conPost, conGone, conActive, conInit, conWarm, conVel, conPos,
    fieldPre, fieldPost, fieldGone, fieldApply,
    contactMade, contactNew, contactPre, contactPost, contactGone,
    nPoints
};
static const char* const kPoint[]{"body preStep", "body postStep", "body onDestruction", "constraint preStep", "constraint postStep", "constraint onDestruction", "isActive", "initSolve", "warmstart", "solveVelocities", "solvePositions", "field preStep", "field postStep", "field onDestruction", "apply", "contact factory", "contact onConstruction", "contact preStep", "contact postStep", "contact onDestruction"};
static int point = -1, countdown = 0, thrownCount = 0;
static int calls[nPoints];
static void reach(int p)
{
    ++calls[p];
    if (p == point && countdown-- == 0)
    {
        ++thrownCount;
        throw Boom{100 + p};
    }
}
struct HBody : Body
{
    HBody(const BodyDescriptor& d) : Body(d) {}
    void preStep() override { reach(bodyPre); }
    void postStep() override { reach(bodyPost); }
    void onDestruction(World&) override { reach(bodyGone); }
};
struct HCon : HingeConstraint
{
    int active = 0, init = 0, warm = 0, vel = 0, pos = 0;
    using HingeConstraint::HingeConstraint;
    void preStep() override { reach(conPre); }
    void postStep() override { reach(conPost); }
    void onDestruction(World&) override { reach(conGone); }
    bool isActive(const Proxies& p) override { ++active; reach(conActive); return HingeConstraint::isActive(p); }
    void initSolve(const Proxies& p) override { ++init; reach(conInit); HingeConstraint::initSolve(p); }
    void warmstart(Proxies& p, float dt) override { ++warm; reach(conWarm); HingeConstraint::warmstart(p, dt); }
    void solveVelocities(Proxies& p, float dt) override { ++vel; reach(conVel); HingeConstraint::solveVelocities(p, dt); }
    void solvePositions(Proxies& p) override { ++pos; reach(conPos); HingeConstraint::solvePositions(p); }
};
struct HField : ForceField
{
    HField() : ForceField{ForceField::global()} {}
    void preStep() override { reach(fieldPre); }
    void postStep() override { reach(fieldPost); }
    void onDestruction(World&) override { reach(fieldGone); }
    void apply(Collider& c, float dt) const override
    {
        reach(fieldApply);
        c.body()->applyImpulse(Vec2{0, -1} * c.properties().m * dt);
    }
};
struct HContact : ContactConstraint
{
    HContact(Collider& a, Collider& b) : ContactConstraint(a, b) {}
    void onConstruction(World&) override { reach(contactNew); }
    void onDestruction(World&) override { reach(contactGone); }
    void preStep() override { ContactConstraint::preStep(); reach(contactPre); }
    void postStep() override { reach(contactPost); }
};
struct Cut
{
    World              world;
    std::vector<Body*> bodies;
    std::vector<HCon*> cons;
    ForceField*        field = nullptr;
    Body*              free  = nullptr;
    float              dt    = 1.f / 64;
    Cut()
    {
        world.setContactFactory([](Collider& a, Collider& b, const World::ContactAlloc& al) -> UniquePtr<ContactConstraint> {
            reach(contactMade);
            return makeUnique<HContact>(al, a, b);
        });
    }
    Body* add(P at, double dominance, P v, double w = 1)
    {
        BodyDescriptor d;
        d.position  = geo::toV(at);
        d.dominance = (float)dominance;
        Body* b     = world.makeBody<HBody>(d);
        b->addCollider({boxAt(0, 0, w)});
        b->setVelocity(geo::toV(v));
        bodies.push_back(b);
        return b;
    }
    void link(int i, int j, P at) { cons.push_back(world.makeConstraint<HCon>(Bodies{bodies[i], bodies[j]}, geo::toV(at), true)); }
    bool step()
    {
        try
        {
            world.step(dt);
            return true;
        }
        catch (const Boom&)
        {
            return false;
        }
    }
    void forget()
    {
        auto here = [&](auto&& list, auto* x) {
            for (auto& o : list)
                if (&o == x)
                    return true;
            return false;
        };
        std::erase_if(bodies, [&](Body* b) { return !here(world.bodies(), b); });
        std::erase_if(cons, [&](HCon* c) { return !here(world.constraints(), (Constraint*)c); });
        if (field && !here(world.forceFields(), field))
            field = nullptr;
        if (free && !here(world.bodies(), free))
            free = nullptr;
    }
    // every collider is found where it is, once
    void found(mc::Ctx& ctx)
    {
        std::map<Body*, int> n;
        world.forEachIn(BoundingBox{Vec2{-1000, -1000}, Vec2{1000, 1000}}, [&](Body* b) { ++n[b]; });
        size_t bodiesFound = 0;
        for (Body& b : world.bodies())
        {
            int have = 0;
            for (auto& c : b.colliders())
            {
                ++have;
                bool at = false;
                world.forEachAt(c.boundingBox().center(), [&](Body* x) { at |= x == &b; });
                MC_CHECK(at, "query", "a body is not found where it is");
            }
            MC_CHECK(n[&b] == have, "query", "a body with %d colliders is found %d times", have, n[&b]);
            bodiesFound += have > 0;
            BodyState s{&b};
            MC_CHECK(s.finite(), "finite", "a body is %s", s.str().c_str());
        }
        n.erase(nullptr);
        std::erase_if(n, [](auto& e) { return e.second == 0; });
        MC_CHECK(n.size() == bodiesFound, "query", "a query finds bodies that are gone");
        ctx.validated(bodiesFound);
    }
    // a step that is not cut short does all that a step does
    void wholeStep(mc::Ctx& ctx)
    {
        for (HCon* c : cons)
            c->active = c->init = c->warm = c->vel = c->pos = 0;
        for (int& c : calls)
            c = 0;
        BodyState before;
        Vec2      v{};
        float     at[2]{};
        if (free)
            before = BodyState{free};
        std::set<Constraint*> dying;
        for (Constraint& c : world.constraints())
            if (c.isDead())
                dying.insert(&c);
        MC_CHECK(step(), "again", "a later step is cut short");
        ctx.transition();
        forget();
        int nCons = 0;
        for (HCon* c : cons)
        {
            ++nCons;
            MC_CHECK(c->active == 1, "active", "after an error, a constraint is asked %d times whether it is active", c->active);
            MC_CHECK(c->init == 1 && c->warm == 1, "solved", "after an error, a constraint is prepared %d times, warmed %d times", c->init, c->warm);
            MC_CHECK(c->vel == (int)world.settings().nVelocityIterations && c->pos == (int)world.settings().nPositionIterations, "solved", "after an error, a constraint is solved %d and %d times", c->vel, c->pos);
        }
        int nBodies = 0, nFields = 0, nColliders = 0;
        for (Body& b : world.bodies())
        {
            ++nBodies;
            for (auto& c : b.colliders())
                nColliders += !b.isStructural(), (void)c;
        }
        for (ForceField& f : world.forceFields())
            ++nFields, (void)f;
        MC_CHECK(calls[bodyPre] == nBodies && calls[bodyPost] == nBodies, "hooks", "%d bodies, %d opening and %d closing calls", nBodies, calls[bodyPre], calls[bodyPost]);
        MC_CHECK(calls[conPre] == nCons && calls[conPost] == nCons, "hooks", "%d constraints, %d opening and %d closing calls", nCons, calls[conPre], calls[conPost]);
        MC_CHECK(calls[fieldPre] == nFields && calls[fieldPost] == nFields, "hooks", "%d fields, %d opening and %d closing calls", nFields, calls[fieldPre], calls[fieldPost]);
        MC_CHECK(calls[fieldApply] == nFields * nColliders, "forces", "%d fields on %d colliders: %d applications", nFields, nColliders, calls[fieldApply]);
        if (free)
        {
            BodyState after{free};
            double    want = before.p[0] + (double)before.v[0] * dt;
            MC_CHECK(std::abs(after.p[0] - want) < 1e-5 && after.v[0] == before.v[0] && after.w == before.w, "free", "after an error, a free body moves from %g to %g", before.p[0], after.p[0]);
        }
        // contacts are those of the boxes that meet
        std::set<std::pair<const Collider*, const Collider*>> want, have;
        std::vector<std::pair<Body*, const Collider*>>        all;
        auto key = [](const Collider* x, const Collider* y) { return x < y ? std::pair{x, y} : std::pair{y, x}; };
        for (Body& b : world.bodies())
            for (auto& c : b.colliders())
                all.push_back({&b, &c});
        for (size_t i = 0; i < all.size(); ++i)
            for (size_t j = i + 1; j < all.size(); ++j)
            {
                Body *p = all[i].first, *q = all[j].first;
                if (p == q || (p->isStructural() && q->isStructural()))
                    continue;
                bool off = false;
                for (Constraint& c : world.constraints())
                    off |= c.disablesContacts() && ((c.bodies()[0] == p && c.bodies()[1] == q) || (c.bodies()[0] == q && c.bodies()[1] == p));
                if (!off && boxesMeet(all[i].second->boundingBox(), all[j].second->boundingBox()))
                    want.insert(key(all[i].second, all[j].second));
            }
        std::map<Body*, std::set<ContactConstraint*>> of;
        for (ContactConstraint& c : world.contacts())
        {
            for (Body* b : c.bodies())
                of[b].insert(&c);
            if (!c.isDead())
                MC_CHECK(have.insert(key(c.colliders()[0], c.colliders()[1])).second, "contacts", "two contacts for a pair");
        }
        MC_CHECK(have == want, "contacts", "after an error, %zu contacts for %zu overlapping pairs", have.size(), want.size());
        for (Body& b : world.bodies())
        {
            std::set<ContactConstraint*> l;
            for (auto* c : b.contacts())
                l.insert(c);
            MC_CHECK(l == of[&b], "listed", "a body lists %zu contacts but takes part in %zu", l.size(), of[&b].size());
            std::multiset<Constraint*> m, o;
            for (auto* c : b.constraints())
                m.insert(c);
            for (Constraint& c : world.constraints())
                for (Body* x : c.bodies())
                    if (x == &b)
                        o.insert(&c);
            MC_CHECK(m == o, "listed", "a body lists %zu constraints but takes part in %zu", m.size(), o.size());
        }
        found(ctx);
        ctx.validated(10);
    }
};
static void cutShort(mc::Ctx& ctx)
{
    const char* out = "";
    point       = -1;
    thrownCount = 0;
    long start  = begin(ctx);
    {
        Cut c;
        int shape = ctx.choose(ctx.tier(3, 4), "scene");
        c.add({0, 0}, 0, {0, 0}, 12); // ground
        c.add({-3, 1.2}, 1, {0, -1});
        c.add({-2.5, 2.1}, 1, {0, -1});
        c.add({1, 2}, 1, {0, -30});
        c.add({2.6, 2}, 1, {0, -1});
        if (shape != 1)
            c.link(3, 4, {1.8, 2});
        if (shape >= 2)
            c.link(1, 2, {-2.7, 1.7}), c.link(1, 0, {-3, 0.7});
        c.free = c.add({100, 1}, 0.5, {1, 0});
        if (shape == 3)
        {
            c.add({0.4, 1.1}, 1, {0, -1});
            c.link(5, 6, {30, 1});
            c.free = nullptr;
        }
        c.field = c.world.makeForceField<HField>();
        MC_CHECK(c.step(), "again", "a step without errors is cut short");
        // things that go and things that come in the step that is cut short
        int change = ctx.choose(5, "before");
        switch (change)
        {
            case 0: break;
            case 1: c.bodies[3]->kill(); break;
            case 2: c.bodies[2]->kill(); c.field->kill(); break;
            case 3:
                if (c.cons.empty()) ctx.prune();
                c.cons[0]->kill();
                break;
            case 4: c.add({-0.5, 0.8}, 1, {0, 0}), c.add({-0.6, 1.7}, 1, {0, 0}); break;
        }
        int which = ctx.choose(nPoints, "callback");
        point     = which;
        countdown = ctx.choose(ctx.tier(5, 8), "occurrence");
        int  tries = 0;
        bool cut   = false;
        for (; tries < 2 && !cut; ++tries)
        {
            try
            {
                c.world.step(c.dt);
            }
            catch (const Boom& b)
            {
                cut = true;
                MC_CHECK(b.serial == 100 + point, "error", "another error came out");
            }
            ctx.transition();
        }
        MC_CHECK(cut == (thrownCount == 1), "error", "the error of %s did not come out of the step", kPoint[point]);
        if (!cut)
            ctx.prune();
        point = -1;
        c.forget();
        c.found(ctx);
        int after = ctx.choose(ctx.tier(6, 7), "after");
        switch (after)
        {
            case 0: break;
            case 1:
                if (c.bodies.size() < 3) ctx.prune();
                c.bodies[2]->kill();
                break;
            case 2:
                if (c.cons.empty()) ctx.prune();
                c.cons.back()->kill();
                break;
            case 3: c.add({0, 0.9}, 1, {0, 0}); break;
            case 4:
                c.bodies[1]->addCollider({boxAt(0.5, 0.2)});
                break;
            case 5: c.world.clear(); c.bodies.clear(), c.cons.clear(), c.field = nullptr, c.free = nullptr; break;
            case 6: c.bodies[0]->kill(); break;
        }
        for (int i = 0; i < ctx.tier(3, 4); ++i)
            c.wholeStep(ctx);
        out = kPoint[which];
    }
    MC_CHECK(liveBytes == start, "leak", "%ld bytes are still held after the world is gone", liveBytes - start);
    ctx.outcome(out);
}
MC_SCENARIO(cut_short) { cutShort(ctx); }

// two errors in one history
MC_SCENARIO(cut_twice)
{
    point       = -1;
    thrownCount = 0;
    long start  = begin(ctx);
    {
        Cut c;
        c.add({0, 0}, 0, {0, 0}, 12);
        c.add({1, 1.5}, 1, {0, -30});
        c.add({2.6, 2}, 1, {0, -1});
        c.add({-2, 0.98}, 1, {0, 0});
        c.link(1, 2, {1.8, 2});
        c.free  = c.add({100, 1}, 0.5, {1, 0});
        c.field = c.world.makeForceField<HField>();
        for (int i = 0; i < 2; ++i)
        {
            point       = ctx.choose(nPoints, "callback");
            countdown   = ctx.choose(ctx.tier(2, 4), "occurrence");
            thrownCount = 0;
            if (ctx.flag("something dies"))
                c.bodies[i + 1]->kill();
            bool ok = c.step();
            ctx.transition();
            MC_CHECK(ok == (thrownCount == 0), "error", "the error of %s is lost", kPoint[point]);
            if (ok)
                ctx.prune();
            c.found(ctx);
        }
        point = -1;
        c.forget();
        for (int i = 0; i < 2; ++i)
            c.wholeStep(ctx);
    }
    MC_CHECK(liveBytes == start, "leak", "%ld bytes are still held after the world is gone", liveBytes - start);
    ctx.outcome("cut twice");
}

// errors found by the library while it solves: bodies without mass, motions that are not numbers
MC_SCENARIO(unsolvable)
{
    int  kind = ctx.choose(3, "joint");
    int  why  = ctx.choose(3, "reason");
    int  tries = 1 + ctx.choose(3, "steps");
    bool remove = ctx.flag("body killed");
    bool warm   = ctx.flag("motion before");
    point       = -1;
    long start  = begin(ctx);
    {
        Cut   c;
        Body* a = c.add({0, 10}, 1, {0, 0});
        Body* b = c.add({3, 10}, 1, {0, 0});
        c.add({30, 10}, 1, {0, 0});
        c.add({30.2, 10.9}, 1, {0, 0});
        c.add({60, 10}, 1, {0, 0});
        c.link(2, 4, {45, 10});
        c.free = c.add({100, 1}, 0.5, {1, 0});
        Constraint* joint = kind == 0 ? (Constraint*)c.world.makeConstraint<HCon>(Bodies{a, b}, Vec2{1.5f, 10.f})
                          : kind == 1 ? (Constraint*)c.world.makeConstraint<WeldConstraint>(Bodies{a, b})
                                      : (Constraint*)c.world.makeConstraint<DistanceConstraint>(Bodies{a, b}, std::array<Vec2, 2>{Vec2{0, 10}, Vec2{3, 10}}, 3.f);
        if (warm)
            MC_CHECK(c.step(), "again", "a valid step throws");
        float nan = std::numeric_limits<float>::quiet_NaN(), inf = std::numeric_limits<float>::infinity();
        if (why == 0)
            a->setVelocity(Vec2{nan, 0});
        else if (why == 1)
            b->setAngularVelocity(inf);
        else
            a->setVelocity(Vec2{0, inf});
        for (int i = 0; i < tries; ++i)
        {
            bool thrown = false;
            try
            {
                c.world.step(c.dt);
            }
            catch (const simu::Exception&)
            {
                thrown = true;
            }
            MC_CHECK(thrown, "accepted", "a joined body moving at an undefined speed is solved");
            ctx.transition();
        }
        if (remove)
        {
            a->kill();
            b->kill();
        }
        else
        {
            a->setVelocity(Vec2{0, 0}), a->setAngularVelocity(0);
            b->setVelocity(Vec2{0, 0}), b->setAngularVelocity(0);
            joint->kill();
        }
        c.forget();
        for (int i = 0; i < 3; ++i)
            c.world.step(c.dt), ctx.transition();
        c.cons.clear();
        c.found(ctx);
    }
    MC_CHECK(liveBytes == start, "leak", "%ld bytes are still held after the world is gone", liveBytes - start);
    ctx.outcome(remove ? "killed" : "repaired");
}
