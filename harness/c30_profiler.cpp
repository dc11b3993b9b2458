// C30: the profiler's timers under a clock owned by the check, which advances only inside the callbacks of each phase.
#include "world_common.hpp"
#include "Simu/physics/Profiler.hpp"
#include "owned_clock.hpp"

struct EntryModel
{
    std::vector<double> measures;
    double              last = 0;
    void                add(double s) { measures.push_back(s), last = s; }
};
static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (std::abs(a) + std::abs(b)) + 1e-15; }
static void judge(mc::Ctx& ctx, const TimeEntry& e, const EntryModel& m, const char* what)
{
    double sum = 0, max = 0;
    for (double s : m.measures)
        sum += s, max = std::max(max, s);
    MC_CHECK(e.nMeasures() == (Int64)m.measures.size(), "count", "%s was measured %lld times instead of %zu", what, (long long)e.nMeasures(), m.measures.size());
    MC_CHECK(near(e.last(), m.last), "last", "%s took %g s instead of %g s", what, e.last(), m.last);
    MC_CHECK(near(e.max(), max), "max", "%s took at most %g s instead of %g s", what, e.max(), max);
    MC_CHECK(near(e.average(), m.measures.empty() ? 0 : sum / m.measures.size()), "average", "%s took %g s on average instead of %g s", what, e.average(), sum / std::max<size_t>(1, m.measures.size()));
    ctx.transition();
}

static const std::vector<Int64> durations{0, 1, 1000003, 5000000000};

// every short history of measures of one entry
MC_SCENARIO(entries)
{
    owned = true;
    ticks = 1000;
    TimeEntry                  e, other;
    EntryModel                 m, mo;
    int depth = ctx.tier(5, 6);
    for (int i = 0; i < depth; ++i)
    {
        int  op = ctx.choose(9, "operation");
        auto d  = op < 6 ? ctx.pick(durations, "duration") : 0;
        switch (op)
        {
            case 0: {
                auto t = e.time();
                ticks += d;
            }
                m.add(d * 1e-9);
                break;
            case 1: {
                auto t = e.timePartial();
                ticks += d;
            }
                m.last += d * 1e-9;
                break;
            case 2: { // nested, of two entries
                auto t = e.time();
                ticks += 7;
                {
                    auto u = other.time();
                    ticks += d;
                }
                ticks += 5;
            }
                m.add((d + 12) * 1e-9);
                mo.add(d * 1e-9);
                break;
            case 3: { // handed over
                auto t = e.time();
                ticks += 3;
                ScopedTimer u{std::move(t)};
                ticks += d;
            }
                m.add((d + 3) * 1e-9);
                break;
            case 4: {
                auto t = e.timePartial();
                ticks += 3;
                ScopedTimer u{std::move(t)};
                ticks += d;
            }
                m.last += (d + 3) * 1e-9;
                break;
            case 5: // returned by a function
                [&] {
                    auto t = other.time();
                    ticks += d;
                    return t;
                }();
                mo.add(d * 1e-9);
                break;
            case 6:
                e.startPartial();
                m.last = 0;
                break;
            case 7:
                e.commitPartial();
                m.add(m.last);
                break;
            case 8:
                e = TimeEntry{};
                m = {};
                break;
        }
        ticks += 11; // nothing is being measured
        judge(ctx, e, m, "an operation");
        judge(ctx, other, mo, "another operation");
    }
    ctx.validated(1);
}

static Int64 spent[8]; // outside, tree, narrow, construction, velocities, positions
enum Phase
{
    outside, tree, narrow, construction, velocities, positions
};
static Int64 unit[8];
static void  spend(Phase p, int factor = 1) { ticks += unit[p] * factor, spent[p] += unit[p] * factor; }

struct SlowConstraint : Constraint
{
    SlowConstraint(const Bodies& b) : Constraint(b, false) {}
    bool isActive(const Proxies&) override { return spend(construction), true; }
    void initSolve(const Proxies&) override { spend(velocities); }
    void warmstart(Proxies&, float) override { spend(velocities); }
    void solveVelocities(Proxies&, float) override { spend(velocities); }
    void solvePositions(Proxies&) override { spend(positions); }
    void preStep() override { spend(outside); }
    void postStep() override { spend(outside); }
};
struct SlowContact : ContactConstraint
{
    SlowContact(Collider& a, Collider& b) : ContactConstraint(a, b) { spend(tree); }
    void preStep() override
    {
        spend(narrow);
        ContactConstraint::preStep();
    }
    void postStep() override { spend(outside); }
};
struct SlowBody : Body
{
    using Body::Body;
    void preStep() override { spend(outside); }
    void postStep() override { spend(outside); }
};
struct SlowField : ForceField
{
    SlowField() : ForceField{ForceField::global()} {}
    void apply(Collider&, float) const override { spend(outside); }
};

// histories of steps and changes of a world
MC_SCENARIO(steps)
{
    owned = true;
    ticks = 1 << 20;
    World w;
    w.setContactFactory([](Collider& a, Collider& b, const typename World::ContactAlloc& alloc) { return makeUnique<SlowContact>(alloc, a, b); });
    std::vector<SlowBody*>   bodies;
    std::vector<Constraint*> links;
    EntryModel               m[6];
    int                      depth = ctx.tier(6, 7);
    auto                     add   = [&](float x, bool touching) {
        if (bodies.size() >= 6)
            return;
        BodyDescriptor d;
        d.position = Vec2{x + 4.f * bodies.size() * !touching, touching ? 0.25f * bodies.size() : 8.f};
        auto b = w.makeBody<SlowBody>(d);
        b->addCollider(ColliderDescriptor{boxAt(0, 0), tolerant(0.01f)});
        bodies.push_back(b);
    };
    int colliders = 0;
    for (int i = 0; i < depth; ++i)
    {
        int op = ctx.choose(9, "operation");
        switch (op)
        {
            case 0: add(0, false), ++colliders; break;
            case 1: add(0, true), ++colliders; break;
            case 2:
                if (bodies.size() < 2)
                    ctx.prune();
                links.push_back(w.makeConstraint<SlowConstraint>(Bodies{bodies[bodies.size() - 2], bodies.back()}));
                break;
            case 3:
                if (bodies.empty())
                    ctx.prune();
                bodies.back()->kill(), bodies.pop_back();
                links.clear();
                break;
            case 4:
                w.profiler().reset();
                for (auto& x : m)
                    x = {};
                break;
            case 5: w.makeForceField<SlowField>(); break;
            default: {
                static const Int64 units[3][6] = {{1, 10, 100, 1000, 10000, 100000}, {3, 700000000, 5, 11, 9000, 1}, {0, 1, 1, 2000000000, 0, 1}};
                int                u = op - 6;
                for (int k = 0; k < 6; ++k)
                    unit[k] = units[u][k], spent[k] = 0;
                bool paused = u == 2 && ctx.choose(2, "paused");
                w.step(paused ? 0.f : 1.f / 64);
                m[narrow].add(spent[narrow] * 1e-9);
                if (!paused)
                    for (int k : {tree, construction, velocities, positions})
                        m[k].add(spent[k] * 1e-9);
                Uint32 h = w.profiler().treeHeight, least = 0;
                size_t n = 0;
                for (Body& b : w.bodies())
                    for (auto& c : b.colliders())
                        n += &c != nullptr;
                // a binary tree of this many boxes: neither shorter nor longer than possible
                while ((size_t(1) << least) < n)
                    ++least;
                MC_CHECK(paused || n == 0 || (h >= least && h <= n), "height", "the tree of %zu boxes has a height of %u", n, h);
                break;
            }
        }
        const Profiler& p = w.profiler();
        judge(ctx, p.treeUpdateAndCollision, m[tree], "tree update and collision");
        judge(ctx, p.narrowPhaseCollision, m[narrow], "narrow phase collision");
        judge(ctx, p.islandConstruction, m[construction], "island construction");
        judge(ctx, p.solveVelocities, m[velocities], "solving of velocities");
        judge(ctx, p.solvePositions, m[positions], "solving of positions");
    }
    ctx.validated(1);
    ctx.outcome(spent[positions] ? "solved" : "idle");
}
