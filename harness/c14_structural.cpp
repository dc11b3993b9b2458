// C14: structural bodies, and bodies whose dominance is overridden to zero, are not acted upon.
#include "joints.hpp"

struct Push : ForceField
{
    Push() : ForceField{ForceField::global()} {}
    void apply(Collider& c, float dt) const override { c.body()->applyForce(Vec2{7, -3}, dt, Vec2{1, 2}); }
};
static void addForce(World& w, int f)
{
    switch (f)
    {
        case 1: w.makeForceField<Gravity>(); break;
        case 2: w.makeForceField<LinearField>(Vec2{5, 1}, ForceField::region(Vec2{-2, -2}, Vec2{2, 2})); break;
        case 3:
            w.makeForceField<Push>();
            w.makeForceField<Gravity>(Vec2{3, 4});
            break;
    }
}
static Material rough(int kind)
{
    Material m;
    if (kind)
    {
        m.bounciness = CombinableProperty{0.7f, CombinableProperty::maximum};
        m.friction   = CombinableProperty{0.8f, CombinableProperty::maximum};
    }
    return m;
}
// The structural body advances exactly with its own velocity
static void checkStructural(mc::Ctx& ctx, const char* who, const Body* b, const BodyState& before, P centroid, double dt)
{
    BodyState after(b);
    MC_CHECK(all(after.v == before.v) && after.w == before.w, "velocity", "structural body %s %s, it was %s", who, after.str().c_str(), before.str().c_str());
    if (all(before.v == Vec2{}) && before.w == 0)
        MC_CHECK(after == before, "moved", "structural body %s without velocity is %s, it was %s", who, after.str().c_str(), before.str().c_str());
    P      c    = geo::toP(b->centroid()), want = centroid + geo::toP(before.v) * dt;
    double turn = before.th + before.w * dt;
    MC_CHECK(geo::norm(c - want) < 4e-6 * (1 + geo::norm(want)) && std::abs(after.th - turn) < 2e-6 * (1 + std::abs(turn)), "moved",
             "structural body %s has its centroid at (%g,%g) turned %.9g instead of (%g,%g) turned %.9g", who, c.x, c.y, after.th, want.x, want.y, turn);
    ctx.validated(2);
}
MC_SCENARIO(structural)
{
    World world;
    // the structural body, possibly moving
    int      motion  = ctx.choose(4, "motion");
    int      surface = ctx.choose(2, "surface");
    Material mat     = rough(surface);
    BodySpec s;
    s.dominance = 0;
    s.w = 4, s.h = 1;
    s.theta  = motion == 3 ? 0.5 : 0;
    s.offset = motion == 3 ? P{0.75, -0.25} : P{};
    s.v      = motion == 1 || motion == 3 ? P{0.5, -1} : P{};
    s.spin   = motion >= 2 ? 1.5 : 0;
    bool  first = ctx.flag("created first");
    Body* S     = first ? makeBox(world, s, &mat) : nullptr;
    // another structural one overlaps it, or not
    int   other = ctx.choose(3, "other structural body"); // none, overlapping, linked through the movable body
    Body* S2    = nullptr;
    if (other)
    {
        BodySpec o  = s;
        o.at        = other == 1 ? P{1, 0.25} : P{-2.5, 3};
        o.v         = P{-0.25, 0};
        o.spin      = 0;
        o.w         = 1;
        S2          = makeBox(world, o, &mat);
    }
    // a body overlaps it
    double over = ctx.pick(std::vector<double>{-1, 0.01, 0.5}, "overlap");
    double rho  = ctx.pick(std::vector<double>{1, 1e4}, "density");
    Body*  M    = makeBox(world, {{0.5, 1 - over}, 0, 1, 1, rho, 1, {1, -6}, 2}, &mat);
    if (!S)
        S = makeBox(world, s, &mat);
    // and one is joined to it
    int joint = ctx.choose(nJoints, "joint");
    if (joint)
    {
        bool  second = ctx.flag("joined as the second");
        Body* J      = makeBox(world, {{-2, 1.5}, 0.25, 1, 1, rho, ctx.flag("dominance") ? 3.0 : 1.0, {0, 4}, -3});
        P     pS = geo::toP(S->centroid()), pJ = geo::toP(J->centroid());
        double d = geo::norm(pS - pJ);
        if (second)
            makeJoint(world, joint, Bodies{{J, S}}, pJ, {pJ, pS}, d * 1.1, d * 1.2);
        else
            makeJoint(world, joint, Bodies{{S, J}}, pJ, {pS, pJ}, d * 1.1, d * 1.2);
        if (S2)
            world.makeConstraint<HingeConstraint>(Bodies{{J, S2}}, J->centroid());
    }
    addForce(world, ctx.choose(4, "forces"));
    float dt = ctx.pick(std::vector<float>{1.f / 60, 0.25f}, "dt");
    for (int step = 0; step < 4; ++step)
    {
        BodyState b0(S), b2 = S2 ? BodyState(S2) : BodyState();
        P         c0 = geo::toP(S->centroid()), c2 = S2 ? geo::toP(S2->centroid()) : P{};
        world.step(dt);
        ctx.transition();
        checkStructural(ctx, "S", S, b0, c0, dt);
        if (S2)
            checkStructural(ctx, "S2", S2, b2, c2, dt);
    }
    // told to move or to stop, it obeys
    Vec2  nv = motion == 0 ? Vec2{0.25f, 0.5f} : Vec2{};
    float nw = motion == 0 ? 1.f : 0.f;
    S->setVelocity(nv);
    S->setAngularVelocity(nw);
    for (int step = 0; step < 2; ++step)
    {
        BodyState b0(S);
        P         c0 = geo::toP(S->centroid());
        world.step(dt);
        ctx.transition();
        checkStructural(ctx, "S", S, b0, c0, dt);
    }
    ctx.outcome(motion ? "moving" : "still");
    ctx.state(mc::Hasher().addf(M->position()[0]).addf(M->position()[1]).addf(S->position()[0]).addf(M->angularVelocity()).h);
}
// only structural bodies, overlapping in every way
MC_SCENARIO(overlapping)
{
    World              world;
    std::vector<Body*> b;
    for (int i = 0; i < 3; ++i)
    {
        BodySpec s;
        s.dominance = 0;
        s.at        = ctx.pick(std::vector<P>{{0, 0}, {0.5, 0.25}, {1, 0}, {9, 9}}, "at");
        int m       = ctx.choose(3, "motion");
        s.v         = m == 1 ? P{1, 0} : P{};
        s.spin      = m == 2 ? -2 : 0;
        b.push_back(makeBox(world, s));
    }
    addForce(world, ctx.choose(4, "forces"));
    for (int step = 0; step < 3; ++step)
    {
        std::vector<BodyState> s;
        std::vector<P>         c;
        for (Body* x : b)
            s.emplace_back(x), c.push_back(geo::toP(x->centroid()));
        world.step(0.25f);
        ctx.transition();
        for (int i = 0; i < 3; ++i)
            checkStructural(ctx, "alone", b[i], s[i], c[i], 0.25);
        int n = 0;
        for (auto& x : world.contacts())
            (void)x, ++n;
        MC_CHECK(n == 0, "contact", "%d contacts between structural bodies", n);
    }
    ctx.outcome("overlapping");
    ctx.state(mc::Hasher().addf(b[0]->position()[0]).addf(b[1]->position()[0]).addf(b[2]->orientation()).h);
}
// A body overridden to dominance zero in a constraint moves as if the constraint did not exist
MC_SCENARIO(overridden)
{
    int  joint  = 1 + ctx.choose(nJoints - 1, "joint");
    bool second = ctx.flag("overridden as the second");
    int  force  = ctx.choose(4, "forces");
    int  motion = ctx.choose(4, "motion");
    double rho  = ctx.pick(std::vector<double>{1, 1e-3}, "density");
    // a third body touches the dominating one
    bool touched = ctx.flag("touched");
    World with, without;
    Body* A[2];
    for (int k = 0; k < 2; ++k)
    {
        World&   w = k ? without : with;
        BodySpec a;
        a.density = rho;
        a.v       = motion & 1 ? P{1, 0.5} : P{};
        a.spin    = motion & 2 ? -1 : 0;
        A[k]      = makeBox(w, a);
        Body* B   = makeBox(w, {{3, 0.5}, 0.25, 1, 2, 1, 1, {-1, 4}, 2});
        if (touched)
            makeBox(w, {{-0.9, 0}, 0, 1, 1, 1, 1, {0.5, 0}, 0});
        P pa = geo::toP(A[k]->centroid()), pb = geo::toP(B->centroid());
        double d = geo::norm(pa - pb);
        if (k == 0)
        {
            if (second)
                makeJoint(w, joint, Bodies{{B, A[k]}, Bodies::Dominance{1, 0}}, pb, {pb, pa}, d * 1.1, d * 1.2);
            else
                makeJoint(w, joint, Bodies{{A[k], B}, Bodies::Dominance{0, 1}}, pb, {pa, pb}, d * 1.1, d * 1.2);
        }
        addForce(w, force);
    }
    for (int step = 0; step < 4; ++step)
    {
        with.step(1.f / 30);
        without.step(1.f / 30);
        ctx.transition(2);
        BodyState x(A[0]), y(A[1]);
        MC_CHECK(norm(x.p - y.p) < 1e-5f && norm(x.v - y.v) < 1e-5f && std::abs(x.w - y.w) < 1e-5 && std::abs(x.th - y.th) < 1e-5, "overridden",
                 "with the %s joint the body %s, without %s", jointName(joint), x.str().c_str(), y.str().c_str());
        ctx.validated();
    }
    ctx.outcome(jointName(joint));
    ctx.state(mc::Hasher().addf(A[0]->position()[0]).addf(A[0]->position()[1]).addf(A[0]->orientation()).h);
}
