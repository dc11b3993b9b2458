// C17: hinges, rotation joints and welds remove exactly the velocity along the constrained degrees of freedom,
// resist no other, and restore the position.
#include "joints.hpp"
#include <numbers>

struct Row6
{
    std::array<double, 6> v{};
    double&               operator[](int i) { return v[i]; }
    double                operator[](int i) const { return v[i]; }
};
static double dot6(const Row6& a, const Row6& b)
{
    double s = 0;
    for (int i = 0; i < 6; ++i)
        s += a[i] * b[i];
    return s;
}
struct Link
{
    int    kind, i, j; // joint between bodies i and j
    P      li, lj;     // the shared point in the local space of each
    double angle;      // of the second relative to the first
};
static P    worldPoint(const Body* b, P local) { return geo::toP(b->toWorldSpace() * geo::toV(local)); }
static Link makeLink(World& w, const std::vector<Body*>& b, int kind, int i, int j, P anchor)
{
    if (kind == weldJoint)
        anchor = (geo::toP(b[i]->centroid()) + geo::toP(b[j]->centroid())) * 0.5;
    makeJoint(w, kind, Bodies{{b[i], b[j]}}, anchor, {}, 0, 0);
    return {kind, i, j, geo::toP(b[i]->toLocalSpace() * geo::toV(anchor)), geo::toP(b[j]->toLocalSpace() * geo::toV(anchor)), (double)b[j]->orientation() - b[i]->orientation()};
}
static P      gap(const Link& l, const std::vector<Body*>& b) { return worldPoint(b[l.j], l.lj) - worldPoint(b[l.i], l.li); }
static double twist(const Link& l, const std::vector<Body*>& b) { return ((double)b[l.j]->orientation() - b[l.i]->orientation()) - l.angle; }
// derivatives of the constrained quantities with respect to the positions of the two bodies
static std::vector<Row6> rows(const Link& l, const std::vector<Body*>& b)
{
    std::vector<Row6> r;
    P                 ri = worldPoint(b[l.i], l.li) - geo::toP(b[l.i]->centroid()), rj = worldPoint(b[l.j], l.lj) - geo::toP(b[l.j]->centroid());
    if (l.kind != rotationJoint)
    {
        r.push_back(Row6{{-1, 0, ri.y, 1, 0, -rj.y}});
        r.push_back(Row6{{0, -1, -ri.x, 0, 1, rj.x}});
    }
    if (l.kind != hingeJoint)
        r.push_back(Row6{{0, 0, -1, 0, 0, 1}});
    return r;
}
static Row6 velocityOf(const BodyState& i, const BodyState& j) { return Row6{{i.v[0], i.v[1], i.w, j.v[0], j.v[1], j.w}}; }

// ratio of the largest to the smallest eigenvalue of J W transpose(J) (Jacobi rotations)
static double conditioning(const std::vector<Row6>& J, const double* inv)
{
    size_t n = J.size();
    double A[3][3]{};
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            for (int k = 0; k < 6; ++k)
                A[i][j] += J[i][k] * J[j][k] * inv[k];
    for (int sweep = 0; sweep < 12; ++sweep)
        for (size_t p = 0; p < n; ++p)
            for (size_t q = p + 1; q < n; ++q)
            {
                if (A[p][q] == 0)
                    continue;
                double t = 0.5 * std::atan2(2 * A[p][q], A[p][p] - A[q][q]), c = std::cos(t), s = std::sin(t);
                for (size_t k = 0; k < n; ++k)
                {
                    double x = A[k][p], y = A[k][q];
                    A[k][p] = c * x + s * y, A[k][q] = c * y - s * x;
                }
                for (size_t k = 0; k < n; ++k)
                {
                    double x = A[p][k], y = A[q][k];
                    A[p][k] = c * x + s * y, A[q][k] = c * y - s * x;
                }
            }
    double lo = A[0][0], hi = lo;
    for (size_t i = 1; i < n; ++i)
        lo = std::min(lo, A[i][i]), hi = std::max(hi, A[i][i]);
    return lo > 0 ? hi / lo : 1e30;
}
// every step of a pair of bodies held by one joint
static void checkStep(mc::Ctx& ctx, World& w, const Link& l, const std::vector<Body*>& b, const std::array<double, 2>& dominance, float dt, int step, double& given)
{
    BodyState bi(b[0]), bj(b[1]);
    auto      J = rows(l, b);
    P         ri = worldPoint(b[0], l.li) - geo::toP(b[0]->centroid()), rj = worldPoint(b[1], l.lj) - geo::toP(b[1]->centroid());
    w.step(dt);
    ctx.transition();
    BodyState ai(b[0]), aj(b[1]);
    MC_CHECK(ai.finite() && aj.finite(), "finite", "step %d: not a number", step);
    Row6   before = velocityOf(bi, bj), after = velocityOf(ai, aj);
    double reach = l.kind == rotationJoint ? 1 : 1 + geo::norm(ri) + geo::norm(rj);
    double scale = geo::norm(geo::toP(bi.v)) + geo::norm(geo::toP(bj.v)) + geo::norm(geo::toP(ai.v)) + geo::norm(geo::toP(aj.v)) +
                   (std::abs(bi.w) + std::abs(bj.w) + std::abs(ai.w) + std::abs(aj.w)) * reach;
    // impulses are kept in single precision: a rounding of one changes the velocity by its effective mass
    double inv[6];
    for (int k = 0; k < 6; ++k)
        inv[k] = dominance[k / 3] / (k % 3 == 2 ? b[k / 3]->inertia() : b[k / 3]->mass());
    double K = 0, impulse = 0;
    for (auto& row : J)
        for (int k = 0; k < 6; ++k)
            K += row[k] * row[k] * inv[k];
    for (int k = 0; k < 6; ++k)
        if (inv[k] > 0)
            impulse = std::max(impulse, std::abs(after[k] - before[k]) / inv[k] / (k % 3 == 2 ? reach : 1));
    // what is left by each iteration, of what it is given
    double rate = 0, left = std::min(1.0, 3e-7 * conditioning(J, inv));
    for (auto& row : J)
        rate += std::abs(dot6(row, before));
    rate = given = std::max(given, rate); // warm starting gives back the impulse of the step before
    ctx.log("step %d: left by an iteration %g, K %g", step, left, K);
    for (Uint32 it = 0; it < w.settings().nVelocityIterations; ++it)
        rate *= left;
    for (auto& row : J)
        MC_CHECK(std::abs(dot6(row, after)) < rate + 1e-5 * scale + 1e-6 + 5e-7 * K * impulse, "velocity", "step %d: a relative velocity of %g remains along a constrained direction (it was %g)", step, dot6(row, after), dot6(row, before));
    // the change is an impulse along the constrained directions
    double q[2][3], tol[2], tolL[2];
    for (int k = 0; k < 2; ++k)
    {
        double m = b[k]->mass(), I = b[k]->inertia();
        auto & x = k ? bj : bi, &y = k ? aj : ai;
        q[k][0] = m * ((double)y.v[0] - x.v[0]), q[k][1] = m * ((double)y.v[1] - x.v[1]), q[k][2] = I * ((double)y.w - x.w);
        tolL[k] = 1e-5 * m * (geo::norm(geo::toP(x.v)) + geo::norm(geo::toP(y.v))) + 1e-7 * m;
        tol[k]  = 1e-5 * I * (std::abs(x.w) + std::abs(y.w)) + 1e-7 * I;
        MC_CHECK(dominance[k] != 0 || (all(x.v == y.v) && x.w == y.w), "structural", "step %d: the joint changes the velocity of its structural side", step);
    }
    int  use = dominance[1] != 0 ? 1 : 0; // the side the impulse is read from
    P    lambda{use ? q[1][0] : -q[0][0], use ? q[1][1] : -q[0][1]};
    bool both = dominance[0] != 0 && dominance[1] != 0;
    double slackL = tolL[use] + (both ? tolL[0] + tolL[1] : 0);
    if (both)
        MC_CHECK(std::abs(q[0][0] + q[1][0]) + std::abs(q[0][1] + q[1][1]) < slackL, "reaction", "step %d: impulses (%g,%g) and (%g,%g) are not opposite", step, q[0][0], q[0][1], q[1][0], q[1][1]);
    if (l.kind == rotationJoint)
    {
        MC_CHECK(all(bi.v == ai.v) && all(bj.v == aj.v), "free", "step %d: a rotation joint changes a linear velocity", step);
        if (both)
            MC_CHECK(std::abs(q[0][2] + q[1][2]) < tol[0] + tol[1], "reaction", "step %d: angular impulses %g and %g are not opposite", step, q[0][2], q[1][2]);
    }
    else
    {
        double t0 = q[0][2] + geo::cross(ri, lambda), t1 = q[1][2] - geo::cross(rj, lambda); // torques besides the impulse at the point
        double place = 1e-6 * (geo::norm(ri) + geo::norm(rj)) * geo::norm(lambda); // rounding of the place of the anchor
        double s0 = place + tol[0] + geo::norm(ri) * (slackL + 1e-5 * geo::norm(lambda)), s1 = place + tol[1] + geo::norm(rj) * (slackL + 1e-5 * geo::norm(lambda));
        if (l.kind == hingeJoint)
        {
            MC_CHECK(dominance[0] == 0 || std::abs(t0) < s0, "free", "step %d: a hinge exerts a torque of %g on its first body", step, t0);
            MC_CHECK(dominance[1] == 0 || std::abs(t1) < s1, "free", "step %d: a hinge exerts a torque of %g on its second body", step, t1);
        }
        else if (both)
            MC_CHECK(std::abs(t0 + t1) < s0 + s1, "reaction", "step %d: the torques of a weld differ: %g and %g", step, t0, t1);
    }
    ctx.validated(2);
    ctx.state(mc::Hasher().addf(ai.v[0]).addf(ai.v[1]).addf(ai.w).addf(aj.v[0]).addf(aj.w).addf(aj.p[0]).h);
}
struct Masses
{
    double r0, r1, d0, d1;
};
MC_SCENARIO(velocity)
{
    World              w;
    int                kind = hingeJoint + ctx.choose(3, "kind");
    static const std::vector<Masses> ms{{1, 1, 1, 1}, {1, 1e4, 1, 1}, {1e4, 1, 1, 1}, {1e-3, 1e3, 1, 1}, {1, 1, 0, 1}, {1, 1, 1, 0}, {1e-2, 1e4, 0, 1}, {1e3, 2, 1, 0}};
    auto               m = ctx.pick(ms, "masses");
    struct Shape
    {
        P      at0;
        double th0, w0, h0;
        P      at1;
        double th1, w1, h1;
        P      offset; // of the collider of the second
    };
    static const std::vector<Shape> shapes{
        {{0, 0}, 0, 1, 1, {2, 0.5}, 0, 1, 1, {}},
        {{1, -1}, 0.7, 0.5, 2, {2, 0.5}, 3, 1, 0.25, {0.5, 0.25}},
        {{0, 0}, -1.2, 0.125, 8, {0, 0}, 0.4, 4, 0.125, {}},
        {{-3, 2}, 9, 1, 1, {60, -45}, -20, 3, 1, {-1, 2}},
        {{100, 100}, 0.1, 1, 1, {101, 100}, 0.1, 1, 1, {}},
        {{0, 0}, 0, 0.01, 0.01, {0.03, 0}, 0.5, 0.01, 0.02, {}},
        {{0, 0}, 0, 30, 20, {60, 0}, 0, 50, 10, {}},
        {{0, 0}, 0, 30, 20, {16, 0}, 0, 1, 0.5, {}},
    };
    auto     s = ctx.pick(shapes, "shape");
    BodySpec s0, s1;
    s0.at = s.at0, s0.theta = s.th0, s0.w = s.w0, s0.h = s.h0, s0.density = m.r0, s0.dominance = m.d0;
    s1.at = s.at1, s1.theta = s.th1, s1.w = s.w1, s1.h = s.h1, s1.density = m.r1, s1.dominance = m.d1, s1.offset = s.offset;
    struct Velocities
    {
        P      v0;
        double w0;
        P      v1;
        double w1;
    };
    static const std::vector<Velocities> vs{{{1, 0}, 0, {0, 0}, 0}, {{0, 0}, 2, {0, 0}, 0}, {{0, 0}, 0, {0.5, -1}, -3}, {{2, 1}, -1, {-1, 4}, 5}, {{0, 0}, 0.25, {0, 0}, 0.25}, {{40, 0}, 0, {0, 0}, 1}};
    auto                                 v = ctx.pick(vs, "velocities");
    s0.v = v.v0, s0.spin = v.w0, s1.v = v.v1, s1.spin = v.w1;
    std::vector<Body*> b{makeBox(w, s0), makeBox(w, s1)};
    P                  c0 = geo::toP(b[0]->centroid()), c1 = geo::toP(b[1]->centroid()), anchor;
    if (kind == hingeJoint)
        switch (ctx.choose(5, "anchor"))
        {
            case 0: anchor = (c0 + c1) * 0.5; break;
            case 1: anchor = c0; break;
            case 2: anchor = c1; break;
            case 3: anchor = worldPoint(b[1], {s.w1 / 2, s.h1 / 2}); break;
            case 4: anchor = c0 + P{3 * s.w0, -2 * s.h0}; break;
        }
    Link            l = makeLink(w, b, kind, 0, 1, anchor);
    World::Settings set;
    switch (ctx.choose(3, "settings"))
    {
        case 0: break;
        case 1: set.nVelocityIterations = 1, set.enableWarmstarting = false; break;
        case 2: set.nVelocityIterations = 3, set.nPositionIterations = 0; break;
    }
    w.updateSettings(set);
    double given = 0;
    for (int step = 0; step < ctx.tier(3, 24); ++step)
        checkStep(ctx, w, l, b, {m.d0, m.d1}, step == 1 ? 1.f / 16 : 1.f / 64, step, given);
    ctx.outcome(kind == hingeJoint ? "hinge" : kind == rotationJoint ? "rotation" : "weld");
}
MC_SCENARIO(recovery)
{
    World              w;
    int                kind = hingeJoint + ctx.choose(3, "kind");
    static const std::vector<Masses> ms{{1, 1, 1, 1}, {1, 1e3, 1, 1}, {1e3, 1, 1, 1}, {1, 1, 0, 1}, {1, 5, 1, 0}, {1e-2, 1e2, 1, 1}};
    auto                             m = ctx.pick(ms, "masses");
    struct Shape
    {
        P      at1;
        double th0, th1, w, h;
        P      anchor, offset;
    };
    static const std::vector<Shape> shapes{
        {{2, 0}, 0, 0, 1, 1, {1, 0}, {}},
        {{2, 1}, 0.6, -1, 1, 2, {1, 0.5}, {0.25, 0.5}},
        {{0, 1.5}, 2, 2, 3, 0.5, {0, 0}, {}},
        {{0.25, 0.125}, 0, 1, 1, 1, {0.125, 0}, {}},
        {{-2, 0}, 7, -9, 1, 0.5, {-2, 0}, {}},
    };
    auto     s = ctx.pick(shapes, "shape");
    BodySpec s0, s1;
    s0.theta = s.th0, s0.w = 1, s0.h = 1, s0.density = m.r0, s0.dominance = m.d0, s0.at = {0.5, -0.25};
    s1.at = s.at1 + s0.at, s1.theta = s.th1, s1.w = s.w, s1.h = s.h, s1.density = m.r1, s1.dominance = m.d1, s1.offset = s.offset;
    std::vector<Body*> b{makeBox(w, s0), makeBox(w, s1)};
    Link               l = makeLink(w, b, kind, 0, 1, s.anchor + s0.at);
    // move the bodies apart without solving anything
    World::Settings off;
    off.nVelocityIterations = off.nPositionIterations = 0;
    w.updateSettings(off);
    static const std::vector<double> errors{0, 0.01, -0.125, 0.25};
    double dx = ctx.pick(errors, "dx"), dy = ctx.pick(std::vector<double>{0, 0.0625, -0.25}, "dy");
    double turn = ctx.pick(kind == hingeJoint ? std::vector<double>{0, 0.4, -3} : kind == weldJoint ? std::vector<double>{0, 0.01, -0.1, 0.3} : std::vector<double>{0, 0.01, -0.5, 3, -7, 50}, "turn");
    int    who  = ctx.choose(2, "moved");
    Body*  moved = b[who];
    P      keep  = worldPoint(moved, who ? l.lj : l.li);
    moved->setAngularVelocity((float)turn);
    w.step(1.f);
    // what the turn alone did to the shared point is taken back for a hinge
    P back = kind == hingeJoint ? keep - worldPoint(moved, who ? l.lj : l.li) : P{};
    moved->setAngularVelocity(0);
    moved->setVelocity(geo::toV(back + P{dx, dy}));
    w.step(1.f);
    moved->setVelocity(Vec2{});
    World::Settings set;
    if (ctx.flag("one iteration"))
        set.nPositionIterations = 1;
    if (ctx.flag("cold"))
        set.enableWarmstarting = false;
    w.updateSettings(set);
    ctx.transition(3);
    double arm   = std::max(geo::norm(worldPoint(b[0], l.li) - geo::toP(b[0]->centroid())), geo::norm(worldPoint(b[1], l.lj) - geo::toP(b[1]->centroid())));
    auto   error = [&] {
        double e = l.kind == rotationJoint ? 0 : geo::norm(gap(l, b));
        return l.kind == hingeJoint ? e : std::hypot(e, std::abs(twist(l, b)) * (1 + arm));
    };
    double    e = error(), first = e;
    BodyState i0(b[0]), j0(b[1]);
    double    floor = 4e-6 * (1 + arm) + 4e-7 * (std::abs(i0.th) + std::abs(j0.th)) * (1 + arm);
    for (int step = 0; step < 6; ++step)
    {
        BodyState bi(b[0]), bj(b[1]);
        Vec2      ci = b[0]->centroid(), cj = b[1]->centroid();
        w.step(1.f / 64);
        ctx.transition();
        BodyState ai(b[0]), aj(b[1]);
        double    now = error();
        MC_CHECK(ai.finite() && aj.finite(), "finite", "not a number");
        MC_CHECK(now <= 0.5 * e + floor, "shrink", "step %d: the error goes from %g to %g (initially %g)", step, e, now, first);
        MC_CHECK(norm(ai.v) + norm(aj.v) + std::abs(ai.w) + std::abs(aj.w) < 1e-6, "velocity", "restoring the position gives a velocity: %s, %s", ai.str().c_str(), aj.str().c_str());
        MC_CHECK(m.d0 != 0 || ai == bi, "structural", "the structural side is moved");
        MC_CHECK(m.d1 != 0 || aj == bj, "structural", "the structural side is moved");
        if (kind == rotationJoint)
            MC_CHECK(norm(b[0]->centroid() - ci) < 1e-6f && norm(b[1]->centroid() - cj) < 1e-6f, "free", "a rotation joint moves the centroids of its bodies");
        e = now;
        ctx.state(mc::Hasher().addf(e).addf(ai.p[0]).addf(aj.p[0]).addf(aj.th).h);
    }
    MC_CHECK(e <= 2e-3 * first + 2 * floor, "restored", "an error of %g becomes %g", first, e);
    ctx.validated(7);
    ctx.outcome(first < 1e-6 ? "no error" : "error");
}
MC_SCENARIO(motion)
{
    // held together while moving fast: the error stays bounded
    World    w;
    int      kind = hingeJoint + ctx.choose(3, "kind");
    static const std::vector<Masses> ms{{1, 1, 1, 1}, {1, 1e3, 1, 1}, {1e3, 1, 1, 1}, {1, 1, 0, 1}, {1, 5, 1, 0}};
    auto     m = ctx.pick(ms, "masses");
    BodySpec s0, s1;
    s0.density = m.r0, s0.dominance = m.d0;
    s1.at = ctx.flag("diagonal") ? P{1, 2} : P{2, 0}, s1.h = 2, s1.theta = 0.5, s1.density = m.r1, s1.dominance = m.d1;
    static const std::vector<P> vs{{0, 1}, {3, 0}, {-5, 7}};
    P      v    = ctx.pick(vs, "velocity");
    double spin = ctx.pick(std::vector<double>{0, 3, -8}, "spin");
    int    who  = m.d0 == 0 ? 1 : m.d1 == 0 ? 0 : ctx.choose(2, "moved");
    (who ? s1 : s0).v    = v;
    (who ? s1 : s0).spin = spin;
    std::vector<Body*> b{makeBox(w, s0), makeBox(w, s1)};
    Link               l  = makeLink(w, b, kind, 0, 1, s1.at * 0.5);
    float              dt = ctx.flag("long step") ? 1.f / 32 : 1.f / 64;
    bool gravity = ctx.flag("gravity");
    if (gravity)
        w.makeForceField<Gravity>(Vec2{0, -10});
    double worst = 0;
    for (int step = 0; step < ctx.tier(60, 600); ++step)
    {
        w.step(dt);
        ctx.transition();
        double e = kind == rotationJoint ? 0 : geo::norm(gap(l, b));
        if (kind != hingeJoint)
            e = std::max(e, std::abs(twist(l, b)));
        worst = std::max(worst, e);
        double speed = std::max(std::abs(b[0]->angularVelocity()), std::abs(b[1]->angularVelocity()));
        double bend  = speed * dt; // angle turned in a step
        MC_CHECK(BodyState(b[0]).finite() && BodyState(b[1]).finite(), "finite", "not a number");
        MC_CHECK(e < 0.3 * bend * bend * bend + 1e-4 + 4e-7 * norm(b[0]->position()), "bounded", "step %d: error of %g (turning by %g per step)", step, e, bend);
    }
    ctx.log("worst %g", worst);
    ctx.validated(1);
    ctx.outcome(worst > 1e-5 ? "corrected" : "exact");
    ctx.state(mc::Hasher().addf(b[0]->position()[0]).addf(b[1]->position()[1]).addf(worst).h);
}
// bodies that turn together, whatever the number of turns they have made: nothing to resist nor to correct
MC_SCENARIO(turns)
{
    World w;
    int   kind = hingeJoint + ctx.choose(3, "kind");
    static const std::vector<Masses> ms{{1, 1, 1, 1}, {1, 100, 1, 1}, {1, 1, 0, 1}, {1, 5, 1, 0}};
    auto     m = ctx.pick(ms, "masses");
    BodySpec s0, s1;
    double   base = ctx.pick(std::vector<double>{0, 3, 6, -6, 20, -100, 998, -4095}, "orientation"), apart = ctx.pick(std::vector<double>{0, 0.5, -2, 7, 200}, "apart");
    double   spin = ctx.pick(std::vector<double>{4, -4, 30}, "spin");
    s0.density = m.r0, s0.dominance = m.d0, s0.theta = base, s0.spin = spin;
    s1.density = m.r1, s1.dominance = m.d1, s1.theta = base + apart, s1.spin = spin, s1.at = {2, 0}, s1.h = 2;
    if (kind != rotationJoint) // about a point that does not accelerate
    {
        double c = m.d0 == 0 ? 0 : m.d1 == 0 ? 2 : 2 * (2 * m.r1) / (m.r0 + 2 * m.r1);
        s0.v = {0, -spin * c}, s1.v = {0, spin * (2 - c)};
    }
    std::vector<Body*> b{makeBox(w, s0), makeBox(w, s1)};
    Link               l  = makeLink(w, b, kind, 0, 1, {1, 0});
    float              dt = std::abs(spin) > 10 ? 1.f / 256 : 1.f / 64;
    double             o[2]{b[0]->orientation(), b[1]->orientation()};
    for (int step = 0; step < ctx.tier(40, 400); ++step)
    {
        w.step(dt);
        ctx.transition();
        double rounding = 3e-7 * (std::abs(base) + std::abs(apart) + std::abs(spin) * dt * (step + 1));
        double bend     = std::abs(spin) * dt, slack = 2e-4 + (kind == rotationJoint ? 0 : bend * bend) + 20 * rounding;
        for (int k = 0; k < 2; ++k)
        {
            double turned = std::remainder(b[k]->orientation() - o[k], 2 * std::numbers::pi), want = b[k]->angularVelocity() * dt;
            o[k]          = b[k]->orientation();
            MC_CHECK(std::abs(std::remainder(turned - want, 2 * std::numbers::pi)) <= slack, "turn", "step %d: body %d turns by %g instead of %g in a step", step, k, turned, want);
            MC_CHECK(std::abs(b[k]->angularVelocity() - spin) <= std::abs(spin) * ((kind == rotationJoint ? 1e-4 : bend * bend * (step + 1)) + 5 * rounding), "turn", "step %d: body %d spins at %g instead of %g", step, k, b[k]->angularVelocity(), spin);
        }
        if (kind != rotationJoint)
            MC_CHECK(geo::norm(gap(l, b)) <= 2 * slack, "gap", "step %d: the bodies are %g apart", step, geo::norm(gap(l, b)));
        if (kind != hingeJoint)
            MC_CHECK(std::abs(std::remainder(twist(l, b), 2 * std::numbers::pi)) <= slack, "twist", "step %d: twisted by %g", step, twist(l, b));
    }
    ctx.validated(1);
    ctx.outcome(std::abs(base) > 50 ? "many turns" : "few turns");
}
// M-orthogonal projection on the velocities allowed by all links, by elimination in double precision
static std::vector<double> projected(const std::vector<std::vector<double>>& J, const std::vector<double>& invM, std::vector<double> v)
{
    std::vector<std::vector<double>> basis; // orthogonal for the inverse mass
    auto inner = [&](const std::vector<double>& a, const std::vector<double>& c) {
        double s = 0;
        for (size_t k = 0; k < a.size(); ++k)
            s += a[k] * invM[k] * c[k];
        return s;
    };
    for (auto row : J)
    {
        double was = inner(row, row);
        for (int again = 0; again < 2; ++again)
            for (auto& q : basis)
            {
                double f = inner(row, q) / inner(q, q);
                for (size_t k = 0; k < row.size(); ++k)
                    row[k] -= f * q[k];
            }
        if (inner(row, row) > 1e-9 * was) // else redundant
            basis.push_back(row);
    }
    for (int again = 0; again < 2; ++again)
        for (auto& q : basis)
        {
            double rate = 0;
            for (size_t k = 0; k < q.size(); ++k)
                rate += q[k] * v[k];
            rate /= inner(q, q);
            for (size_t k = 0; k < q.size(); ++k)
                v[k] -= invM[k] * q[k] * rate;
        }
    return v;
}
MC_SCENARIO(chains)
{
    // several joints: iterations approach the only velocity that satisfies them all, and never add energy
    int graph = ctx.choose(6, "graph");
    static const std::vector<std::vector<std::pair<int, int>>> graphs{
        {{0, 1}, {1, 2}}, {{0, 1}, {1, 2}, {2, 3}}, {{0, 1}, {1, 2}, {2, 0}}, {{0, 1}, {0, 1}}, {{1, 0}, {2, 0}, {0, 3}}, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}};
    auto& edges = graphs[graph];
    int   n     = 0;
    for (auto [i, j] : edges)
        n = std::max({n, i + 1, j + 1});
    std::vector<int> kinds;
    for (size_t k = 0; k < edges.size(); ++k)
        kinds.push_back(k < 3 ? hingeJoint + ctx.choose(3, "kind") : kinds[0]);
    int                                     fixed = ctx.choose(3, "structural") - 1; // none, 0 or 1
    static const std::vector<std::array<double, 4>> densities{{1, 1, 1, 1}, {1, 4, 0.5, 2}};
    auto                                    rho   = ctx.pick(densities, "densities");
    int                                     which = ctx.choose(3, "velocities");
    auto                                    build = [&](World& w, std::vector<Body*>& b, std::vector<Link>& links) {
        static const P at[4] = {{0, 0}, {2, 0}, {2, 2}, {0, 2.5}};
        for (int k = 0; k < n; ++k)
        {
            BodySpec s;
            s.at = at[k], s.theta = 0.3 * k, s.density = rho[k], s.h = k % 2 ? 1.5 : 1;
            s.dominance = k == fixed ? 0 : 1;
            if (k != fixed)
            {
                s.v    = which == 0 ? P{k == n - 1 ? 3.0 : 0.0, 0} : which == 1 ? P{1.0 - k, 0.5 * k} : P{0, 0};
                s.spin = which == 2 ? (k % 2 ? 3 : -1) : which == 1 ? 1 : 0;
            }
            b.push_back(makeBox(w, s));
        }
        size_t e = 0;
        for (auto [i, j] : edges)
        {
            P mid = (at[i] + at[j]) * 0.5;
            if (graph == 3)
                mid = mid + P{0, e ? 0.75 : -0.75};
            links.push_back(makeLink(w, b, kinds[e], i, j, mid));
            ++e;
        }
        for (int i = 0; i < n; ++i)
            for (int j = i + 1; j < n; ++j)
                w.makeConstraint<InertConstraint>(Bodies{{b[i], b[j]}}, true); // no contact
    };
    std::vector<int>    iterations{0, 1, 4, 32, 1500};
    std::vector<double> target, invM;
    double              last = 0, initial = 0, total = 0;
    for (int it : iterations)
    {
        World              w;
        std::vector<Body*> b;
        std::vector<Link>  links;
        build(w, b, links);
        if (it == 0)
        {
            std::vector<double>              v;
            std::vector<std::vector<double>> J;
            for (int k = 0; k < n; ++k)
            {
                v.insert(v.end(), {b[k]->velocity()[0], b[k]->velocity()[1], b[k]->angularVelocity()});
                double im = k == fixed ? 0 : 1.0 / b[k]->mass(), iI = k == fixed ? 0 : 1.0 / b[k]->inertia();
                invM.insert(invM.end(), {im, im, iI});
            }
            for (auto& l : links)
                for (auto& r : rows(l, b))
                {
                    std::vector<double> row(3 * n);
                    for (int k = 0; k < 3; ++k)
                        row[3 * l.i + k] += r[k], row[3 * l.j + k] += r[3 + k];
                    J.push_back(row);
                }
            target = projected(J, invM, v);
        }
        World::Settings set;
        set.nVelocityIterations = it;
        set.nPositionIterations = 0;
        set.enableWarmstarting  = false;
        w.updateSettings(set);
        w.step(1.f / 64);
        ctx.transition();
        double d = 0, ke = 0;
        for (int k = 0; k < n; ++k)
        {
            double v[3] = {b[k]->velocity()[0], b[k]->velocity()[1], b[k]->angularVelocity()};
            for (int a = 0; a < 3; ++a)
                if (invM[3 * k + a] > 0)
                {
                    double e = v[a] - target[3 * k + a];
                    d += e * e / invM[3 * k + a];
                    ke += v[a] * v[a] / invM[3 * k + a];
                }
        }
        MC_CHECK(std::isfinite(d), "finite", "not a number");
        if (it == 0)
            initial = d, last = d, total = ke;
        double eps = 1e-9 * total + 1e-10;
        MC_CHECK(d <= last * 1.00001 + eps, "monotone", "%d iterations are further from the solution (%g) than fewer (%g)", it, d, last);
        if (it == 1500)
            MC_CHECK(d <= 1e-3 * initial + eps, "converges", "after %d iterations the distance to the solution is %g (initially %g)", it, d, initial);
        last = d;
        ctx.state(mc::Hasher().addf(d).add(it).h);
    }
    ctx.validated(5);
    ctx.outcome(initial > 1e-6 ? "moving" : "compatible");
}
