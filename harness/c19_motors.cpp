// C19: motors act along their direction only, within their limits, and never past the target.
#include "joints.hpp"

static const std::vector<Vec2>& directions()
{
    static const std::vector<Vec2> d{Vec2{1, 0}, Vec2{0, -1}, Vec2{3, 4}, Vec2{-0.5f, 0.5f}, Vec2{0, 0}, Vec2{-100, -1}, Vec2{1e-3f, 2e-3f}};
    return d;
}
static const std::vector<float>& throttles()
{
    static const std::vector<float> t{1.f, 0.5f, 0.f, -3.f, 7.f};
    return t;
}
struct Limits
{
    double velocity, force;
};
MC_SCENARIO(translation)
{
    World    w;
    BodySpec s;
    s.density   = ctx.pick(std::vector<double>{1, 50, 0.01}, "density");
    s.dominance = ctx.flag("dominance") ? 4 : 1;
    s.offset    = ctx.flag("offset") ? P{2, 1} : P{};
    s.theta     = 0.5;
    s.v         = ctx.pick(std::vector<P>{{0, 0}, {2, 1}, {-3, 0.5}, {0, 8}}, "velocity");
    s.spin      = 1;
    Body*  b    = makeBox(w, s);
    double m    = b->mass();
    // how the limits are given
    int    how  = ctx.choose(4, "limits");
    double vmax = ctx.pick(std::vector<double>{4, 0, -5}, "velocity limit"), f = ctx.pick(std::vector<double>{0.5, 200}, "force limit");
    if (how == 3)
        f = -f;
    auto specs = how == 0 || how == 3 ? TranslationMotor::Specs::fromForce((float)vmax, (float)f)
                 : how == 1           ? TranslationMotor::Specs::fromAccel((float)vmax, (float)f)
                                      : TranslationMotor::Specs::fromAccel((float)vmax, (float)f, 3.f);
    double F     = std::abs(how == 1 ? f * m : how == 2 ? f * 3 : f);
    vmax         = std::abs(vmax);
    auto*  motor = w.makeConstraint<TranslationMotor>(Bodies::singleBody(b), specs);
    double throttle = 1;
    P      dir;
    int    depth = ctx.tier(2, 3);
    for (int i = 0; i < depth; ++i)
    {
        int change = i == 0 ? 0 : ctx.choose(3, "change");
        if (change == 0)
        {
            Vec2 d = ctx.pick(directions(), "direction");
            motor->direction(d);
            dir = geo::toP(d);
            if (geo::norm(dir) > 0)
                dir = dir * (1 / geo::norm(dir));
        }
        if (change <= 1)
        {
            float t = ctx.pick(throttles(), "throttle");
            motor->throttle(t);
            throttle = std::clamp<double>(t, 0, 1);
        }
        MC_CHECK(std::abs(motor->throttle() - throttle) < 1e-7, "throttle", "throttle is %g instead of %g", motor->throttle(), throttle);
        MC_CHECK(geo::norm(geo::toP(motor->direction()) - dir) < 1e-6, "direction", "direction is (%g,%g) instead of (%g,%g)", motor->direction()[0], motor->direction()[1], dir.x, dir.y);
        float  dt  = (i + how) % 2 ? 0.25f : 1.f / 64;
        P      v   = geo::toP(b->velocity());
        double sp  = b->angularVelocity();
        double J   = std::clamp(m * (vmax - geo::dot(v, dir)), 0.0, throttle * F * dt);
        P      want = v + dir * (J / m), p0 = geo::toP(b->centroid());
        w.step(dt);
        ctx.transition();
        P      got = geo::toP(b->velocity());
        double tol = 1e-5 * (1 + geo::norm(v) + vmax);
        ctx.log("v (%g,%g) dir (%g,%g) -> (%g,%g), expected (%g,%g)", v.x, v.y, dir.x, dir.y, got.x, got.y, want.x, want.y);
        P      dv = got - v;
        MC_CHECK(std::abs(geo::cross(dv, dir)) < tol && (geo::norm(dir) > 0 || geo::norm(dv) == 0), "across", "velocity changes by (%g,%g), not along (%g,%g)", dv.x, dv.y, dir.x, dir.y);
        MC_CHECK(geo::norm(dv) <= throttle * F * dt / m + tol, "force", "velocity changes by %g, at most %g allowed", geo::norm(dv), throttle * F * dt / m);
        MC_CHECK(geo::dot(got, dir) <= std::max(vmax, geo::dot(v, dir)) + tol, "past", "speed %g along the direction, target %g", geo::dot(got, dir), vmax);
        MC_CHECK(geo::norm(got - want) < tol, "velocity", "velocity (%g,%g) instead of (%g,%g)", got.x, got.y, want.x, want.y);
        MC_CHECK(std::abs(b->angularVelocity() - sp) < 1e-6, "spin", "spin changes to %g", b->angularVelocity());
        P moved = geo::toP(b->centroid()) - p0;
        MC_CHECK(geo::norm(moved - got * dt) < 2e-6 * (1 + geo::norm(p0)), "moved", "moved by (%g,%g)", moved.x, moved.y);
        ctx.validated(6);
        ctx.outcome(J == 0 ? "nothing to do" : J == throttle * F * dt ? "saturated" : "reaches the target");
        ctx.state(mc::Hasher().addf(got.x).addf(got.y).h);
    }
}
MC_SCENARIO(rotation)
{
    World    w;
    BodySpec s;
    s.density   = ctx.pick(std::vector<double>{1, 50, 0.01}, "density");
    s.dominance = ctx.flag("dominance") ? 4 : 1;
    s.offset    = ctx.flag("offset") ? P{2, 1} : P{};
    s.v         = {1, 2};
    s.spin      = ctx.pick(std::vector<double>{0, 2, -3, 9}, "spin");
    Body*  b    = makeBox(w, s);
    double I    = b->inertia();
    int    how  = ctx.choose(4, "limits");
    double vmax = ctx.pick(std::vector<double>{4, 0, -5}, "velocity limit"), f = ctx.pick(std::vector<double>{0.5, 200}, "torque limit");
    auto   specs = how == 0   ? RotationMotor::Specs::fromTorque((float)vmax, (float)f)
                   : how == 1 ? RotationMotor::Specs::fromAccel((float)vmax, (float)f)
                   : how == 2 ? RotationMotor::Specs::fromAccel((float)vmax, (float)f, 3.f)
                              : RotationMotor::Specs::fromTargetForce((float)vmax, 0.5f, (float)f);
    double T = std::abs(how == 1 ? f * I : how == 2 ? f * 3 : how == 3 ? f * 0.5 : f);
    vmax     = std::abs(vmax);
    auto*  motor = w.makeConstraint<RotationMotor>(Bodies::singleBody(b), specs);
    double throttle = 1, dir = 0;
    int    depth = ctx.tier(2, 3);
    for (int i = 0; i < depth; ++i)
    {
        int change = i == 0 ? 0 : ctx.choose(3, "change");
        if (change == 0)
        {
            float d = ctx.pick(std::vector<float>{1.f, -1.f, 0.f, 5.f, -0.01f}, "direction");
            motor->direction(Vector<float, 1>{d});
            dir = d > 0 ? 1 : d < 0 ? -1 : 0;
        }
        if (change <= 1)
        {
            float t = ctx.pick(throttles(), "throttle");
            motor->throttle(t);
            throttle = std::clamp<double>(t, 0, 1);
        }
        MC_CHECK(std::abs(motor->throttle() - throttle) < 1e-7 && std::abs(motor->direction()[0] - dir) < 1e-6, "throttle", "throttle %g direction %g", motor->throttle(),
                 motor->direction()[0]);
        float  dt = (i + how) % 2 ? 0.25f : 1.f / 64;
        double sp = b->angularVelocity();
        Vec2   v  = b->velocity();
        double J  = std::clamp(I * (vmax - sp * dir), 0.0, throttle * T * dt);
        if (dir == 0)
            J = 0;
        double want = sp + dir * J / I;
        w.step(dt);
        ctx.transition();
        double tol = 1e-5 * (1 + std::abs(sp) + vmax);
        ctx.log("spin %g dir %g -> %g, expected %g", sp, dir, b->angularVelocity(), want);
        MC_CHECK(std::abs(b->angularVelocity() - want) < tol, "spin", "spin %g instead of %g (before %g, direction %g, throttle %g)", b->angularVelocity(), want, sp, dir, throttle);
        MC_CHECK(all(b->velocity() == v), "velocity", "velocity changes");
        ctx.validated(4);
        ctx.outcome(J == 0 ? "nothing to do" : J == throttle * T * dt ? "saturated" : "reaches the target");
        ctx.state(mc::Hasher().addf(want).addf(dir).h);
    }
}
// both on one body, with a force against them
MC_SCENARIO(together)
{
    World w;
    Body* b = makeBox(w, {{0, 0}, 0, 1, 2, ctx.pick(std::vector<double>{1, 10}, "density")});
    double m = b->mass(), I = b->inertia();
    P      g{0, -2};
    w.makeForceField<Gravity>(geo::toV(g));
    double F = ctx.pick(std::vector<double>{1, 10, 100}, "force"), T = ctx.pick(std::vector<double>{0.5, 50}, "torque");
    auto*  tm = w.makeConstraint<TranslationMotor>(Bodies::singleBody(b), TranslationMotor::Specs::fromForce(3, (float)F));
    auto*  rm = w.makeConstraint<RotationMotor>(Bodies::singleBody(b), RotationMotor::Specs::fromTorque(2, (float)T));
    Vec2   d  = ctx.pick(directions(), "direction");
    P      dir = geo::toP(d);
    if (geo::norm(dir) > 0)
        dir = dir * (1 / geo::norm(dir));
    tm->direction(d);
    double rd = ctx.choose(3, "turn") - 1;
    rm->direction(Vector<float, 1>{(float)rd});
    float dt    = 1.f / 32;
    int   steps = ctx.tier(40, 100);
    bool  other = ctx.flag("rotation motor dies");
    for (int i = 0; i < steps; ++i)
    {
        if (i == 10 && other)
            rm->kill();
        P      v  = geo::toP(b->velocity()) + g * dt;
        double sp = b->angularVelocity();
        double J  = std::clamp(m * (3 - geo::dot(v, dir)), 0.0, F * dt);
        double K  = std::clamp(I * (2 - sp * rd), 0.0, T * dt);
        if (rd == 0 || (other && i >= 10))
            K = 0;
        P      want = v + dir * (J / m);
        double ws   = sp + rd * K / I;
        w.step(dt);
        ctx.transition();
        MC_CHECK(geo::norm(geo::toP(b->velocity()) - want) < 1e-5 * (1 + geo::norm(v)) && std::abs(b->angularVelocity() - ws) < 1e-5, "both",
                 "step %d: velocity (%g,%g) spin %g instead of (%g,%g) and %g", i, b->velocity()[0], b->velocity()[1], b->angularVelocity(), want.x, want.y, ws);
        ctx.validated(2);
        ctx.state(mc::Hasher().addf(want.x).addf(want.y).addf(ws).h);
    }
    ctx.outcome("both motors");
}
