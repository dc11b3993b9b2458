// A violation is required to shrink when it is at most half of the limit and turns the bodies little: the correction is
// a Newton step on the squared distance, which overshoots from far away.
// C18: distance joints can be created from any valid limits, do nothing inside them, and
// remove exactly the velocity that would increase a violation.
#include "joints.hpp"

MC_SCENARIO(creation)
{
    World w;
    Body* a = makeBox(w, {{0, 0}});
    Body* b = makeBox(w, {{3, 0}});
    static const std::vector<float>      v{-1.f, 0.f, -0.f, 0.001f, 1.f, 2.f, 3.f, 1e3f};
    auto                                 limit = [&](const char* l) -> std::optional<float> {
        int k = ctx.choose((int)v.size() + 1, l);
        return k == (int)v.size() ? std::optional<float>{} : v[k];
    };
    int  how = ctx.choose(3, "constructor");
    auto lo = limit("minimum"), hi = how == 0 ? limit("maximum") : lo;
    if (how == 2 && (lo.has_value() || hi.has_value()))
        ctx.prune();
    if (how == 1 && !lo)
        ctx.prune();
    std::array<Vec2, 2> p{a->centroid(), b->centroid()};
    bool                valid = how == 2 || ((lo || hi) && (!lo || *lo > 0) && (!hi || *hi > 0) && (!lo || !hi || *lo <= *hi));
    bool                made  = true;
    Constraint*         c     = nullptr;
    try
    {
        c = how == 0 ? w.makeConstraint<DistanceConstraint>(Bodies{{a, b}}, p, lo, hi) : how == 1 ? w.makeConstraint<DistanceConstraint>(Bodies{{a, b}}, p, *lo)
                                                                                                  : w.makeConstraint<DistanceConstraint>(Bodies{{a, b}}, p);
    }
    catch (simu::Exception&)
    {
        made = false;
    }
    MC_CHECK(made == valid, "creation", "limits %s %s are %s", lo ? mc::fmt("%g", *lo).c_str() : "none", hi ? mc::fmt("%g", *hi).c_str() : "none", made ? "accepted" : "rejected");
    size_t n = 0;
    for (auto& x : w.constraints())
        (void)x, ++n;
    MC_CHECK(n == (made ? 1u : 0u) && (a->constraints().begin() != a->constraints().end()) == made, "creation", "%zu constraints after the creation", n);
    ctx.validated(2);
    ctx.outcome(made ? "accepted" : "rejected");
    ctx.state(mc::Hasher().add(made).add(how).h);
}

struct Side
{
    double im, iI;
    P      c, a, v; // centroid, anchor, velocity
    double w;
};
static Side side(const Body* b, const Bodies&, double dominance, P anchor)
{
    return {dominance / b->mass(), dominance / b->inertia(), geo::toP(b->centroid()), anchor, geo::toP(b->velocity()), b->angularVelocity()};
}
// the impulse of the ideal joint along the unit vector from the second anchor to the first
struct Ideal
{
    double rate, K;
    P      n;
    double r0, r1;
};
static Ideal ideal(const Side& x, const Side& y)
{
    Ideal i;
    i.n    = x.a - y.a;
    i.n    = i.n * (1 / geo::norm(i.n));
    i.r0   = geo::cross(x.a - x.c, i.n);
    i.r1   = geo::cross(y.a - y.c, i.n);
    i.rate = geo::dot(x.v - y.v, i.n) + i.r0 * x.w - i.r1 * y.w;
    i.K    = x.im + y.im + i.r0 * i.r0 * x.iI + i.r1 * i.r1 * y.iI;
    return i;
}
struct Motion
{
    Vec2  v;
    float w;
};
MC_SCENARIO(limits)
{
    World w;
    int    kind  = ctx.choose(4, "kind"); // exact, minimum, maximum, range
    double lo = 2, hi = 3;
    // the distance of the anchors
    static const std::vector<double> dist{2.5, 2, 3, 1.5, 4, 1.9375, 3.0625, 1, 6, 2.0625, 2.9375, 1.99951171875, 3.00048828125};
    double                           d = kind == 0 ? ctx.pick(std::vector<double>{2, 1.5, 2.5, 1.9375, 1, 6}, "distance") : ctx.pick(dist, "distance");
    int                              aligned = ctx.choose(5, "direction");
    static const std::vector<P>      dirs{{1, 0}, {0.6, 0.8}, {0, -1}, {-0.28, 0.96}, {-1, 0}};
    P                                dir = dirs[aligned];
    bool                             exact = aligned == 0 || aligned == 2 || aligned == 4;
    // anchors on the bodies, relative to their centroids
    static const std::vector<std::array<P, 2>> arms{{P{0, 0}, P{0, 0}}, {P{0.5, 0.5}, P{-0.25, 0.5}}, {P{0, 1.5}, P{0, 0}}, {P{-3, 0.5}, P{0.5, 2}}};
    auto                                       arm = ctx.pick(arms, "arms");
    int                                        masses = ctx.choose(6, "masses");
    static const double                        rho[6][2] = {{1, 1}, {1, 100}, {1, 1}, {3, 1}, {1e3, 1e-2}, {0.01, 0.02}};
    double                                     dom0 = masses == 2 ? 0 : 1, dom1 = masses == 3 ? 0 : 1;
    P                                          a0 = {0.25, -0.5}, a1 = a0 - dir * d;
    BodySpec                                   s0, s1;
    s0.at = a0 - arm[0], s1.at = a1 - arm[1];
    s0.density = rho[masses][0], s1.density = rho[masses][1];
    s0.dominance = dom0, s1.dominance = dom1;
    static const std::vector<P> vs{{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {-2, 1}, {3, -2}};
    P                           rel  = ctx.pick(vs, "relative velocity");
    double                      spin = ctx.pick(std::vector<double>{0, 1, -2}, "spin");
    P                           perp{-dir.y, dir.x};
    P                           v = dir * rel.x + perp * rel.y, common = ctx.flag("together") ? P{0.5, 0.25} : P{};
    if (dom0 == 0)
        s0.v = common * 0, s1.v = v * -1, s1.spin = spin;
    else if (dom1 == 0)
        s0.v = v, s0.spin = spin;
    else
        s0.v = v * 0.5 + common, s1.v = v * -0.5 + common, s0.spin = spin, s1.spin = -spin / 2;
    Body*                      A = makeBox(w, s0);
    Body*                      B = makeBox(w, s1);
    std::array<Vec2, 2>        p{geo::toV(a0), geo::toV(a1)};
    std::optional<float>       none = std::nullopt, l = (float)lo, h = (float)hi;
    DistanceConstraint*        c    = nullptr;
    switch (kind)
    {
        case 0: c = w.makeConstraint<DistanceConstraint>(Bodies{{A, B}}, p, l.value()); break;
        case 1: c = w.makeConstraint<DistanceConstraint>(Bodies{{A, B}}, p, l, none); break;
        case 2: c = w.makeConstraint<DistanceConstraint>(Bodies{{A, B}}, p, none, h); break;
        case 3: c = w.makeConstraint<DistanceConstraint>(Bodies{{A, B}}, p, l, h); break;
    }
    World::Settings set;
    set.enableWarmstarting = !ctx.flag("cold");
    w.updateSettings(set);
    P      l0 = geo::toP(A->toLocalSpace() * p[0]), l1 = geo::toP(B->toLocalSpace() * p[1]);
    double dt     = ctx.flag("long step") ? 0.25 : 1.0 / 64;
    bool   atRest = rel.x == 0 && rel.y == 0 && spin == 0;
    int    steps  = ctx.tier(8, 16);
    for (int step = 0; step < steps; ++step)
    {
        Side   x = side(A, c->bodies(), dom0, geo::toP(A->toWorldSpace() * geo::toV(l0)));
        Side   y = side(B, c->bodies(), dom1, geo::toP(B->toWorldSpace() * geo::toV(l1)));
        double distance = geo::norm(x.a - y.a);
        if (distance < 0.05)
            break; // the direction of the joint is lost (a documented limitation)
        Ideal  i        = ideal(x, y);
        // which limit acts
        auto violation = [&](double q) { return kind == 0 ? std::abs(q - lo) : std::max(0.0, std::max(kind != 2 ? lo - q : 0, kind != 1 ? q - hi : 0)); };
        bool   sure = step == 0 && exact; // the distance is exactly the one given
        double eps  = sure ? 0 : 1e-5;
        int    lower = kind == 0 ? 1 : kind == 2 ? 0 : distance <= lo - eps ? 1 : distance <= lo + eps ? 2 : 0; // 2: either
        int    upper = kind == 0 ? 1 : kind == 1 ? 0 : distance >= hi + eps ? 1 : distance >= hi - eps ? 2 : 0;
        double impulse = 0;
        if (kind == 0)
            impulse = -i.rate / i.K;
        else if (lower && i.rate < 0)
            impulse = -i.rate / i.K;
        else if (upper && i.rate > 0)
            impulse = -i.rate / i.K;
        BodyState bA(A), bB(B);
        w.step((float)dt);
        ctx.transition();
        BodyState aA(A), aB(B);
        MC_CHECK(aA.finite() && aB.finite(), "finite", "not a number: %s", aA.str().c_str());
        auto off = [&](const Side& s, const BodyState& after, double J, double r, double sign) {
            P dv = i.n * (sign * J * s.im);
            return geo::norm(geo::toP(after.v) - (s.v + dv)) + std::abs(after.w - (s.w + sign * J * r * s.iI));
        };
        double tol   = 3e-5 * (1 + geo::norm(x.v) + geo::norm(y.v) + std::abs(x.w) + std::abs(y.w));
        double wrong = off(x, aA, impulse, i.r0, 1) + off(y, aB, impulse, i.r1, -1);
        if (wrong > tol && ((lower == 2) || (upper == 2)))
            wrong = std::min(wrong, off(x, aA, 0, i.r0, 1) + off(y, aB, 0, i.r1, -1));
        MC_CHECK(wrong < tol, "velocity", "step %d distance %.7g rate %g: %s / %s afterwards, expected an impulse of %g along (%g,%g), off by %g", step, distance, i.rate,
                 aA.str().c_str(), aB.str().c_str(), impulse, i.n.x, i.n.y, wrong);
        bool inside = kind != 0 && !lower && !upper;
        if (inside)
        {
            // bit for bit what a free body does
            MC_CHECK(all(aA.v == bA.v) && aA.w == bA.w && all(aB.v == bB.v) && aB.w == bB.w, "inert", "inside its limits (distance %g) the joint acts", distance);
            MC_CHECK(norm(aA.p - (bA.p + bA.v * (float)dt)) < 1e-6f * (1 + norm(bA.p)) && norm(aB.p - (bB.p + bB.v * (float)dt)) < 1e-6f * (1 + norm(bB.p)) &&
                         std::abs(aA.th - bA.th - bA.w * dt) < 1e-6 * (1 + std::abs(bA.th)) && std::abs(aB.th - bB.th - bB.w * dt) < 1e-6 * (1 + std::abs(bB.th)),
                     "inert", "inside its limits (distance %g) the joint moves the bodies", distance);
        }
        if (atRest)
        {
            double after = geo::norm(geo::toP(A->toWorldSpace() * geo::toV(l0)) - geo::toP(B->toWorldSpace() * geo::toV(l1)));
            ctx.log("violation %g -> %g", violation(distance), violation(after));
            // a Newton step: only small corrections are close to the linear one
            double big = violation(distance) / i.K * std::max(std::abs(i.r0) * x.iI, std::abs(i.r1) * y.iI);
            MC_CHECK(violation(distance) > 1.01 || big > 0.15 || violation(after) <= 0.97 * violation(distance) + 4e-6, "shrink", "step %d: the violation goes from %g to %g", step, violation(distance), violation(after));
        }
        ctx.validated(2);
        ctx.outcome(inside ? "inside" : impulse != 0 ? "acts" : "allowed");
        ctx.state(mc::Hasher().addf(aA.v[0]).addf(aA.v[1]).addf(aA.w).addf(distance).add(kind).h);
    }
}
