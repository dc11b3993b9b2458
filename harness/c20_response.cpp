// C20: contacts prevent approach, rebound as configured, only push, and obey the friction law.
#include "joints.hpp"

// records the contact as it is at the start of each step
struct Seen : ContactConstraint
{
    using ContactConstraint::ContactConstraint;
    ContactInfo info{};
    void        preStep() override
    {
        ContactConstraint::preStep();
        info = contactInfo();
    }
};
static UniquePtr<ContactConstraint> makeSeen(Collider& a, Collider& b, const World::ContactAlloc& alloc) { return makeUnique<Seen>(alloc, a, b); }

struct BodyAt
{
    Body*  b;
    double im, iI;
    P      c, v;
    double w;
};
static BodyAt bodyAt(const Body* b)
{
    double d = b->dominance();
    return {const_cast<Body*>(b), d / b->mass(), d / b->inertia(), geo::toP(b->centroid()), geo::toP(b->velocity()), b->angularVelocity()};
}
static P pointVelocity(P c, P v, double w, P at) { return v + P{-(at - c).y, (at - c).x} * w; }

struct Law
{
    double e, mu;
    bool   converged = true; // enough iterations for the friction to match the normal impulse exactly
};
// compares the velocities after a step with those before it, for a single contact
static void checkContact(mc::Ctx& ctx, const ContactInfo& info, const std::array<BodyAt, 2>& x, Law law, const char* what)
{
    // x[0] is pushed along the normal
    P                n = geo::toP(info.normal), t{-n.y, n.x};
    int              k = info.nContacts;
    std::array<P, 2> v1, pi, pr;
    std::array<double, 2> w1;
    for (int b = 0; b < 2; ++b)
        v1[b] = geo::toP(x[b].b->velocity()), w1[b] = x[b].b->angularVelocity();
    double before[2], vn[2], vt[2];
    for (int c = 0; c < k; ++c)
    {
        pi[c] = geo::toP(info.incContacts[c]), pr[c] = geo::toP(info.refContacts[c]);
        P rel0    = pointVelocity(x[0].c, x[0].v, x[0].w, pi[c]) - pointVelocity(x[1].c, x[1].v, x[1].w, pr[c]);
        P rel1    = pointVelocity(x[0].c, v1[0], w1[0], pi[c]) - pointVelocity(x[1].c, v1[1], w1[1], pr[c]);
        before[c] = geo::dot(rel0, n), vn[c] = geo::dot(rel1, n), vt[c] = geo::dot(rel1, t);
    }
    // the impulse on the side that moves
    int  s    = x[0].im != 0 ? 0 : 1;
    auto side = [&](int b, double& N, double& T, double& A) {
        P dv = v1[b] - x[b].v;
        double sign = b == 0 ? 1 : -1;
        N = sign * geo::dot(dv, n) / x[b].im, T = sign * geo::dot(dv, t) / x[b].im, A = sign * (w1[b] - x[b].w) / x[b].iI;
    };
    double N, T, A;
    side(s, N, T, A);
    auto&  pts   = s == 0 ? pi : pr;
    double speed = geo::norm(x[0].v) + geo::norm(x[1].v) + geo::norm(v1[0]) + geo::norm(v1[1]) + 0.1;
    double reach = 1;
    for (int b = 0; b < 2; ++b)
        for (int c = 0; c < k; ++c)
            reach = std::max(reach, geo::norm(pi[c] - x[b].c));
    for (int b = 0; b < 2; ++b)
        speed += (std::abs(x[b].w) + std::abs(w1[b])) * reach;
    double tolV = 2e-5 * speed + (law.converged ? 0 : 2e-3 * speed), scale = std::abs(N) + std::abs(T), tolN = 1e-5 * speed / x[s].im + 1e-4 * scale;
    if (x[0].im != 0 && x[1].im != 0)
    {
        double N2, T2, A2;
        side(1, N2, T2, A2);
        MC_CHECK(std::abs(N - N2) + std::abs(T - T2) < tolN + 1e-5 * speed / x[1].im, "opposite", "%s: impulses (%g,%g) and (%g,%g)", what, N, T, N2, T2);
    }
    else
        MC_CHECK(x[1 - s].im != 0 || (geo::norm(v1[1 - s] - x[1 - s].v) == 0 && w1[1 - s] == x[1 - s].w), "structural", "%s: the structural side changes velocity", what);
    double push[2] = {N, 0}, torqueTol = 2e-5 * speed / x[s].iI / reach + 2e-4 * scale * reach;
    if (k == 2)
    {
        // torque = sum r_c x (n N_c + t T_c); the tangential arms differ by the depths
        double a0 = geo::cross(pts[0] - x[s].c, n), a1 = geo::cross(pts[1] - x[s].c, n), f0 = geo::cross(pts[0] - x[s].c, t), f1 = geo::cross(pts[1] - x[s].c, t);
        torqueTol += std::abs(f0 - f1) * std::abs(T);
        double f = (f0 + f1) / 2;
        push[0] = (A - f * T - a1 * N) / (a0 - a1), push[1] = N - push[0];
        torqueTol /= std::abs(a0 - a1);
    }
    else
    {
        double torque = geo::cross(pts[0] - x[s].c, n * N + t * T);
        MC_CHECK(std::abs(A - torque) < torqueTol, "torque", "%s: angular impulse %g instead of %g", what, A, torque);
        torqueTol = 0;
    }
    for (int c = 0; c < k; ++c)
    {
        double target = before[c] < -1.0 ? -law.e * before[c] : 0;
        ctx.log("%s: contact %d approaches at %g, leaves at %g (wanted %g), slides at %g, pushed by %g; friction %g", what, c, -before[c], vn[c], target, vt[c], push[c], T);
        MC_CHECK(vn[c] > target - tolV, "approach", "%s: contact %d of %d approaches at %g and leaves at %g, at least %g was expected", what, c, k, -before[c], vn[c], target);
        MC_CHECK(push[c] > -tolN - torqueTol, "pull", "%s: contact %d of %d is pulled by %g", what, c, k, -push[c]);
        MC_CHECK(vn[c] < target + tolV || push[c] < tolN + torqueTol, "separates", "%s: contact %d of %d approaches at %g and leaves at %g instead of %g, pushed by %g", what, c, k, -before[c], vn[c], target, push[c]);
    }
    // friction
    MC_CHECK(std::abs(T) < law.mu * N + tolN + (law.converged ? 0 : 0.5 * law.mu * std::abs(N)), "friction", "%s: friction %g for a push of %g and a coefficient of %g", what, T, N, law.mu);
    if (law.converged)
        for (int c = 0; c < k; ++c)
        {
            double slack = tolV + (k == 2 ? std::abs(vt[0] - vt[1]) : 0);
            if (vt[c] > slack)
                MC_CHECK(T < -law.mu * N + tolN, "sliding", "%s: slides at %g with a friction of %g for a push of %g and a coefficient of %g", what, vt[c], T, N, law.mu);
            if (vt[c] < -slack)
                MC_CHECK(T > law.mu * N - tolN, "sliding", "%s: slides at %g with a friction of %g for a push of %g and a coefficient of %g", what, vt[c], T, N, law.mu);
        }
    ctx.validated(2 + 2 * k);
}
static Body* makeShape(World& w, const Poly& local, P at, double angle, double density, double dominance, Material m)
{
    BodyDescriptor d;
    d.position    = geo::toV(at);
    d.orientation = (float)angle;
    d.dominance   = (float)dominance;
    Body* b       = w.makeBody(d);
    m.density     = (float)density;
    b->addCollider(ColliderDescriptor{geo::toPolygon(local), m});
    return b;
}
static Material surface(double e, double mu)
{
    Material m;
    m.bounciness = CombinableProperty{(float)e};
    m.friction   = CombinableProperty{(float)mu};
    return m;
}
static const std::vector<Poly>& uppers()
{
    // about their centroid, which bodies turn about
    static const std::vector<Poly> v{geo::box(1, 1), geo::box(4, 0.5), {{-0.25, -2.0 / 3}, {0.75, 1.0 / 3}, {-0.5, 1.0 / 3}}, geo::regular(6, 0.75, 0.2), geo::box(0.25, 3)};
    return v;
}
MC_SCENARIO(impact)
{
    World w(makeSeen);
    auto  poly = ctx.pick(uppers(), "shape");
    double tilt = ctx.pick(std::vector<double>{0, 0.35, -0.7853981}, "tilt"), turn = ctx.pick(std::vector<double>{0, 1.5707963, 2.5}, "scene");
    double e = ctx.pick(std::vector<double>{0, 0.5, 1}, "bounciness"), mu = ctx.pick(std::vector<double>{0, 0.3, 1}, "friction");
    static const std::vector<std::array<double, 3>> rho{{1, 1, 1}, {1, 1, 0}, {50, 1, 1}, {0.1, 20, 1}};
    auto   r    = ctx.pick(rho, "densities");
    double side = ctx.pick(std::vector<double>{0, 1.75}, "side");
    bool   order = ctx.flag("upper first");
    Material m   = surface(e, mu);
    // lowest point of the tilted shape at a small depth
    double low = 1e9;
    for (auto q : poly)
        low = std::min(low, geo::rot(q, tilt).y);
    P     up = geo::rot(P{side, 0.5 - low - 0.0075}, turn), down{};
    Body *U = nullptr, *L = nullptr;
    if (order)
        U = makeShape(w, poly, up, turn + tilt, r[0], 1, m);
    L = makeShape(w, geo::box(4, 1), down, turn, r[1], r[2], m);
    if (!order)
        U = makeShape(w, poly, up, turn + tilt, r[0], 1, m);
    if (geo::signedGap(geo::place(poly, turn + tilt, up), geo::place(geo::box(4, 1), turn, down)) > -0.0055)
        ctx.prune(); // only the bounding boxes overlap
    struct V
    {
        P      u, l;
        double wu, wl;
    };
    static const std::vector<V> vs{{{0, -0.5}, {}, 0, 0}, {{0, -4}, {}, 0, 0}, {{3, -2}, {}, 0, 0}, {{-0.5, -5}, {}, 3, 0}, {{0, 0.5}, {}, 2, 0}, {{1, 0}, {0.5, 2.5}, -1, 0.5}, {{0, 2}, {}, 0, 0}, {{0.25, -3}, {-1, -3.5}, -2, 0}};
    auto  v = ctx.pick(vs, "velocities");
    w.step(1e-7f); // finds the contact
    U->setVelocity(geo::toV(geo::rot(v.u, turn)));
    U->setAngularVelocity((float)v.wu);
    if (r[2] != 0)
    {
        L->setVelocity(geo::toV(geo::rot(v.l, turn)));
        L->setAngularVelocity((float)v.wl);
    }
    World::Settings set;
    bool            few     = ctx.flag("default iterations");
    set.nVelocityIterations = few ? 8 : 200;
    w.updateSettings(set);
    int   n = 0;
    Seen* c = nullptr;
    for (auto& k : w.contacts())
        c = dynamic_cast<Seen*>(&k), ++n;
    MC_CHECK(n == 1 && c, "contact", "%d contacts", n);
    auto b = c->bodies();
    std::array<BodyAt, 2> x{bodyAt(b[0]), bodyAt(b[1])};
    w.step(1.f / 64);
    ctx.transition();
    MC_CHECK(c->info.nContacts > 0, "contact", "no contact point");
    MC_CHECK(BodyState(U).finite() && BodyState(L).finite(), "finite", "not a number");
    checkContact(ctx, c->info, x, {e, mu, !few}, "impact");
    ctx.outcome(c->info.nContacts == 1 ? "one point" : "two points");
    ctx.state(mc::Hasher().addf(U->velocity()[0]).addf(U->velocity()[1]).addf(U->angularVelocity()).addf(L->velocity()[1]).addf(e).addf(mu).h);
}
// A wide box slides on a floor under gravity: closed form motion
MC_SCENARIO(slide)
{
    World    w;
    double   mu = ctx.pick(std::vector<double>{0, 0.2, 0.5, 1}, "friction"), slope = ctx.pick(std::vector<double>{0, 0.3, -0.15}, "slope"), turn = ctx.pick(std::vector<double>{0, 1, -2}, "scene");
    double   density = ctx.pick(std::vector<double>{1, 0.01, 100}, "density"), v0 = ctx.pick(std::vector<double>{0, 2, -3}, "speed");
    bool     warm = !ctx.flag("cold"), floorFirst = ctx.flag("floor first");
    Material m = surface(0, mu);
    Body *   F = nullptr, *B = nullptr;
    Poly     box = geo::box(2, 0.5);
    if (floorFirst)
        F = makeShape(w, geo::box(80, 2), {}, turn, 1, 0, m);
    B = makeShape(w, box, geo::rot({0, 1.25 - 0.0075}, turn), turn, density, 1, m);
    if (!floorFirst)
        F = makeShape(w, geo::box(80, 2), {}, turn, 1, 0, m);
    (void)F;
    w.step(1e-7f);
    double g  = 10;
    P      along = geo::rot({1, 0}, turn), up = geo::rot({0, 1}, turn);
    w.makeForceField<Gravity>(geo::toV(geo::rot({g * std::sin(slope), -g * std::cos(slope)}, turn)));
    B->setVelocity(geo::toV(along * v0));
    World::Settings set;
    set.enableWarmstarting = warm;
    set.nVelocityIterations = warm ? 8 : 40;
    w.updateSettings(set);
    double dt = 1.0 / 64, v = v0;
    // without warm starting the friction of the first iteration is not bounded by anything yet
    for (int step = 0; step < ctx.tier(60, 400); ++step)
    {
        if (std::abs(geo::dot(geo::toP(B->centroid()), along)) > 38)
            break; // about to leave the floor
        w.step((float)dt);
        ctx.transition();
        double free = v + g * std::sin(slope) * dt, brake = mu * g * std::cos(slope) * dt;
        double want = free > brake ? free - brake : free < -brake ? free + brake : 0;
        double is   = geo::dot(geo::toP(B->velocity()), along), rise = geo::dot(geo::toP(B->velocity()), up);
        ctx.log("step %d: slides at %g (wanted %g), rises at %g, spins at %g", step, is, want, rise, B->angularVelocity());
        MC_CHECK(std::abs(is - want) < 2e-3 + 1e-4 * std::abs(want), "slide", "step %d: slides at %g instead of %g (it slid at %g)", step, is, want, v);
        MC_CHECK(std::abs(rise) < 2e-3 && std::abs(B->angularVelocity()) < 2e-3, "rest", "step %d: rises at %g and spins at %g", step, rise, B->angularVelocity());
        double depth = 1.25 - geo::dot(geo::toP(B->centroid()), up);
        MC_CHECK(depth > -0.001 && depth < 0.0165, "depth", "step %d: sunk by %g", step, depth);
        v = is;
        ctx.state(mc::Hasher().addf(std::round(is * 1e4)).addf(mu).addf(slope).add(step).h);
    }
    ctx.validated(3);
    ctx.outcome(std::abs(v) < 2e-3 ? "stopped" : "slides");
}
// Boxes at rest on each other, or dropped: they stay or come to rest, neither sinking nor jumping
MC_SCENARIO(rest)
{
    World  w;
    int    n = 1 + ctx.choose(3, "boxes");
    double mu = ctx.pick(std::vector<double>{0, 0.5}, "friction"), e = ctx.pick(std::vector<double>{0, 0.5}, "bounciness");
    static const std::vector<std::array<double, 3>> rho{{1, 1, 1}, {1, 4, 1}, {5, 1, 0.5}};
    auto   r    = ctx.pick(rho, "densities");
    double gap  = ctx.pick(std::vector<double>{0, -0.004, -0.01, -0.05, 0.05, 0.3}, "gap");
    double turn = ctx.pick(std::vector<double>{0, 1.5707963}, "scene");
    bool   warm = !ctx.flag("cold"), floorFirst = ctx.flag("floor first");
    double floor_ = ctx.flag("narrow floor") ? 3 : 30;
    Material m  = surface(e, mu);
    P        up = geo::rot({0, 1}, turn);
    std::vector<Body*> b;
    if (floorFirst)
        makeShape(w, geo::box(floor_, 2), {}, turn, 1, 0, m);
    double top = 1;
    for (int k = 0; k < n; ++k)
    {
        b.push_back(makeShape(w, geo::box(1.5, 1), up * (top + gap + 0.5), turn, r[k], 1, m));
        top += 1 + gap;
    }
    if (!floorFirst)
        makeShape(w, geo::box(floor_, 2), {}, turn, 1, 0, m);
    double g = 10;
    w.makeForceField<Gravity>(geo::toV(up * -g));
    World::Settings set;
    set.enableWarmstarting = warm;
    if (!warm)
        set.nVelocityIterations = 40;
    w.updateSettings(set);
    int    steps  = ctx.tier(200, 900);
    double dt     = 1.0 / 60;
    double fastest = gap > 0 ? std::sqrt(2 * g * n * gap) + g * dt : 0; // may enter by this much in a step
    double corrected = gap < 0 ? n * -gap : 0;
    for (int step = 0; step < steps; ++step)
    {
        w.step((float)dt);
        ctx.transition();
        double below = 1;
        for (int k = 0; k < n; ++k)
        {
            double y = geo::dot(geo::toP(b[k]->centroid()), up), vy = geo::dot(geo::toP(b[k]->velocity()), up), vx = geo::cross(up, geo::toP(b[k]->velocity()));
            double depth = below - (y - 0.5);
            bool   late  = step > steps / 2;
            MC_CHECK(BodyState(b[k]).finite(), "finite", "not a number");
            MC_CHECK(depth < std::max(0.0, -gap) + 0.025 + 1.2 * fastest * dt, "sinks", "step %d: box %d is sunk by %g", step, k, depth);
            MC_CHECK(y < k + 1.5 + (k + 1) * gap + corrected + 0.01 + (e > 0 && gap > 0 ? 0.3 * k : 0), "jumps", "step %d: box %d is at %g", step, k, y);
            if (e == 0 && gap <= 0)
                MC_CHECK(vy < g * dt, "jumps", "step %d: box %d rises at %g", step, k, vy);
            if (late)
            {
                MC_CHECK(std::abs(vy) < 0.02 && std::abs(vx) < 0.01 && std::abs(b[k]->angularVelocity()) < 0.02, "rest", "step %d: box %d does not rest: %s", step, k, BodyState(b[k]).str().c_str());
                MC_CHECK(depth < 0.0185 && depth > -0.002, "rest", "step %d: box %d rests at a depth of %g", step, k, depth);
                MC_CHECK(std::abs(b[k]->orientation() - turn) < 0.02, "rest", "step %d: box %d has turned by %g", step, k, b[k]->orientation() - turn);
            }
            below = y + 0.5;
            if (step % 16 == 0)
                ctx.state(mc::Hasher().addf(std::round(y * 1e5)).addf(std::round(vy * 1e4)).add(k).h);
        }
    }
    ctx.validated(n);
    ctx.outcome(gap > 0 ? "dropped" : gap < -0.02 ? "overlapping" : "resting");
}
// Contact points that are close to each other
MC_SCENARIO(corner)
{
    World  w(makeSeen);
    double W     = ctx.pick(std::vector<double>{1, 4, 16, 64, 256}, "width"), H = ctx.pick(std::vector<double>{1, 0.25, 8}, "height");
    double over  = ctx.pick(std::vector<double>{0.0078125, 0.006, 0.01, 0.05, 0.0625}, "overlap along the edge"), pen = ctx.pick(std::vector<double>{0.0055, 0.00585938}, "depth");
    bool   fixed = ctx.flag("structural support"), order = ctx.flag("upper first");
    double mu    = ctx.flag("friction") ? 0.5 : 0;
    double speed = ctx.pick(std::vector<double>{0.5, 4}, "speed");
    Material m   = surface(0, mu);
    P     at{W / 2 + 0.5 - over, 0.5 + H / 2 - pen};
    Body *U = nullptr, *L = nullptr;
    if (order)
        U = makeShape(w, geo::box(W, H), at, 0, 1, 1, m);
    L = makeShape(w, geo::box(1, 1), {}, 0, 1, fixed ? 0 : 1, m);
    if (!order)
        U = makeShape(w, geo::box(W, H), at, 0, 1, 1, m);
    w.step(1e-7f);
    U->setVelocity(Vec2{0, -(float)speed});
    World::Settings set;
    set.nVelocityIterations = 60;
    w.updateSettings(set);
    int   n = 0;
    Seen* c = nullptr;
    for (auto& k : w.contacts())
        c = dynamic_cast<Seen*>(&k), ++n;
    MC_CHECK(n == 1 && c, "contact", "%d contacts", n);
    auto                  b = c->bodies();
    std::array<BodyAt, 2> x{bodyAt(b[0]), bodyAt(b[1])};
    w.step(1.f / 64);
    ctx.transition();
    MC_CHECK(BodyState(U).finite() && BodyState(L).finite(), "finite", "not a number");
    if (c->info.nContacts == 0)
    {
        ctx.outcome("tolerated");
        return;
    }
    // how fast the contact points approach afterwards
    P nrm = geo::toP(c->info.normal);
    for (Uint32 k = 0; k < c->info.nContacts; ++k)
    {
        auto rel = [&](bool after) {
            P v[2];
            for (int i = 0; i < 2; ++i)
                v[i] = pointVelocity(x[i].c, after ? geo::toP(x[i].b->velocity()) : x[i].v, after ? x[i].b->angularVelocity() : x[i].w, geo::toP(i ? c->info.refContacts[k] : c->info.incContacts[k]));
            return geo::dot(v[0] - v[1], nrm);
        };
        MC_CHECK(rel(true) > -0.01 * speed, "approach", "contact %u of %u still approaches at %g", k, c->info.nContacts, -rel(true));
        MC_CHECK(rel(true) < 0.05 * speed || c->info.nContacts == 2, "separates", "contact %u of %u separates at %g", k, c->info.nContacts, rel(true));
    }
    for (int step = 0; step < 8; ++step)
    {
        w.step(1.f / 64);
        ctx.transition();
        MC_CHECK(norm(U->velocity()) < 1.5 * speed, "jumps", "step %d: %s", step, BodyState(U).str().c_str());
    }
    ctx.validated(2);
    ctx.outcome(c->info.nContacts == 1 ? "one point" : "two points");
    ctx.state(mc::Hasher().addf(U->velocity()[1]).addf(U->angularVelocity()).addf(W).h);
}
