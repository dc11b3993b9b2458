// C35: constraints that users build from the provided functions and solvers.
#include "joints.hpp"
#include <limits>
#include <numbers>

// bodies as seen by a constraint: centroid and orientation of the first, then of the second
template <class T>
using State6 = std::array<T, 6>;
static constexpr double noLimit = 1e30;

// one row of a constraint function, evaluated in single precision by the code under test and in double by the reference
struct Row
{
    enum Kind
    {
        linear,
        height,   // of a point of the second body
        distance, // of a point of the second body from a place
        gapX,     // between points of both bodies
        gapY,
    };
    Kind                  kind = linear;
    std::array<double, 6> k{};
    double                a = 0;
    P                     p0{}, p1{}, place{};
    double                bias = 0;
    double                lo = -noLimit, hi = noLimit;   // of the force
    double                plo = -noLimit, phi = noLimit; // of the correction
    template <class T>
    static std::array<T, 2> turned(P p, T th)
    {
        return {(T)(std::cos(th) * (T)p.x - std::sin(th) * (T)p.y), (T)(std::sin(th) * (T)p.x + std::cos(th) * (T)p.y)};
    }
    template <class T>
    T eval(const State6<T>& s) const
    {
        auto q0 = turned<T>(p0, s[2]), q1 = turned<T>(p1, s[5]);
        switch (kind)
        {
            case linear:
            {
                T c = 0;
                for (int i = 0; i < 6; ++i)
                    c += (T)k[i] * s[i];
                return c - (T)a;
            }
            case height: return s[4] + q1[1] - (T)a;
            case distance: return std::hypot(s[3] + q1[0] - (T)place.x, s[4] + q1[1] - (T)place.y) - (T)a;
            case gapX: return s[3] + q1[0] - s[0] - q0[0] - (T)a;
            case gapY: return s[4] + q1[1] - s[1] - q0[1] - (T)a;
        }
        return 0;
    }
    template <class T>
    State6<T> jacobian(const State6<T>& s) const
    {
        auto q0 = turned<T>(p0, s[2]), q1 = turned<T>(p1, s[5]);
        switch (kind)
        {
            case linear:
            {
                State6<T> j;
                for (int i = 0; i < 6; ++i)
                    j[i] = (T)k[i];
                return j;
            }
            case height: return {0, 0, 0, 0, 1, q1[0]};
            case distance:
            {
                T x = s[3] + q1[0] - (T)place.x, y = s[4] + q1[1] - (T)place.y, n = std::hypot(x, y);
                x /= n, y /= n;
                return {0, 0, 0, x, y, -x * q1[1] + y * q1[0]};
            }
            case gapX: return {-1, 0, q0[1], 1, 0, -q1[1]};
            case gapY: return {0, -1, -q0[0], 0, 1, q1[0]};
        }
        return {};
    }
};
static State6<float> stateOf(const Proxies& p)
{
    return {p[0].centroid()[0], p[0].centroid()[1], p[0].orientation(), p[1].centroid()[0], p[1].centroid()[1], p[1].orientation()};
}

// functions written by a user
template <Uint32 nB, Uint32 D>
struct UserFunction
{
    static constexpr Uint32      nBodies = nB, dimension = D;
    typedef Vector<float, D>     Value;
    typedef Matrix<float, D, 6>  Jacobian;
    std::array<Row, D>           rows;
    mutable std::array<int, 2>   clamps{}; // calls
    Value eval(const Proxies& p) const
    {
        Value v;
        for (Uint32 i = 0; i < D; ++i)
            v[i] = rows[i].eval(stateOf(p));
        return v;
    }
    Value bias(const Proxies&) const
    {
        Value v;
        for (Uint32 i = 0; i < D; ++i)
            v[i] = (float)rows[i].bias;
        return v;
    }
    Jacobian jacobian(const Proxies& p) const
    {
        Jacobian j;
        for (Uint32 i = 0; i < D; ++i)
        {
            auto r = rows[i].jacobian(stateOf(p));
            for (Uint32 c = 0; c < 6; ++c)
                j(i, c) = nB == 1 && c > 2 ? 0.f : r[c];
        }
        return j;
    }
    Value clampLambda(Value l, float dt) const
    {
        for (Uint32 i = 0; i < D; ++i)
            l[i] = std::min((float)rows[i].hi * dt, std::max((float)rows[i].lo * dt, l[i]));
        return l;
    }
    Value clampPositionLambda(Value l) const
    {
        for (Uint32 i = 0; i < D; ++i)
            l[i] = std::min((float)rows[i].phi, std::max((float)rows[i].plo, l[i]));
        return l;
    }
};
// the limits come from the provided base class
template <Uint32 D, class Base>
struct BasedFunction : Base
{
    typedef typename Base::Value    Value;
    typedef typename Base::Jacobian Jacobian;
    UserFunction<2, D>              inner;
    BasedFunction(const std::array<Row, D>& r) : inner{r} {}
    Value    eval(const Proxies& p) const { return inner.eval(p); }
    Value    bias(const Proxies& p) const { return inner.bias(p); }
    Jacobian jacobian(const Proxies& p) const { return inner.jacobian(p); }
};
template <Uint32 D>
using EqualityFunction = BasedFunction<D, EqualityConstraintFunctionBase<2, D>>;
template <Uint32 D>
using InequalityFunction = BasedFunction<D, InequalityConstraintFunctionBase<2, D>>;

template <class F, class S>
struct UserConstraint : ConstraintImplementation<F, S>
{
    typedef ConstraintImplementation<F, S> Base;
    std::function<void(const F&, const Proxies&)> look;
    UserConstraint(const Bodies& b, const F& fn) : Base(b, fn, true) {}
    bool isActive(const Proxies& p) override
    {
        if (look)
            look(this->f, p);
        return Base::isActive(p);
    }
    S&       sol() { return this->solver; }
    const F& fn() const { return this->f; }
};

////////////////////////////////////////////////////////////////
// reference
////////////////////////////////////////////////////////////////
typedef std::vector<double>              Vec;
typedef std::vector<std::vector<double>> Mat;
static bool gauss(Mat A, Vec b, Vec& x)
{
    size_t n = b.size();
    for (size_t c = 0; c < n; ++c)
    {
        size_t p = c;
        for (size_t r = c + 1; r < n; ++r)
            if (std::abs(A[r][c]) > std::abs(A[p][c]))
                p = r;
        if (std::abs(A[p][c]) < 1e-12)
            return false;
        std::swap(A[c], A[p]), std::swap(b[c], b[p]);
        for (size_t r = 0; r < n; ++r)
            if (r != c)
            {
                double f = A[r][c] / A[c][c];
                for (size_t k = c; k < n; ++k)
                    A[r][k] -= f * A[c][k];
                b[r] -= f * b[c];
            }
    }
    x.resize(n);
    for (size_t i = 0; i < n; ++i)
        x[i] = b[i] / A[i][i];
    return true;
}
// x within its limits, such that Ax = b where x is strictly within, Ax >= b where it is at its lower limit, Ax <= b at its upper one
static Vec boxed(const Mat& A, const Vec& b, const Vec& lo, const Vec& hi)
{
    size_t n = b.size();
    Vec    best;
    double least = 1e300;
    int    total = 1;
    for (size_t i = 0; i < n; ++i)
        total *= 3;
    for (int code = 0; code < total; ++code)
    {
        std::vector<int> where(n), open;
        Vec              x(n);
        bool             ok = true;
        for (size_t i = 0, c = code; i < n; ++i, c /= 3)
        {
            where[i] = (int)(c % 3);
            if (where[i] == 1 && lo[i] <= -noLimit * 1e-4 || where[i] == 2 && hi[i] >= noLimit * 1e-4)
                ok = false;
            x[i] = where[i] == 1 ? lo[i] : where[i] == 2 ? hi[i] : 0;
            if (!where[i])
                open.push_back((int)i);
        }
        if (!ok)
            continue;
        Mat S;
        Vec r, y;
        for (int i : open)
        {
            Vec    row;
            double rest = b[i];
            for (int j : open)
                row.push_back(A[i][j]);
            for (size_t j = 0; j < n; ++j)
                if (where[j])
                    rest -= A[i][j] * x[j];
            S.push_back(row), r.push_back(rest);
        }
        if (!gauss(S, r, y))
            continue;
        for (size_t i = 0; i < open.size(); ++i)
            x[open[i]] = y[i];
        double wrong = 0;
        for (size_t i = 0; i < n; ++i)
        {
            double res = -b[i];
            for (size_t j = 0; j < n; ++j)
                res += A[i][j] * x[j];
            if (!where[i])
                wrong = std::max({wrong, lo[i] - x[i], x[i] - hi[i]});
            else
                wrong = std::max(wrong, where[i] == 1 ? -res : res);
        }
        if (wrong < least)
            least = wrong, best = x;
    }
    return best;
}
struct Side
{
    State6<double> s, v;
};
struct Model
{
    std::vector<Row>     rows;
    bool                 single = false;
    std::vector<double>  beta, gamma;
    std::array<double, 2> dominance{1, 1};
    double               inv[6];
    double               bodyInv[6]; // without dominance

    Mat J(const State6<double>& s) const
    {
        Mat m;
        for (auto& r : rows)
        {
            auto j = r.jacobian(s);
            m.push_back(Vec(j.begin(), j.end()));
            if (single)
                m.back()[3] = m.back()[4] = m.back()[5] = 0;
        }
        return m;
    }
    Mat K(const Mat& j, bool damped) const
    {
        size_t n = rows.size();
        Mat    k(n, Vec(n));
        for (size_t a = 0; a < n; ++a)
            for (size_t b = 0; b < n; ++b)
            {
                for (int i = 0; i < 6; ++i)
                    k[a][b] += j[a][i] * inv[i] * j[b][i];
                if (a == b && damped)
                    k[a][b] += gamma[a];
            }
        return k;
    }
};
static double dotv(const Vec& a, const State6<double>& b)
{
    double s = 0;
    for (int i = 0; i < 6; ++i)
        s += a[i] * b[i];
    return s;
}
enum SolverKind
{
    equality,
    inequality,
    limits
};
enum Zone
{
    off,
    even, // equality
    below,
    above
};
struct Limits
{
    std::optional<float> L, U;
    bool equal() const { return !L && !U || L && U && *L == *U; }
    Zone at(double C) const
    {
        if (equal())
            return even;
        if (L && C <= *L)
            return below;
        if (U && C >= *U)
            return above;
        return off;
    }
};
// velocities after the step, and the impulses
static bool velocityPhase(const Model& m, SolverKind kind, Zone zone, const Limits& lim, const Side& at, double dt, State6<double>& v, Vec& lambda)
{
    Mat    J = m.J(at.s), K = m.K(J, true);
    size_t n = m.rows.size();
    Vec    rhs(n), lo(n), hi(n);
    for (size_t i = 0; i < n; ++i)
    {
        double C = m.rows[i].eval(at.s);
        lo[i] = m.rows[i].lo * dt, hi[i] = m.rows[i].hi * dt;
        if (kind == limits)
        {
            if (zone == below || zone == even && lim.L)
                C -= *lim.L;
            if (zone == above)
                C -= *lim.U;
            if (zone == below)
                lo[i] = std::max(lo[i], 0.0), hi[i] = std::max(hi[i], 0.0);
            if (zone == above)
                lo[i] = std::min(lo[i], 0.0), hi[i] = std::min(hi[i], 0.0);
        }
        rhs[i] = -(dotv(J[i], at.v) + m.rows[i].bias + m.beta[i] / dt * C);
    }
    lambda = boxed(K, rhs, lo, hi);
    if (lambda.empty())
        return false;
    v = at.v;
    for (size_t i = 0; i < n; ++i)
        for (int k = 0; k < 6; ++k)
            v[k] += m.inv[k] * J[i][k] * lambda[i];
    return true;
}
static bool positionPhase(const Model& m, SolverKind kind, const Limits& lim, State6<double>& s, int iterations)
{
    size_t n = m.rows.size();
    for (int it = 0; it < iterations; ++it)
    {
        Mat  J = m.J(s), K = m.K(J, false);
        Vec  rhs(n), l;
        Zone zone = even;
        if (kind == limits)
        {
            zone = lim.at(m.rows[0].eval(s));
            if (zone == off)
                continue;
        }
        for (size_t i = 0; i < n; ++i)
        {
            double C = m.rows[i].eval(s);
            if (kind == limits)
                C -= zone == above ? *lim.U : lim.L ? *lim.L : 0;
            rhs[i] = -C;
        }
        if (!gauss(K, rhs, l))
            return false;
        for (size_t i = 0; i < n; ++i)
        {
            double lo = m.rows[i].plo, hi = m.rows[i].phi;
            if (kind == limits && zone == below)
                lo = std::max(lo, 0.0), hi = std::max(hi, 0.0);
            if (kind == limits && zone == above)
                lo = std::min(lo, 0.0), hi = std::min(hi, 0.0);
            l[i] = std::clamp(l[i], lo, hi);
            for (int k = 0; k < 6; ++k)
                s[k] += m.inv[k] * J[i][k] * l[i];
        }
    }
    return true;
}

////////////////////////////////////////////////////////////////
// comparison
////////////////////////////////////////////////////////////////
static Side sideOf(const Body* a, const Body* b)
{
    auto f = [](const Body* x, double* s, double* v) {
        s[0] = x->centroid()[0], s[1] = x->centroid()[1], s[2] = x->orientation();
        v[0] = x->velocity()[0], v[1] = x->velocity()[1], v[2] = x->angularVelocity();
    };
    Side r;
    f(a, &r.s[0], &r.v[0]), f(b, &r.s[3], &r.v[3]);
    return r;
}
struct Expect
{
    bool velocities = true, positions = true;
};
static const char* part(int k)
{
    static const char* n[] = {"the first body's x", "the first body's y", "the first body's angle", "the second body's x", "the second body's y", "the second body's angle"};
    return n[k];
}
static void stepAndCompare(mc::Ctx& ctx, World& w, Body* a, Body* b, Model& m, SolverKind kind, const Limits& lim, float dt, int step, Expect what)
{
    for (int k = 0; k < 6; ++k)
    {
        const Body* x = k < 3 ? a : b;
        m.bodyInv[k]  = k % 3 == 2 ? 1.0 / x->inertia() : 1.0 / x->mass();
        m.inv[k]      = m.bodyInv[k] * m.dominance[k / 3];
    }
    Side before = sideOf(a, b);
    w.step(dt);
    ctx.transition();
    Side after = sideOf(a, b);
    int  last  = m.single ? 3 : 6;
    double size = 1;
    for (int k = 0; k < last; ++k)
    {
        MC_CHECK(std::isfinite(after.s[k]) && std::isfinite(after.v[k]), "finite", "step %d: %s is not a number", step, part(k));
        size = std::max(size, std::abs(before.s[k]));
    }

    std::vector<Zone> zones{even};
    if (kind == limits)
    {
        double C = m.rows[0].eval(before.s), near = 2e-6 * size;
        zones = {lim.at(C)};
        for (double d : {-near, near})
            if (lim.at(C + d) != zones[0])
                zones.push_back(lim.at(C + d));
    }
    std::string why;
    for (Zone z : zones)
    {
        State6<double> v = before.v, s = before.s;
        Vec            lambda(m.rows.size());
        if (z != off && !velocityPhase(m, kind, z, lim, before, dt, v, lambda))
            ctx.prune();
        for (int k = 0; k < 6; ++k)
            s[k] += v[k] * dt;
        if (z != off && what.positions && !positionPhase(m, kind, lim, s, (int)w.settings().nPositionIterations))
            ctx.prune();
        // impulses are kept in single precision
        double scaleV = 0, scaleS = 0;
        auto   J = m.J(before.s);
        double gain[6]{};
        for (int k = 0; k < 6; ++k)
        {
            for (size_t i = 0; i < m.rows.size(); ++i)
                gain[k] += m.inv[k] * std::abs(J[i][k] * lambda[i]);
            scaleV = std::max({scaleV, std::abs(before.v[k]), std::abs(v[k]), gain[k]});
            scaleS = std::max({scaleS, std::abs(before.s[k]), std::abs(s[k])});
        }
        double stab = *std::max_element(m.beta.begin(), m.beta.end()) / dt * 1e-6 * size;
        double tolV = 2e-5 * scaleV + 1e-6 + stab, tolS = tolV * dt + 2e-5 * scaleS + 1e-6, worst = 0;
        why.clear();
        for (int k = 0; k < last && why.empty(); ++k)
        {
            if (what.velocities && std::abs(after.v[k] - v[k]) > tolV)
                why = mc::fmt("the velocity of %s is %.7g and should be %.7g (it was %.7g)", part(k), after.v[k], v[k], before.v[k]);
            else if (what.positions && std::abs(after.s[k] - s[k]) > tolS)
                why = mc::fmt("%s is %.7g and should be %.7g (it was %.7g)", part(k), after.s[k], s[k], before.s[k]);
            worst = std::max(worst, std::abs(after.v[k] - v[k]) / tolV);
        }
        ctx.log("step %d: zone %d, impulse %g: %s (%g)", step, z, lambda[0], why.empty() ? "agrees" : why.c_str(), worst);
        if (why.empty())
        {
            if (kind == limits)
                ctx.outcome(z == off ? "inert" : z == even ? "equality" : z == below ? "lower limit" : "upper limit");
            else
            {
                bool at = false;
                for (size_t i = 0; i < lambda.size(); ++i)
                    at = at || lambda[i] <= m.rows[i].lo * dt || lambda[i] >= m.rows[i].hi * dt;
                ctx.outcome(at ? "at a bound" : "free");
            }
            break;
        }
    }
    MC_CHECK(why.empty(), "motion", "step %d: %s", step, why.c_str());
    if (!m.single)
        for (int k = 0; k < 6; ++k)
            MC_CHECK(m.dominance[k / 3] != 0 || after.v[k] == before.v[k], "structural", "step %d: the velocity of %s changed although it cannot be moved", step, part(k));
    ctx.validated();
    ctx.state(mc::Hasher().addf(after.v[0]).addf(after.v[1]).addf(after.v[2]).addf(after.v[3]).addf(after.v[4]).addf(after.v[5]).addf(after.s[2]).addf(after.s[3]).h);
}

////////////////////////////////////////////////////////////////
// scenes
////////////////////////////////////////////////////////////////
struct Scene
{
    BodySpec a, b;
    bool     overrides = false; // dominances given to the constraint and not to the bodies
};
static const std::vector<Scene>& scenes()
{
    static std::vector<Scene> s = [] {
        std::vector<Scene> r(4);
        r[0].a.at = {0, 0}, r[0].b.at = {3, 1};
        r[1].a.at = {-1, 2}, r[1].b.at = {2, 1.5};
        r[1].a.theta = 0.5, r[1].b.theta = -2, r[1].a.density = 10, r[1].b.w = 2, r[1].a.offset = {0.25, -0.5};
        r[2].a.at = {0, 0}, r[2].b.at = {2.5, -1};
        r[2].a.dominance = 0, r[2].b.h = 3, r[2].b.theta = 0.3, r[2].b.density = 0.5;
        r[3].a.at = {0, 0}, r[3].b.at = {3, 1};
        r[3].overrides = true, r[3].a.dominance = 0.25, r[3].b.dominance = 2, r[3].a.density = 3;
        return r;
    }();
    return s;
}
struct Motion
{
    P      v0;
    double w0;
    P      v1;
    double w1;
};
static const std::vector<Motion> motions{{{1, 0.5}, 0.5, {-0.5, -1}, -1.5}, {{0, 0}, 0, {0, 0}, 0}, {{-2, 1}, -1, {3, 2}, 2}};
static std::pair<Body*, Body*> build(World& w, const Scene& s, const Motion& v, std::unique_ptr<Bodies>& bodies)
{
    BodySpec a = s.a, b = s.b;
    if (s.overrides)
        a.dominance = b.dominance = 1;
    a.v = v.v0, a.spin = v.w0, b.v = v.v1, b.spin = v.w1;
    Body *x = makeBox(w, a), *y = makeBox(w, b);
    if (s.overrides)
        bodies = std::make_unique<Bodies>(Bodies{{x, y}, Bodies::Dominance{(float)s.a.dominance, (float)s.b.dominance}});
    else
        bodies = std::make_unique<Bodies>(Bodies{{x, y}});
    return {x, y};
}
static Row lin(std::array<double, 6> k)
{
    Row r;
    r.k = k;
    return r;
}
static Row pointRow(Row::Kind kind, P p0, P p1, P place = {})
{
    Row r;
    r.kind = kind, r.p0 = p0, r.p1 = p1, r.place = place;
    return r;
}
static const std::vector<Row>& shapes()
{
    static const std::vector<Row> r{
        lin({0, 0, -1, 0, 0, 1}),             // relative angle
        lin({-1, 0, 0, 1, 0, 0}),             // slider
        lin({0, 0, 2, 0, 0, 1}),              // gears
        lin({0, -1, 0, 0, 0, 0.5}),           // rack
        lin({1, 0.5, -0.25, -1, 2, 0.5}),     // any
        pointRow(Row::height, {}, {0.5, -0.25}),
        pointRow(Row::distance, {}, {0.25, 0.25}, {5, 4}),
        pointRow(Row::gapY, {0.5, 0.5}, {-0.5, 0.25}),
    };
    return r;
}
// the constant is such that the function starts at the given value
static Row startingAt(Row r, double at, const Body* a, const Body* b)
{
    r.a = 0;
    r.a = (float)(r.eval(sideOf(a, b).s) - at);
    return r;
}
template <Uint32 D>
static UserFunction<2, D> userFunction(const std::vector<Row>& rows)
{
    UserFunction<2, D> f;
    for (Uint32 i = 0; i < D; ++i)
        f.rows[i] = rows[i];
    return f;
}
static void force(Row& r, int c)
{
    if (c == 1)
        r.lo = -20, r.hi = 20;
    if (c == 2)
        r.lo = 0;
    if (c == 3)
        r.lo = -5, r.hi = 0;
}
static void correction(Row& r, int c)
{
    if (c == 1)
        r.plo = r.phi = 0;
    if (c == 2)
        r.plo = -0.01, r.phi = 0.02;
}
template <class C>
static void soft(C* c, Model& m)
{
    for (size_t i = 0; i < m.rows.size(); ++i)
    {
        c->sol().restitution()[i] = (float)m.beta[i];
        c->sol().damping()[i]     = (float)m.gamma[i];
    }
}
static void push(Body* a, Body* b, int how)
{
    if (how == 1)
        b->setVelocity(b->velocity() + Vec2{-2.f, 1.f}), b->setAngularVelocity(b->angularVelocity() + 1.5f);
    if (how == 2)
        b->setVelocity(b->velocity() + Vec2{3.f, -2.f}), b->setAngularVelocity(b->angularVelocity() - 2.f), a->setAngularVelocity(a->isStructural() ? 0.f : a->angularVelocity() + 0.5f);
}

// the impulses that the solver says it applied are those that the bodies received
template <class C>
static void heldImpulse(mc::Ctx& ctx, C* c, const Model& m, const Side& before, const Body* a, const Body* b, int step)
{
    auto  lambda = c->sol().getAccumulatedLambda();
    auto  after  = sideOf(a, b);
    Mat   J      = m.J(before.s);
    for (int k = 0; k < 6; ++k)
    {
        double dv = 0, scale = std::abs(before.v[k]) + std::abs(after.v[k]);
        for (size_t i = 0; i < m.rows.size(); ++i)
            dv += m.inv[k] * J[i][k] * lambda[i], scale += std::abs(m.inv[k] * J[i][k] * lambda[i]);
        MC_CHECK(std::abs(after.v[k] - before.v[k] - dv) < 1e-5 * scale + 1e-6, "impulse", "step %d: the velocity of %s changed by %g, the impulse reported gives %g", step, part(k), after.v[k] - before.v[k], dv);
    }
}
// one row that is held at zero
MC_SCENARIO(equal)
{
    World w;
    auto  settings = w.settings();
    auto  sc       = ctx.pick(scenes(), "scene");
    auto  shape    = ctx.pick(shapes(), "function");
    auto  mo       = ctx.pick(motions, "motion");
    std::unique_ptr<Bodies> bodies;
    auto [a, b] = build(w, sc, mo, bodies);
    Model m;
    m.dominance = {sc.a.dominance, sc.b.dominance};
    Row r       = startingAt(shape, ctx.pick(std::vector<double>{0, 0.125, -0.25}, "error"), a, b);
    m.beta      = {ctx.pick(std::vector<double>{0, 0.25, 1}, "restitution")};
    m.gamma     = {ctx.pick(std::vector<double>{0, 0.5}, "damping")};
    r.bias      = ctx.pick(std::vector<double>{0, -0.75}, "bias");
    force(r, ctx.choose(4, "force"));
    correction(r, ctx.choose(3, "correction"));
    m.rows                      = {r};
    settings.enableWarmstarting = ctx.flag("warm");
    int it = ctx.choose(ctx.tier(2, 3), "iterations");
    settings.nVelocityIterations = it == 0 ? 1 : it == 1 ? 8 : 3;
    settings.nPositionIterations = it == 0 ? 1 : it == 1 ? 2 : 0;
    w.updateSettings(settings);
    auto* c = w.makeConstraint<UserConstraint<UserFunction<2, 1>, EqualitySolver<UserFunction<2, 1>>>>(*bodies, userFunction<1>(m.rows));
    soft(c, m);
    float dt = ctx.flag("long step") ? 0.125f : 1 / 64.f;
    for (int s = 0; s < 3; ++s)
    {
        push(a, b, s);
        Side before = sideOf(a, b);
        stepAndCompare(ctx, w, a, b, m, equality, {}, dt, s, {});
        heldImpulse(ctx, c, m, before, a, b, s);
    }
}
// limits changed between steps
static void setLimit(mc::Ctx& ctx, LimitsSolver<UserFunction<2, 1>>& s, Limits& l, bool upper, std::optional<float> x)
{
    typedef Vector<float, 1> V;
    std::optional<V>         v;
    if (x)
        v = V{*x};
    if (upper)
        s.setUpperLimit(v), l.U = x;
    else
        s.setLowerLimit(v), l.L = x;
}
MC_SCENARIO(limited)
{
    World w;
    auto  settings = w.settings();
    auto  sc       = scenes()[ctx.choose(ctx.tier(3, 4), "scene")];
    auto  shape    = shapes()[std::vector<int>{0, 1, 4, 6, 7}[ctx.choose(ctx.tier(4, 5), "function")]];
    std::unique_ptr<Bodies> bodies;
    auto [a, b] = build(w, sc, motions[0], bodies);
    Model m;
    m.dominance = {sc.a.dominance, sc.b.dominance};
    Row r       = startingAt(shape, ctx.pick(std::vector<double>{0, 0.5, -0.25}, "value"), a, b);
    int softness = ctx.choose(3, "softness");
    m.beta      = {softness == 1 ? 0.25 : 0};
    m.gamma     = {softness == 2 ? 0.5 : 0};
    r.bias      = softness == 2 ? -0.25 : 0;
    force(r, ctx.choose(3, "force"));
    if (softness == 2)
        correction(r, 2);
    m.rows                       = {r};
    settings.nPositionIterations = softness == 1 ? 0 : 2;
    w.updateSettings(settings);
    auto* c = w.makeConstraint<UserConstraint<UserFunction<2, 1>, LimitsSolver<UserFunction<2, 1>>>>(*bodies, userFunction<1>(m.rows));
    soft(c, m);
    Limits lim;
    static const std::vector<std::pair<std::optional<float>, std::optional<float>>> starts{{std::nullopt, std::nullopt}, {-0.125f, std::nullopt}, {std::nullopt, 0.25f}, {-0.125f, 0.25f}, {0.25f, 0.25f}};
    auto st = ctx.pick(starts, "limits");
    setLimit(ctx, c->sol(), lim, true, st.second);
    setLimit(ctx, c->sol(), lim, false, st.first);
    float dt = 1 / 32.f;
    int depth = ctx.tier(2, 3);
    for (int s = 0; s < depth + 1; ++s)
    {
        if (s)
            switch (ctx.choose(8, "change"))
            {
                case 0: break;
                case 1: push(a, b, 1); break;
                case 2: push(a, b, 2); break;
                case 3: setLimit(ctx, c->sol(), lim, false, std::nullopt); break;
                case 4: setLimit(ctx, c->sol(), lim, true, std::nullopt); break;
                case 5:
                    if (lim.U && *lim.U < 0.125f)
                        ctx.prune();
                    setLimit(ctx, c->sol(), lim, false, 0.125f);
                    break;
                case 6:
                    if (lim.L && *lim.L > -0.0625f)
                        ctx.prune();
                    setLimit(ctx, c->sol(), lim, true, -0.0625f);
                    break;
                case 7: // both at the same value
                    setLimit(ctx, c->sol(), lim, false, std::nullopt);
                    setLimit(ctx, c->sol(), lim, true, 0.0625f);
                    setLimit(ctx, c->sol(), lim, false, 0.0625f);
                    break;
            }
        stepAndCompare(ctx, w, a, b, m, limits, lim, dt, s, {});
    }
}
// one row held on one side
template <Uint32 D, class F>
static void inequalityCase(mc::Ctx& ctx, World& w, Body* a, Body* b, const Bodies& bodies, Model& m, const F& f, Expect what, int steps)
{
    auto* c = w.makeConstraint<UserConstraint<F, InequalitySolver<F>>>(bodies, f);
    soft(c, m);
    for (int s = 0; s < steps; ++s)
    {
        push(a, b, s);
        stepAndCompare(ctx, w, a, b, m, inequality, {}, 1 / 32.f, s, what);
    }
}
MC_SCENARIO(unequal)
{
    World w;
    auto  settings = w.settings();
    auto  sc       = ctx.pick(scenes(), "scene");
    auto  shape    = ctx.pick(shapes(), "function");
    auto  mo       = ctx.pick(motions, "motion");
    std::unique_ptr<Bodies> bodies;
    auto [a, b] = build(w, sc, mo, bodies);
    Model m;
    m.dominance = {sc.a.dominance, sc.b.dominance};
    Row r       = startingAt(shape, ctx.pick(std::vector<double>{0, 0.125, -0.25}, "error"), a, b);
    m.beta      = {ctx.pick(std::vector<double>{0, 0.25, 1}, "restitution")};
    m.gamma     = {ctx.pick(std::vector<double>{0, 0.5}, "damping")};
    r.bias      = ctx.pick(std::vector<double>{0, -0.75}, "bias");
    int fo      = ctx.choose(4, "force");
    bool based  = fo == 0;
    force(r, based ? 2 : fo);
    correction(r, based ? 0 : ctx.choose(3, "correction"));
    if (based)
        r.plo = 0;
    m.rows                      = {r};
    settings.enableWarmstarting = ctx.flag("warm");
    int it                      = ctx.choose(2, "iterations");
    settings.nVelocityIterations = it == 0 ? 1 : 8;
    settings.nPositionIterations = it == 0 ? 1 : 2;
    w.updateSettings(settings);
    if (based)
        inequalityCase<1>(ctx, w, a, b, *bodies, m, InequalityFunction<1>({r}), {}, 3);
    else
        inequalityCase<1>(ctx, w, a, b, *bodies, m, userFunction<1>({r}), {}, 3);
}
////////////////////////////////////////////////////////////////
// several rows
////////////////////////////////////////////////////////////////
static double conditioning(const Mat& K)
{
    // norm of K times that of its inverse
    size_t n = K.size();
    double a = 0, b = 0;
    for (size_t i = 0; i < n; ++i)
    {
        Vec e(n), x;
        e[i] = 1;
        if (!gauss(K, e, x))
            return 1e30;
        double s = 0, t = 0;
        for (size_t j = 0; j < n; ++j)
            s += std::abs(K[i][j]), t += std::abs(x[j]);
        a = std::max(a, s), b = std::max(b, t);
    }
    return a * b;
}
static void setMasses(Model& m, const Body* a, const Body* b)
{
    for (int k = 0; k < 6; ++k)
    {
        const Body* x = k < 3 ? a : b;
        m.inv[k]      = m.dominance[k / 3] * (k % 3 == 2 ? 1.0 / x->inertia() : 1.0 / x->mass());
    }
}
// only where single precision can tell the rows apart
static bool regular(Model& m, const Body* a, const Body* b, double most)
{
    setMasses(m, a, b);
    auto J = m.J(sideOf(a, b).s);
    return conditioning(m.K(J, false)) < most;
}
// rows of the library's functions, at the place where the constraint is made
static std::vector<Row> hingeRows(const Body* a, const Body* b, P at)
{
    std::vector<Row> r;
    auto             s  = sideOf(a, b).s;
    P                c0 = {s[0], s[1]}, c1 = {s[3], s[4]};
    auto             q0 = Row::turned<double>(at - c0, -s[2]), q1 = Row::turned<double>(at - c1, -s[5]);
    r.push_back(pointRow(Row::gapX, {q0[0], q0[1]}, {q1[0], q1[1]}));
    r.push_back(pointRow(Row::gapY, {q0[0], q0[1]}, {q1[0], q1[1]}));
    return r;
}
static Row rotationRow(const Body* a, const Body* b) { return startingAt(shapes()[0], 0, a, b); }
// what a combination of functions gives is what its parts give, one after the other
template <class F, class... Parts>
static void compareParts(mc::Ctx& ctx, const F& f, const Proxies& p, float dt, const Parts&... parts)
{
    auto           value = f.eval(p);
    auto           bias  = f.bias(p);
    auto           J     = f.jacobian(p);
    Vector<float, F::dimension> probe;
    for (int kind = 0; kind < 4; ++kind)
    {
        for (Uint32 i = 0; i < F::dimension; ++i)
            probe[i] = (kind & 1 ? -1.f : 1.f) * (kind & 2 ? 1e-3f : 7.f) * (i + 1.f) * (i % 2 ? -1.f : 1.f);
        auto   clamped = f.clampLambda(probe, dt);
        auto   posed   = f.clampPositionLambda(probe);
        Uint32 row     = 0;
        auto   one     = [&](const auto& part) {
            typedef std::remove_cvref_t<decltype(part)> Part;
            auto                                        v = part.eval(p);
            auto                                        b = part.bias(p);
            auto                                        j = part.jacobian(p);
            Vector<float, Part::dimension>              sub;
            for (Uint32 i = 0; i < Part::dimension; ++i)
                sub[i] = probe[row + i];
            auto c = part.clampLambda(sub, dt);
            auto q = part.clampPositionLambda(sub);
            for (Uint32 i = 0; i < Part::dimension; ++i, ++row)
            {
                MC_CHECK(value[row] == v[i], "value", "row %u: %g instead of %g", row, value[row], v[i]);
                MC_CHECK(bias[row] == b[i], "bias", "row %u: %g instead of %g", row, bias[row], b[i]);
                MC_CHECK(clamped[row] == c[i], "bounds", "row %u: %g is bounded to %g instead of %g", row, probe[row], clamped[row], c[i]);
                MC_CHECK(posed[row] == q[i], "bounds", "row %u: a correction of %g is bounded to %g instead of %g", row, probe[row], posed[row], q[i]);
                for (Uint32 k = 0; k < 6; ++k)
                    MC_CHECK(J(row, k) == j(i, k), "jacobian", "row %u, column %u: %g instead of %g", row, k, J(row, k), j(i, k));
            }
        };
        (one(parts), ...);
        MC_CHECK(row == F::dimension, "rows", "%u rows instead of %u", (unsigned)F::dimension, row);
    }
    ctx.validated(4);
}
struct Multi
{
    World                   w;
    World::Settings         settings;
    std::unique_ptr<Bodies> bodies;
    Body *                  a, *b;
    Model                   m;
    Multi(mc::Ctx& ctx) : settings(w.settings())
    {
        auto sc     = ctx.pick(scenes(), "scene");
        auto mo     = motions[ctx.choose(2, "motion") * 2];
        std::tie(a, b) = build(w, sc, mo, bodies);
        m.dominance = {sc.a.dominance, sc.b.dominance};
        int soft    = ctx.choose(3, "softness");
        beta = soft == 1 ? 0.25 : 0, gamma = soft == 2 ? 0.5 : 0;
        settings.enableWarmstarting = !ctx.flag("cold");
    }
    double beta, gamma;
    void add(Row r, double error, double bias, int fo, int co)
    {
        r      = startingAt(r, error, a, b);
        r.bias = bias;
        force(r, fo), correction(r, co);
        addAsIs(r);
    }
    void addAsIs(const Row& r)
    {
        m.rows.push_back(r);
        // each row has its own
        m.beta.push_back(beta * (m.beta.size() + 1)), m.gamma.push_back(gamma * (m.gamma.size() + 1));
    }
    void start()
    {
        w.updateSettings(settings);
        setMasses(m, a, b);
    }
};
template <class F, class S, class... Parts>
static void combinedCase(mc::Ctx& ctx, Multi& q, SolverKind kind, Expect what, const F& f, const Parts&... parts)
{
    const float dt = 1 / 32.f;
    auto*       c  = q.w.makeConstraint<UserConstraint<F, S>>(*q.bodies, f);
    soft(c, q.m);
    if constexpr (sizeof...(Parts) > 0)
        c->look = [&](const F& fn, const Proxies& p) { compareParts(ctx, fn, p, dt, parts...); };
    for (int s = 0; s < 3; ++s)
    {
        push(q.a, q.b, s);
        Side before = sideOf(q.a, q.b);
        stepAndCompare(ctx, q.w, q.a, q.b, q.m, kind, {}, dt, s, what);
        if (kind == equality && what.velocities && regular(q.m, q.a, q.b, 100))
            heldImpulse(ctx, c, q.m, before, q.a, q.b, s);
    }
}
template <Uint32 D>
static UserFunction<2, D> from(const Model& m, size_t first)
{
    UserFunction<2, D> f;
    for (Uint32 i = 0; i < D; ++i)
        f.rows[i] = m.rows[first + i];
    return f;
}
static const std::vector<std::vector<int>> pairs{{0, 1}, {1, 3}, {4, 7}, {2, 5}, {6, 0}, {3, 4}};
static const std::vector<std::vector<int>> triples{{0, 1, 3}, {4, 7, 2}, {5, 1, 0}, {6, 3, 2}};

// equalities of several rows, and combinations of functions
MC_SCENARIO(combined)
{
    Multi q(ctx);
    int   how   = ctx.choose(9, "functions");
    bool  three = how >= 2 && how <= 5;
    auto  error = ctx.flag("error") ? 0.0625 : 0.0;
    auto  bias  = ctx.flag("bias") ? -0.5 : 0.0;
    P     at    = {1.25, 0.75};
    Expect what{true, true};
    // how an equality shares what its bounds take away is not defined: only the parts are compared
    bool bounds = how < 6 && ctx.flag("bounds");
    if (bounds)
        what = {false, false};
    if (how < 6)
    {
        auto ids = ctx.pick(three ? triples : pairs, "rows");
        for (size_t i = 0; i < ids.size(); ++i)
            q.add(shapes()[ids[i]], error * (i ? -0.5 : 1), bias * (i ? -2 : 1), bounds ? 1 + (int)i : 0, bounds ? 1 + (int)(i % 2) : 0);
    }
    else
    {
        auto hinge = hingeRows(q.a, q.b, at);
        auto extra = how == 6 ? startingAt(shapes()[2], error, q.a, q.b) : rotationRow(q.a, q.b);
        if (how == 6)
            extra.bias = bias;
        else if (bias != 0 || error != 0)
            ctx.prune();
        if (how == 8)
            q.addAsIs(extra);
        for (auto& r : hinge)
            q.addAsIs(r);
        if (how != 8)
            q.addAsIs(extra);
    }
    q.start();
    if (!regular(q.m, q.a, q.b, 300))
        ctx.prune();
    typedef UserFunction<2, 1> U1;
    typedef UserFunction<2, 2> U2;
    typedef UserFunction<2, 3> U3;
    auto &m = q.m;
    switch (how)
    {
        case 0: combinedCase<U2, EqualitySolver<U2>>(ctx, q, equality, what, from<2>(m, 0)); break;
        case 1:
        {
            typedef ConstraintFunctions<U1, U1> F;
            auto x = from<1>(m, 0), y = from<1>(m, 1);
            combinedCase<F, EqualitySolver<F>>(ctx, q, equality, what, F{x, y}, x, y);
            break;
        }
        case 2: combinedCase<U3, EqualitySolver<U3>>(ctx, q, equality, what, from<3>(m, 0)); break;
        case 3:
        {
            typedef ConstraintFunctions<U1, U2> F;
            auto x = from<1>(m, 0);
            auto y = from<2>(m, 1);
            combinedCase<F, EqualitySolver<F>>(ctx, q, equality, what, F{x, y}, x, y);
            break;
        }
        case 4:
        {
            typedef ConstraintFunctions<U1, U1, U1> F;
            auto x = from<1>(m, 0), y = from<1>(m, 1), z = from<1>(m, 2);
            combinedCase<F, EqualitySolver<F>>(ctx, q, equality, what, F{x, y, z}, x, y, z);
            break;
        }
        case 5:
        {
            typedef EqualityFunction<2>         E2;
            typedef ConstraintFunctions<E2, U1> F;
            E2   x({m.rows[0], m.rows[1]});
            auto y = from<1>(m, 2);
            combinedCase<F, EqualitySolver<F>>(ctx, q, equality, what, F{x, y}, x, y);
            break;
        }
        case 6:
        {
            typedef ConstraintFunctions<HingeConstraintFunction, U1> F;
            HingeConstraintFunction x(*q.bodies, geo::toV(at));
            auto                    y = from<1>(m, 2);
            combinedCase<F, EqualitySolver<F>>(ctx, q, equality, what, F{x, y}, x, y);
            break;
        }
        case 7:
        {
            typedef ConstraintFunctions<HingeConstraintFunction, RotationConstraintFunction> F;
            HingeConstraintFunction    x(*q.bodies, geo::toV(at));
            RotationConstraintFunction y(*q.bodies);
            combinedCase<F, EqualitySolver<F>>(ctx, q, equality, what, F{x, y}, x, y);
            break;
        }
        case 8:
        {
            typedef ConstraintFunctions<RotationConstraintFunction, HingeConstraintFunction> F;
            HingeConstraintFunction    x(*q.bodies, geo::toV(at));
            RotationConstraintFunction y(*q.bodies);
            combinedCase<F, EqualitySolver<F>>(ctx, q, equality, what, F{y, x}, y, x);
            break;
        }
    }
}
// several rows, each with bounds
MC_SCENARIO(bounded)
{
    Multi  q(ctx);
    int    how   = ctx.choose(6, "functions");
    bool   three = how == 1 || how == 3;
    auto   ids   = ctx.pick(three ? triples : pairs, "rows");
    double error = ctx.pick(std::vector<double>{0, 0.0625, -0.125}, "error");
    double bias  = ctx.flag("bias") ? -0.5 : 0.0;
    for (size_t i = 0; i < ids.size(); ++i)
    {
        int fo = how < 2 || how == 5 ? ctx.choose(4, "force") : how == 4 ? (i ? 2 : 0) : 2;
        q.add(shapes()[ids[i]], error * (i ? -0.5 : 1), bias * (i ? -2 : 1), fo, 1);
    }
    q.start();
    if (!regular(q.m, q.a, q.b, 100))
        ctx.prune();
    // the documentation does not say how the corrections of bounded rows are shared
    Expect what{true, false};
    typedef UserFunction<2, 1> U1;
    typedef UserFunction<2, 2> U2;
    typedef UserFunction<2, 3> U3;
    auto& m = q.m;
    switch (how)
    {
        case 0: combinedCase<U2, InequalitySolver<U2>>(ctx, q, inequality, what, from<2>(m, 0)); break;
        case 1: combinedCase<U3, InequalitySolver<U3>>(ctx, q, inequality, what, from<3>(m, 0)); break;
        case 2:
        {
            typedef InequalityFunction<2> I2;
            combinedCase<I2, InequalitySolver<I2>>(ctx, q, inequality, what, I2({m.rows[0], m.rows[1]}));
            break;
        }
        case 3:
        {
            typedef InequalityFunction<3> I3;
            combinedCase<I3, InequalitySolver<I3>>(ctx, q, inequality, what, I3({m.rows[0], m.rows[1], m.rows[2]}));
            break;
        }
        case 4:
        {
            typedef EqualityFunction<1>         E1;
            typedef InequalityFunction<1>       I1;
            typedef ConstraintFunctions<E1, I1> F;
            E1 x({m.rows[0]});
            I1 y({m.rows[1]});
            combinedCase<F, InequalitySolver<F>>(ctx, q, inequality, what, F{x, y}, x, y);
            break;
        }
        case 5:
        {
            typedef ConstraintFunctions<U1, U1> F;
            auto x = from<1>(m, 0), y = from<1>(m, 1);
            combinedCase<F, InequalitySolver<F>>(ctx, q, inequality, what, F{x, y}, x, y);
            break;
        }
    }
}
// a constraint of a single body
MC_SCENARIO(single)
{
    World w;
    auto  settings = w.settings();
    auto  sc       = scenes()[ctx.choose(2, "scene")];
    auto  mo       = ctx.pick(motions, "motion");
    std::unique_ptr<Bodies> both;
    auto [a, b] = build(w, sc, mo, both);
    b->setVelocity(Vec2{}), b->setAngularVelocity(0.f);
    Bodies bodies = Bodies::singleBody(a);
    Model  m;
    m.single = true;
    static const std::vector<Row> rs{lin({1, 0, 0, 0, 0, 0}), lin({0.5, -1, 0.25, 0, 0, 0}), lin({0, 0, 1, 0, 0, 0})};
    Row r   = startingAt(ctx.pick(rs, "function"), ctx.pick(std::vector<double>{0, 0.125, -0.25}, "error"), a, a);
    m.beta  = {ctx.pick(std::vector<double>{0, 0.25}, "restitution")};
    m.gamma = {ctx.pick(std::vector<double>{0, 0.5}, "damping")};
    r.bias  = ctx.pick(std::vector<double>{0, -0.75}, "bias");
    force(r, ctx.choose(3, "force")), correction(r, ctx.choose(3, "correction"));
    m.rows                       = {r};
    settings.enableWarmstarting  = ctx.flag("warm");
    settings.nVelocityIterations = ctx.flag("many iterations") ? 8 : 1;
    w.updateSettings(settings);
    typedef UserFunction<1, 1> F;
    F f;
    f.rows[0]    = r;
    int   kind   = ctx.choose(3, "solver");
    Limits lim;
    auto  steps  = [&](auto* c) {
        soft(c, m);
        for (int s = 0; s < 3; ++s)
        {
            if (s)
                a->setVelocity(a->velocity() + Vec2{1.f, -2.f}), a->setAngularVelocity(a->angularVelocity() + (s == 1 ? 1.f : -3.f));
            BodyState other(b);
            stepAndCompare(ctx, w, a, a, m, (SolverKind)kind, lim, 1 / 32.f, s, {});
            MC_CHECK(other == BodyState(b), "other", "step %d: the other body of the world moved", s);
        }
    };
    if (kind == equality)
        steps(w.makeConstraint<UserConstraint<F, EqualitySolver<F>>>(bodies, f));
    else if (kind == inequality)
        steps(w.makeConstraint<UserConstraint<F, InequalitySolver<F>>>(bodies, f));
    else
    {
        auto* c = w.makeConstraint<UserConstraint<F, LimitsSolver<F>>>(bodies, f);
        c->sol().setLowerLimit(Vector<float, 1>{-0.125f}), lim.L = -0.125f;
        c->sol().setUpperLimit(Vector<float, 1>{0.0625f}), lim.U = 0.0625f;
        steps(c);
    }
}
// rows that say the same: softened, they share the impulse
MC_SCENARIO(redundant)
{
    Multi q(ctx);
    if (q.gamma == 0)
        ctx.prune();
    int    id    = ctx.choose((int)shapes().size(), "function");
    double error = ctx.pick(std::vector<double>{0, 0.0625, -0.125}, "error");
    int    n     = 2 + ctx.choose(2, "rows");
    for (int i = 0; i < n; ++i)
        q.add(shapes()[id], error, 0, 0, ctx.choose(2, "correction"));
    q.start();
    // corrections cannot be shared: they must be finite and the step must go on
    Expect what{true, false};
    typedef UserFunction<2, 2> U2;
    typedef UserFunction<2, 3> U3;
    int solver = ctx.choose(2, "solver");
    if (n == 2 && solver == 0)
        combinedCase<U2, EqualitySolver<U2>>(ctx, q, equality, what, from<2>(q.m, 0));
    else if (n == 2)
        combinedCase<U2, InequalitySolver<U2>>(ctx, q, inequality, what, from<2>(q.m, 0));
    else if (solver == 0)
        combinedCase<U3, EqualitySolver<U3>>(ctx, q, equality, what, from<3>(q.m, 0));
    else
        combinedCase<U3, InequalitySolver<U3>>(ctx, q, inequality, what, from<3>(q.m, 0));
}

// the impulses that a step starts from, seen by not iterating: those which the previous one ended with, or none
struct Change
{
    P      dv;
    double dw;
};
struct Warmed
{
    mc::Ctx&            ctx;
    World               w;
    World::Settings     settings = w.settings();
    std::vector<Body*>  bodies;
    explicit Warmed(mc::Ctx& ctx) : ctx{ctx} { settings.nPositionIterations = 0; }
    std::vector<Change> step(double dt, int iterations, bool warm)
    {
        settings.nVelocityIterations = iterations;
        settings.enableWarmstarting  = warm;
        w.updateSettings(settings);
        std::vector<BodyState> before;
        for (Body* b : bodies)
            before.push_back(b);
        w.step((float)dt);
        ctx.transition();
        std::vector<Change> r;
        for (size_t i = 0; i < bodies.size(); ++i)
            r.push_back({geo::toP(bodies[i]->velocity()) - geo::toP(before[i].v), (double)bodies[i]->angularVelocity() - before[i].w});
        return r;
    }
    static double size(const std::vector<Change>& c)
    {
        double s = 0;
        for (auto& x : c)
            s = std::max({s, geo::norm(x.dv), std::abs(x.dw)});
        return s;
    }
    void expect(const std::vector<Change>& got, const std::vector<Change>& impulses, double scale, const char* what, int at)
    {
        double tol = scale == 0 ? 0 : 0.02 * size(impulses) + 1e-6;
        for (size_t i = 0; i < got.size(); ++i)
        {
            P e = got[i].dv - impulses[i].dv * scale;
            MC_CHECK(std::abs(e.x) <= tol && std::abs(e.y) <= tol && std::abs(got[i].dw - scale * impulses[i].dw) <= tol, "start",
                     "%s: before iterating, step %d changes the velocity of body %zu by (%g, %g) and its spin by %g instead of (%g, %g) and %g", what, at, i, got[i].dv.x, got[i].dv.y, got[i].dw, scale * impulses[i].dv.x,
                     scale * impulses[i].dv.y, scale * impulses[i].dw);
        }
    }
};
MC_SCENARIO(starts)
{
    enum { nothing = nJoints, pushes, turns, touches, nKinds };
    static const char* names[] = {"a translation motor", "a rotation motor", "a contact"};
    int                kind    = 1 + ctx.choose(nKinds - 1, "kind");
    if (kind == nothing)
        ctx.prune();
    Warmed q(ctx);
    double ratio = ctx.pick(std::vector<double>{1, 4}, "density");
    int    side  = ctx.choose(3, "structural");
    int    mo    = ctx.choose(3, "motion");
    double dt    = 1 / 16384.;
    const char* what = kind < nJoints ? jointName(kind) : names[kind - pushes];
    TranslationMotor* tm = nullptr;
    RotationMotor*    rm = nullptr;
    bool              saturated = false;
    static const std::vector<std::array<double, 6>> motions6{{0, 1, 0, 0.5, -1, 2}, {-1, 0.25, 1, 1, 0, 0}, {0.5, 0, -2, -1, 0.5, 1}};
    auto& m = motions6[mo];
    auto  move = [&] {
        for (int i = 0; i < (int)q.bodies.size(); ++i)
            if (!q.bodies[i]->isStructural())
                q.bodies[i]->setVelocity(Vec2{(float)m[3 * i], (float)m[3 * i + 1]}), q.bodies[i]->setAngularVelocity((float)m[3 * i + 2]);
    };
    if (kind < nJoints)
    {
        BodySpec a, b;
        b.at = {3, 0.5}, b.theta = 0.25, b.h = 2, b.density = ratio;
        a.offset = {0.25, 0};
        (side == 1 ? a : b).dominance = side ? 0 : 1;
        q.bodies = {makeBox(q.w, a), makeBox(q.w, b)};
        // limits that are already exceeded
        double d = std::hypot(3 - 0.25, 0.25), lo = kind == minDistance || kind == rangeDistance ? 2 * d : d, hi = kind == maxDistance ? d / 2 : 4 * d;
        makeJoint(q.w, kind, Bodies{q.bodies[0], q.bodies[1]}, P{1.5, 1}, {P{0.25, 0.25}, P{3, 0.5}}, kind == exactDistance ? d : lo, hi);
        move();
        if (kind == minDistance || kind == rangeDistance) // towards each other
            for (int i = 0; i < 2; ++i)
                if (!q.bodies[i]->isStructural())
                    q.bodies[i]->setVelocity(q.bodies[i]->velocity() + Vec2{i ? -3.f : 3.f, 0.f});
        if (kind == maxDistance)
            for (int i = 0; i < 2; ++i)
                if (!q.bodies[i]->isStructural())
                    q.bodies[i]->setVelocity(q.bodies[i]->velocity() + Vec2{i ? 3.f : -3.f, 0.f});
    }
    else if (kind == touches)
    {
        BodySpec floor, a;
        floor.w = 8, floor.dominance = side == 1 ? 1 : 0, floor.density = 50;
        a.at = {0.5, 0.75 - 0.03}, a.h = 0.5, a.density = ratio;
        Material k{};
        k.friction   = CombinableProperty{0.f}; // (which corner of the manifold takes the friction is not said)
        k.bounciness = CombinableProperty{0.f};
        q.bodies = {makeBox(q.w, floor, &k), makeBox(q.w, a, &k)};
        q.step(dt, 8, true); // notices the contact
        q.bodies[1]->setVelocity(Vec2{mo == 1 ? -1.f : 1.5f, -1.f - mo});
        q.bodies[1]->setAngularVelocity(mo == 2 ? 0.5f : 0.f);
    }
    else
    {
        BodySpec a;
        a.density = ratio;
        q.bodies  = {makeBox(q.w, a)};
        if (side == 2)
            ctx.prune();
        saturated = side == 0;
        double strong = saturated ? 40 : 1e6;
        if (kind == pushes)
        {
            tm = q.w.makeConstraint<TranslationMotor>(Bodies::singleBody(q.bodies[0]), TranslationMotor::Specs::fromForce(4, (float)strong));
            tm->direction(Vec2{mo == 0 ? 1.f : 0.6f, mo == 0 ? 0.f : mo == 1 ? 0.8f : -0.8f});
        }
        else
        {
            rm = q.w.makeConstraint<RotationMotor>(Bodies::singleBody(q.bodies[0]), RotationMotor::Specs::fromTorque(4, (float)strong));
            rm->direction(Vector<float, 1>{mo ? 1.f : -1.f});
        }
    }
    auto first = q.step(dt, 40, ctx.choose(2, "first is warm"));
    if (Warmed::size(first) < (saturated ? 1e-4 : 0.05))
    {
        MC_CHECK(kind < nJoints, "none", "%s does nothing", what);
        ctx.prune(); // a motion that this joint allows
    }
    if ((kind == minDistance || kind == maxDistance || kind == rangeDistance) && ctx.choose(2, "slackens"))
    {
        // to within the limits, a number of steps there and back again
        double sign = kind == maxDistance ? -1 : 1, by = kind == maxDistance ? 2.25 : 4.5;
        auto   go   = [&](double way) {
            int n = q.bodies[0]->isStructural() || q.bodies[1]->isStructural() ? 1 : 2;
            for (int i = 0; i < 2; ++i)
                if (!q.bodies[i]->isStructural())
                    q.bodies[i]->setVelocity(Vec2{(float)(way * sign * by * 16 / n * (i ? 1 : -1)), 0.f}), q.bodies[i]->setAngularVelocity(0.f);
        };
        bool warm = ctx.choose(2, "warm");
        if (kind == rangeDistance && ctx.choose(2, "to the other limit"))
        {
            by = 20;
            go(1);
            q.step(1 / 16., 0, true);
            go(0.0625);
            q.expect(q.step(dt, 0, warm), first, 0, what, 3);
            MC_CHECK(Warmed::size(q.step(dt, 8, warm)) > 0.05, "again", "%s does not hold at its other limit", what);
            ctx.outcome("other limit");
            ctx.validated(1);
            return;
        }
        go(1);
        q.step(1 / 16., 0, true);
        go(0);
        int rests = ctx.choose(ctx.tier(2, 3), "rests");
        for (int i = 0; i < rests; ++i)
            q.expect(q.step(dt, i % 2 ? 8 : 0, warm), first, 0, what, i + 3);
        go(-1);
        q.expect(q.step(1 / 16., 0, warm), first, 0, what, rests + 3);
        go(-0.0625);
        q.expect(q.step(dt, 0, warm), first, 0, what, rests + 4);
        MC_CHECK(Warmed::size(q.step(dt, 8, warm)) > 0.05, "again", "%s holds no more after it was slack", what);
        ctx.outcome("slackened");
        ctx.validated(1);
        return;
    }
    double kept = 1;
    for (int i = 0; i < ctx.tier(3, 5); ++i)
    {
        bool   warm = ctx.choose(2, "warm");
        double t    = dt;
        if (saturated && ctx.choose(2, "shorter"))
            t /= 2;
        kept = warm ? std::min(kept, t / dt * (saturated ? 1 : 2)) : 0;
        q.expect(q.step(t, 0, warm), first, kept, what, i + 2);
    }
    ctx.outcome(what);
    ctx.validated(1);
}
