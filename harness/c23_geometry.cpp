// C23: world geometry follows the transform of the body; transform algebra.
#include "world_common.hpp"

static const double angles[]{0, 0.5, M_PI / 2, M_PI, -2.5, 7, -100};
static const P      shifts[]{{0, 0}, {1, -2}, {0.25, 300}, {-7, 0}};
static const P      points[]{{0, 0}, {1, 0}, {-3, 2.5}, {100, 1}};
struct Ref // r * x + t
{
    double a;
    P      t;
    P      operator*(P x) const { return geo::rot(x, a) + t; }
};
static Ref operator*(Ref f, Ref g) { return {f.a + g.a, geo::rot(g.t, f.a) + f.t}; }
static P   apply(const Mat3& m, P x) { return {m(0, 0) * x.x + m(0, 1) * x.y + m(0, 2), m(1, 0) * x.x + m(1, 1) * x.y + m(1, 2)}; }
static void same(mc::Ctx& ctx, const char* what, const Transform& t, Ref r)
{
    Mat3 m{t};
    for (P x : points)
    {
        double tol = 3e-6 * (geo::norm(x) + geo::norm(r.t) + 300) ;
        P      a = geo::toP(t * geo::toV(x)), b = r * x, c = apply(m, x);
        P      i = geo::toP(t.inverse() * (t * geo::toV(x))), j = geo::toP(t * (t.inverse() * geo::toV(x)));
        MC_CHECK(geo::norm(a - b) < tol, "transform", "%s maps (%g,%g) to (%g,%g) instead of (%g,%g)", what, x.x, x.y, a.x, a.y, b.x, b.y);
        MC_CHECK(geo::norm(c - b) < tol, "matrix", "%s: the matrix maps (%g,%g) to (%g,%g) instead of (%g,%g)", what, x.x, x.y, c.x, c.y, b.x, b.y);
        P d = geo::toP(m * geo::toV(x));
        MC_CHECK(geo::norm(d - b) < tol, "matrix", "%s: the matrix product of a point", what);
        MC_CHECK(geo::norm(i - x) < tol && geo::norm(j - x) < tol, "inverse", "%s: the inverse does not invert", what);
    }
    MC_CHECK(m(2, 0) == 0 && m(2, 1) == 0 && m(2, 2) == 1, "matrix", "%s: last row of the matrix", what);
    ctx.validated(12);
}
MC_SCENARIO(algebra)
{
    double ra = angles[ctx.choose(7, "rotation")], rb = angles[ctx.choose(7, "rotation")];
    P      ta = shifts[ctx.choose(4, "translation")], tb = shifts[ctx.choose(4, "translation")];
    Rotation    R{(float)ra}, Q{(float)rb};
    Translation T{geo::toV(ta)}, S{geo::toV(tb)};
    Transform   F{R, T}, G{Q, S};
    Ref         f{(float)ra, ta}, g{(float)rb, tb}, r{(float)ra, {}}, q{(float)rb, {}}, t{0, ta}, s{0, tb};
    ctx.transition();
    same(ctx, "transform", F, f);
    same(ctx, "default", Transform{}, Ref{0, {}});
    same(ctx, "identity", Transform::identity(), Ref{0, {}});
    same(ctx, "rotation*translation", R * S, r * s);
    same(ctx, "translation*rotation", T * Q, t * q);
    same(ctx, "transform*translation", F * S, f * s);
    same(ctx, "transform*rotation", F * Q, f * q);
    same(ctx, "translation*transform", T * G, t * g);
    same(ctx, "rotation*transform", R * G, r * g);
    same(ctx, "transform*transform", F * G, f * g);
    same(ctx, "rotation*rotation", Transform{R * Q, Translation{Vec2{}}}, r * q);
    same(ctx, "translation*translation", Transform{Rotation{0}, T * S}, t * s);
    same(ctx, "inverse", F.inverse(), Ref{-(double)(float)ra, geo::rot(ta, -(double)(float)ra) * -1});
    same(ctx, "transformAround", Transform::transformAround((float)ra, geo::toV(ta), geo::toV(tb)),
         Ref{0, ta + tb} * Ref{(float)ra, {}} * Ref{0, tb * -1});
    for (P x : points)
    {
        double tol = 1e-4 * (1 + geo::norm(x)) / 10;
        MC_CHECK(geo::norm(geo::toP(R * geo::toV(x)) - geo::rot(x, (float)ra)) < tol, "rotation", "rotation of a point");
        MC_CHECK(geo::norm(geo::toP(R.inverse() * (R * geo::toV(x))) - x) < tol, "rotation", "inverse rotation");
        MC_CHECK(geo::norm(apply(Mat3{R}, x) - geo::rot(x, (float)ra)) < tol, "rotation", "matrix of a rotation");
        MC_CHECK(geo::norm(geo::toP(T * geo::toV(x)) - (x + ta)) < 1e-4, "translation", "translation of a point");
        MC_CHECK(geo::norm(geo::toP(T.inverse() * (T * geo::toV(x))) - x) < 1e-4, "translation", "inverse translation");
        MC_CHECK(geo::norm(apply(Mat3{T}, x) - (x + ta)) < 1e-4, "translation", "matrix of a translation");
        MC_CHECK(geo::norm(geo::toP(Transform::rotation((float)ra) * geo::toV(x)) - geo::rot(x, (float)ra)) < tol, "rotation", "factory");
        MC_CHECK(geo::norm(geo::toP(Transform::translation(geo::toV(ta)) * geo::toV(x)) - (x + ta)) < 1e-4, "translation", "factory");
    }
    // inverses compose like any other transform, and their angle follows
    double na = -(double)(float)ra;
    Ref    ri{na, {}}, fi{na, geo::rot(ta, na) * -1};
    MC_CHECK(std::abs(R.inverse().theta() - na) < 1e-5 && R.inverse().inverse().theta() == R.theta(), "angle", "the inverse of a rotation of %g has angle %g", ra, R.inverse().theta());
    MC_CHECK(std::abs((R * Q).theta() - ((float)ra + (float)rb)) < 1e-4, "angle", "the product of rotations has angle %g", (R * Q).theta());
    MC_CHECK(std::abs((R.inverse() * Q).theta() - (na + (float)rb)) < 1e-4, "angle", "the angle of a product with an inverse is %g", (R.inverse() * Q).theta());
    MC_CHECK(std::abs(F.rotation().theta() - (float)ra) < 1e-6 && std::abs(F.inverse().rotation().theta() - na) < 1e-4, "angle", "the rotation of a transform has another angle");
    same(ctx, "inverse rotation*rotation", Transform{R.inverse() * Q, Translation{Vec2{}}}, ri * q);
    same(ctx, "rotation*inverse rotation", Transform{Q * R.inverse(), Translation{Vec2{}}}, q * ri);
    same(ctx, "inverse*transform", F.inverse() * G, fi * g);
    same(ctx, "transform*inverse", G * F.inverse(), g * fi);
    same(ctx, "inverse of inverse", F.inverse().inverse(), f);
    same(ctx, "inverse of product", (F * G).inverse(), Ref{-((double)(float)ra + (float)rb), geo::rot((f * g).t, -((double)(float)ra + (float)rb)) * -1});
    Rotation c = R;
    c.set((float)rb);
    MC_CHECK(c.theta() == (float)rb && geo::norm(geo::toP(c * Vec2{1, 0}) - geo::rot({1, 0}, (float)rb)) < 1e-6, "rotation", "set");
    c *= R;
    MC_CHECK(std::abs(c.theta() - ((float)ra + (float)rb)) < 1e-4 && geo::norm(geo::toP(c * Vec2{1, 0}) - geo::rot({1, 0}, c.theta())) < 1e-6, "rotation", "product in place");
    ctx.outcome("algebra");
}
// a body with one or two colliders, moved by steps, checked at every moment
MC_SCENARIO(motion)
{
    World w;
    BodyDescriptor d;
    d.position    = geo::toV(shifts[ctx.choose(4, "position")]);
    d.orientation = (float)angles[ctx.choose(7, "orientation")];
    d.dominance   = ctx.flag("structural") ? 0.f : 1.f;
    Body*             b = w.makeBody(d);
    std::vector<Poly> local;
    auto              add = [&](Poly p) {
        b->addCollider(ColliderDescriptor{geo::toPolygon(p)});
        if (geo::area2(p) < 0)
            std::reverse(p.begin(), p.end());
        local.push_back(geo::fromGeo(geo::toVertices(p)));
    };
    auto audit = [&](const char* when) {
        Transform T = b->toWorldSpace();
        double    th = b->orientation();
        P         lc = geo::toP(b->localCentroid()), p = geo::toP(b->position());
        double    tol = 4e-6 * (geo::norm(p) + geo::norm(lc) + 20);
        // rotation about the local centroid, then translation
        auto ref = [&](P x) { return geo::rot(x - lc, th) + lc + p; };
        MC_CHECK(geo::norm(geo::toP(b->centroid()) - ref(lc)) < tol, "centroid", "%s: centroid is not the transformed local centroid", when);
        size_t k = 0;
        for (auto& c : b->colliders())
        {
            P    lo{1e30, 1e30}, hi{-1e30, -1e30};
            Poly have = geo::fromGeo(c);
            MC_CHECK(have.size() == local[k].size(), "vertices", "%s: %zu vertices", when, have.size());
            // same cyclic order, any start
            bool found = false;
            for (size_t s = 0; s < have.size() && !found; ++s)
            {
                found = true;
                for (size_t i = 0; i < have.size(); ++i)
                    found &= geo::norm(have[(i + s) % have.size()] - ref(local[k][i])) < tol;
            }
            MC_CHECK(found, "vertices", "%s: the vertices of collider %zu are not its local ones under the transform of the body: %s", when, k, geo::show(have).c_str());
            for (auto& v : have)
                lo = {std::min(lo.x, v.x), std::min(lo.y, v.y)}, hi = {std::max(hi.x, v.x), std::max(hi.y, v.y)};
            auto bb = c.boundingBox();
            MC_CHECK(bb.min()[0] == lo.x && bb.min()[1] == lo.y && bb.max()[0] == hi.x && bb.max()[1] == hi.y, "box", "%s: bounding box of collider %zu", when, k);
            size_t n = 0;
            for (auto v : c.vertexView())
                MC_CHECK(all(v == geo::toV(have[n++])), "view", "%s: vertex view", when);
            // the world finds it exactly there
            auto hit = [&](P q) { int h = 0; w.forEachAt(geo::toV(q), [&](Body* o) { h += o == b; }); return h; };
            int  other = 0;
            for (auto& o : b->colliders())
                other += &o != &c && boxesMeet(o.boundingBox(), BoundingBox{bb.max(), bb.max()});
            MC_CHECK(hit(hi) == 1 + other, "query", "%s: the world does not find collider %zu at its corner", when, k);
            float out = std::nextafter((float)hi.x, 1e30f);
            int   o2  = 0;
            for (auto& o : b->colliders())
                o2 += boxesMeet(o.boundingBox(), BoundingBox{Vec2{out, bb.max()[1]}, Vec2{out, bb.max()[1]}});
            MC_CHECK(hit({out, hi.y}) == o2, "query", "%s: the world finds collider %zu beside it", when, k);
            ++k;
            ctx.validated(6);
        }
        for (P x : points)
            MC_CHECK(geo::norm(geo::toP(b->toLocalSpace() * (T * geo::toV(x))) - x) < 3 * tol + 1e-5 * geo::norm(x), "local", "%s: local space does not invert world space", when);
    };
    int shape = ctx.choose(3, "shape");
    add(shape == 0 ? geo::box(1, 1) : shape == 1 ? Poly{{2, 1}, {4, 1}, {2, 2}} : Poly{{0, 0}, {0, 1}, {1, 1}, {1, 0}});
    audit("one collider");
    int second = ctx.choose(3, "second collider"); // none, at once, after a step
    if (second == 1)
        add(geo::place(geo::box(1, 0.5), 0, {-1.5, 1}));
    if (second == 1)
        audit("two colliders");
    int   mv = ctx.choose(3, "velocity"), sp = ctx.choose(3, "spin");
    P     v  = std::vector<P>{{0, 0}, {1, -3}, {-50, 0.5}}[mv];
    float s  = std::vector<float>{0, 1.5f, -20.f}[sp];
    b->setVelocity(geo::toV(v));
    b->setAngularVelocity(s);
    audit("velocity set");
    const double dts[]{1.0 / 60, 0.5, 0};
    double       dt = dts[ctx.choose(3, "time step")];
    for (int k = 0; k < 3; ++k)
    {
        P      c  = geo::toP(b->centroid());
        double th = b->orientation();
        v         = geo::toP(b->velocity());
        Poly before = geo::fromGeo(*b->colliders().begin());
        w.step((float)dt);
        ctx.transition();
        audit("after a step");
        double tol = 1e-5 * (geo::norm(c) + 30) / 3;
        MC_CHECK(geo::norm(geo::toP(b->centroid()) - (c + v * dt)) < tol, "integration", "the centroid moves by (%g,%g) instead of v dt", b->centroid()[0] - c.x,
                 b->centroid()[1] - c.y);
        MC_CHECK(std::abs(b->orientation() - (th + s * dt)) < 1e-4, "integration", "orientation changes by %g instead of %g", b->orientation() - th, s * dt);
        Poly after = geo::fromGeo(*b->colliders().begin());
        for (size_t i = 0; i < after.size(); ++i)
            MC_CHECK(geo::norm(after[i] - (geo::rot(before[i] - c, s * dt) + c + v * dt)) < 3 * tol + 1e-5 * std::abs(th), "integration", "the body does not rotate about its centroid");
        if (second == 2 && k == 0)
        {
            add(geo::place(geo::box(1, 0.5), 0, {-1.5, 1}));
            audit("collider added");
        }
        if (second && k == 1)
        {
            b->removeCollider(const_cast<Collider*>(&*b->colliders().begin()));
            local.erase(local.begin());
            audit("collider removed");
        }
    }
    ctx.outcome("motion");
}
