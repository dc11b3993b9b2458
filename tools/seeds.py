"""Bugs planted by seed.py."""
BUGS = []
T = 'include/Simu/physics/RTree.hpp'
W = 'src/Simu/physics/World.cpp'
C = 'include/Simu/physics/Constraint.hpp'
HEAD = '#include "Simu/physics.hpp"\n#include <cstdio>\n#include <cmath>\n#include <set>\n#include <vector>\nusing namespace simu;\n'


def bug(id, property, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo, **kw))


bug('rtree-rotation-bounds', 'C01', [(T, '''            lower->parent->bounds = newBounds;
            swapNodes(lower, upper);''', '''            swapNodes(lower, upper);
            lower->parent->bounds = newBounds;''')],
    'insertions, erasures or updates that trigger a rotation, followed by a query on the far side of the tree',
    'after a rotation the bounds of the grandparent are those of its child: queries miss elements',
    r'''
int main()
{
    for (unsigned seed = 1; seed <= 300; ++seed)
    {
        unsigned s = seed * 7919u;
        auto next = [&](int n) { s = s * 1103515245u + 12345u; return (int)((s >> 16) % n); };
        RTree<int> t;
        std::vector<BoundingBox> boxes;
        for (int i = 0; i < 8; ++i)
        {
            Vec2 p{(float)next(8), (float)next(8)};
            boxes.push_back(BoundingBox{p, p + Vec2{1.f, 1.f}});
            t.insert(boxes.back(), i);
            for (int q = 0; q <= i; ++q)
            {
                std::multiset<int> got, want;
                t.forEachIn(boxes[q], [&](RTree<int>::iterator it) { got.insert(*it); });
                for (int j = 0; j <= i; ++j)
                    if (boxes[q].overlaps(boxes[j]))
                        want.insert(j);
                if (got != want)
                    return std::printf("a query visits %zu elements instead of %zu\n", got.size(), want.size()), 1;
            }
        }
    }
}
''')
bug('rtree-joint-query-middle', 'C02', [(T, '''            forEachOverlapping(subRoot->left, list, func);

            list.setMiddle(middle);

            list.sortOverlapping(subRoot->right->bounds);''', '''            forEachOverlapping(subRoot->left, list, func);

            list.sortOverlapping(subRoot->right->bounds);''')],
    'a joint query of a handle whose overlapping elements are in both branches below the children of the root',
    'the joint query only looks in the right branch for the handles that overlap the left one',
    r'''
int main()
{
    RTree<int> t;
    typedef RTree<int>::iterator It;
    std::vector<It> all;
    for (int i = 0; i < 8; ++i)
        all.push_back(t.insert(BoundingBox{Vec2{i * 2.f, 0.f}, Vec2{i * 2.f + 1.f, 1.f}}, i));
    for (int i = 0; i < 8; ++i)
    {
        // two handles, so that one of them can be dropped
        std::vector<It> asked{all[i], all[(i + 3) % 8]};
        int hits = 0;
        t.forEachOverlapping(makeView(asked.data(), asked.data() + asked.size()), [&](It, It) { ++hits; });
        if (hits != 2)
            return std::printf("%d pairs instead of 2\n", hits), 1;
    }
}
''')
bug('pool-merge-one-side', 'C03', [('include/Simu/utility/Memory.hpp', '''    if (canMergeWithNext && canMergeWithPrev)
    {
        auto prev   = std::prev(next);
        next->start = prev->start;
        freeList_.erase(prev);
    }
    else if (canMergeWithNext)
        next->start = start;
    else if (canMergeWithPrev)
        std::prev(next)->end = end;''', '''    if (canMergeWithPrev)
        std::prev(next)->end = end;
    else if (canMergeWithNext)
        next->start = start;''')],
    'releasing an allocation between two free ranges',
    'free ranges on both sides of a released one are not joined: the pool never becomes empty again',
    r'''
#include <cstdlib>
#include <new>
static long live = 0;
void* operator new[](std::size_t n) { ++live; return std::malloc(n); }
void operator delete[](void* p) noexcept { --live; std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { --live; std::free(p); }
int main()
{
    FreeListAllocator<double> a;
    long before = live;
    double *x = a.allocate(3), *y = a.allocate(3), *z = a.allocate(3);
    a.deallocate(x, 3);
    a.deallocate(z, 3);
    a.deallocate(y, 3);
    if (live != before)
        return std::printf("the pool still holds %ld blocks\n", live - before), 1;
}
''')
bug('pool-overaligned', 'C03', [('include/Simu/utility/Memory.hpp', 'n * sizeof(T) + alignof(T) - 1;', 'n * sizeof(T);')],
    'an allocation larger than the block size of a type that needs more alignment than the system gives',
    'the allocator returns null',
    r'''
struct alignas(256) Big { char c[256]; };
int main()
{
    FreeListAllocator<Big, 64> a;
    for (int i = 0; i < 64; ++i)
        if (a.allocate(1 + i % 3) == nullptr)
            return std::printf("null\n"), 1;
}
''')
bug('gjk-touching', 'C05', [('include/Simu/math/Gjk.inl.hpp', 'if (dot(v, direction) < 0.f)', 'if (dot(v, direction) <= 0.f)')],
    'shapes that touch without overlapping',
    'shapes that share only boundary points are reported apart',
    r'''
int main()
{
    Polygon a{Vec2{0, 0}, Vec2{1, 0}, Vec2{1, 1}, Vec2{0, 1}}, b{Vec2{1, 1}, Vec2{3, 1}, Vec2{2, 4}};
    for (Vec2 d : {Vec2{1, 0}, Vec2{0, 1}, Vec2{1, 1}, Vec2{-1, 2}, Vec2{-1, -1}})
        if (!Gjk<Polygon>{a, b, d}.areColliding() || !Gjk<Polygon>{b, a, d}.areColliding())
            return std::printf("not colliding\n"), 1;
}
''')
bug('epa-few-iterations', 'C06', [('include/Simu/math/Gjk.inl.hpp', '''    while (true)
    {
        auto  edges    = edgesOf(polytope.vertices);''', '''    for (Uint32 iteration = 0;; ++iteration)
    {
        auto  edges    = edgesOf(polytope.vertices);'''), ('include/Simu/math/Gjk.inl.hpp', 'if (!polytope.addVertex(best, next))', 'if (iteration == 5 || !polytope.addVertex(best, next))')],
    'shapes with enough vertices for the polytope to need more than five expansions',
    'the penetration vector is too short',
    r'''
static std::vector<Vec2> disk(int n, float r, Vec2 c, float a0 = 0.f)
{
    std::vector<Vec2> v;
    for (int i = 0; i < n; ++i)
        v.push_back(c + Vec2{r * std::cos(a0 + i * 6.2831853f / n), r * std::sin(a0 + i * 6.2831853f / n)});
    return v;
}
int main()
{
    for (int k = 0; k < 12; ++k)
    {
        float a = k * 0.5f;
        auto p = disk(8, 1.f, Vec2{0, 0}), q = disk(7, 1.f, Vec2{1.2f * std::cos(a), 1.2f * std::sin(a)}, 0.2f);
        Polygon A{p.begin(), p.end()}, B{q.begin(), q.end()};
        Vec2 mtv = Gjk<Polygon>{A, B, Vec2{-std::sin(a), std::cos(a)}}.penetration();
        // minimal overlap along the edge normals
        double best = 1e9;
        for (int s = 0; s < 2; ++s)
            for (size_t i = 0, n = (s ? q : p).size(); i < n; ++i)
            {
                auto& v = s ? q : p;
                double ex = v[(i + 1) % n][0] - v[i][0], ey = v[(i + 1) % n][1] - v[i][1], l = std::hypot(ex, ey), nx = ey / l, ny = -ex / l, mx = -1e9, mn = 1e9;
                for (Vec2 w : v)
                    mx = std::max(mx, w[0] * nx + w[1] * ny);
                for (Vec2 w : s ? p : q)
                    mn = std::min(mn, w[0] * nx + w[1] * ny);
                best = std::min(best, mx - mn);
            }
        if (std::abs(norm(mtv) - best) > 1e-3)
            return std::printf("penetration %g instead of %g\n", norm(mtv), best), 1;
    }
}
''')
bug('contact-normal-frame', 'C07', [('include/Simu/physics/ContactManifold.hpp', '''        contactNormal_ = bodies[referenceIndex()]->toLocalSpace().rotation()
                         * contactNormal_;
''', '''        contactNormal_ = bodies[0]->toLocalSpace().rotation() * contactNormal_;
''')],
    'a contact whose reference edge belongs to the second body, with bodies of different orientations',
    'the normal of the contact is rotated by the difference of orientation of the bodies',
    r'''
int main()
{
    Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}};
    for (int order = 0; order < 2; ++order)
    {
        World w;
        BodyDescriptor flat, tilted;
        flat.position   = Vec2{0.f, 0.f};
        tilted.position = Vec2{0.f, 2.3f};
        tilted.orientation = 0.7853982f;
        Body* a = w.makeBody(order ? flat : tilted);
        Body* b = w.makeBody(order ? tilted : flat);
        Collider* ca = a->addCollider(ColliderDescriptor{box});
        Collider* cb = b->addCollider(ColliderDescriptor{box});
        ContactConstraint c{*ca, *cb};
        ContactInfo i = c.contactInfo();
        if (i.nContacts == 0 || std::abs(i.normal[0]) > 1e-3f || std::abs(std::abs(i.normal[1]) - 1.f) > 1e-3f)
            return std::printf("%u contacts, normal (%g, %g)\n", i.nContacts, i.normal[0], i.normal[1]), 1;
    }
}
''')
bug('clockwise-moment', 'C08', [('include/Simu/math/Geometry.inl.hpp', '''        momentOfArea /= 12;
        momentOfArea -= area * normSquared(centroid);
        momentOfArea = std::abs(momentOfArea);''', '''        momentOfArea = std::abs(momentOfArea) / 12;
        momentOfArea -= area * normSquared(centroid);''')],
    'a clockwise polygon whose centroid is not the origin',
    'the second moment of area of the polygon is too large',
    r'''
int main()
{
    Polygon ccw{Vec2{2, 0}, Vec2{3, 0}, Vec2{3, 1}, Vec2{2, 1}}, cw{Vec2{2, 1}, Vec2{3, 1}, Vec2{3, 0}, Vec2{2, 0}};
    if (std::abs(ccw.properties().momentOfArea - 1 / 6.f) > 1e-3f || std::abs(cw.properties().momentOfArea - 1 / 6.f) > 1e-3f)
        return std::printf("%g %g\n", ccw.properties().momentOfArea, cw.properties().momentOfArea), 1;
}
''')
bug('segment-tiny', 'C09', [('include/Simu/math/BarycentricCoordinates.hpp', '(norm == 0.f) ? 0.f', '(norm < simu::EPSILON) ? 0.f')],
    'a segment shorter than the square root of EPSILON',
    'the closest point of a short segment is always its first end',
    r'''
int main()
{
    LineBarycentric l{Vec2{0, 0}, Vec2{0.02f, 0}, Vec2{1, 0}}, s{Vec2{0, 0}, Vec2{1e-4f, 0}, Vec2{1, 0}};
    if (s.closestPoint[0] < 0.99e-4f || l.closestPoint[0] < 0.0199f)
        return std::printf("closest %g\n", s.closestPoint[0]), 1;
}
''')
bug('solver-qr-back-substitution', 'C10', [('include/Simu/math/Matrix.inl.hpp', '''            for (Uint32 col = row + 1; col < n; ++col)
                delX += A(row, col) * x[col];

            delX = -(delX + b[row]) / A(row, row);''', '''            for (Uint32 col = row + 1; col < n; ++col)
                delX += A(col, row) * x[col];

            delX = -(delX + b[row]) / A(row, row);''')],
    'a matrix that is not symmetric in a projected solve',
    'the projected solver uses the transposed upper triangle',
    r'''
int main()
{
    Mat2 A{4, 1, 0.5f, 3};
    Vec2 b{3, 2};
    Vec2 x = solveInequalities(A, b, [](Vec2 v) { return std::max(v, Vec2::filled(0.f)); });
    Vec2 r = A * x - b;
    if (std::abs(r[0]) > 1e-2f || std::abs(r[1]) > 1e-2f)
        return std::printf("residual %g %g\n", r[0], r[1]), 1;
}
''')
bug('cleanup-bodies-notified-late', 'C11', [(W, '''    cleaner.onDestruction(*this, deadBodies);

''', ''), (W, '''    cleaner.erase(constraints_, deadConstraints);
''', '''    cleaner.erase(constraints_, deadConstraints);
    cleaner.onDestruction(*this, deadBodies);
''')],
    'a body and a constraint that die in the same step, with a destruction callback that looks at the constraint',
    'the body is told of its destruction when the constraints that die with it were already destroyed',
    r'''
static int alive = 0;
static bool ok = true;
struct Probe : HingeConstraint
{
    using HingeConstraint::HingeConstraint;
    ~Probe() override { --alive; }
};
struct Watcher : Body
{
    Watcher(const BodyDescriptor& d) : Body{d} {}
    void onDestruction(World&) override { ok = ok && alive == 1; }
};
int main()
{
    World w;
    Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}};
    auto a = w.makeBody<Watcher>(BodyDescriptor{});
    auto b = w.makeBody<Body>(BodyDescriptor{Vec2{5.f, 0.f}});
    a->addCollider(ColliderDescriptor{box});
    b->addCollider(ColliderDescriptor{box});
    w.makeConstraint<Probe>(Bodies{a, b}, Vec2{2.f, 0.f});
    alive = 1;
    w.step(0.01f);
    a->kill();
    w.step(0.01f);
    return ok ? 0 : 1;
}
''')
bug('contact-survives-link-order', 'C12', [(W, 'if (bodies[0] == b1 || bodies[1] == b1)', 'if (bodies[1] == b1)')],
    'two linked bodies whose colliders are reported in the opposite order of the bodies of the link',
    'a link that disables contacts does not when the colliders are found in the other order',
    r'''
int main()
{
    for (int flip = 0; flip < 2; ++flip)
        for (int order = 0; order < 2; ++order)
        {
            World w;
            Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}};
            Body* a = w.makeBody(BodyDescriptor{Vec2{order ? 1.f : 0.f, 0.f}});
            Body* b = w.makeBody(BodyDescriptor{Vec2{order ? 0.f : 1.f, 0.f}});
            a->addCollider(ColliderDescriptor{box});
            b->addCollider(ColliderDescriptor{box});
            w.makeConstraint<RotationConstraint>(flip ? Bodies{b, a} : Bodies{a, b}, true);
            w.step(0.001f);
            int n = 0;
            for (ContactConstraint& c : w.contacts())
                (void)c, ++n;
            if (n)
                return std::printf("%d contacts\n", n), 1;
        }
}
''')
bug('structural-spin', 'C14', [('src/Simu/physics/Body.cpp', 'bool isStruct = all(velocity() == Vec2{}) && angularVelocity() == 0.f;', 'bool isStruct = isStructural() && all(velocity() == Vec2{});')],
    'a structural body that only rotates, made after a body that rests on it',
    'the structural body is integrated once per island it belongs to: it rotates too fast',
    r'''
int main()
{
    for (int order = 0; order < 2; ++order)
    {
        World w;
        Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}};
        BodyDescriptor s{}, d{};
        s.dominance = 0.f;
        d.position  = Vec2{0.f, 1.95f};
        Body* a = w.makeBody(order ? s : d);
        Body* b = w.makeBody(order ? d : s);
        a->addCollider(ColliderDescriptor{box});
        b->addCollider(ColliderDescriptor{box});
        Body* spinning = order ? a : b;
        w.step(0.001f);
        spinning->setAngularVelocity(1.f);
        float before = spinning->orientation();
        for (int i = 0; i < 10; ++i)
            w.step(0.01f);
        if (std::abs(spinning->orientation() - before - 0.1f) > 1e-4f)
            return std::printf("turned by %g\n", spinning->orientation() - before), 1;
    }
}
''')
bug('linear-field-arm', 'C15', [('include/Simu/physics/ForceField.hpp', '''            b->toWorldSpace().rotation() * (p.centroid - b->localCentroid())
        );''', '''            p.centroid - b->localCentroid()
        );''')],
    'a linear field on a rotated body made of several colliders of which only some are in the domain',
    'the force acts at an unrotated offset: the torque is wrong',
    r'''
int main()
{
    World w;
    BodyDescriptor d{};
    Polygon p{Vec2{-3, -1}, Vec2{-1, -1}, Vec2{-1, 1}, Vec2{-3, 1}}, q{Vec2{1, -1}, Vec2{3, -1}, Vec2{3, 1}, Vec2{1, 1}};
    d.orientation = 1.5707963f; // the colliders are now above each other: a vertical force makes no torque
    Body* b = w.makeBody(d);
    b->addCollider(ColliderDescriptor{p});
    b->addCollider(ColliderDescriptor{q});
    w.makeForceField<LinearField>(Vec2{0.f, 5.f}, ForceField::region(Vec2{-2.f, 1.5f}, Vec2{2.f, 4.f}));
    w.step(0.1f);
    if (std::abs(b->angularVelocity()) > 1e-4f || b->velocity()[1] <= 0.f)
        return std::printf("w %g v %g\n", b->angularVelocity(), b->velocity()[1]), 1;
}
''')
bug('friction-arm', 'C16', [(C, 'Jf[c][refIndex + 2] = -cross(r[ref][c], t);', 'Jf[c][refIndex + 2] = -cross(frame_.contacts[inc][c] - proxies[ref].centroid(), n);')],
    'a sliding contact of bodies whose centroids are not aligned with the normal',
    'friction applies a torque to the second body along the wrong axis: angular momentum is not conserved',
    r'''
int main()
{
    World w;
    Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}};
    Material m{};
    m.friction = CombinableProperty{0.5f};
    Body* a = w.makeBody(BodyDescriptor{Vec2{0.f, 0.f}});
    Body* b = w.makeBody(BodyDescriptor{Vec2{0.5f, 1.98f}});
    a->addCollider(ColliderDescriptor{box, m});
    b->addCollider(ColliderDescriptor{box, m});
    b->setVelocity(Vec2{3.f, -2.f});
    auto L = [&] {
        double l = 0;
        for (Body& x : w.bodies())
            l += x.mass() * (x.centroid()[0] * x.velocity()[1] - x.centroid()[1] * x.velocity()[0]) + x.inertia() * x.angularVelocity();
        return l;
    };
    w.step(1e-4f);
    double before = L();
    for (int i = 0; i < 3; ++i)
    {
        b->setVelocity(b->velocity() + Vec2{0.5f, -1.f});
        double l = L();
        w.step(1e-4f);
        if (std::abs(L() - l) > 0.05)
            return std::printf("angular momentum %g -> %g\n", l, L()), 1;
    }
    (void)before;
}
''')
bug('rotation-joint-initial', 'C17', [('include/Simu/physics/ConstraintFunction.hpp', '''        return Value{proxies[1].orientation() - proxies[0].orientation()}
               - initialAngle_;''', '''        Value angle = Value{proxies[1].orientation() - proxies[0].orientation()}
                      - initialAngle_;
        // keep the shortest rotation
        if (std::abs(angle[0]) > 3.14159265f)
            angle[0] -= 2.f * 3.14159265f;
        return angle;''')],
    'bodies joined at orientations that differ and whose relative angle becomes less than minus half a turn',
    'the error of the rotation joint is wrapped in the wrong direction for negative angles',
    r'''
int main()
{
    Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}};
    for (float kick : {0.5f, -0.5f, 3.6f, -3.6f})
    {
        World w;
        Body* a = w.makeBody(BodyDescriptor{Vec2{0.f, 0.f}});
        Body* b = w.makeBody(BodyDescriptor{Vec2{5.f, 0.f}});
        a->addCollider(ColliderDescriptor{box});
        b->addCollider(ColliderDescriptor{box});
        // one step apart, joined afterwards: the joint was made for another relative angle
        auto* j = w.makeConstraint<RotationConstraint>(Bodies{a, b});
        (void)j;
        // a structural helper cannot rotate bodies directly, so remove the joint's effect by killing the world settings
        auto s = w.settings();
        s.nVelocityIterations = 0;
        s.nPositionIterations = 0;
        w.updateSettings(s);
        b->setAngularVelocity(kick);
        w.step(1.f);
        b->setAngularVelocity(0.f);
        s.nVelocityIterations = 8;
        s.nPositionIterations = 2;
        w.updateSettings(s);
        for (int i = 0; i < 60; ++i)
            w.step(1e-3f);
        float error = b->orientation() - a->orientation();
        float turns = error / 6.2831853f;
        if (std::abs(turns - std::round(turns)) > 1e-3f || (std::abs(kick) < 3.f && std::abs(error) > 1e-3f) || std::abs(error) > 7.f)
            return std::printf("kick %g: error %g\n", kick, error), 1;
    }
}
''')
bug('distance-warmstart-sign', 'C18', [('include/Simu/physics/ConstraintSolver.hpp', '''                    this->impulse(this->getJacobian(), -this->getPreviousLambda())
                );
                this->setLambdaHint(this->getPreviousLambda());''', '''                    this->impulse(this->getJacobian(), -this->getPreviousLambda())
                );''')],
    'a distance constraint at its maximum in two consecutive steps with warm starting',
    'the impulse of the warm start is forgotten: the constraint cannot give it back when it is too large',
    r'''
int main()
{
    Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}};
    World w;
    Body* a = w.makeBody(BodyDescriptor{Vec2{0.f, 0.f}, 0.f, 0.f});
    Body* b = w.makeBody(BodyDescriptor{Vec2{4.f, 0.f}});
    a->addCollider(ColliderDescriptor{box});
    b->addCollider(ColliderDescriptor{box});
    w.makeConstraint<DistanceConstraint>(Bodies{a, b}, std::array<Vec2, 2>{Vec2{0.f, 0.f}, Vec2{4.f, 0.f}}, std::nullopt, std::optional<float>{4.f});
    b->setVelocity(Vec2{2.f, 0.f});
    w.step(1e-3f); // stops it
    w.step(1e-3f); // the warm start must be given back: nothing pulls any more
    if (std::abs(b->velocity()[0]) > 1e-2f)
        return std::printf("velocity %g\n", b->velocity()[0]), 1;
}
''')
bug('motor-direction-short', 'C19', [('include/Simu/physics/Motors.hpp', 'if (normSquared(direction) == 0.f)', 'if (normSquared(direction) <= 1.f)')],
    'a motor whose direction is set to a vector shorter than one',
    'the motor does not reach its velocity in that direction',
    r'''
int main()
{
    Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}};
    World w;
    Body* a = w.makeBody(BodyDescriptor{});
    a->addCollider(ColliderDescriptor{box});
    auto* m = w.makeConstraint<TranslationMotor>(Bodies::singleBody(a), TranslationMotor::Specs::fromForce(2.f, 1000.f));
    m->direction(Vec2{0.3f, 0.4f});
    for (int i = 0; i < 100; ++i)
        w.step(0.01f);
    if (std::abs(norm(a->velocity()) - 2.f) > 1e-2f)
        return std::printf("velocity %g\n", norm(a->velocity())), 1;
}
''')
bug('friction-bound-first', 'C20', [(C, 'float bound         = frictionCoeff_ * normalLambda_[c];', 'float bound         = frictionCoeff_ * normalLambda_[0];')],
    'a box that slides on two contacts with different normal impulses',
    'the friction of the second contact is bounded by the normal impulse of the first',
    r'''
struct Seen : ContactConstraint
{
    using ContactConstraint::ContactConstraint;
};
int main()
{
    for (int dir = -1; dir <= 1; dir += 2)
    {
        World w;
        Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}}, floor{Vec2{-50, -1}, Vec2{50, -1}, Vec2{50, 0}, Vec2{-50, 0}};
        Material m{};
        m.friction   = CombinableProperty{0.5f};
        m.bounciness = CombinableProperty{0.f};
        Body* f = w.makeBody(BodyDescriptor{Vec2{0.f, 0.f}, 0.f, 0.f});
        Body* b = w.makeBody(BodyDescriptor{Vec2{0.f, 0.99f}});
        f->addCollider(ColliderDescriptor{floor, m});
        b->addCollider(ColliderDescriptor{box, m});
        w.makeForceField<Gravity>(Vec2{0.f, -10.f});
        auto s = w.settings();
        s.nVelocityIterations = 200;
        w.updateSettings(s);
        for (int i = 0; i < 50; ++i)
            w.step(0.01f);
        b->setVelocity(Vec2{10.f * dir, 0.f});
        for (int i = 0; i < 20; ++i)
            w.step(0.01f);
        // deceleration mu g for 0.2 s
        if (std::abs(std::abs(b->velocity()[0]) - 9.f) > 0.1f)
            return std::printf("dir %d velocity %g\n", dir, b->velocity()[0]), 1;
    }
}
''')
bug('inertia-parallel-axis', 'C22', [('include/Simu/physics/Collider.hpp', '''        inertiaAtOrigin += rhs.I + rhs.m * normSquared(rhs.centroid);

        combined.I = inertiaAtOrigin - combined.m * normSquared(combined.centroid);''', '''        inertiaAtOrigin += rhs.I + rhs.m * normSquared(rhs.centroid);

        if (lhs.m == 0.f)
            combined.I = rhs.I;
        else
            combined.I = inertiaAtOrigin - (lhs.m + lhs.m) * normSquared(combined.centroid);''')],
    'a body with at least two colliders of different masses away from the origin',
    'the inertia of the body is wrong',
    r'''
int main()
{
    World w;
    Body* b = w.makeBody(BodyDescriptor{});
    Polygon p{Vec2{2, 0}, Vec2{3, 0}, Vec2{3, 1}, Vec2{2, 1}}, q{Vec2{3, 0}, Vec2{5, 0}, Vec2{5, 1}, Vec2{3, 1}};
    b->addCollider(ColliderDescriptor{p});
    b->addCollider(ColliderDescriptor{q});
    // a 3 by 1 box
    float want = b->mass() * (9.f + 1.f) / 12.f;
    if (std::abs(b->inertia() - want) > 1e-2f * want)
        return std::printf("inertia %g instead of %g\n", b->inertia(), want), 1;
}
''')
bug('rotation-inverse-angle', 'C23', [('include/Simu/physics/Transform.hpp', 'Rotation inverse() const { return Rotation{-theta(), cosine, -sine}; }', 'Rotation inverse() const { return Rotation{theta(), cosine, -sine}; }')],
    'composing an inverted rotation with another one',
    'the angle of an inverse rotation is not inverted: composing it gives another rotation',
    r'''
int main()
{
    Rotation r{0.7f};
    Vec2 v = (r.inverse() * r) * Vec2{1.f, 0.f};
    if (std::abs(v[0] - 1.f) > 1e-4f || std::abs(v[1]) > 1e-4f)
        return std::printf("(%g, %g)\n", v[0], v[1]), 1;
}
''')
bug('contact-penetration-first', 'C24', [('include/Simu/physics/ContactManifold.hpp', '''          minPen_{CombinableProperty{first.material().penetration,
                                     second.material().penetration}.value}''', '''          minPen_{first.material().penetration.value}''')],
    'colliders with different tolerated penetrations',
    'only the penetration of the first collider is used',
    r'''
int main()
{
    for (int order = 0; order < 2; ++order)
    {
        World w;
        Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}};
        Material soft{}, hard{};
        soft.penetration = CombinableProperty{0.5f, CombinableProperty::maximum};
        hard.penetration = CombinableProperty{0.01f};
        Body* a = w.makeBody(BodyDescriptor{Vec2{0.f, 0.f}});
        Body* b = w.makeBody(BodyDescriptor{Vec2{1.8f, 0.f}});
        Collider* ca = a->addCollider(ColliderDescriptor{box, order ? soft : hard});
        Collider* cb = b->addCollider(ColliderDescriptor{box, order ? hard : soft});
        ContactConstraint c{*ca, *cb};
        if (c.contactInfo().nContacts != 0)
            return std::printf("contact at a tolerated penetration\n"), 1;
    }
}
''')
bug('query-one-visit-per-body', 'C25', [('include/Simu/physics/World.hpp', '''        colliderTree_.forEachIn(box, [&](ColliderTree::iterator it) {
            func((*it)->body());
        });''', '''        Body* last = nullptr;
        colliderTree_.forEachIn(box, [&](ColliderTree::iterator it) {
            if ((*it)->body() != last)
                func((*it)->body());
            last = (*it)->body();
        });''')],
    'a region that overlaps several colliders of one body which are neighbours in the index',
    'a query visits the body once or several times depending on the layout of the index',
    r'''
int main()
{
    World w;
    Body* b = w.makeBody(BodyDescriptor{});
    Polygon p{Vec2{2, 0}, Vec2{3, 0}, Vec2{3, 1}, Vec2{2, 1}}, q{Vec2{3, 0}, Vec2{5, 0}, Vec2{5, 1}, Vec2{3, 1}};
    b->addCollider(ColliderDescriptor{p});
    b->addCollider(ColliderDescriptor{q});
    int n = 0;
    w.forEachIn(BoundingBox{Vec2{0, 0}, Vec2{6, 6}}, [&](Body*) { ++n; });
    return n == 2 ? 0 : (std::printf("%d visits\n", n), 1);
}
''')
bug('camera-any-dimension', 'C26', [('src/Simu/app/Camera.cpp', 'if (all(dimensions > Vec2::filled(0.f)))', 'if (any(dimensions > Vec2::filled(0.f)))')],
    'a resize that makes one dimension of the window null (minimised)',
    'the camera takes the null dimension and its transform is not finite any more',
    r'''
#include "Simu/app/Camera.hpp"
int main()
{
    Camera c;
    c.setDimensionsFromScreenCoordinates(Vec2{800, 600});
    c.setDimensionsFromScreenCoordinates(Vec2{800, 0});
    Mat3 t = c.transform();
    for (float x : t)
        if (!std::isfinite(x))
            return std::printf("not finite\n"), 1;
    return c.viewDimensions()[1] == 60.f ? 0 : 1;
}
''', src='src/Simu/math/*.cpp src/Simu/physics/*.cpp src/Simu/app/Camera.cpp')
bug('matrix-less-equal-swap', 'C28', [('include/Simu/math/Matrix.inl.hpp', 'return onThat * dot(ofThis, onThat) / normSquared(onThat);', 'return onThat * dot(ofThis, onThat) / norm(onThat);')],
    'projecting on a vector that has not unit length',
    'the projection is scaled by the length of the vector',
    r'''
int main()
{
    Vec2 p = projection(Vec2{3.f, 4.f}, Vec2{2.f, 0.f});
    return std::abs(p[0] - 3.f) < 1e-5f && p[1] == 0.f ? 0 : (std::printf("%g\n", p[0]), 1);
}
''')
bug('box-contains-equal-max', 'C04', [('src/Simu/physics/BoundingBox.cpp', 'return original.center() + ratio * (p - original.center());', 'return ratio * (p - original.center()) + ratio * original.center();')],
    'scaling a box that is not centred on the origin',
    'the centre of the box moves',
    r'''
int main()
{
    BoundingBox b = BoundingBox::scaled(BoundingBox{Vec2{2, 2}, Vec2{4, 4}}, 2.f);
    return all(b.center() == Vec2{3.f, 3.f}) ? 0 : 1;
}
''')
bug('zero-step-forces', 'C21', [(W, '''    if (dt > 0.f)
    {
        // TODO''', '''    applyForces(dt);

    if (dt > 0.f)
    {
        // TODO'''), (W, '''        applyForces(dt);

        solveIslands(''', '''        solveIslands(''')],
    'a step of zero duration with a force field that does not scale with the duration',
    'the force fields are applied in a step of zero duration',
    r'''
struct Kick : ForceField
{
    Kick() : ForceField{ForceField::global()} {}
    void apply(Collider& c, float) const override { c.body()->applyImpulse(Vec2{1.f, 0.f}); }
};
int main()
{
    World w;
    Body* b = w.makeBody(BodyDescriptor{});
    b->addCollider(ColliderDescriptor{Polygon{Vec2{2, 0}, Vec2{3, 0}, Vec2{3, 1}, Vec2{2, 1}}});
    w.makeForceField<Kick>();
    w.step(0.f);
    return all(b->velocity() == Vec2{}) ? 0 : 1;
}
''')
bug('contact-order-by-address', 'C21', [(W, 'std::array<simu::Collider*, 2> colliders{*first, *second};', '''std::array<simu::Collider*, 2> colliders{*first, *second};
        if (std::less<>{}(colliders[1], colliders[0]))
        {
            std::swap(colliders[0], colliders[1]);
            std::swap(first, second);
        }''')],
    'worlds whose colliders have other relative addresses',
    'the role of the two colliders of a contact, thus the rounding of the motion, depends on their addresses',
    r'''
static std::vector<float> run(bool shift)
{
    std::vector<float> out;
    World w;
    Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}};
    Body* junk = shift ? w.makeBody(BodyDescriptor{}) : nullptr;
    std::vector<Collider*> holes;
    if (junk)
        for (int i = 0; i < 12; ++i)
            holes.push_back(junk->addCollider(ColliderDescriptor{box}));
    // holes freed in an order that makes later colliders get decreasing addresses
    Body* floor = w.makeBody(BodyDescriptor{Vec2{0.f, -1.f}, 0.f, 0.f});
    floor->addCollider(ColliderDescriptor{Polygon{Vec2{-20, -1}, Vec2{20, -1}, Vec2{20, 1}, Vec2{-20, 1}}});
    std::vector<Body*> bodies;
    for (int i = 0; i < 4; ++i)
    {
        Body* b = w.makeBody(BodyDescriptor{Vec2{0.3f * i, 0.99f + 1.99f * i}, 0.05f * i});
        if (junk && i < 4)
            junk->removeCollider(holes[(i * 5 + 7) % 12]);
        b->addCollider(ColliderDescriptor{box});
        bodies.push_back(b);
    }
    if (junk)
    {
        junk->kill();
    }
    w.makeForceField<Gravity>();
    w.step(0.f);
    for (int i = 0; i < 60; ++i)
        w.step(0.01f);
    for (Body* b : bodies)
    {
        out.push_back(b->position()[0]);
        out.push_back(b->position()[1]);
        out.push_back(b->orientation());
    }
    return out;
}
int main()
{
    auto a = run(false), b = run(true);
    return a == b ? 0 : (std::printf("%.9g %.9g\n", a[0], b[0]), 1);
}
''')
