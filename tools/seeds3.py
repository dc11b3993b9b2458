"""More bugs planted by seed.py."""
from seeds import bug, T, W, C
from seeds2 import BOX, DISK, G

bug('structural-turns-twice', 'C14', [('src/Simu/physics/Body.cpp', 'bool isStruct = all(velocity() == Vec2{}) && angularVelocity() == 0.f;', 'bool isStruct = all(velocity() == Vec2{});')],
    'a structural body that only turns, under two bodies that do not touch each other',
    'the structural body is moved once with each group of bodies it carries: it turns too fast',
    BOX + r'''
int main()
{
    World w;
    BodyDescriptor s{};
    s.dominance = 0.f;
    Body* plate = w.makeBody(s);
    plate->addCollider(ColliderDescriptor{Polygon{Vec2{-9, -1}, Vec2{9, -1}, Vec2{9, 1}, Vec2{-9, 1}}});
    for (float x : {-5.f, 5.f})
        w.makeBody(BodyDescriptor{Vec2{x, 1.9f}})->addCollider(ColliderDescriptor{box});
    plate->setAngularVelocity(0.1f);
    for (int i = 0; i < 10; ++i)
        w.step(0.01f);
    if (std::abs(plate->orientation() - 0.01f) > 1e-5f)
        return std::printf("turned by %g\n", plate->orientation()), 1;
}
''')
bug('contact-arm-position', 'C16', [(C, 'Vec2 centroid = proxies[b].centroid();', 'Vec2 centroid = proxies[b].position();')],
    'a contact of a body whose centroid is not at its position',
    'contacts turn the bodies about their positions: angular momentum is not conserved',
    r'''
int main()
{
    World   w;
    Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}}, aside{Vec2{2, -1}, Vec2{4, -1}, Vec2{4, 1}, Vec2{2, 1}};
    Body*   a = w.makeBody(BodyDescriptor{Vec2{0.f, 0.f}});
    Body*   b = w.makeBody(BodyDescriptor{Vec2{-2.5f, 1.9f}});
    a->addCollider(ColliderDescriptor{box});
    b->addCollider(ColliderDescriptor{aside});
    w.step(1e-6f);
    auto L = [&] {
        double l = 0;
        for (Body& x : w.bodies())
            l += x.mass() * ((double)x.centroid()[0] * x.velocity()[1] - (double)x.centroid()[1] * x.velocity()[0]) + x.inertia() * (double)x.angularVelocity();
        return l;
    };
    b->setVelocity(Vec2{0.f, -4.f});
    double before = L(), exchanged = 0;
    w.step(1e-6f);
    exchanged = std::abs(b->velocity()[1] + 4.f) * b->mass();
    if (exchanged < 0.1 || std::abs(L() - before) > 0.05 * exchanged)
        return std::printf("angular momentum %g -> %g, exchanged %g\n", before, L(), exchanged), 1;
}
''')
bug('fields-not-closed', 'C11', [(W, '''    for (ForceField& f : forceFields())
        f.postStep();
}''', '''    if (dt > 0.f)
        for (ForceField& f : forceFields())
            f.postStep();
}''')],
    'a step in which time does not advance',
    'force fields are not called when the step closes',
    r'''
struct Field : ForceField
{
    int pre = 0, post = 0;
    Field() : ForceField(ForceField::global()) {}
    void apply(Collider&, float) const override {}
    void preStep() override { ++pre; }
    void postStep() override { ++post; }
};
int main()
{
    World  w;
    Field* f = w.makeForceField<Field>();
    for (int i = 1; i <= 6; ++i)
    {
        w.step(i % 3 ? 0.1f : 0.f);
        if (f->pre != i || f->post != i)
            return std::printf("step %d: %d and %d calls\n", i, f->pre, f->post), 1;
    }
}
''')
bug('epa-vertex-limit', 'C06', [(G, '        if (!polytope.addVertex(best, next))', '        if (polytope.vertices.size() > 7 || !polytope.addVertex(best, next))')],
    'shapes of many corners: the nearest edge is found after more than seven vertices',
    'the penetration is that of a coarser shape: too short',
    DISK + r'''
int main()
{
    for (int n = 3; n <= 60; n += 3)
        for (double x : {0.2, 0.5, 1., 1.5, 1.9})
        {
            Polygon a = disk(n, 1, Vec2{0, 0}, 0.1), b = disk(n, 1, Vec2{float(x), 0.3f}, 0.5);
            double  d = depth(a, b);
            Vec2    p = Gjk<Polygon>{a, b}.penetration();
            // depth() only looks along the normals of both shapes: it is exact
            if (d > 1e-3 && std::abs(norm(p) - d) > 1e-3)
                return std::printf("disks of %d corners: penetration %g instead of %g\n", n, norm(p), d), 1;
        }
}
''')
