"""More bugs planted by seed.py."""
from seeds import bug, T, W, C
I = 'include/Simu/physics/Island.hpp'
G = 'include/Simu/math/Gjk.inl.hpp'
B = 'include/Simu/physics/Body.hpp'
CS = 'include/Simu/physics/ConstraintSolver.hpp'
BOX = 'static const Polygon box{Vec2{-1, -1}, Vec2{1, -1}, Vec2{1, 1}, Vec2{-1, 1}};\n'
APP = '''#define MC_NO_MAIN
#include "app/app_scene.hpp"
#define CHECK(...) if (!(__VA_ARGS__)) return std::printf("%s\\n", #__VA_ARGS__), 1
static void frames(Application& app, int n)
{
    env.maxFrames = env.frame + n;
    app.run();
}
struct Box : Scene
{
    Body* body = nullptr;
    int   inits = 0;
    Box() { registerTool<Grabber>(*this); useTool<Grabber>(); camera().setPixelSize(1.f / 20.f); }
    void init(Renderer&) override
    {
        ++inits;
        body = world().makeBody(BodyDescriptor{Vec2{0.f, 0.f}});
        body->addCollider(boxCollider(Vec2{2.f, 2.f}));
    }
    void doGui() override {}
};
struct Other : Box {};
static void select(Application& app, const char* name)
{
    env.poll = [=] { env.click = std::string("Scene selection/") + name; };
    frames(app, 1);
    env.poll = nullptr;
    env.click = "";
}
'''

bug('refit-same-area', 'C01', [(T, 'if (newBounds == node->bounds)', 'if (area(newBounds) == area(node->bounds))')],
    'elements without area, or an update which moves the bounds of a branch and keeps their area',
    'the bounds of a branch are not refreshed: queries miss elements',
    r'''
int main()
{
    for (unsigned seed = 1; seed <= 300; ++seed)
    {
        unsigned s = seed * 7919u;
        auto next = [&](int n) { s = s * 1103515245u + 12345u; return (int)((s >> 16) % n); };
        RTree<int> t;
        std::vector<BoundingBox> boxes;
        std::vector<RTree<int>::iterator> its;
        for (int i = 0; i < 20; ++i)
        {
            Vec2 p{(float)next(6), (float)next(6)}, d{(float)next(2), (float)next(2)};
            int  k = i < 6 ? i : next(6);
            if (i < 6)
            {
                boxes.push_back(BoundingBox{p, p + d});
                its.push_back(t.insert(boxes.back(), i));
            }
            else
            {
                boxes[k] = BoundingBox{p, p + d};
                its[k]   = t.update(its[k], boxes[k]);
            }
            for (auto& q : boxes)
            {
                std::multiset<int> got, want;
                t.forEachIn(q, [&](RTree<int>::iterator it) { got.insert(*it); });
                for (size_t j = 0; j < boxes.size(); ++j)
                    if (q.overlaps(boxes[j]))
                        want.insert((int)j);
                if (got != want)
                    return std::printf("a query visits %zu elements instead of %zu\n", got.size(), want.size()), 1;
            }
        }
    }
}
''')

DISK = r'''
static Polygon disk(int n, double r, Vec2 c, double a0)
{
    std::vector<Vec2> v;
    for (int i = 0; i < n; ++i)
        v.push_back(Vec2{(float)(c[0] + r * std::cos(a0 + i * 6.283185307179586 / n)), (float)(c[1] + r * std::sin(a0 + i * 6.283185307179586 / n))});
    return Polygon{v.begin(), v.end()};
}
// the smallest overlap over the normals of both, negative when apart
static double depth(const Polygon& a, const Polygon& b)
{
    double best = 1e9;
    for (int k = 0; k < 2; ++k)
        for (auto e : edgesOf(k ? b : a))
        {
            double nx = e.to()[1] - e.from()[1], ny = e.from()[0] - e.to()[0], l = std::hypot(nx, ny), d = 1e9;
            for (Vec2 v : (k ? a : b))
                d = std::min(d, ((v[0] - e.from()[0]) * nx + (v[1] - e.from()[1]) * ny) / l);
            best = std::min(best, -d);
        }
    return best;
}
'''
bug('epa-near-vertices', 'C06', [(G, '            if (all(vert == v))\n                return false;', '            if (normSquared(vert - v) < 1e-4f)\n                return false;')],
    'vertices of the Minkowski difference closer than a hundredth to each other: small shapes, or shapes with many vertices',
    'the penetration stops at an edge which is inside of the difference: it is too short and does not separate',
    DISK + r'''
int main()
{
    for (double r : {0.004, 0.01, 1.})
        for (int n : {3, 4, 8})
            for (double x : {0.4, 1., 1.5})
            {
                Polygon a = disk(n, r, Vec2{0, 0}, 0.1), b = disk(n, r, Vec2{float(r * x), float(0.2 * r)}, 0.5);
                double  want = depth(a, b);
                if (want <= 0)
                    continue;
                double got = norm(Gjk<Polygon>{a, b}.penetration());
                if (std::abs(got - want) > 0.02 * r)
                    return std::printf("a penetration of %g instead of %g\n", got, want), 1;
            }
}
''')
bug('gjk-iteration-limit', 'C05', [(G, '            else if (!isNewPoint)', '            else if (!isNewPoint || simplex_.nIterations > 4)')],
    'shapes with many vertices that overlap by little: the search takes more than four supports',
    'overlapping shapes are reported apart',
    DISK + r"""
int main()
{
    for (int n = 3; n <= 60; n += 3)
        for (double x : {0.5, 1.5, 1.9, 1.95})
            for (Vec2 dir : {Vec2{1, 0}, Vec2{0, 1}, Vec2{-1, 0}, Vec2{0.3f, -1}})
            {
                Polygon a = disk(n, 1, Vec2{0, 0}, 0.1), b = disk(n, 1, Vec2{float(x), 0.3f}, 0.5);
                if (depth(a, b) < 1e-3)
                    continue;
                if (!Gjk<Polygon>{a, b, dir}.areColliding())
                    return std::printf("disks of %d vertices that overlap by %g do not collide\n", n, depth(a, b)), 1;
            }
}
""")
bug('contact-clip-one-end', 'C07', [('include/Simu/physics/ContactManifold.hpp', 'Vertex contact2 = clipTo(refEdge.to());\n        if (dot(contact2 - contactEdges[ref].from(), n) >= 0.f)', 'Vertex contact2 = clipTo(refEdge.to());\n        if (dot(contact2 - contactEdges[ref].from(), n) >= 0.f && nContacts_ != 0)')],
    'an inclined contact in which only the end of the incident edge is below the reference edge',
    'the contact has no point although the shapes overlap',
    BOX + r'''
int main()
{
    for (float angle : {0.1f, -0.1f, 0.3f, -0.3f})
        for (int order = 0; order < 2; ++order)
        {
            World w;
            BodyDescriptor d{};
            Body* a = order ? nullptr : w.makeBody(d);
            d.position    = Vec2{0.3f, 1.9f + std::abs(angle)};
            d.orientation = angle;
            Body* b = w.makeBody(d);
            if (!a)
                a = w.makeBody(BodyDescriptor{});
            a->addCollider(ColliderDescriptor{box});
            b->addCollider(ColliderDescriptor{box});
            w.step(1e-6f);
            int n = 0;
            for (auto& c : w.contacts())
                n += c.contactInfo().nContacts;
            if (w.contacts().begin() == w.contacts().end() || n == 0)
                return std::printf("no contact point at %g\n", angle), 1;
        }
}
''')
bug('small-is-degenerate', 'C08', [('include/Simu/math/Geometry.inl.hpp', 'if (area == 0.f)', 'if (std::abs(area) < simu::EPSILON)')],
    'a polygon with an area of less than half a millionth',
    'the properties of a small polygon are left half computed',
    r"""
int main()
{
    for (float s : {1.f, 1e-2f, 1e-4f})
    {
        Polygon p{Vec2{0, 0}, Vec2{2 * s, 0}, Vec2{2 * s, s}, Vec2{0, s}};
        auto g = p.properties();
        if (g.isDegenerate || std::abs(g.area - 2 * s * s) > 1e-3f * s * s || norm(g.centroid - Vec2{s, s / 2}) > 1e-3f * s)
            return std::printf("a box of %g has an area of %g and its centroid at (%g, %g)\n", s, g.area, g.centroid[0], g.centroid[1]), 1;
    }
}
""")
bug('single-constraint-iterations', 'C13', [(I, '''            for (Constraint* constraint : constraints_)
                constraint->solvePositions(constraint->bodies().getProxies());
            for (ContactConstraint* constraint : contacts_)
                constraint->solvePositions(constraint->bodies().getProxies());
''', '''            for (Constraint* constraint : constraints_)
                constraint->solvePositions(constraint->bodies().getProxies());
            for (ContactConstraint* constraint : contacts_)
                constraint->solvePositions(constraint->bodies().getProxies());

            // a lone constraint has nothing to compete with
            if (constraints_.size() + contacts_.size() == 1)
                return;
''')],
    'an island with a single constraint whose position error does not vanish in one iteration',
    'a lone constraint is only solved once for its position, whatever the number of iterations asked for',
    BOX + r'''
struct Counting : HingeConstraint
{
    using HingeConstraint::HingeConstraint;
    void solvePositions(Proxies& p) override { ++n; HingeConstraint::solvePositions(p); }
    int n = 0;
};
int main()
{
    for (Uint32 iterations : {1u, 4u, 9u})
    {
        World w;
        World::Settings s{};
        s.nPositionIterations = iterations;
        w.updateSettings(s);
        Body* a = w.makeBody(BodyDescriptor{Vec2{0, 0}});
        Body* b = w.makeBody(BodyDescriptor{Vec2{3, 0}});
        a->addCollider(ColliderDescriptor{box});
        b->addCollider(ColliderDescriptor{box});
        auto c = w.makeConstraint<Counting>(Bodies{a, b}, Vec2{1.5f, 0.f});
        for (int i = 1; i <= 3; ++i)
        {
            w.step(0.01f);
            if (c->n != i * (int)iterations)
                return std::printf("%d iterations instead of %u\n", c->n, i * iterations), 1;
        }
    }
}
''')
bug('orientation-wrapped', 'C17', [(B, '''        orientation_ *= Rotation{dTheta};
''', '''        orientation_ *= Rotation{dTheta};

        // keep precision after many turns
        if (std::abs(orientation_.theta()) > 1000.f)
            orientation_ = Rotation{std::remainder(orientation_.theta(), 6.28318531f)};
''')],
    'bodies joined while their orientations differ by many turns, or which turn for a long time: one is wrapped before the other',
    'the error of a rotation joint jumps by hundreds of turns when one of its bodies is wrapped',
    BOX + r'''
int main()
{
    World w;
    Body* a = w.makeBody(BodyDescriptor{Vec2{0, 0}, 998.f});
    Body* b = w.makeBody(BodyDescriptor{Vec2{5, 0}, 997.f});
    a->addCollider(ColliderDescriptor{box});
    b->addCollider(ColliderDescriptor{box});
    w.makeConstraint<RotationConstraint>(Bodies{a, b});
    a->setAngularVelocity(10.f);
    b->setAngularVelocity(10.f);
    for (int i = 0; i < 100; ++i)
    {
        w.step(0.01f);
        if (std::abs(a->angularVelocity() - 10) > 0.1f || std::abs(std::remainder(a->orientation() - 998. - 0.1 * (i + 1), 6.283185307179586)) > 0.05)
            return std::printf("orientations %g and %g, angular velocity %g\n", a->orientation(), b->orientation(), a->angularVelocity()), 1;
    }
}
''')
bug('grab-other-button', 'C27', [('src/Simu/app/Tool.cpp', '''    if (input.button != Mouse::Button::left)
        return false;

    if (input.action''', '''    // only the left button grabs
    if (input.button != Mouse::Button::left && input.action == Mouse::Action::press)
        return false;

    if (input.action''')],
    'another button released while a body is grabbed',
    'releasing any button lets go of the body',
    APP + r'''
int main()
{
    resetEnv();
    Application app;
    app.registerScene<Box>("Box");
    auto& s = *dynamic_cast<Box*>(app.scene());
    frames(app, 1);
    moveOver(s, 0.5, 0.5);
    env.button(GLFW_MOUSE_BUTTON_LEFT, GLFW_PRESS);
    CHECK(liveGrabs(s).size() == 1);
    env.button(GLFW_MOUSE_BUTTON_RIGHT, GLFW_PRESS);
    CHECK(liveGrabs(s).size() == 1);
    env.button(GLFW_MOUSE_BUTTON_RIGHT, GLFW_RELEASE);
    CHECK(liveGrabs(s).size() == 1);
    env.button(GLFW_MOUSE_BUTTON_LEFT, GLFW_RELEASE);
    CHECK(liveGrabs(s).empty());
}
''', app=True)
bug('scene-view-not-resized', 'C31', [('src/Simu/app/Application.cpp', '''            if (!next->isInit() || next->app_ != this)
                next->init(this);

            int w, h;
            glfwGetWindowSize(window_, &w, &h);
            windowResizeCallback(window_, w, h);
''', '''            if (!next->isInit())
            {
                int w, h;
                glfwGetWindowSize(window_, &w, &h);
                windowResizeCallback(window_, w, h);
            }

            if (!next->isInit() || next->app_ != this)
                next->init(this);
''')],
    'a window resized while another scene is shown, then a return to the first scene',
    'the view of a scene shown again keeps the size that the window had: the picture is stretched and the cursor is off',
    APP + r'''
int main()
{
    resetEnv();
    Application app;
    app.registerScene<Box>("A");
    app.registerScene<Other>("B");
    auto a = dynamic_cast<Box*>(app.scene());
    frames(app, 1);
    select(app, "B");
    CHECK(app.scene() != a);
    env.resize(1000, 300, 1000, 300);
    frames(app, 1);
    select(app, "A");
    CHECK(app.scene() == a);
    frames(app, 1);
    Vec2 d = a->camera().viewDimensions();
    if (std::abs(d[0] - 50) > 0.01f || std::abs(d[1] - 15) > 0.01f)
        return std::printf("a view of %g by %g\n", d[0], d[1]), 1;
}
''', app=True)
bug('scene-not-rebuilt', 'C31', [('src/Simu/app/Application.cpp', '            current->app_      = nullptr;\n', '')],
    'a scene selected again after another one',
    'a scene selected again goes on from where it was left',
    APP + r'''
int main()
{
    resetEnv();
    Application app;
    app.registerScene<Box>("A");
    app.registerScene<Other>("B");
    auto a = dynamic_cast<Box*>(app.scene());
    frames(app, 1);
    a->body->setVelocity(Vec2{100.f, 0.f});
    frames(app, 3);
    select(app, "B");
    CHECK(app.scene() != a);
    frames(app, 1);
    select(app, "A");
    CHECK(app.scene() == a && a->inits == 2 && a->body->position()[0] == 0.f);
}
''', app=True)
bug('point-radius-forgotten', 'C29', [('src/Simu/app/Renderer.cpp', '    pointRadius_ = radius;\n', '')],
    'a radius set before the precision of the points',
    'points get their default radius again when their precision is changed',
    APP + r'''
int main()
{
    resetEnv();
    Application app;
    Renderer& r = *app.renderer();
    r.setPointRadius(2.f);
    r.setPointPrecision(8);
    CHECK(r.getPointRadius() == 2.f);
    r.setCameraTransform(Mat3::identity());
    r.drawPoint(Vec2{0.f, 0.f}, Rgba{1, 2, 3, 255});
    r.flush();
    double most = 0;
    for (auto& c : env.gl.commands)
        for (auto& t : c.triangles)
            for (int k = 0; k < 3; ++k)
                most = std::max(most, std::hypot((double)t.x[k], (double)t.y[k]));
    CHECK(std::abs(most - 2) < 1e-3);
}
''', app=True)

bug('renderer-sixteen-bits', 'C29', [('include/Simu/app/Renderer.hpp', 'maxVertices_ = 1024;', 'maxVertices_ = 65536;')],
    'a polygon that straddles the limit of the batch: the indices of its last vertices do not fit in 16 bits',
    'triangles are drawn with the vertices of other polygons',
    APP + r"""
int main()
{
    resetEnv();
    Application app;
    Renderer& r = *app.renderer();
    r.setCameraTransform(Mat3::identity());
    r.setPointRadius(0.1f);
    r.setPointPrecision(200);
    for (int i = 0; i < 700; ++i)
        r.drawPoint(Vec2{(float)i, 0.f}, Rgba{1, 2, 3, 255});
    r.flush();
    size_t n = 0;
    for (auto& c : env.gl.commands)
        for (auto& t : c.triangles)
        {
            ++n;
            CHECK(std::abs(t.x[0] - t.x[1]) < 1 && std::abs(t.x[0] - t.x[2]) < 1);
        }
    CHECK(n == 700 * 200);
}
""", app=True)
bug('profiler-last-island', 'C30', [('include/Simu/physics/Profiler.hpp', 'entry_->last_ += dt;', 'entry_->last_ = dt;')],
    'a world with several islands',
    'the profiler only reports the time spent in the last island',
    BOX + r"""
#include <chrono>
struct Slow : HingeConstraint
{
    Slow(const Bodies& b, Vec2 p, bool slow) : HingeConstraint{b, p}, slow{slow} {}
    void solveVelocities(Proxies& p, float dt) override
    {
        auto t = std::chrono::steady_clock::now();
        while (slow && std::chrono::steady_clock::now() - t < std::chrono::milliseconds(2))
            ;
        HingeConstraint::solveVelocities(p, dt);
    }
    bool slow;
};
int main()
{
    for (int which = 0; which < 2; ++which)
    {
        World w;
        for (int i = 0; i < 2; ++i)
        {
            Body* a = w.makeBody(BodyDescriptor{Vec2{0, i * 10.f}});
            Body* b = w.makeBody(BodyDescriptor{Vec2{3, i * 10.f}});
            a->addCollider(ColliderDescriptor{box});
            b->addCollider(ColliderDescriptor{box});
            w.makeConstraint<Slow>(Bodies{a, b}, Vec2{1.5f, i * 10.f}, i == which);
        }
        w.step(0.01f);
        if (w.profiler().solveVelocities.last() < 0.0019 * w.settings().nVelocityIterations)
            return std::printf("%g s are reported\n", w.profiler().solveVelocities.last()), 1;
    }
}
""")
bug('tumbler-count-kept', 'C32', [('demos/Tumbler.cpp', '    count_ = 0;\n', '')],
    'the tumbler restarted after boxes were made',
    'boxes of before the restart are counted: fewer boxes or none come',
    APP + r"""
#include "Demos.hpp"
int main()
{
    resetEnv();
    Application app;
    app.registerScene<Tumbler>("Tumbler");
    env.menuStart["Scene/Options"] = true;
    env.poll = [&] { env.slide = {{"Scene options/Max boxes", {8.f}}}; };
    frames(app, 20);
    auto count = [&] {
        int n = 0;
        for (Body& b : app.scene()->world().bodies())
            n += b.dominance() != 0.f;
        return n;
    };
    CHECK(count() == 8);
    app.scene()->reset();
    CHECK(count() == 0);
    frames(app, 5);
    CHECK(count() == 5);
}
""", app=True, src='demos/Tumbler.cpp src/Simu/math/*.cpp src/Simu/physics/*.cpp')
