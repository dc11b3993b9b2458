// C27: every short history of mouse, keyboard, menu, kill and reset events delivered to the real Application
// and scenes, under memory-error detection, with the grab followed by a model.
#include "app_scene.hpp"
#include <optional>

struct Probe : Scene
{
    enum { A, B, Wall, Drifter, nBodies };
    std::array<Body*, nBodies> body{};
    int                        inits = 0;
    bool                       drawn = true; // bodies that draw themselves
    bool                       link  = false;

    Probe()
    {
        registerAllTools();
        useTool<Grabber>();
        camera().setPixelSize(1.f / 10.f);
    }
    static ColliderDescriptor diamond() { return ColliderDescriptor{Polygon{Vec2{-1.f, 0.f}, Vec2{0.f, -1.f}, Vec2{1.f, 0.f}, Vec2{0.f, 1.f}}}; }
    Body* make(Vec2 pos, float dominance, const ColliderDescriptor& c)
    {
        BodyDescriptor d{};
        d.position  = pos;
        d.dominance = dominance;
        Body* b     = world().makeBody<VisibleBody>(d, Rgba{10, 20, 30, 255}, getRenderer());
        b->addCollider(c);
        return b;
    }
    void init(Renderer& renderer) override
    {
        renderer.setPointPrecision(4);
        renderer.setPointRadius(0.1f);
        renderer.setLineWidth(0.1f);
        // the bounding boxes of A and B overlap, the bodies do not touch
        body[A]       = make(Vec2{0.f, 0.f}, 1.f, diamond());
        body[B]       = make(Vec2{1.2f, 1.2f}, 1.f, diamond());
        body[Wall]    = make(Vec2{10.f, 0.f}, 0.f, boxCollider(Vec2{4.f, 4.f}));
        body[Drifter] = make(Vec2{-10.f, 8.f}, 1.f, boxCollider(Vec2{1.f, 1.f}));
        body[Drifter]->setVelocity(Vec2{0.5f, 0.25f});
        if (link)
            world().makeConstraint<VisibleDistanceConstraint>(Bodies{body[A], body[B]}, std::array<Vec2, 2>{Vec2{0.f, 0.f}, Vec2{1.2f, 1.2f}}, std::nullopt, 50.f, getRenderer(), true);
        ++inits;
    }
    using Scene::currentTool;
    using Scene::useTool;
};

struct Snapshot
{
    Body* body;
    Vec2  v, x;
    float w;
};

struct Driver
{
    mc::Ctx&     ctx;
    Application& app;
    Probe*       scenes[2];
    int          current = 0;
    // the model
    std::optional<int> grabbed;            // index in Probe::body
    bool               alive[4];           // of the shown scene
    Vec2               cursor{0.f, 0.f};
    int                spawned = 0;
    int                seenInits[2];
    // of the running frame
    std::vector<Snapshot> before;
    bool                  calm = false;    // no contact, so that only the grab moves anything
    float                 dt   = 0;
    bool                  stepped = false; // motion can be compared
    double                reach   = 0;     // impulse the pull may have given

    Probe& s() { return *scenes[current]; }
    void   fresh()
    {
        grabbed.reset();
        for (bool& a : alive)
            a = true;
        spawned = 0;
        stepped = false;
    }
    void check(const char* after)
    {
        Scene* shown = app.scene();
        MC_CHECK(shown == &s(), "scene", "after %s another scene is shown", after);
        auto grabs = liveGrabs(s());
        if (!grabbed)
        {
            MC_CHECK(grabs.empty(), "grab", "after %s %zu bodies are pulled and none was grabbed", after, grabs.size());
            return;
        }
        MC_CHECK(grabs.size() == 1, "grab", "after %s %zu bodies are pulled instead of one", after, grabs.size());
        auto g = grabs[0];
        MC_CHECK(g->bodies()[0] == s().body[*grabbed], "grab", "after %s another body is pulled", after);
        MC_CHECK(std::abs(g->mousePos()[0] - cursor[0]) < 1e-3 && std::abs(g->mousePos()[1] - cursor[1]) < 1e-3, "target", "after %s the body is pulled to (%g, %g) and the cursor is at (%g, %g)", after,
                 g->mousePos()[0], g->mousePos()[1], cursor[0], cursor[1]);
    }
    void bodies(const char* after)
    {
        int n = spawned;
        for (bool a : alive)
            n += a;
        int found = 0;
        for (Body& b : s().world().bodies())
            if (!b.isDead())
                ++found;
        MC_CHECK(found == n, "bodies", "after %s there are %d bodies instead of %d", after, found, n);
        MC_CHECK(s().inits == seenInits[current], "init", "after %s the scene was built %d times instead of %d", after, s().inits, seenInits[current]);
    }
    void press(double x, double y, std::vector<int> under)
    {
        moveTo(x, y);
        auto tool = std::string(s().currentTool()->getName());
        env.button(GLFW_MOUSE_BUTTON_LEFT, GLFW_PRESS);
        ctx.transition();
        if (tool == Grabber::name)
        {
            std::vector<int> hit;
            for (int i : under)
            {
                // pulled bodies may have left, killed ones are gone after the next frame
                Body* b = s().body[i];
                if (alive[i] && i != Probe::Wall && b->colliders().begin() != b->colliders().end())
                {
                    auto box = (*b->colliders().begin()).boundingBox();
                    if (box.min()[0] <= cursor[0] && box.min()[1] <= cursor[1] && box.max()[0] >= cursor[0] && box.max()[1] >= cursor[1])
                        hit.push_back(i);
                }
            }
            if (!hit.empty())
            {
                auto grabs = liveGrabs(s());
                MC_CHECK(grabs.size() == 1, "grab", "after a press over %zu bodies %zu are pulled", hit.size(), grabs.size());
                grabbed.reset();
                for (int i : hit)
                    if (s().body[i] == grabs[0]->bodies()[0])
                        grabbed = i;
                MC_CHECK(grabbed.has_value(), "grab", "a body that is not under the cursor is pulled");
                MC_CHECK(std::abs(grabs[0]->bodyPos()[0] - cursor[0]) < 1e-3 && std::abs(grabs[0]->bodyPos()[1] - cursor[1]) < 1e-3, "anchor", "the grabbed point is not under the cursor");
            }
        }
        else if (tool == BoxSpawner::name)
            ++spawned;
        check("a press");
        bodies("a press");
    }
    void moveTo(double x, double y)
    {
        cursor = Vec2{(float)x, (float)y};
        moveOver(s(), x, y);
        ctx.transition();
        check("a motion");
    }
    void kill(int i)
    {
        if (!alive[i])
            ctx.prune();
        s().body[i]->kill();
        alive[i] = false;
        if (grabbed == i)
            grabbed.reset();
        ctx.transition();
        check("a death");
    }
    void choosenTool(const char* name)
    {
        env.click = std::string("Tool selection/") + name;
        if (std::string(s().currentTool()->getName()) != name)
            grabbed.reset();
    }
    void reset()
    {
        ++seenInits[current];
        fresh();
    }
    // just before the scene advances
    void open()
    {
        before.clear();
        calm    = spawned == 0;
        stepped = true;
        for (Body& b : s().world().bodies())
            if (!b.isDead())
                before.push_back({&b, b.velocity(), b.position(), b.angularVelocity()});
        dt = s().isPaused() ? 0.f : std::min((float)env.frameTime, 1.f / 60.f) * s().playSpeed();
        if (grabbed)
        {
            auto   g   = liveGrabs(s())[0];
            Body*  b   = s().body[*grabbed];
            Vec2   r   = g->bodyPos() - b->centroid();
            Vec2   v   = b->velocity() + b->angularVelocity() * perp(r);
            Vec2   e   = g->mousePos() - g->bodyPos();
            reach      = norm(v) + (dt > 0 ? norm(e) / dt : 0);
        }
    }
    void after()
    {
        check("a frame");
        bodies("a frame");
        for (auto& e : env.gl.errors)
            ctx.fail("drawing", "%s", e.c_str());
        if (!stepped)
            return;
        bool contact = false;
        for (ContactConstraint& c : s().world().contacts())
            contact = contact || &c != nullptr;
        if (!calm || contact)
            return;
        for (auto& p : before)
        {
            bool there = false;
            for (Body& b : s().world().bodies())
                there = there || &b == p.body;
            if (!there || p.body->isDead())
                continue;
            Vec2  dv = p.body->velocity() - p.v;
            float dw = p.body->angularVelocity() - p.w;
            if (grabbed && p.body == s().body[*grabbed])
            {
                double j = norm(dv) * p.body->mass(); // P = J
                MC_CHECK(j <= reach * 1.001 + 1e-3, "pull", "the grabbed body was given an impulse of %g, at most %g was expected", j, reach);
            }
            else
            {
                MC_CHECK(norm(dv) <= 1e-5 && std::abs(dw) <= 1e-5, "untouched", "a body that nobody pulls changed its velocity by (%g, %g, %g)", dv[0], dv[1], dw);
                Vec2 dx = p.body->position() - p.x - dt * p.v;
                MC_CHECK(norm(dx) <= 1e-4, "untouched", "a body that nobody pulls moved by (%g, %g) more than its velocity says", dx[0], dx[1]);
            }
        }
    }
};

enum Op
{
    Frame, PressA, PressBoth, PressWall, PressEmpty, Release, Near, Far, KillA, KillB, KillGrab, ResetKey, UseSpawner, UseNothing, UseGrabber, StepKey, PauseKey,
    RightPress, RightRelease, ResetButton, Switch, Captured, nOps
};

static bool apply(Driver& d, int op, bool& endsFrame)
{
    mc::Ctx& ctx = d.ctx;
    endsFrame    = false;
    switch (op)
    {
        case Frame: endsFrame = true; break;
        case PressA: d.press(-0.25, -0.5, {Probe::A, Probe::B}); break;
        case PressBoth: d.press(0.6, 0.6, {Probe::A, Probe::B}); break;
        case PressWall: d.press(10, 0.5, {Probe::Wall, Probe::A, Probe::B}); break;
        case PressEmpty: d.press(20, 15, {Probe::A, Probe::B}); break;
        case Release:
        case Captured:
        {
            env.io.WantCaptureMouse = op == Captured;
            bool grabber            = std::string(d.s().currentTool()->getName()) == Grabber::name;
            env.button(GLFW_MOUSE_BUTTON_LEFT, op == Captured ? GLFW_PRESS : GLFW_RELEASE);
            env.io.WantCaptureMouse = false;
            if (grabber && op == Release)
                d.grabbed.reset();
            ctx.transition();
            d.check(op == Release ? "a release" : "a click on the interface");
            d.bodies("a click");
            break;
        }
        case Near: d.moveTo(-4, -4); break;
        case Far: d.moveTo(0.5, -20); break;
        case KillA: d.kill(Probe::A); break;
        case KillB: d.kill(Probe::B); break;
        case KillGrab:
            if (!d.grabbed)
                return false;
            liveGrabs(d.s())[0]->kill();
            d.grabbed.reset();
            d.check("the end of the constraint");
            break;
        case ResetKey:
            env.key(GLFW_KEY_R, GLFW_PRESS);
            env.key(GLFW_KEY_R, GLFW_RELEASE);
            d.reset();
            d.check("a reset");
            d.bodies("a reset");
            break;
        case ResetButton:
            env.click = "Scene Controls/Restart (R)";
            d.reset();
            endsFrame = true;
            break;
        case UseSpawner: d.choosenTool(BoxSpawner::name); endsFrame = true; break;
        case UseNothing: d.choosenTool(NoTool::name); endsFrame = true; break;
        case UseGrabber: d.choosenTool(Grabber::name); endsFrame = true; break;
        case StepKey:
            env.key(GLFW_KEY_S, GLFW_PRESS);
            env.key(GLFW_KEY_S, GLFW_RELEASE);
            d.check("a single step");
            d.bodies("a single step");
            break;
        case PauseKey:
            env.key(GLFW_KEY_P, GLFW_PRESS);
            env.key(GLFW_KEY_P, GLFW_RELEASE);
            break;
        case RightPress:
        case RightRelease:
            env.button(GLFW_MOUSE_BUTTON_RIGHT, op == RightPress ? GLFW_PRESS : GLFW_RELEASE);
            d.check("a click with the other button");
            d.bodies("a click with the other button");
            break;
        case Switch:
            env.click = d.current ? "Scene selection/One" : "Scene selection/Two";
            d.current = 1 - d.current;
            d.reset();
            endsFrame = true;
            break;
    }
    return true;
}

static void run(mc::Ctx& ctx, const std::vector<int>& ops, int depth, bool drawnLink, std::vector<int> begin = {})
{
    resetEnv();
    env.menuStart["Scene/Controls"] = true;
    env.menuStart["Tools/Select"]   = true;
    env.menuStart["Application/Select Scene"] = true;
    env.gl.keep = false;
    Application app;
    app.registerScene<Probe>("One");
    auto first = dynamic_cast<Probe*>(app.scene());
    MC_CHECK(first && first->inits == 1, "init", "the first scene registered is not shown");
    if (drawnLink)
    {
        // rebuilt with a joint between both bodies
        first->link = true;
        first->reset();
    }
    struct Other : Probe
    {
        static Other*& last()
        {
            static Other* o = nullptr;
            return o;
        }
        Other() { last() = this; }
    };
    app.registerScene<Other>("Two");
    MC_CHECK(app.scene() == first && Other::last()->inits == 0, "init", "registering a second scene shows or builds it");
    Driver d{ctx, app, {first, Other::last()}};
    d.seenInits[0] = first->inits;
    d.seenInits[1] = 0;
    d.fresh();

    int    budget    = depth + (int)begin.size();
    size_t begun     = 0;
    bool   switching = false;
    env.maxFrames  = 1 << 20;
    int  tail      = 2;
    env.gui        = [&] {
        if (switching)
            d.stepped = false;
        else
            d.open();
    };
    env.poll = [&] {
        if (env.frame > 0)
            d.after();
        switching = false;
        while (true)
        {
            if (budget == 0)
            {
                if (--tail == 0)
                    env.maxFrames = env.frame + 1;
                return;
            }
            --budget;
            int  op = begun < begin.size() ? begin[begun++] : ops[ctx.choose((int)ops.size(), "operation")];
            bool ends;
            if (!apply(d, op, ends))
                ctx.prune();
            if (ends)
            {
                switching = op == Switch || op == ResetButton;
                return;
            }
        }
    };
    app.run();
    d.after();
    ctx.validated(1);
    ctx.outcome(d.grabbed ? "pulled" : "free");
}

// deaths, rebuilds and tools around a grab
MC_SCENARIO(lifetimes)
{
    run(ctx, {Frame, PressA, PressBoth, Release, Near, KillA, KillB, KillGrab, ResetKey, ResetButton, UseSpawner, UseGrabber, StepKey, Switch}, ctx.tier(4, 6), false);
}
// with everything else a user can do in between
MC_SCENARIO(everything)
{
    std::vector<int> all;
    for (int i = 0; i < nOps; ++i)
        all.push_back(i);
    run(ctx, all, ctx.tier(3, 5), ctx.flag("linked"));
}
// after a grab has begun
MC_SCENARIO(whileGrabbing)
{
    static const std::vector<int> ops{Frame, PressA, PressBoth, Release, Far, KillA, KillB, KillGrab, ResetKey, UseNothing, UseGrabber, Switch, StepKey, PauseKey};
    int first = ctx.choose(2, "grab") ? PressBoth : PressA;
    run(ctx, ops, ctx.tier(3, 5), ctx.flag("linked"), {first, Frame});
}

// a single body held by one point: the pull is bounded whatever the mass, and brings the point to the cursor
MC_SCENARIO(pull)
{
    float density = ctx.pick(std::vector<float>{0.0125f, 0.25f, 1.f, 4.f, 1e3f, 1e6f}, "density");
    Vec2  anchor  = ctx.pick(std::vector<Vec2>{Vec2{0.f, 0.f}, Vec2{0.75f, 0.25f}, Vec2{-0.9f, 0.9f}}, "anchor");
    Vec2  target  = ctx.pick(std::vector<Vec2>{Vec2{3.f, 0.f}, Vec2{-2.f, 5.f}, Vec2{10.f, -12.f}, Vec2{0.5f, 0.f}}, "target");
    float speed   = ctx.pick(std::vector<float>{0.f, 2.f, -6.f}, "speed");
    int   release = ctx.choose(2, "released");
    ctx.divide();
    struct One : Scene
    {
        Body* b = nullptr;
        float density, speed;
        One(float density, float speed) : density{density}, speed{speed}
        {
            registerAllTools();
            useTool<Grabber>();
        }
        void init(Renderer&) override
        {
            BodyDescriptor d{};
            b = world().makeBody(d);
            b->addCollider(boxCollider(Vec2{2.f, 2.f}, Vec2{0.f, 0.f}, density));
            b->setVelocity(Vec2{0.f, speed});
        }
    };
    resetEnv();
    env.gl.keep = false;
    Application app;
    app.registerScene<One>("One", density, speed);
    One&   s = dynamic_cast<One&>(*app.scene());
    bool   light = density <= 1.f;
    int    frames = light ? 600 : 60;
    double first = 0, reach = 0;
    Vec2   v0{};
    float  w0 = 0;
    env.maxFrames = frames;
    bool held = false;
    auto grip = [&] { return s.b->toWorldSpace() * anchor; };
    auto judge = [&] {
        if (!held)
            return;
        double j = norm(s.b->velocity() - v0) * s.b->mass();
        MC_CHECK(j <= reach * 1.001 + 1e-4 * s.b->mass() * (1 + norm(v0)), "pull", "mass %g: the pull gave an impulse of %g, at most %g was expected", s.b->mass(), j, reach);
        if (env.frame == 1 && speed == 0.f)
        {
            Vec2 dv = s.b->velocity() + s.b->angularVelocity() * perp(grip() - s.b->centroid());
            Vec2 e  = target - anchor;
            MC_CHECK(dot(dv, e) > 0, "direction", "mass %g: the grabbed point moves away from the cursor, by (%g, %g)", s.b->mass(), dv[0], dv[1]);
        }
    };
    env.poll = [&] {
        if (env.frame == 0)
        {
            moveOver(s, anchor[0], anchor[1]);
            env.button(GLFW_MOUSE_BUTTON_LEFT, GLFW_PRESS);
            moveOver(s, target[0], target[1]);
            held  = true;
            first = norm(target - grip());
        }
        else
        {
            judge();
            ctx.transition();
        }
        if (release && env.frame == 20)
        {
            env.button(GLFW_MOUSE_BUTTON_LEFT, GLFW_RELEASE);
            held = false;
            v0   = s.b->velocity();
            w0   = s.b->angularVelocity();
        }
        if (!held)
        {
            MC_CHECK(norm(s.b->velocity() - v0) <= 1e-5 * (1 + norm(v0)) && std::abs(s.b->angularVelocity() - w0) <= 1e-5 * (1 + std::abs(w0)), "released", "a released body is still pulled");
            return;
        }
        v0     = s.b->velocity();
        Vec2 r = grip() - s.b->centroid();
        reach  = norm(v0 + s.b->angularVelocity() * perp(r)) + norm(target - grip()) * 60.0;
    };
    app.run();
    if (!release)
    {
        judge();
        if (light)
            MC_CHECK(norm(target - grip()) <= 0.02 * first + 0.01 + 0.02 * std::abs(speed), "reached", "mass %g: after ten seconds the grabbed point is still %g from the cursor", s.b->mass(), norm(target - grip()));
    }
}

// boxes appear where the user clicks, as configured
MC_SCENARIO(spawner)
{
    struct S : Scene
    {
        BoxSpawner* t;
        S()
        {
            registerAllTools();
            t = useTool<BoxSpawner>();
        }
        void init(Renderer&) override {}
    };
    resetEnv();
    env.gl.keep = false;
    Application app;
    app.registerScene<S>("S");
    S& s = dynamic_cast<S&>(*app.scene());
    s.t->dims        = ctx.pick(std::vector<Vec2>{Vec2{2.f, 2.f}, Vec2{0.1f, 50.f}, Vec2{3.f, 0.5f}}, "dims");
    s.t->density     = ctx.pick(std::vector<float>{1.f, 0.1f, 100.f}, "density");
    s.t->friction    = ctx.pick(std::vector<float>{0.f, 0.5f, 1.f}, "friction");
    s.t->bounciness  = ctx.pick(std::vector<float>{0.f, 0.25f, 1.f}, "bounciness");
    s.t->orientation = ctx.pick(std::vector<float>{0.f, 0.5f, -1.f, 3.f}, "orientation");
    int button       = ctx.choose(3, "button");
    int clicks       = 1 + ctx.choose(2, "clicks");
    std::vector<Vec2> at{Vec2{3.f, -7.f}, Vec2{-14.5f, 12.f}};
    s.camera().setZoom(ctx.choose(2, "zoom") ? 2.f : 1.f);
    env.maxFrames = 2;
    env.poll      = [&] {
        if (env.frame)
            return;
        for (int i = 0; i < clicks; ++i)
        {
            moveOver(s, at[i][0], at[i][1]);
            env.button(button, GLFW_PRESS);
            env.button(button, GLFW_RELEASE);
            ctx.transition();
        }
    };
    app.run();
    int n = 0;
    for (Body& body : s.world().bodies())
    {
        Body* b  = &body;
        MC_CHECK(n < clicks && button == 0, "spawned", "too many boxes appear");
        double m = (double)s.t->dims[0] * s.t->dims[1] * s.t->density;
        MC_CHECK(norm(b->centroid() - at[n]) < 1e-3, "place", "the box appears at (%g, %g) instead of (%g, %g)", b->centroid()[0], b->centroid()[1], at[n][0], at[n][1]);
        MC_CHECK(std::abs(b->mass() - m) <= 1e-4 * m, "mass", "the box weighs %g instead of %g", b->mass(), m);
        MC_CHECK(std::abs(b->orientation() - s.t->orientation) <= 1e-5, "angle", "the box is turned by %g instead of %g", b->orientation(), s.t->orientation);
        MC_CHECK(!b->isStructural(), "structural", "the box is structural");
        int k = 0;
        for (const Collider& c : b->colliders())
        {
            ++k;
            double I = m * (s.t->dims[0] * s.t->dims[0] + s.t->dims[1] * s.t->dims[1]) / 12.0;
            MC_CHECK(std::abs(b->inertia() - I) <= 1e-3 * I, "inertia", "the inertia of the box is %g instead of %g", b->inertia(), I);
            MC_CHECK(c.material().friction.value == s.t->friction && c.material().bounciness.value == s.t->bounciness, "material", "the box has another surface than configured");
        }
        MC_CHECK(k == 1, "colliders", "the box has %d colliders", k);
        ++n;
    }
    MC_CHECK(n == (button == 0 ? clicks : 0), "spawned", "%d clicks of button %d made %d boxes", clicks, button, n);
}
