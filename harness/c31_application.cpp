// C31: the real Application driven by every short history of keyboard, mouse, window and menu events,
// against a model of what the documentation says they do.
#include "app_scene.hpp"
#include "owned_clock.hpp"

struct Recorder : Tool
{
    static constexpr char name[] = "Recorder";
    bool                  use    = false; // whether it uses the input
    std::vector<Vec2>     moves, scrolls;
    std::vector<Mouse::Input>    presses;
    std::vector<Keyboard::Input> keys;
    int                          left = 0; // how often another tool was chosen
    void        onDeselect() override { ++left; }
    void        doGui() override {}
    const char* getName() const override { return name; }
    bool        onKeypress(Keyboard::Input i) override { return keys.push_back(i), use; }
    bool        onMousePress(Mouse::Input i) override { return presses.push_back(i), use; }
    bool        onMouseMove(Vec2 p) override { return moves.push_back(p), use; }
    bool        onMouseScroll(Vec2 s) override { return scrolls.push_back(s), use; }
};

struct Watched : Scene
{
    int                inits = 0, posts = 0;
    std::vector<float> steps;
    Recorder*          recorder = nullptr;
    BoxSpawner*        spawner  = nullptr;
    std::vector<Vec2>  moves;
    std::vector<Mouse::Input> presses;
    Body*              body = nullptr;
    bool               orderly = true;
    int                scrolls = 0, keysSeen = 0;

    Watched()
    {
        registerAllTools();
        recorder = registerTool<Recorder>();
        spawner  = useTool<BoxSpawner>();
        useTool<Recorder>();
        camera().setPixelSize(1.f / 10.f);
    }
    void init(Renderer& r) override
    {
        ++inits;
        BodyDescriptor d{};
        body = world().makeBody<VisibleBody>(d, Rgba{1, 2, 3, 4}, &r);
        body->addCollider(boxCollider(Vec2{1.f, 1.f}));
        body->setVelocity(Vec2{1.f, 0.f});
    }
    void preStep(float dt) override
    {
        orderly = orderly && posts == (int)steps.size();
        steps.push_back(dt);
    }
    void postStep(float) override { ++posts; }
    bool onMouseMove(Vec2 p) override
    {
        moves.push_back(p);
        return Scene::onMouseMove(p);
    }
    bool onMousePress(Mouse::Input i) override
    {
        presses.push_back(i);
        return Scene::onMousePress(i);
    }
    using Scene::currentTool;
    using Scene::useTool;
};

struct SceneModel
{
    bool   paused = false;
    double speed = 1, zoom = 1, cx = 0, cy = 0, pixel = 0.1;
    double vw = 2, vh = 2;
    int    inits = 0;
    std::vector<double> steps;
    double x = 0; // of the body, which moves at a speed of one
    std::string tool = Recorder::name;
};

struct Model
{
    mc::Ctx&     ctx;
    Application& app;
    Watched*     scenes[2];
    SceneModel   m[2];
    int          cur = 0;
    bool         closed = false;
    bool         captureMouse = false, captureKeys = false;
    std::set<int> held;

    Watched&    s() { return *scenes[cur]; }
    SceneModel& M() { return m[cur]; }
    bool        recording() { return M().tool == Recorder::name; }
    bool        used() { return recording() && s().recorder->use; }

    void fit()
    {
        if (env.w > 0 && env.h > 0)
            M().vw = env.w * M().pixel, M().vh = env.h * M().pixel;
    }
    void rebuilt()
    {
        ++M().inits;
        M().x = 0;
    }
    void advance(double dt)
    {
        dt        = std::min(dt, 1.0 / 60);
        double px = (held.count(GLFW_KEY_RIGHT) ? 1 : 0) - (held.count(GLFW_KEY_LEFT) ? 1 : 0), py = (held.count(GLFW_KEY_UP) ? 1 : 0) - (held.count(GLFW_KEY_DOWN) ? 1 : 0);
        double n  = std::hypot(px, py);
        if (n > 0)
        {
            M().cx += px / n * 500 * M().pixel / M().zoom * dt;
            M().cy += py / n * 500 * M().pixel / M().zoom * dt;
        }
        double sim = M().paused ? 0 : dt * M().speed;
        M().steps.push_back(sim);
        M().x += sim;
    }
    void check(const char* after)
    {
        MC_CHECK(app.scene() == &s(), "scene", "after %s the wrong scene is shown", after);
        MC_CHECK(env.close == closed, "close", "after %s the application is%s closing", after, env.close ? "" : " not");
        for (int i = 0; i < 2; ++i)
        {
            Watched&    r = *scenes[i];
            SceneModel& e = m[i];
            MC_CHECK(r.isPaused() == e.paused, "pause", "after %s scene %d is%s paused", after, i, r.isPaused() ? "" : " not");
            MC_CHECK(std::abs(r.playSpeed() - e.speed) <= 1e-6 * e.speed, "speed", "after %s scene %d plays at %g instead of %g", after, i, r.playSpeed(), e.speed);
            MC_CHECK(std::abs(r.camera().zoom() - e.zoom) <= 1e-4 * e.zoom, "zoom", "after %s the zoom of scene %d is %g instead of %g", after, i, r.camera().zoom(), e.zoom);
            MC_CHECK(std::abs(r.camera().center()[0] - e.cx) <= 1e-4 && std::abs(r.camera().center()[1] - e.cy) <= 1e-4, "center", "after %s scene %d looks at (%g, %g) instead of (%g, %g)", after, i,
                     r.camera().center()[0], r.camera().center()[1], e.cx, e.cy);
            MC_CHECK(std::abs(r.camera().viewDimensions()[0] - e.vw) <= 1e-4 * e.vw && std::abs(r.camera().viewDimensions()[1] - e.vh) <= 1e-4 * e.vh, "view",
                     "after %s the view of scene %d measures (%g, %g) instead of (%g, %g)", after, i, r.camera().viewDimensions()[0], r.camera().viewDimensions()[1], e.vw, e.vh);
            MC_CHECK(r.inits == e.inits, "init", "after %s scene %d was built %d times instead of %d", after, i, r.inits, e.inits);
            MC_CHECK(r.orderly && r.posts == (int)r.steps.size() && r.steps.size() == e.steps.size(), "steps", "after %s scene %d has begun %zu and ended %d steps instead of %zu", after, i, r.steps.size(),
                     r.posts, e.steps.size());
            for (size_t k = 0; k < e.steps.size(); ++k)
                MC_CHECK(std::abs(r.steps[k] - e.steps[k]) <= 1e-6 * (1 + e.steps[k]), "duration", "after %s step %zu of scene %d lasted %g instead of %g", after, k, i, r.steps[k], e.steps[k]);
            if (e.inits)
                MC_CHECK(std::abs(r.body->position()[0] - e.x) <= 1e-4 * (1 + e.x), "motion", "after %s the body of scene %d is at %g instead of %g", after, i, r.body->position()[0], e.x);
            MC_CHECK(r.currentTool()->getName() == e.tool, "tool", "after %s scene %d uses the tool %s instead of %s", after, i, r.currentTool()->getName(), e.tool.c_str());
        }
        if (s().app() != &app)
            ctx.fail("owner", "after %s the scene shown does not know its application", after);
        ctx.transition();
    }
    Vec2 under() const
    {
        const SceneModel& e = m[cur];
        return Vec2{(float)(e.cx + (env.cx - env.w / 2.0) * e.pixel / e.zoom), (float)(e.cy + (env.h / 2.0 - env.cy) * e.pixel / e.zoom)};
    }
    bool near(Vec2 a, Vec2 b) { return std::abs(a[0] - b[0]) <= 1e-4 * (1 + std::abs(b[0])) && std::abs(a[1] - b[1]) <= 1e-4 * (1 + std::abs(b[1])); }

    // events ---------------------------------------------------------------------------------------
    void key(int k, int action, int mods = 0)
    {
        size_t seen = s().recorder->keys.size();
        env.key(k, action, mods);
        if (action == GLFW_RELEASE)
            held.erase(k);
        else
            held.insert(k);
        bool reach = !captureKeys;
        if (recording())
        {
            MC_CHECK(s().recorder->keys.size() == seen + reach, "key", "a key reached the tool %zu times", s().recorder->keys.size() - seen);
            if (reach)
            {
                auto& i = s().recorder->keys.back();
                MC_CHECK((int)i.key == k && (int)i.action == action && (int)i.modifier == mods, "key", "key %d arrives as %d", k, (int)i.key);
            }
        }
        if (reach && !used() && action != GLFW_RELEASE)
        {
            if (k == GLFW_KEY_S)
            {
                bool p     = M().paused;
                M().paused = false;
                advance(1.0 / 60);
                M().paused = p;
            }
            else if (action == GLFW_PRESS)
                switch (k)
                {
                    case GLFW_KEY_ESCAPE: closed = true; break;
                    case GLFW_KEY_P: M().paused = !M().paused; break;
                    case GLFW_KEY_MINUS: M().speed /= 2; break;
                    case GLFW_KEY_EQUAL: M().speed *= 2; break;
                    case GLFW_KEY_R: rebuilt(); break;
                    default: break;
                }
        }
        check("a key");
    }
    void move(double x, double y)
    {
        size_t seen = s().recorder->moves.size(), direct = s().moves.size();
        env.move(x, y);
        if (recording())
        {
            MC_CHECK(s().recorder->moves.size() == seen + 1, "mouse", "a motion of the mouse reached the tool %zu times", s().recorder->moves.size() - seen);
            MC_CHECK(near(s().recorder->moves.back(), under()), "mapping", "the cursor at (%g, %g) is given as (%g, %g) instead of (%g, %g)", x, y, s().recorder->moves.back()[0], s().recorder->moves.back()[1],
                     under()[0], under()[1]);
        }
        if (!used())
            MC_CHECK(s().moves.size() == direct + 1 && near(s().moves.back(), under()), "mouse", "the scene was not told of a motion its tool did not use");
        else
            MC_CHECK(s().moves.size() == direct, "mouse", "the scene was told of a motion its tool used");
        check("a motion of the mouse");
    }
    void button(int b, int action, int mods)
    {
        size_t seen = s().recorder->presses.size(), direct = s().presses.size();
        int    bodies = 0;
        for (Body& x : s().world().bodies())
            bodies += &x != nullptr;
        env.button(b, action, mods);
        bool reach = !captureMouse;
        if (recording())
        {
            MC_CHECK(s().recorder->presses.size() == seen + reach, "button", "a button reached the tool %zu times", s().recorder->presses.size() - seen);
            if (reach)
            {
                auto& i = s().recorder->presses.back();
                MC_CHECK((int)i.button == b && (int)i.action == action && (int)i.modifiers == mods, "button", "button %d arrives as %d", b, (int)i.button);
                MC_CHECK(near(i.pos, under()), "mapping", "a click at (%g, %g) is given as (%g, %g) instead of (%g, %g)", env.cx, env.cy, i.pos[0], i.pos[1], under()[0], under()[1]);
            }
        }
        if (M().tool != BoxSpawner::name)
            MC_CHECK(s().presses.size() == direct + (reach && !used()), "button", "the scene was told %zu times of a click", s().presses.size() - direct);
        int now = 0;
        for (Body& x : s().world().bodies())
            now += &x != nullptr;
        bool spawns = M().tool == BoxSpawner::name && reach && b == GLFW_MOUSE_BUTTON_LEFT && action == GLFW_PRESS;
        MC_CHECK(now == bodies + spawns, "spawn", "a click with %s made %d bodies", M().tool.c_str(), now - bodies);
        check("a click");
    }
    void scroll(double x, double y)
    {
        env.scroll(x, y);
        if (!captureMouse && !used())
            M().zoom *= std::pow(1.25, y);
        check("scrolling");
    }
    void resize(int w, int h, int scale)
    {
        env.resize(w, h, w * scale, h * scale);
        fit();
        check("resizing");
        viewport();
    }
    void viewport()
    {
        MC_CHECK(env.gl.view[0] == 0 && env.gl.view[1] == 0 && env.gl.view[2] == env.fw && env.gl.view[3] == env.fh, "viewport", "the scene is drawn on (%d, %d, %d, %d) of a window of %d x %d pixels", env.gl.view[0],
                 env.gl.view[1], env.gl.view[2], env.gl.view[3], env.fw, env.fh);
    }
    // what the interface showed, before it acted
    void shown(const SceneModel& e, const std::string& click)
    {
        bool play = env.items.count("Scene Controls/Play (P)"), pause = env.items.count("Scene Controls/Pause (P)");
        MC_CHECK(play == e.paused && pause == !e.paused, "label", "the scene is%s paused and the interface offers to %s", e.paused ? "" : " not", play ? "play" : "pause");
        bool said = false;
        for (auto& t : env.texts)
            if (t.rfind("Play speed", 0) == 0)
                said = std::abs(atof(t.c_str() + 10) - e.speed) <= 1e-5 * (1 + e.speed);
        MC_CHECK(said, "label", "the play speed shown is not %g", e.speed);
    }
};

static void setup()
{
    resetEnv();
    env.menuStart["Scene/Controls"]           = true;
    env.menuStart["Scene/Options"]            = true;
    env.menuStart["Tools/Select"]             = true;
    env.menuStart["Tools/Options"]            = true;
    env.menuStart["Application/Select Scene"] = true;
    env.menuStart["Engine/Profiler"]          = true;
}

enum Op
{
    Frame, KeyP, KeyS, KeyMinus, KeyEqual, KeyR, GuiPause, GuiRestart, GuiPlus, GuiMinus, ScrollUp, ScrollDown, HoldLeft, HoldUp, Switch, Wide, Move, Click,
    RepeatS, RepeatP, ReleaseR, Escape, OtherKey, HoldRight, ScrollTwo, ScrollHalf, ScrollSide, ScrollThreeDown, SlowFrame, FastFrame, Hide, CaptureMouse, CaptureKeys, UseInput, Spawner, NoneTool, RightClick,
    GuiExit, nOps
};

static void run(mc::Ctx& ctx, const std::vector<int>& ops, int depth, int scale)
{
    setup();
    env.fw = env.w * scale, env.fh = env.h * scale;
    env.gl.keep = false;
    Application app;
    app.registerScene<Watched>("One");
    auto one = dynamic_cast<Watched*>(app.scene());
    struct Second : Watched
    {
        static Watched*& last()
        {
            static Watched* w = nullptr;
            return w;
        }
        Second() { last() = this; }
    };
    app.registerScene<Second>("Two");
    MC_CHECK(one != nullptr && app.scene() == one, "scene", "the first scene registered is not the one shown");
    Model d{ctx, app, {one, Second::last()}};
    d.m[0].inits = 1;
    d.fit();
    d.check("opening the application");
    d.viewport();

    int         budget = depth, tail = 2;
    std::string click;
    bool        pending = false;
    env.maxFrames       = 1 << 20;
    auto endFrame = [&] {
        // the interface acts, then the scene advances once
        SceneModel before = d.M();
        std::string c = env.click;
        if (c == "Scene Controls/Play (P)" || c == "Scene Controls/Pause (P)")
            d.M().paused = !d.M().paused;
        else if (c == "Scene Controls/Restart (R)")
            d.rebuilt();
        else if (c == "Scene Controls/+")
            d.M().speed *= 2;
        else if (c == "Scene Controls/-")
            d.M().speed /= 2;
        else if (c == "Application/Exit")
            d.closed = true;
        else if (c.rfind("Tool selection/", 0) == 0)
            d.M().tool = c.substr(15);
        else if (c.rfind("Scene selection/", 0) == 0)
        {
            int to = c == "Scene selection/Two";
            if (to != d.cur)
            {
                d.cur = to;
                d.rebuilt();
                d.fit();
                before = d.M();
            }
        }
        click   = c;
        pending = true;
        d.advance(env.frameTime);
        env.gl.commands.clear();
    };
    auto settle = [&] {
        if (!pending)
            return;
        pending = false;
        d.check("a frame");
        for (auto& e : env.gl.errors)
            ctx.fail("drawing", "%s", e.c_str());
        if (!click.empty())
            MC_CHECK(env.clicked == click, "offered", "the interface does not offer \"%s\"", click.c_str());
        // one frame: cleared once, drawn, shown
        int clears = 0, swaps = 0;
        for (auto& c : env.gl.commands)
        {
            clears += c.kind == DrawCommand::Clear;
            swaps += c.kind == DrawCommand::Swap;
            MC_CHECK(c.kind != DrawCommand::Draw || (clears == 1 && swaps == 0), "frame", "something is drawn before the screen is cleared or after it is shown");
        }
        MC_CHECK(clears == 1 && swaps == 1, "frame", "a frame clears the screen %d times and shows it %d times", clears, swaps);
        if (click.rfind("Scene", 0) != 0)
            d.shown(d.M(), click);
    };
    env.poll = [&] {
        // (the stub forgets what the interface showed once the frame has begun)
    };
    // run one frame at a time, so that what a frame showed can be judged after it
    auto frame = [&] {
        env.maxFrames = env.frame + 1;
        auto want     = env.click;
        env.poll      = [&, want] { env.click = want; };
        endFrame();
        app.run();
        settle();
    };
    while (budget-- > 0 && !d.closed)
    {
        int op        = ops[ctx.choose((int)ops.size(), "operation")];
        env.click     = "";
        env.frameTime = 1.0 / 60;
        switch (op)
        {
            case Frame: frame(); break;
            case SlowFrame: env.frameTime = 0.5; frame(); break;
            case FastFrame: env.frameTime = 1.0 / 240; frame(); break;
            case KeyP: d.key(GLFW_KEY_P, GLFW_PRESS); d.key(GLFW_KEY_P, GLFW_RELEASE); break;
            case KeyS: d.key(GLFW_KEY_S, GLFW_PRESS); d.key(GLFW_KEY_S, GLFW_RELEASE); break;
            case RepeatS: d.key(GLFW_KEY_S, GLFW_REPEAT); break;
            case RepeatP: d.key(GLFW_KEY_P, GLFW_REPEAT); break;
            case KeyMinus: d.key(GLFW_KEY_MINUS, GLFW_PRESS); d.key(GLFW_KEY_MINUS, GLFW_RELEASE); break;
            case KeyEqual: d.key(GLFW_KEY_EQUAL, GLFW_PRESS, GLFW_MOD_SHIFT); d.key(GLFW_KEY_EQUAL, GLFW_RELEASE, GLFW_MOD_SHIFT); break;
            case KeyR: d.key(GLFW_KEY_R, GLFW_PRESS); break;
            case ReleaseR: d.key(GLFW_KEY_R, GLFW_RELEASE); break;
            case Escape: d.key(GLFW_KEY_ESCAPE, GLFW_PRESS); break;
            case OtherKey: d.key(GLFW_KEY_Q, GLFW_PRESS, GLFW_MOD_CONTROL); d.key(GLFW_KEY_TAB, GLFW_PRESS); break;
            case HoldLeft: d.key(GLFW_KEY_LEFT, d.held.count(GLFW_KEY_LEFT) ? GLFW_RELEASE : GLFW_PRESS); break;
            case HoldUp: d.key(GLFW_KEY_UP, d.held.count(GLFW_KEY_UP) ? GLFW_RELEASE : GLFW_PRESS); break;
            case HoldRight: d.key(GLFW_KEY_RIGHT, d.held.count(GLFW_KEY_RIGHT) ? GLFW_RELEASE : GLFW_PRESS); break;
            case ScrollUp: d.scroll(0, 1); break;
            case ScrollDown: d.scroll(0, -1); break;
            case ScrollTwo: d.scroll(0, 2); break;
            case ScrollHalf: d.scroll(0.5, 0.5); break;
            case ScrollSide: d.scroll(1, 0); break;
            case ScrollThreeDown: d.scroll(0, -3); break;
            case GuiPause:
                env.click = d.M().paused ? "Scene Controls/Play (P)" : "Scene Controls/Pause (P)";
                frame();
                break;
            case GuiRestart: env.click = "Scene Controls/Restart (R)"; frame(); break;
            case GuiPlus: env.click = "Scene Controls/+"; frame(); break;
            case GuiMinus: env.click = "Scene Controls/-"; frame(); break;
            case GuiExit: env.click = "Application/Exit"; frame(); break;
            case Switch: env.click = d.cur ? "Scene selection/One" : "Scene selection/Two"; frame(); break;
            case Wide: d.resize(env.w == 1000 ? 640 : 1000, env.w == 1000 ? 480 : 300, scale); break;
            case Hide: d.resize(0, 0, scale); d.resize(800, 600, scale); break;
            case Move: d.move(0, 0); d.move(env.w, env.h / 4.0); d.move(123.5, 77.25); break;
            case Click: d.button(GLFW_MOUSE_BUTTON_LEFT, GLFW_PRESS, 0); d.button(GLFW_MOUSE_BUTTON_LEFT, GLFW_RELEASE, 0); break;
            case RightClick: d.button(GLFW_MOUSE_BUTTON_RIGHT, GLFW_PRESS, GLFW_MOD_ALT); d.button(GLFW_MOUSE_BUTTON_MIDDLE, GLFW_PRESS, 0); break;
            case CaptureMouse: d.captureMouse = env.io.WantCaptureMouse = !d.captureMouse; break;
            case CaptureKeys: d.captureKeys = env.io.WantCaptureKeyboard = !d.captureKeys; break;
            case UseInput: d.s().recorder->use = !d.s().recorder->use; break;
            case Spawner: env.click = std::string("Tool selection/") + BoxSpawner::name; frame(); break;
            case NoneTool: env.click = std::string("Tool selection/") + NoTool::name; frame(); break;
        }
    }
    if (!d.closed)
    {
        env.click = "";
        env.frameTime = 1.0 / 60;
        frame();
        d.move(17, 400);
        ctx.outcome("open");
    }
    else
    {
        int frames    = env.swaps;
        env.maxFrames = 1 << 20;
        env.poll      = [&] { ctx.fail("close", "the application goes on after it was closed"); };
        app.run();
        ctx.outcome("closed");
    }
    ctx.validated(1);
}

// the controls of a simulation
MC_SCENARIO(controls)
{
    run(ctx, {Frame, KeyP, KeyS, KeyMinus, KeyEqual, KeyR, GuiPause, GuiRestart, GuiPlus, GuiMinus, Switch}, ctx.tier(5, 7), 1);
}
// what the camera shows
MC_SCENARIO(views)
{
    run(ctx, {Frame, KeyS, KeyR, ScrollUp, ScrollDown, ScrollTwo, ScrollHalf, ScrollSide, ScrollThreeDown, HoldLeft, HoldUp, HoldRight, Wide, Hide, Move, Switch}, ctx.tier(4, 5), 1 + ctx.choose(2, "pixel ratio"));
}
// everything
MC_SCENARIO(everything)
{
    std::vector<int> all;
    for (int i = 0; i < nOps; ++i)
        all.push_back(i);
    run(ctx, all, ctx.tier(3, 4), 1);
}

// keys and buttons have the meaning the window system gives them
MC_SCENARIO(names)
{
    typedef Keyboard::Key K;
    static const std::vector<std::pair<K, int>> names{
        {K::unknown, GLFW_KEY_UNKNOWN}, {K::space, GLFW_KEY_SPACE}, {K::apostrophe, GLFW_KEY_APOSTROPHE}, {K::comma, GLFW_KEY_COMMA}, {K::minus, GLFW_KEY_MINUS}, {K::period, GLFW_KEY_PERIOD},
        {K::slash, GLFW_KEY_SLASH}, {K::key0, GLFW_KEY_0}, {K::key1, GLFW_KEY_1}, {K::key2, GLFW_KEY_2}, {K::key3, GLFW_KEY_3}, {K::key4, GLFW_KEY_4}, {K::key5, GLFW_KEY_5}, {K::key6, GLFW_KEY_6},
        {K::key7, GLFW_KEY_7}, {K::key8, GLFW_KEY_8}, {K::key9, GLFW_KEY_9}, {K::semicolon, GLFW_KEY_SEMICOLON}, {K::equal, GLFW_KEY_EQUAL}, {K::A, GLFW_KEY_A}, {K::B, GLFW_KEY_B}, {K::C, GLFW_KEY_C},
        {K::D, GLFW_KEY_D}, {K::E, GLFW_KEY_E}, {K::F, GLFW_KEY_F}, {K::G, GLFW_KEY_G}, {K::H, GLFW_KEY_H}, {K::I, GLFW_KEY_I}, {K::J, GLFW_KEY_J}, {K::K, GLFW_KEY_K}, {K::L, GLFW_KEY_L}, {K::M, GLFW_KEY_M},
        {K::N, GLFW_KEY_N}, {K::O, GLFW_KEY_O}, {K::P, GLFW_KEY_P}, {K::Q, GLFW_KEY_Q}, {K::R, GLFW_KEY_R}, {K::S, GLFW_KEY_S}, {K::T, GLFW_KEY_T}, {K::U, GLFW_KEY_U}, {K::V, GLFW_KEY_V}, {K::W, GLFW_KEY_W},
        {K::X, GLFW_KEY_X}, {K::Y, GLFW_KEY_Y}, {K::Z, GLFW_KEY_Z}, {K::leftBracket, GLFW_KEY_LEFT_BRACKET}, {K::backslash, GLFW_KEY_BACKSLASH}, {K::rightBracket, GLFW_KEY_RIGHT_BRACKET},
        {K::graveAccent, GLFW_KEY_GRAVE_ACCENT}, {K::world1, GLFW_KEY_WORLD_1}, {K::world2, GLFW_KEY_WORLD_2}, {K::escape, GLFW_KEY_ESCAPE}, {K::enter, GLFW_KEY_ENTER}, {K::tab, GLFW_KEY_TAB},
        {K::backspace, GLFW_KEY_BACKSPACE}, {K::insert, GLFW_KEY_INSERT}, {K::del, GLFW_KEY_DELETE}, {K::right, GLFW_KEY_RIGHT}, {K::left, GLFW_KEY_LEFT}, {K::down, GLFW_KEY_DOWN}, {K::up, GLFW_KEY_UP},
        {K::pageUp, GLFW_KEY_PAGE_UP}, {K::pageDown, GLFW_KEY_PAGE_DOWN}, {K::home, GLFW_KEY_HOME}, {K::end, GLFW_KEY_END}, {K::capsLock, GLFW_KEY_CAPS_LOCK}, {K::scrollLock, GLFW_KEY_SCROLL_LOCK},
        {K::numLock, GLFW_KEY_NUM_LOCK}, {K::printScreen, GLFW_KEY_PRINT_SCREEN}, {K::pause, GLFW_KEY_PAUSE}, {K::F1, GLFW_KEY_F1}, {K::F2, GLFW_KEY_F2}, {K::F3, GLFW_KEY_F3}, {K::F4, GLFW_KEY_F4},
        {K::F5, GLFW_KEY_F5}, {K::F6, GLFW_KEY_F6}, {K::F7, GLFW_KEY_F7}, {K::F8, GLFW_KEY_F8}, {K::F9, GLFW_KEY_F9}, {K::F10, GLFW_KEY_F10}, {K::F11, GLFW_KEY_F11}, {K::F12, GLFW_KEY_F12},
        {K::F13, GLFW_KEY_F13}, {K::F14, GLFW_KEY_F14}, {K::F15, GLFW_KEY_F15}, {K::F16, GLFW_KEY_F16}, {K::F17, GLFW_KEY_F17}, {K::F18, GLFW_KEY_F18}, {K::F19, GLFW_KEY_F19}, {K::F20, GLFW_KEY_F20},
        {K::F21, GLFW_KEY_F21}, {K::F22, GLFW_KEY_F22}, {K::F23, GLFW_KEY_F23}, {K::F24, GLFW_KEY_F24}, {K::F25, GLFW_KEY_F25}, {K::keypad0, GLFW_KEY_KP_0}, {K::keypad1, GLFW_KEY_KP_1},
        {K::keypad2, GLFW_KEY_KP_2}, {K::keypad3, GLFW_KEY_KP_3}, {K::keypad4, GLFW_KEY_KP_4}, {K::keypad5, GLFW_KEY_KP_5}, {K::keypad6, GLFW_KEY_KP_6}, {K::keypad7, GLFW_KEY_KP_7},
        {K::keypad8, GLFW_KEY_KP_8}, {K::keypad9, GLFW_KEY_KP_9}, {K::keypadDecimal, GLFW_KEY_KP_DECIMAL}, {K::keypadDivide, GLFW_KEY_KP_DIVIDE}, {K::keypadMultiply, GLFW_KEY_KP_MULTIPLY},
        {K::keypadSubstract, GLFW_KEY_KP_SUBTRACT}, {K::keypadAdd, GLFW_KEY_KP_ADD}, {K::keypadEnter, GLFW_KEY_KP_ENTER}, {K::keypadEqual, GLFW_KEY_KP_EQUAL}, {K::leftShift, GLFW_KEY_LEFT_SHIFT},
        {K::leftControl, GLFW_KEY_LEFT_CONTROL}, {K::leftAlt, GLFW_KEY_LEFT_ALT}, {K::leftSuper, GLFW_KEY_LEFT_SUPER}, {K::rightShift, GLFW_KEY_RIGHT_SHIFT}, {K::rightControl, GLFW_KEY_RIGHT_CONTROL},
        {K::rightAlt, GLFW_KEY_RIGHT_ALT}, {K::rightSuper, GLFW_KEY_RIGHT_SUPER}, {K::menu, GLFW_KEY_MENU}};
    auto [key, code] = ctx.pick(names, "key");
    int  action      = ctx.choose(3, "action");
    int  mods        = ctx.pick(std::vector<int>{0, GLFW_MOD_SHIFT, GLFW_MOD_CONTROL, GLFW_MOD_ALT, GLFW_MOD_SUPER, GLFW_MOD_CAPS_LOCK, GLFW_MOD_NUM_LOCK, 63}, "modifiers");
    auto i           = Keyboard::Input::fromGlfw(code, action, mods);
    MC_CHECK(i.key == key, "key", "GLFW key %d is taken for another", code);
    MC_CHECK(i.action == (action == 0 ? Event::Action::release : action == 1 ? Event::Action::press : Event::Action::repeat), "action", "action %d is taken for another", action);
    auto has = [&](Keyboard::Modifier m) { return (i.modifier & m) != 0; };
    MC_CHECK(has(Keyboard::shift) == !!(mods & GLFW_MOD_SHIFT) && has(Keyboard::control) == !!(mods & GLFW_MOD_CONTROL) && has(Keyboard::alt) == !!(mods & GLFW_MOD_ALT) &&
                 has(Keyboard::super) == !!(mods & GLFW_MOD_SUPER) && has(Keyboard::capsLock) == !!(mods & GLFW_MOD_CAPS_LOCK) && has(Keyboard::numLock) == !!(mods & GLFW_MOD_NUM_LOCK),
             "modifiers", "modifiers %d are taken for others", mods);
    for (int b = 0; b < 8; ++b)
    {
        auto m = Mouse::Input::fromGlfw(Vec2{1.5f, -2.f}, b, action, mods);
        MC_CHECK((int)m.button == b && m.action == i.action && m.modifiers == i.modifier && m.pos[0] == 1.5f && m.pos[1] == -2.f, "button", "button %d is taken for another", b);
    }
    MC_CHECK((int)Mouse::Button::left == GLFW_MOUSE_BUTTON_LEFT && (int)Mouse::Button::right == GLFW_MOUSE_BUTTON_RIGHT && (int)Mouse::Button::middle == GLFW_MOUSE_BUTTON_MIDDLE, "button", "buttons are mixed up");
    if (action == 1 && mods == 0)
    {
        setup();
        Application app;
        env.keys.insert(code);
        for (auto& [other, c] : names)
            MC_CHECK(app.isKeyPressed(other) == (c == code), "pressed", "while key %d is held, key %d is taken as%s held", code, c, c == code ? " not" : "");
    }
}

// showing windows changes nothing, moving a slider sets what it shows
MC_SCENARIO(options)
{
    setup();
    env.gl.keep                       = false;
    bool settings                     = ctx.flag("engine settings");
    env.menuStart["Engine/Settings"]  = settings;
    env.menuStart["Engine Settings/Warmstarting"] = true;
    Application app;
    app.registerScene<Watched>("One");
    auto s = dynamic_cast<Watched*>(app.scene());
    MC_CHECK(s != nullptr, "scene", "the scene is not shown");
    s->useTool<BoxSpawner>();
    auto& t       = *s->spawner;
    t.orientation = ctx.pick(std::vector<float>{0.f, 0.5f, 1.f, 2.5f, -0.5f, -2.f, 3.f}, "orientation");
    t.color       = ctx.pick(std::vector<Rgba>{Rgba{225, 150, 240, 255}, Rgba{0, 255, 1, 17}, Rgba{254, 3, 128, 0}, Rgba{77, 99, 201, 255}}, "color");
    t.dims        = ctx.pick(std::vector<Vec2>{Vec2{2.f, 2.f}, Vec2{0.3f, 7.7f}}, "dims");
    t.density     = ctx.pick(std::vector<float>{1.f, 0.7f}, "density");
    int   moved   = ctx.choose(8, "slider");
    int   frames  = ctx.tier(4, 40);
    struct Values
    {
        float o, density, friction, bounce;
        Rgba  color;
        Vec2  dims;
        int   v, p;
    } want{t.orientation, t.density, t.friction, t.bounciness, t.color, t.dims, 0, 0};
    want.v = (int)s->world().settings().nVelocityIterations, want.p = (int)s->world().settings().nPositionIterations;
    int at      = 0;
    env.maxFrames = frames;
    auto judge  = [&] {
        double turn = std::remainder((double)t.orientation - want.o, 2 * 3.14159265358979);
        MC_CHECK(std::abs(turn) <= 1e-5, "orientation", "after %d frames the orientation of %g became %g", at, want.o, t.orientation);
        MC_CHECK(all(t.color == want.color), "color", "after %d frames the colour (%d, %d, %d, %d) became (%d, %d, %d, %d)", at, want.color[0], want.color[1], want.color[2], want.color[3], t.color[0], t.color[1],
                 t.color[2], t.color[3]);
        MC_CHECK(all(t.dims == want.dims) && t.density == want.density && t.friction == want.friction && t.bounciness == want.bounce && t.dominance == 1.f, "box", "after %d frames the boxes to make changed", at);
        if (settings)
        {
            auto& w = s->world().settings();
            MC_CHECK((int)w.nVelocityIterations == want.v && (int)w.nPositionIterations == want.p && w.enableWarmstarting == (at < 2 || moved != 7), "settings", "after %d frames the engine settings changed", at);
        }
        MC_CHECK(!s->isPaused() && s->playSpeed() == 1.f && s->inits == 1 && app.scene() == s && s->currentTool() == &t, "scene", "showing the interface acts on the scene");
    };
    bool checkNow = false;
    env.poll = [&] {
        if (at)
            judge();
        ++at;
        if (at == 1)
        {
            if (settings)
            {
                // the sliders start from what the world has
                env.slide["Engine Settings/Velocity iterations"] = {(float)want.v};
                env.slide["Engine Settings/Position iterations"] = {(float)want.p};
            }
            return;
        }
        std::string w = std::string(BoxSpawner::name) + " options/";
        if (at == 2)
            switch (moved)
            {
                case 1:
                    env.slide[w + "Orientation"] = {-45.f};
                    want.o                       = -45.f * 3.14159265f / 180.f;
                    break;
                case 2:
                    env.slide[w + "Color"] = {10 / 255.f, 201 / 255.f, 0.f};
                    want.color             = Rgba{10, 201, 0, t.color[3]};
                    break;
                case 3:
                    env.slide[w + "Dimensions"] = {5.f, 0.25f};
                    want.dims                   = Vec2{5.f, 0.25f};
                    break;
                case 4:
                    env.slide[w + "Density"] = {3.f};
                    want.density             = 3.f;
                    break;
                case 5:
                    env.slide[w + "Friction"]   = {0.125f};
                    env.slide[w + "Bounciness"] = {0.75f};
                    want.friction = 0.125f, want.bounce = 0.75f;
                    break;
                case 6:
                    if (settings)
                    {
                        env.slide["Engine Settings/Velocity iterations"] = {17.f};
                        env.slide["Engine Settings/Position iterations"] = {0.f};
                        want.v = 17, want.p = 0;
                    }
                    break;
                case 7:
                    if (settings)
                        env.click = "Engine Settings/Warmstarting";
                    break;
            }
        ctx.transition();
    };
    app.run();
    judge();
    if (moved == 1)
        MC_CHECK(std::abs(env.shown[std::string(BoxSpawner::name) + " options/Orientation"][0] + 45) <= 0.5, "shown", "an orientation of -45 degrees is shown as %g", env.shown[std::string(BoxSpawner::name) + " options/Orientation"][0]);
}

// the profiler window shows, line by line, what the profiler of the scene holds
MC_SCENARIO(profiler)
{
    setup();
    env.gl.keep = false;
    owned       = true;
    ticks       = 0;
    Application app;
    app.registerScene<Watched>("One");
    auto s = dynamic_cast<Watched*>(app.scene());
    MC_CHECK(s != nullptr, "scene", "the scene is not shown");
    Profiler& p = s->world().profiler();
    std::pair<const char*, TimeEntry*> rows[]{{"Island construction", &p.islandConstruction}, {"Solve velocities", &p.solveVelocities}, {"Solve Positions", &p.solvePositions},
                                              {"Tree update and collision", &p.treeUpdateAndCollision}, {"Narrow phase collision", &p.narrowPhaseCollision}};
    // a single timer differs from the others in what was measured, or all of them
    int       which = ctx.choose(6, "timer");
    const int n     = 1 + ctx.choose(3, "measures");
    for (int t = 0; t < 5; ++t)
        for (int i = 0; (which == t || which == 5) && i < n; ++i)
        {
            auto timer = rows[t].second->time();
            ticks += 1000000LL * ctx.pick(std::vector<int>{1, 20, 300}, "time") * (t + 1);
            if (which == 5)
                i = n;
        }
    p.treeHeight   = ctx.choose(3, "height");
    int  frames    = 0, resetAt = ctx.choose(3, "reset");
    env.frameTime  = ctx.pick(std::vector<double>{1.0 / 60, 0.25, 0.004}, "frame");
    env.maxFrames  = 3;
    Profiler shown = p; // the interface precedes the step
    s->pause();         // a step of no duration only measures the narrow phase
    auto judge = [&](const Profiler& w) {
        std::vector<std::string> t = env.texts;
        auto entry = [&](const char* name, const TimeEntry& e) {
            size_t at = std::find(t.begin(), t.end(), name) - t.begin();
            MC_CHECK(at < t.size() && env.cells[at].first >= 0, "row", "\"%s\" has no row in the table", name);
            double      v[3], u[3]{e.last() * 1000, e.average() * 1000, e.max() * 1000};
            const char* columns[]{"last", "average", "max"};
            for (int i = 0; i < 3; ++i)
            {
                int column = std::find(env.headers.begin(), env.headers.end(), columns[i]) - env.headers.begin(), found = 0;
                for (size_t j = 0; j < t.size(); ++j)
                    if (env.cells[j] == std::make_pair(env.cells[at].first, column))
                        v[i] = atof(t[j].c_str()), ++found;
                MC_CHECK(found == 1, "cell", "there are %d times in the cell \"%s\" of \"%s\"", found, columns[i], name);
            }
            for (int i = 0; i < 3; ++i)
                MC_CHECK(std::abs(v[i] - u[i]) <= 0.00051, "time", "the %s time of \"%s\" is shown as %g ms and is %g ms", i == 0 ? "last" : i == 1 ? "average" : "greatest", name, v[i], u[i]);
        };
        entry(rows[0].first, w.islandConstruction);
        entry(rows[1].first, w.solveVelocities);
        entry(rows[2].first, w.solvePositions);
        entry(rows[3].first, w.treeUpdateAndCollision);
        entry(rows[4].first, w.narrowPhaseCollision);
        MC_CHECK(std::find(t.begin(), t.end(), "Tree height: " + std::to_string(w.treeHeight)) != t.end(), "height", "a tree height of %u is not shown", w.treeHeight);
        bool rate = false;
        for (auto& x : t)
        {
            double ms = 0, fps = 0;
            if (sscanf(x.c_str(), "%lf ms/frame (%lf FPS)", &ms, &fps) == 2)
                rate = std::abs(ms - env.frameTime * 1000) <= 0.001 && std::abs(fps - 1 / env.frameTime) <= 0.1;
        }
        MC_CHECK(rate, "rate", "the duration of a frame, %g s, is not shown", env.frameTime);
    };
    for (; frames < 3; ++frames)
    {
        shown         = p;
        env.click     = "";
        env.maxFrames = env.frame + 1;
        env.poll      = [&] { env.click = frames + 1 == resetAt ? "Engine Profiler/Reset profiler" : ""; };
        app.run();
        judge(shown);
        if (frames + 1 == resetAt)
        {
            MC_CHECK(env.clicked == "Engine Profiler/Reset profiler", "offered", "the interface does not offer to reset the profiler");
            MC_CHECK(p.islandConstruction.nMeasures() == 0 && p.solveVelocities.nMeasures() == 0 && p.solvePositions.nMeasures() == 0 && p.treeUpdateAndCollision.nMeasures() == 0 && p.treeHeight == 0 &&
                         p.narrowPhaseCollision.nMeasures() == 1,
                     "reset", "the profiler was not reset");
        }
        ctx.transition();
    }
    owned = false;
    ctx.validated(1);
}

// requests to the scene, some of which it refuses
MC_SCENARIO(requests)
{
    setup();
    env.gl.keep = false;
    Application app;
    app.registerScene<Watched>("One");
    auto s = dynamic_cast<Watched*>(app.scene());
    MC_CHECK(s != nullptr, "scene", "the scene is not shown");
    std::string tool = Recorder::name;
    float       speed = 1;
    bool        paused = false;
    int         left = s->recorder->left, depth = ctx.tier(4, 6);
    for (int i = 0; i < depth; ++i)
    {
        auto choose = [&](const char* name, bool known) {
            bool  thrown = false;
            Tool* got    = nullptr;
            try
            {
                got = s->useTool(std::string(name));
            }
            catch (const simu::Exception&)
            {
                thrown = true;
            }
            MC_CHECK(thrown == !known, "refused", "tool \"%s\" is %s", name, known ? "refused" : "accepted");
            if (known)
            {
                if (tool == Recorder::name && tool != name)
                    ++left;
                tool = name;
                MC_CHECK(got == s->currentTool(), "tool", "another tool is returned than the one chosen");
            }
        };
        switch (ctx.choose(13, "request"))
        {
            case 0: choose(Recorder::name, true); break;
            case 1: choose(BoxSpawner::name, true); break;
            case 2: choose(Grabber::name, true); break;
            case 3: choose(NoTool::name, true); break;
            case 4: choose("Hammer", false); break;
            case 5: choose("", false); break;
            case 6: s->setPlaySpeed(speed = 0.25f); break;
            case 7: s->setPlaySpeed(speed = 3.f); break;
            case 8: s->setPlaySpeed(0.f); break;
            case 9: s->setPlaySpeed(-2.f); break;
            case 10: s->pause(), paused = true; break;
            case 11: s->resume(), paused = false; break;
            case 12: s->reset(); break;
        }
        MC_CHECK(s->currentTool()->getName() == tool, "tool", "the tool is \"%s\" instead of \"%s\"", s->currentTool()->getName(), tool.c_str());
        MC_CHECK(s->recorder->left == left, "deselected", "a tool was told %d times that another was chosen, instead of %d", s->recorder->left, left);
        MC_CHECK(s->playSpeed() == speed, "speed", "the play speed is %g instead of %g", s->playSpeed(), speed);
        MC_CHECK(s->isPaused() == paused, "paused", "the scene is paused or resumed without being asked to");
        ctx.transition();
    }
    app.setName("Name");
    MC_CHECK(env.title == "Name", "name", "the window is called \"%s\"", env.title.c_str());
    size_t steps  = s->steps.size();
    env.maxFrames = env.frame + 1;
    env.frameTime = 1.0 / 60;
    app.run();
    MC_CHECK(s->steps.size() == steps + 1 && std::abs(s->steps.back() - (paused ? 0.f : speed / 60.f)) <= 1e-6, "step", "the scene does not advance at its speed");
    ctx.validated(1);
}
