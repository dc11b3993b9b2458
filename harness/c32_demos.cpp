// C32: the demo scenes, run whole by the real application for every option of a set, and restarted after every short
// history of what a user can do.
#include "app_scene.hpp"
#include "Demos.hpp"
#include <numbers>

typedef std::map<std::string, std::vector<float>> Options;
static Options option(const char* name, float v) { return {{std::string("Scene options/") + name, {v}}}; }
static Options operator+(Options a, const Options& b)
{
    a.insert(b.begin(), b.end());
    return a;
}

// runs the application for n frames
static void frames(Application& app, int n)
{
    env.maxFrames = env.frame + n;
    app.run();
}
// a started demo with these options: they are set in its window, then the scene is restarted
struct Demo
{
    mc::Ctx&    ctx;
    Application app;
    Scene*      s;
    template <class S> static std::unique_ptr<Demo> start(mc::Ctx& ctx, const Options& o)
    {
        resetEnv();
        env.gl.keep                    = false;
        env.menuStart["Scene/Options"] = true;
        auto d = std::unique_ptr<Demo>(new Demo{ctx});
        d->app.registerScene<S>("Demo");
        d->s = d->app.scene();
        d->set(o);
        d->restart();
        return d;
    }
    void set(const Options& o)
    {
        double t      = env.frameTime;
        env.poll      = [&] { env.slide = o; };
        env.frameTime = 0;
        frames(app, 1);
        for (auto& p : o)
        {
            MC_CHECK(env.shown.count(p.first) && std::abs(env.shown[p.first][0] - p.second[0]) < 1e-6, "option", "%s does not become %g", p.first.c_str(), p.second[0]);
            MC_CHECK(p.second[0] >= env.ranges[p.first][0] && p.second[0] <= env.ranges[p.first][1], "range", "%s does not offer %g", p.first.c_str(), p.second[0]);
        }
        env.poll      = nullptr;
        env.frameTime = t;
    }
    void restart()
    {
        env.key(GLFW_KEY_R, GLFW_PRESS);
        env.key(GLFW_KEY_R, GLFW_RELEASE);
    }
    void sane()
    {
        for (auto& e : env.gl.errors)
            ctx.fail("drawing", "%s", e.c_str());
        for (Body& b : s->world().bodies())
        {
            bool ok = std::isfinite(b.position()[0]) && std::isfinite(b.position()[1]) && std::isfinite(b.velocity()[0]) && std::isfinite(b.velocity()[1]) && std::isfinite(b.angularVelocity());
            MC_CHECK(ok, "finite", "the state of a body is not finite");
        }
        ctx.transition();
    }
    std::vector<Body*> moving()
    {
        std::vector<Body*> r;
        for (Body& b : s->world().bodies())
            if (b.dominance() != 0.f)
                r.push_back(&b);
        return r;
    }
    double energy(double g)
    {
        double e = 0;
        for (Body* b : moving())
            e += b->mass() * (0.5 * dot(b->velocity(), b->velocity()) + g * b->centroid()[1]) + (b->invInertia() > 0 ? 0.5 * b->angularVelocity() * b->angularVelocity() / b->invInertia() : 0);
        return e;
    }
    std::vector<float> state()
    {
        std::vector<float> r;
        for (Body& b : s->world().bodies())
            for (float f : {b.position()[0], b.position()[1], b.orientation(), b.velocity()[0], b.velocity()[1], b.angularVelocity()})
                r.push_back(f);
        return r;
    }

private:
    explicit Demo(mc::Ctx& ctx) : ctx{ctx} {}
};

// boxes resting on each other: they settle where their support is, and stay
static void settles(mc::Ctx& ctx, Demo& d, int seconds, double drop, double slack, int level(int))
{
    std::vector<Vec2> start;
    for (Body* b : d.moving())
        start.push_back(b->centroid());
    double e0 = d.energy(10), weight = 0;
    for (Body* b : d.moving())
        weight += 10 * b->mass();
    for (int i = 0; i < 4 * seconds; ++i)
    {
        frames(d.app, 15);
        d.sane();
        MC_CHECK(d.energy(10) <= e0 + 0.02 * weight, "energy", "the energy rises from %g to %g", e0, d.energy(10));
    }
    auto now = d.moving();
    MC_CHECK(now.size() == start.size(), "count", "%zu boxes became %zu", start.size(), now.size());
    double turned = 0;
    for (size_t i = 0; i < now.size(); ++i)
    {
        Vec2   c = now[i]->centroid();
        double want = start[i][1] - drop * level((int)i);
        MC_CHECK(std::abs(c[1] - want) <= slack && std::abs(c[0] - start[i][0]) <= slack, "settled", "box %zu, from (%g, %g), is at (%g, %g) instead of (%g, %g) after %d s", i, start[i][0], start[i][1], c[0],
                 c[1], start[i][0], want, seconds);
        double a = std::remainder(now[i]->orientation(), std::numbers::pi / 2);
        MC_CHECK(std::abs(a) <= 0.05, "settled", "box %zu has turned by %g", i, a);
        MC_CHECK(norm(now[i]->velocity()) <= 0.2 + slack, "settled", "box %zu still moves at %g after %d s", i, norm(now[i]->velocity()), seconds);
        turned = std::max(turned, std::abs(a));
    }
    ctx.validated(1);
    ctx.outcome(turned < 1e-3 ? "upright" : "stands");
}

static int rowOf[400];
MC_SCENARIO(pyramid)
{
    int   h = ctx.pick(ctx.thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 18, 20} : std::vector<int>{1, 2, 3, 5, 8, 12}, "height");
    float gap = ctx.pick(std::vector<float>{0.f, 0.25f, 0.5f}, "spacing");
    int   n = 0;
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < h - y; ++x)
            rowOf[n++] = y;
    ctx.divide();
    auto d = Demo::start<Pyramid>(ctx, option("Height", (float)h) + option("Spacing", gap));
    MC_CHECK((int)d->moving().size() == n, "count", "a pyramid of height %d has %zu boxes instead of %d", h, d->moving().size(), n);
    settles(ctx, *d, 7, gap, 0.05 + 0.04 * h, [](int i) { return rowOf[i]; });
}
MC_SCENARIO(tower)
{
    int  h = ctx.pick(ctx.thorough ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12} : std::vector<int>{1, 2, 3, 5, 8, 12}, "height");
    ctx.divide();
    auto d = Demo::start<Tower>(ctx, option("Height", (float)h));
    MC_CHECK((int)d->moving().size() == 3 * h, "count", "a tower of height %d has %zu slabs", h, d->moving().size());
    settles(ctx, *d, ctx.thorough ? 20 : 10, 0, 0.03 + 0.06 * h, [](int) { return 0; });
}
MC_SCENARIO(stacks)
{
    int  n = ctx.pick(ctx.thorough ? std::vector<int>{1, 2, 3, 5, 8, 13} : std::vector<int>{1, 2, 5}, "stacks"), h = ctx.pick(std::vector<int>{1, 2, 3, 5, 8, 10}, "height");
    ctx.divide();
    auto d = Demo::start<BoxStacks>(ctx, option("Number of stacks", (float)n) + option("Stack height", (float)h));
    MC_CHECK((int)d->moving().size() == n * h, "count", "%d stacks of height %d have %zu boxes", n, h, d->moving().size());
    settles(ctx, *d, ctx.thorough ? 20 : 10, 0, 0.03 + 0.03 * h, [](int) { return 0; });
}
MC_SCENARIO(pendulum)
{
    int   n = ctx.pick(std::vector<int>{1, 2, 5, 10}, "circles"), corners = ctx.pick(std::vector<int>{3, 12, 48}, "precision");
    float r = ctx.pick(std::vector<float>{0.1f, 1.f, 10.f}, "radius"), l = ctx.pick(std::vector<float>{0.01f, 1.f, 7.f, 20.f}, "string"), top = r + l;
    int   push = ctx.choose(3, "pushed");
    if (push > n)
        ctx.prune();
    ctx.divide();
    auto d = Demo::start<NewtonPendulum>(ctx, option("Number of circles", (float)n) + option("Radius", r) + option("String length", l) + option("Circle precision", (float)corners) + option("Push how many?", (float)push));
    auto balls = d->moving();
    MC_CHECK((int)balls.size() == n, "count", "there are %zu balls instead of %d", balls.size(), n);
    for (int k = 0; k < n; ++k)
        MC_CHECK((balls[k]->velocity()[0] > 1.f) == (k >= n - push) && balls[k]->velocity()[1] == 0.f && (k >= n - push || balls[k]->velocity()[0] == 0.f), "pushed", "of %d balls, the last %d being pushed, ball %d starts at (%g, %g)", n, push, k, balls[k]->velocity()[0], balls[k]->velocity()[1]);
    std::vector<Vec2> hook;
    std::vector<Vec2> local;
    double            weight = 0, e0 = d->energy(10);
    for (Body* b : balls)
    {
        hook.push_back(Vec2{b->position()[0], top});
        local.push_back(b->toLocalSpace() * Vec2{b->position()[0], r});
        weight += 10 * b->mass();
    }
    double reached = 0;
    for (int i = 0; i < 12 * (ctx.thorough ? 20 : 6); ++i)
    {
        frames(d->app, 5);
        d->sane();
        reached = std::max(reached, (double)-balls[0]->velocity()[0]);
        // a frame takes small balls further than their radius: hits on several at once are arbitrary
        if (r >= 1 || n <= 2)
            MC_CHECK(d->energy(10) <= e0 * 1.01 + 0.02 * weight, "energy", "the energy rises from %g to %g", e0, d->energy(10));
        for (int k = 0; k < n; ++k)
        {
            double length = norm(balls[k]->toWorldSpace() * local[k] - hook[k]);
            MC_CHECK(length <= l * 1.005 + 0.2, "string", "the string of ball %d is %g long instead of %g", k, length, l);
            if (!push)
                MC_CHECK(norm(balls[k]->position() - Vec2{hook[k][0], 0.f}) <= 0.02, "rest", "ball %d leaves its place without a push", k);
            if (k && l >= 7 && r >= 1 && corners >= 12)
                MC_CHECK(balls[k]->position()[0] - balls[k - 1]->position()[0] > r * 0.2, "order", "balls %d and %d go through each other", k - 1, k);
        }
    }
    // the balls bounce: what they are pushed with comes out at the other end
    if (push && l >= 7 && (r == 1 || (r < 1 && n <= 2)) && corners >= (n > 5 ? 48 : 12))
        MC_CHECK(reached >= 7, "passed on", "the last %d of %d balls being pushed, the first is never faster than %g", push, n, reached);
    ctx.validated(1);
    ctx.outcome(push ? "swings" : "hangs");
}
MC_SCENARIO(tumbler)
{
    int   most = ctx.pick(ctx.thorough ? std::vector<int>{1, 2, 5, 10, 30, 100} : std::vector<int>{1, 2, 10, 30}, "boxes");
    float time = ctx.pick(std::vector<float>{1.f / 60, 1.f / 120}, "frame");
    ctx.divide();
    auto  d = Demo::start<Tumbler>(ctx, option("Max boxes", (float)most));
    env.frameTime = time;
    Body* drum = nullptr;
    for (Body& b : d->s->world().bodies())
        if (b.dominance() == 0.f)
            drum = &b;
    int count = 0, seconds = ctx.thorough ? 60 : 15;
    for (int i = 0; i < 4 * seconds; ++i)
    {
        int f = (int)(0.25f / time + 0.5f);
        frames(d->app, f);
        d->sane();
        count = std::min(most, count + f);
        auto boxes = d->moving();
        MC_CHECK((int)boxes.size() == count, "count", "there are %zu boxes instead of %d", boxes.size(), count);
        MC_CHECK(std::abs(drum->angularVelocity() + 0.05 * std::numbers::pi) <= 1e-3, "motor", "the drum turns at %g instead of %g", drum->angularVelocity(), -0.05 * std::numbers::pi);
        MC_CHECK(norm(drum->position()) <= 1e-3, "drum", "the drum has moved to (%g, %g)", drum->position()[0], drum->position()[1]);
        for (Body* b : boxes)
        {
            Vec2 p = drum->toLocalSpace() * b->centroid();
            MC_CHECK(std::abs(p[0]) <= 10 && std::abs(p[1]) <= 10, "contained", "a box is at (%g, %g) in the drum", p[0], p[1]);
        }
    }
    ctx.validated(1);
}

// the ends of the ranges offered: the scene starts with the bodies asked for, runs and restarts
template <class S> static void ends(mc::Ctx& ctx, int (*count)(const std::map<std::string, double>&), bool grows)
{
    auto                          d = Demo::start<S>(ctx, {});
    std::map<std::string, double> v;
    frames(d->app, 1);
    std::vector<std::string> offered;
    for (auto& [name, r] : env.ranges)
        if (name.starts_with("Scene options/"))
            offered.push_back(name);
    MC_CHECK(!offered.empty(), "offered", "no options are offered");
    for (auto& name : offered) // one after the other: what one offers may depend on another
    {
        float end = (float)env.ranges[name][ctx.choose(2, name.c_str())];
        d->set({{name, {end}}});
        v[name.substr(14)] = end;
    }
    ctx.divide();
    d->restart();
    int  n = count(v);
    for (int i = 0; i < 2; ++i)
    {
        MC_CHECK(grows || (int)d->moving().size() == n, "count", "there are %zu bodies instead of %d", d->moving().size(), n);
        for (int f = 1; f <= ctx.tier(2, 30); ++f)
        {
            frames(d->app, 1);
            d->sane();
            MC_CHECK((int)d->moving().size() == (grows ? std::min(n, f) : n), "count", "there are %zu bodies instead of %d in frame %d", d->moving().size(), n, f);
        }
        d->restart();
    }
    ctx.validated(1);
}
typedef const std::map<std::string, double>& Given;
MC_SCENARIO(ends)
{
    switch (ctx.choose(5, "demo"))
    {
        case 0: return ends<Pyramid>(ctx, [](Given v) { return int(v.at("Height") * (v.at("Height") + 1) / 2); }, false);
        case 1: return ends<Tower>(ctx, [](Given v) { return int(3 * v.at("Height")); }, false);
        case 2: return ends<BoxStacks>(ctx, [](Given v) { return int(v.at("Number of stacks") * v.at("Stack height")); }, false);
        case 3: return ends<NewtonPendulum>(ctx, [](Given v) { return int(v.at("Number of circles")); }, false);
        case 4: return ends<Tumbler>(ctx, [](Given v) { return int(v.at("Max boxes")); }, true);
    }
}

// what a user does before a restart leaves no trace in what follows it
static std::vector<std::vector<float>> record(Demo& d)
{
    std::vector<std::vector<float>> r;
    for (int i = 0; i < 24; ++i)
    {
        frames(d.app, 1);
        d.sane();
        r.push_back(d.state());
    }
    return r;
}
template <class S> static void restarts(mc::Ctx& ctx, const Options& o, const Options& other)
{
    static std::vector<std::vector<float>> first;
    if (first.empty())
        first = record(*Demo::start<S>(ctx, o));
    auto   d = Demo::start<S>(ctx, ctx.flag("other options first") ? other : o);
    Scene& s = *d->s;
    int    depth = ctx.tier(2, 4);
    bool   held = false;
    for (int i = 0; i < depth; ++i)
    {
        switch (ctx.choose(10, "event"))
        {
            case 0: frames(d->app, 1); break;
            case 1: frames(d->app, 12); break;
            case 2: // grab whatever moves and pull it away
                if (auto m = d->moving(); !m.empty())
                {
                    moveOver(s, m.back()->centroid()[0], m.back()->centroid()[1]);
                    env.button(GLFW_MOUSE_BUTTON_LEFT, GLFW_PRESS);
                    moveOver(s, m.back()->centroid()[0] + 5, m.back()->centroid()[1] + 3);
                    held = true;
                    frames(d->app, 2);
                }
                break;
            case 3:
                env.key(GLFW_KEY_S, GLFW_PRESS);
                env.key(GLFW_KEY_S, GLFW_RELEASE);
                break;
            case 4:
                env.key(GLFW_KEY_P, GLFW_PRESS);
                frames(d->app, 1);
                env.key(GLFW_KEY_P, GLFW_PRESS);
                break;
            case 5:
                env.key(GLFW_KEY_EQUAL, GLFW_PRESS);
                frames(d->app, 2);
                env.key(GLFW_KEY_MINUS, GLFW_PRESS);
                break;
            case 6: // another box
                if (auto m = d->moving(); !m.empty() && !held)
                {
                    env.poll = [&] { env.click = std::string("Tool selection/") + BoxSpawner::name; };
                    frames(d->app, 1);
                    env.poll = nullptr;
                    m        = d->moving(); // some may have died in that frame
                    if (!m.empty())
                        moveOver(s, m.front()->centroid()[0], m.front()->centroid()[1] + 1);
                    env.button(GLFW_MOUSE_BUTTON_LEFT, GLFW_PRESS);
                    env.button(GLFW_MOUSE_BUTTON_LEFT, GLFW_RELEASE);
                    frames(d->app, 2);
                    env.poll = [&] { env.click = std::string("Tool selection/") + Grabber::name; };
                    frames(d->app, 1);
                    env.poll = nullptr;
                }
                break;
            case 7:
                for (Body* b : d->moving())
                {
                    b->kill();
                    break;
                }
                break;
            case 8: d->restart(); break;
            case 9: d->set(other); break;
        }
        env.click = "";
        d->sane();
    }
    if (held && ctx.choose(2, "released"))
        env.button(GLFW_MOUSE_BUTTON_LEFT, GLFW_RELEASE);
    ctx.divide();
    d->set(o);
    d->restart();
    auto again = record(*d);
    for (size_t i = 0; i < first.size(); ++i)
    {
        MC_CHECK(again[i].size() == first[i].size(), "bodies", "frame %zu after a restart has %zu bodies instead of %zu", i, again[i].size() / 6, first[i].size() / 6);
        for (size_t k = 0; k < first[i].size(); ++k)
            MC_CHECK(memcmp(&again[i][k], &first[i][k], sizeof(float)) == 0, "restart", "frame %zu after a restart differs from the first start: %.9g instead of %.9g", i, again[i][k], first[i][k]);
    }
    ctx.validated(1);
}
MC_SCENARIO(restartPyramid) { restarts<Pyramid>(ctx, option("Height", 4) + option("Spacing", 0.25f), option("Height", 2) + option("Spacing", 0.f)); }
MC_SCENARIO(restartTower) { restarts<Tower>(ctx, option("Height", 3), option("Height", 1)); }
MC_SCENARIO(restartStacks) { restarts<BoxStacks>(ctx, option("Number of stacks", 2) + option("Stack height", 4), option("Number of stacks", 1) + option("Stack height", 6)); }
MC_SCENARIO(restartPendulum)
{
    restarts<NewtonPendulum>(ctx, option("Number of circles", 4) + option("Push how many?", 1) + option("String length", 2) + option("Circle precision", 8) + option("Radius", 1),
                             option("Number of circles", 3) + option("Push how many?", 2) + option("String length", 3) + option("Circle precision", 5) + option("Radius", 2));
}
MC_SCENARIO(restartTumbler) { restarts<Tumbler>(ctx, option("Max boxes", 6), option("Max boxes", 15)); }
