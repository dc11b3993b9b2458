// C29: histories of drawings executed by the real renderer on a recording OpenGL state machine; the triangles that
// reach the screen are compared with the regions requested.
#include "app_scene.hpp"
#include <numbers>

typedef std::array<double, 2> P2;
struct Wanted
{
    Rgba            color;
    std::vector<P2> outline; // positively oriented, star shaped around center
    P2              center;
    double          tol;     // of positions
    bool            anyPhase = false; // a regular polygon whose first direction is free
    double          radius   = 0;
    const char*     what;
};

static double cross2(P2 a, P2 b, P2 c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
static double area(const std::vector<P2>& v)
{
    double s = 0;
    for (size_t i = 0; i < v.size(); ++i)
    {
        P2 a = v[i], b = v[(i + 1) % v.size()];
        s += (a[0] - v[0][0]) * (b[1] - v[0][1]) - (a[1] - v[0][1]) * (b[0] - v[0][0]);
    }
    return s / 2;
}
static bool insideTriangle(const Triangle& t, P2 p)
{
    P2     a{t.x[0], t.y[0]}, b{t.x[1], t.y[1]}, c{t.x[2], t.y[2]};
    double u = cross2(a, b, p), v = cross2(b, c, p), w = cross2(c, a, p);
    return (u > 0 && v > 0 && w > 0) || (u < 0 && v < 0 && w < 0);
}

// the triangles of one drawing cover its region once, and nothing else
static void covers(mc::Ctx& ctx, const Wanted& w, const Triangle* t, size_t n)
{
    MC_CHECK(n > 0, "missing", "a %s of colour %d is not drawn", w.what, w.color[0]);
    double sum = 0, extent = 0;
    size_t N = w.outline.size();
    for (auto& p : w.outline)
        extent = std::max({extent, std::abs(p[0] - w.center[0]), std::abs(p[1] - w.center[1])});
    std::vector<bool> used(N, false);
    std::vector<P2>   outline = w.outline;
    if (w.anyPhase)
        for (size_t i = 0; i < n; ++i)
            for (int k = 0; k < 3; ++k)
            {
                double r = std::hypot(t[i].x[k] - w.center[0], t[i].y[k] - w.center[1]);
                if (r > w.tol + 1e-3 * w.radius)
                {
                    double a = std::atan2(t[i].y[k] - w.center[1], t[i].x[k] - w.center[0]);
                    for (size_t j = 0; j < N; ++j)
                        outline[j] = {w.center[0] + w.radius * std::cos(a + 2 * std::numbers::pi * j / N), w.center[1] + w.radius * std::sin(a + 2 * std::numbers::pi * j / N)};
                    i = n;
                    break;
                }
            }
    for (size_t i = 0; i < n; ++i)
    {
        P2 a{t[i].x[0], t[i].y[0]}, b{t[i].x[1], t[i].y[1]}, c{t[i].x[2], t[i].y[2]};
        sum += std::abs(cross2(a, b, c)) / 2;
        if (N <= 512)
            for (P2 p : {a, b, c})
            {
                bool ok = std::hypot(p[0] - w.center[0], p[1] - w.center[1]) <= w.tol;
                for (size_t j = 0; j < N; ++j)
                    if (std::hypot(p[0] - outline[j][0], p[1] - outline[j][1]) <= w.tol)
                        ok = true, used[j] = true;
                MC_CHECK(ok, "vertex", "a %s has a corner at (%.9g, %.9g) that was not asked for", w.what, p[0], p[1]);
            }
    }
    double want = area(outline), shortest = 1e30;
    for (size_t j = 0; j < N; ++j)
        shortest = std::min(shortest, std::hypot(outline[j][0] - outline[(j + 1) % N][0], outline[j][1] - outline[(j + 1) % N][1]));
    MC_CHECK(std::abs(sum - want) <= 1e-4 * want + 4 * N * w.tol * extent, "area", "a %s covers an area of %g instead of %g", w.what, sum, want);
    if (N <= 512)
        for (size_t j = 0; j < N; ++j)
        {
            MC_CHECK(used[j], "corner", "corner %zu of a %s of %zu corners is missing", j, w.what, N);
            P2     a = outline[j], b = outline[(j + 1) % N];
            double l = std::hypot(b[0] - a[0], b[1] - a[1]);
            if (l < 100 * w.tol)
                continue;
            P2     out{(b[1] - a[1]) / l, (a[0] - b[0]) / l};
            double d = 10 * w.tol + 1e-3 * shortest;
            for (double f : {0.3, 0.7})
            {
                P2  m{a[0] + f * (b[0] - a[0]), a[1] + f * (b[1] - a[1])};
                P2  in{m[0] - d * out[0], m[1] - d * out[1]}, off{m[0] + d * out[0], m[1] + d * out[1]};
                int nIn = 0, nOut = 0;
                for (size_t i = 0; i < n; ++i)
                    nIn += insideTriangle(t[i], in), nOut += insideTriangle(t[i], off);
                MC_CHECK(nIn == 1, "covered", "a point of a %s of %zu corners is drawn %d times", w.what, N, nIn);
                MC_CHECK(nOut == 0, "outside", "a point outside of a %s of %zu corners is drawn", w.what, N);
            }
        }
}

struct Screen
{
    mc::Ctx&            ctx;
    OpenGlRenderer      r;
    std::vector<Wanted> queue;     // drawn and maybe not yet on the screen
    Mat3                camera{};
    int                 color = 1;
    size_t              read  = 0; // commands already judged
    float               width = 1.f, radius = 1.f;
    unsigned            precision = 12;

    explicit Screen(mc::Ctx& ctx) : ctx{ctx} { look(Mat3{1.f, 0.f, 0.f, 0.f, 1.f, 0.f, 0.f, 0.f, 1.f}); }
    Rgba next()
    {
        ++color;
        return Rgba{(Uint8)(color % 251), (Uint8)(color / 251), 77, (Uint8)(color % 2 ? 255 : 80)};
    }
    void look(const Mat3& m)
    {
        camera = m;
        r.setCameraTransform(m);
    }
    // everything drawn so far is on the screen, and only that
    void flush()
    {
        r.flush();
        std::vector<Triangle> seen;
        for (; read < env.gl.commands.size(); ++read)
            if (env.gl.commands[read].kind == DrawCommand::Draw)
                seen.insert(seen.end(), env.gl.commands[read].triangles.begin(), env.gl.commands[read].triangles.end());
        for (auto& e : env.gl.errors)
            ctx.fail("calls", "%s", e.c_str());
        size_t at = 0;
        for (auto& w : queue)
        {
            size_t from = at;
            auto   is   = [&](const Triangle& t) {
                for (int k = 0; k < 3; ++k)
                    for (int c = 0; c < 4; ++c)
                        if (t.rgba[k][c] != w.color[c])
                            return false;
                return true;
            };
            while (at < seen.size() && is(seen[at]))
                ++at;
            covers(ctx, w, seen.data() + from, at - from);
            ctx.transition();
        }
        MC_CHECK(at == seen.size(), "order", "%zu triangles were not drawn, or not in this order or colour", seen.size() - at);
        for (auto& t : seen)
            for (int k = 0; k < 3; ++k)
            {
                double x = camera(0, 0) * (double)t.x[k] + camera(0, 1) * (double)t.y[k] + camera(0, 2), y = camera(1, 0) * (double)t.x[k] + camera(1, 1) * (double)t.y[k] + camera(1, 2);
                double tol = 1e-6 * (1 + std::abs(t.x[k]) + std::abs(t.y[k]));
                MC_CHECK(std::abs(x - t.sx[k]) <= tol && std::abs(y - t.sy[k]) <= tol, "camera", "(%g, %g) is shown at (%g, %g) instead of (%g, %g)", t.x[k], t.y[k], t.sx[k], t.sy[k], x, y);
            }
        queue.clear();
        env.gl.commands.clear();
        read = 0;
    }
    void polygon(Vec2 center, const std::vector<Vec2>& v, const char* what = "polygon")
    {
        Wanted w{next(), {}, {center[0], center[1]}, 0, false, 0, what};
        double far = 1;
        for (Vec2 p : v)
        {
            w.outline.push_back({p[0], p[1]});
            far = std::max({far, (double)std::abs(p[0]), (double)std::abs(p[1])});
        }
        w.tol = 1e-6 * far;
        r.drawPolygon(center, makeView(v.data(), v.data() + v.size()), w.color);
        queue.push_back(w);
    }
    void regular(int n, double radius, Vec2 c)
    {
        std::vector<Vec2> v;
        for (int i = 0; i < n; ++i)
            v.push_back(c + Vec2{(float)(radius * std::cos(2 * std::numbers::pi * i / n)), (float)(radius * std::sin(2 * std::numbers::pi * i / n))});
        polygon(c, v);
    }
    void line(Vec2 a, Vec2 b)
    {
        Wanted w{next(), {}, {(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0}, 0, false, 0, "line"};
        double dx = b[0] - a[0], dy = b[1] - a[1], l = std::hypot(dx, dy);
        double nx = -dy / l * width / 2, ny = dx / l * width / 2;
        w.outline = {{a[0] - nx, a[1] - ny}, {b[0] - nx, b[1] - ny}, {b[0] + nx, b[1] + ny}, {a[0] + nx, a[1] + ny}};
        w.tol     = 1e-6 * (std::abs(a[0]) + std::abs(a[1]) + std::abs(b[0]) + std::abs(b[1]) + width);
        r.drawLine(a, b, w.color);
        queue.push_back(w);
    }
    void point(Vec2 p)
    {
        Wanted w{next(), {}, {p[0], p[1]}, 0, true, radius, "point"};
        for (unsigned i = 0; i < precision; ++i)
            w.outline.push_back({p[0] + radius * std::cos(2 * std::numbers::pi * i / precision), p[1] + radius * std::sin(2 * std::numbers::pi * i / precision)});
        w.tol = 1e-6 * (std::abs(p[0]) + std::abs(p[1])) + 2e-7 * radius * (8 + precision);
        r.drawPoint(p, w.color);
        queue.push_back(w);
    }
    void triangle(Vec2 a, Vec2 b, Vec2 c)
    {
        Wanted w{next(), {{a[0], a[1]}, {b[0], b[1]}, {c[0], c[1]}}, {(a[0] + b[0] + c[0]) / 3.0, (a[1] + b[1] + c[1]) / 3.0}, 1e-5, false, 0, "triangle"};
        if (area(w.outline) < 0)
            std::swap(w.outline[0], w.outline[1]);
        r.drawTriangle(a, b, c, w.color);
        queue.push_back(w);
    }
    void contoured(Vec2 center, const std::vector<Vec2>& v, float wide)
    {
        Wanted out{next(), {}, {center[0], center[1]}, 2e-5 * (1 + wide), false, 0, "contour"}, in{next(), {}, {center[0], center[1]}, 1e-6, false, 0, "contoured polygon"};
        size_t n = v.size();
        for (size_t i = 0; i < n; ++i)
        {
            Vec2   p = v[(i + n - 1) % n], q = v[i], s = v[(i + 1) % n];
            double ax = q[0] - p[0], ay = q[1] - p[1], bx = s[0] - q[0], by = s[1] - q[1], la = std::hypot(ax, ay), lb = std::hypot(bx, by);
            // outer normals of both edges, and the point at the given distance of both
            double nx = ay / la, ny = -ax / la, mx = by / lb, my = -bx / lb, f = wide / (1 + nx * mx + ny * my);
            out.tol = std::max(out.tol, 1e-6 * f / (1 + nx * mx + ny * my));
            out.outline.push_back({q[0] + f * (nx + mx), q[1] + f * (ny + my)});
            in.outline.push_back({q[0], q[1]});
        }
        r.drawContouredPolygon(center, makeView(v.data(), v.data() + n), in.color, out.color, wide);
        queue.push_back(out);
        queue.push_back(in);
    }
};

static void begin()
{
    resetEnv();
}

static const std::vector<Vec2> L{Vec2{0.f, 0.f}, Vec2{3.f, 0.f}, Vec2{1.f, 1.f}, Vec2{0.f, 3.f}};
static const std::vector<Vec2> square{Vec2{-1.f, -1.f}, Vec2{1.f, -1.f}, Vec2{1.f, 1.f}, Vec2{-1.f, 1.f}};
static const std::vector<Vec2> hexagon{Vec2{2.f, 0.f}, Vec2{1.f, 1.75f}, Vec2{-1.f, 1.75f}, Vec2{-2.f, 0.f}, Vec2{-1.f, -1.75f}, Vec2{1.f, -1.75f}};

// every short history of drawings, settings, cameras and flushes
MC_SCENARIO(histories)
{
    begin();
    Screen s{ctx};
    int    depth = ctx.tier(4, 6);
    for (int i = 0; i < depth; ++i)
    {
        switch (ctx.choose(16, "operation"))
        {
            case 0: s.flush(); break;
            case 1: s.regular(3, 2, Vec2{1.f, -4.f}); break;
            case 2: s.polygon(Vec2{0.5f, 0.5f}, L); break;
            case 3: s.line(Vec2{-3.f, 2.f}, Vec2{5.f, 8.f}); break;
            case 4: s.line(Vec2{7.f, 2.f}, Vec2{-1.f, 2.f}); break;
            case 5: s.point(Vec2{-6.f, 0.25f}); break;
            case 6: s.triangle(Vec2{0.f, 0.f}, Vec2{4.f, 1.f}, Vec2{1.f, 3.f}); break;
            case 7: s.triangle(Vec2{0.f, 0.f}, Vec2{-1.f, 3.f}, Vec2{4.f, 1.f}); break;
            case 8: s.contoured(Vec2{0.f, 0.f}, square, 0.25f); break;
            case 9: s.contoured(Vec2{0.f, 0.f}, hexagon, 0.5f); break;
            case 10: s.r.setPointPrecision(s.precision = s.precision == 12 ? 4 : 12); break;
            case 11: s.r.setPointRadius(s.radius = s.radius == 1.f ? 0.125f : 1.f); break;
            case 12: s.r.setLineWidth(s.width = s.width == 1.f ? 0.0625f : 1.f); break;
            case 13:
                s.flush();
                s.look(Mat3{0.5f, 0.125f, -3.f, -0.25f, 0.1f, 2.f, 0.f, 0.f, 1.f});
                break;
            case 14: s.regular(300, 40, Vec2{0.f, 0.f}); break;
            case 15: s.r.setPointPrecision(2); break;
        }
        MC_CHECK(s.r.getPointPrecision() == s.precision && s.r.getPointRadius() == s.radius && s.r.getLineWidth() == s.width, "settings", "the settings read back differ from those set");
    }
    s.flush();
    s.flush(); // nothing is left
    ctx.validated(1);
}

// drawings that are refused leave no trace, whatever was drawn before and after
MC_SCENARIO(refused)
{
    begin();
    Screen s{ctx};
    auto   some = [&](const char* when) {
        switch (ctx.choose(6, when))
        {
            case 0: break;
            case 1: s.polygon(Vec2{0.5f, 0.5f}, L); break;
            case 2: s.line(Vec2{-3.f, 2.f}, Vec2{5.f, 8.f}); break;
            case 3: s.point(Vec2{-6.f, 0.25f}); break;
            case 4: s.contoured(Vec2{0.f, 0.f}, hexagon, 0.5f); break;
            case 5: s.regular(1021, 40, Vec2{0.f, 0.f}); break;
        }
    };
    some("before");
    for (int i = 0; i < ctx.tier(2, 3); ++i)
    {
        int  kind = ctx.choose(7, "refused");
        auto view = [&](const std::vector<Vec2>& v) { return makeView(v.data(), v.data() + v.size()); };
        bool thrown = false;
        Rgba c{1, 2, 3, 4};
        try
        {
            switch (kind)
            {
                case 0: case 1: case 2: s.r.drawPolygon(Vec2{0.f, 0.f}, view({square.begin(), square.begin() + kind}), c); break;
                case 3: s.r.drawLine(Vec2{1.f, 2.f}, Vec2{1.f, 2.f}, c); break;
                case 4: s.r.drawLine(Vec2{1.f, 2.f}, Vec2{1.f, 3.f}, c, Renderer::LineTip::rounded); break;
                case 5: s.r.drawLine(Vec2{1.f, 2.f}, Vec2{1.f, 3.f}, c, Renderer::LineTip::triangle); break;
                case 6: s.r.drawContouredPolygon(Vec2{0.f, 0.f}, view(square), c, c, 0.5f, Renderer::Contour::inside); break;
            }
        }
        catch (const simu::Exception&)
        {
            thrown = true;
        }
        if (kind != 4 && kind != 5 && kind != 6) // these might be implemented one day
            MC_CHECK(thrown, "accepted", "drawing %d is impossible, and was not refused", kind);
        if (!thrown)
            ctx.prune();
        some("after");
    }
    s.flush();
    s.flush();
    ctx.validated(1);
}

// every number of corners queued before every size of polygon: batches have a bounded size
MC_SCENARIO(batches)
{
    begin();
    Screen s{ctx};
    int    n = ctx.pick(ctx.thorough ? std::vector<int>{3, 4, 5, 6, 7, 8, 12, 48, 100, 300, 511, 512, 1021, 1022, 1023, 1024, 1025, 2000} : std::vector<int>{3, 4, 48, 300, 511, 1022, 1023, 1024, 1025}, "corners");
    int    m = ctx.pick(ctx.thorough ? std::vector<int>{3, 4, 5, 7, 12, 100, 340, 1023} : std::vector<int>{3, 7, 340, 1023}, "others");
    int    count = ctx.choose(n < 50 ? 40 : 7, "count");
    for (int i = 0; i < (n < 50 ? 16 : 1) * count; ++i)
        s.regular(n, 3 + i, Vec2{(float)i, 1.f});
    s.regular(m, 2, Vec2{0.f, 0.f});
    if (ctx.choose(2, "flush between"))
        s.flush();
    s.regular(4, 1, Vec2{0.f, 0.f});
    s.line(Vec2{0.f, 0.f}, Vec2{1.f, 1.f});
    s.flush();
    MC_CHECK(env.gl.commands.empty(), "left", "commands are left");
    ctx.validated(1);
}

// large polygons, after a batch that is almost full
MC_SCENARIO(large)
{
    int    n = ctx.pick(std::vector<int>{2000, 16384, 32767, 32768, 40000, 64000}, "corners");
    int    k = ctx.choose(5, "queued");
    ctx.divide();
    begin();
    Screen s{ctx};
    for (int i = 0; i < k; ++i)
        s.regular(254, 1 + i, Vec2{0.f, 0.f});
    s.regular(n, 500, Vec2{0.f, 0.f});
    s.regular(5, 1, Vec2{0.f, 0.f});
    s.flush();
}

// so many corners that their number would not fit in an index, whatever the size of the batches
MC_SCENARIO(many)
{
    int    n = ctx.pick(std::vector<int>{3, 7, 100, 700, 1023, 5000}, "corners");
    int    total = 140000 + 10 * ctx.choose(ctx.tier(1, 8), "more");
    ctx.divide();
    begin();
    Screen s{ctx};
    for (int i = 0; i * (n + 1) < total; ++i)
        s.regular(n, 1 + i % 50, Vec2{(float)(i % 64), (float)(i % 17)});
    s.flush();
    ctx.validated(1);
}

// lines of every direction, place and width
MC_SCENARIO(lines)
{
    begin();
    Screen s{ctx};
    float  scale = ctx.pick(std::vector<float>{1.f, 1e-3f, 100.f}, "scale");
    Vec2   a     = scale * Vec2{(float)(ctx.choose(7, "ax") - 3), (float)(ctx.choose(7, "ay") - 3)};
    Vec2   b     = scale * Vec2{(float)(ctx.choose(7, "bx") - 3), (float)(ctx.choose(7, "by") - 3)};
    if (all(a == b))
        ctx.prune();
    s.r.setLineWidth(s.width = ctx.pick(std::vector<float>{1.f, 0.01f, 20.f}, "width") * scale);
    s.line(a, b);
    s.flush();
}

// points of every precision
MC_SCENARIO(points)
{
    begin();
    Screen s{ctx};
    int    n = ctx.choose(ctx.thorough ? 700 : 300, "precision");
    s.r.setPointPrecision(n);
    if (n >= 3)
        s.precision = n;
    s.r.setPointRadius(s.radius = ctx.pick(std::vector<float>{0.1f, 5.f}, "radius"));
    s.point(Vec2{3.f, -2.f});
    if (ctx.choose(2, "again"))
        s.point(Vec2{-30.f, 2.f});
    s.flush();
}

// contours of triangles and quadrilaterals of a lattice
MC_SCENARIO(contours)
{
    begin();
    Screen            s{ctx};
    int               n = 3 + ctx.choose(2, "corners"), size = ctx.tier(4, 5);
    std::vector<Vec2> v;
    for (int i = 0; i < n; ++i)
    {
        int c = ctx.choose(size * size, "corner");
        v.push_back(Vec2{(float)(c % size), (float)(c / size)});
    }
    Vec2 center{};
    for (Vec2 p : v)
        center += p / (float)n;
    for (int i = 0; i < n; ++i)
    {
        // convex, positively oriented
        Vec2 a = v[i], b = v[(i + 1) % n], c = v[(i + 2) % n];
        if (cross(b - a, c - b) <= 0)
            ctx.prune();
        if (i && (v[i][1] < v[0][1] || (v[i][1] == v[0][1] && v[i][0] < v[0][0])))
            ctx.prune(); // once per polygon
    }
    if (n == 4 && (cross(v[2] - v[0], v[1] - v[0]) >= 0 || cross(v[3] - v[0], v[2] - v[0]) >= 0))
        ctx.prune();
    s.contoured(center, v, ctx.pick(std::vector<float>{0.125f, 1.f}, "width"));
    s.flush();
}

// what a scene made of visible objects shows after every step
MC_SCENARIO(objects)
{
    begin();
    Screen s{ctx};
    World  w;
    w.setContactFactory([&](Collider& a, Collider& b, const typename World::ContactAlloc& alloc) { return makeUnique<VisibleContactConstraint>(alloc, a, b, &s.r); });
    int  arrangement = ctx.choose(6, "arrangement");
    bool hidden      = ctx.flag("without a renderer");
    Renderer* r      = hidden ? nullptr : &s.r;
    s.r.setPointPrecision(s.precision = 5);
    s.r.setPointRadius(s.radius = 0.0625f);
    s.r.setLineWidth(s.width = 0.125f);
    std::vector<VisibleBody*> bodies;
    auto make = [&](Vec2 pos, float angle, float dominance) {
        BodyDescriptor d{pos, angle, dominance};
        auto           b = w.makeBody<VisibleBody>(d, Rgba{(Uint8)(10 + bodies.size()), 50, 60, 255}, r);
        b->addCollider(boxCollider(Vec2{2.f, 1.f}));
        if (arrangement == 1)
            b->addCollider(boxCollider(Vec2{1.f, 1.f}, Vec2{0.f, 4.f}));
        bodies.push_back(b);
        return b;
    };
    auto a = make(Vec2{0.f, 0.f}, 0.5f, 1.f);
    auto b = make(arrangement == 2 ? Vec2{1.5f, 0.25f} : Vec2{5.f, 1.f}, arrangement == 2 ? 0.f : -0.25f, ctx.choose(2, "structural") ? 0.f : 1.f);
    a->setVelocity(Vec2{1.f, -0.5f});
    a->setAngularVelocity(0.75f);
    Vec2 pa{0.25f, 0.f}, pb = arrangement == 4 ? pa : Vec2{5.f, 1.25f};
    VisibleMouseConstraint* m = nullptr;
    if (arrangement == 3 || arrangement == 4)
        w.makeConstraint<VisibleDistanceConstraint>(Bodies{a, b}, std::array<Vec2, 2>{pa, pb}, std::nullopt, 10.f, r, true);
    if (arrangement == 5)
    {
        m = w.makeConstraint<VisibleMouseConstraint>(a, pa, r);
        if (ctx.choose(2, "moved"))
            m->updateMousePos(Vec2{3.f, 3.f});
    }
    Transform inverse0 = a->toLocalSpace(), inverse1 = b->toLocalSpace();
    Vec2      la = inverse0 * pa, lb = inverse1 * pb;
    float     dt = ctx.choose(2, "paused") ? 0.f : 1.f / 60.f;
    for (int step = 0; step < 3; ++step)
    {
        w.step(dt);
        s.r.flush();
        std::vector<Triangle> seen;
        for (auto& c : env.gl.commands)
            seen.insert(seen.end(), c.triangles.begin(), c.triangles.end());
        env.gl.commands.clear();
        for (auto& e : env.gl.errors)
            ctx.fail("calls", "%s", e.c_str());
        auto take = [&](Rgba color) {
            std::vector<Triangle> t;
            for (auto& x : seen)
                if (x.rgba[0][0] == color[0] && x.rgba[0][1] == color[1] && x.rgba[0][2] == color[2] && x.rgba[0][3] == color[3])
                    t.push_back(x);
            return t;
        };
        if (hidden)
        {
            if (arrangement != 2)
                MC_CHECK(seen.empty(), "hidden", "objects without a renderer are drawn");
            continue;
        }
        for (auto body : bodies)
        {
            size_t i = &body - &body, colliders = 0;
            Rgba   color = Rgba{10, 50, 60, 255};
            for (size_t k = 0; k < bodies.size(); ++k)
                if (bodies[k] == body)
                    color[0] = (Uint8)(10 + k);
            (void)i;
            auto t = take(color);
            Rgba faint = color;
            faint[3]   = 80;
            auto f     = take(faint);
            for (auto& c : body->colliders())
            {
                Wanted p{color, {}, {0, 0}, 1e-5, false, 0, "collider"}, q{faint, {}, {0, 0}, 1e-5, false, 0, "bounding box"};
                int    n = 0;
                for (Vec2 v : c.vertexView())
                {
                    p.outline.push_back({v[0], v[1]});
                    p.center[0] += v[0], p.center[1] += v[1], ++n;
                }
                p.center[0] /= n, p.center[1] /= n;
                BoundingBox box = c.boundingBox();
                q.outline       = {{box.min()[0], box.min()[1]}, {box.max()[0], box.min()[1]}, {box.max()[0], box.max()[1]}, {box.min()[0], box.max()[1]}};
                q.center        = {(box.min()[0] + box.max()[0]) / 2.0, (box.min()[1] + box.max()[1]) / 2.0};
                size_t per = t.size() / (arrangement == 1 ? 2 : 1), perF = f.size() / (arrangement == 1 ? 2 : 1);
                bool   matched = false;
                // the colliders of a body may be drawn in any order
                for (size_t k = 0; k < (arrangement == 1 ? 2u : 1u) && !matched; ++k)
                    if (per && std::abs((t[k * per].x[0] + t[k * per].x[1] + t[k * per].x[2]) / 3 - p.center[0]) < 1.5 && std::abs((t[k * per].y[0] + t[k * per].y[1] + t[k * per].y[2]) / 3 - p.center[1]) < 1.5)
                    {
                        covers(ctx, p, t.data() + k * per, per);
                        covers(ctx, q, f.data() + k * perF, perF);
                        matched = true;
                    }
                MC_CHECK(matched, "body", "a collider is not drawn after step %d", step);
                ++colliders;
            }
        }
        auto expectLine = [&](Rgba color, Vec2 from, Vec2 to, const char* what) {
            auto t = take(color);
            if (all(from == to))
            {
                MC_CHECK(t.empty(), "line", "%s of length zero is drawn", what);
                return;
            }
            double dx = to[0] - from[0], dy = to[1] - from[1], l = std::hypot(dx, dy), nx = -dy / l * s.width / 2, ny = dx / l * s.width / 2;
            Wanted p{color, {{from[0] - nx, from[1] - ny}, {to[0] - nx, to[1] - ny}, {to[0] + nx, to[1] + ny}, {from[0] + nx, from[1] + ny}}, {(from[0] + to[0]) / 2.0, (from[1] + to[1]) / 2.0}, 2e-5, false, 0, what};
            if (l > 1e-3)
                covers(ctx, p, t.data(), t.size());
        };
        if (arrangement == 3 || arrangement == 4)
            expectLine(Rgba{50, 235, 235, 255}, a->toWorldSpace() * la, b->toWorldSpace() * lb, "distance constraint");
        if (m)
            expectLine(Rgba{235, 50, 235, 255}, m->bodyPos(), m->mousePos(), "mouse constraint");
        auto white = take(Rgba::filled(255));
        int  contacts = 0;
        for (auto& c : w.contacts())
            ++contacts;
        if (!contacts)
            MC_CHECK(white.empty(), "contact", "a contact is drawn and there is none");
        else
            MC_CHECK(arrangement != 2 || !white.empty() || !take(Rgba{255, 0, 0, 255}).empty(), "contact", "the contact is not drawn");
        ctx.transition();
    }
    ctx.validated(1);
}

// the screen is cleared in the colour and drawn on the part asked for
MC_SCENARIO(screen)
{
    begin();
    Screen s{ctx};
    Rgba   c{(Uint8)(51 * ctx.choose(6, "r")), (Uint8)(51 * ctx.choose(6, "g")), (Uint8)(51 * ctx.choose(6, "b")), (Uint8)(85 * ctx.choose(4, "a"))};
    int    w = ctx.pick(std::vector<int>{0, 640, 1920}, "w"), h = ctx.pick(std::vector<int>{0, 480, 1080}, "h");
    s.r.fillScreen(c);
    s.r.setViewport(Vec2i{3, 5}, Vec2i{w, h});
    MC_CHECK(env.gl.commands.size() == 2 && env.gl.commands[0].kind == DrawCommand::Clear && env.gl.commands[1].kind == DrawCommand::Viewport, "screen", "the screen was not cleared and resized");
    for (int i = 0; i < 4; ++i)
        MC_CHECK(std::abs(env.gl.commands[0].color[i] * 255 - c[i]) < 1e-3, "clear", "the screen is cleared in %g instead of %d", env.gl.commands[0].color[i] * 255, c[i]);
    auto& v = env.gl.commands[1].view;
    MC_CHECK(v[0] == 3 && v[1] == 5 && v[2] == w && v[3] == h, "viewport", "the viewport is (%d, %d, %d, %d)", v[0], v[1], v[2], v[3]);
}
