// C26: the camera against a double precision model of (centre, zoom, dimensions, pixel size).
#include "mc.hpp"
#include "Simu/app/Camera.hpp"
#include <cmath>
#include <limits>
#include <vector>
using namespace simu;

struct Model
{
    double cx = 0, cy = 0, zoom = 1, w = 2, h = 2, pixel = 0.1;
    double reach = 0; // largest magnitude the centre went through, for rounding
};

static void compare(mc::Ctx& ctx, const Camera& c, const Model& m, const char* after)
{
    double tol = 1e-6 * (m.reach + 1e-3);
    MC_CHECK(std::abs(c.center()[0] - m.cx) <= 8 * tol && std::abs(c.center()[1] - m.cy) <= 8 * tol, "center", "after %s the centre is (%g, %g) instead of (%g, %g)", after, c.center()[0], c.center()[1], m.cx, m.cy);
    MC_CHECK(std::abs(c.zoom() - m.zoom) <= 4e-6 * m.zoom, "zoom", "after %s the zoom is %g instead of %g", after, c.zoom(), m.zoom);
    MC_CHECK(std::abs(c.viewDimensions()[0] - m.w) <= 1e-6 * m.w && std::abs(c.viewDimensions()[1] - m.h) <= 1e-6 * m.h, "dimensions", "after %s the dimensions are (%g, %g) instead of (%g, %g)", after,
             c.viewDimensions()[0], c.viewDimensions()[1], m.w, m.h);
    MC_CHECK(std::abs(c.pixelSize() - m.pixel) <= 1e-6 * m.pixel, "pixel", "after %s the pixel size is %g instead of %g", after, c.pixelSize(), m.pixel);

    double hw = m.w / m.zoom / 2, hh = m.h / m.zoom / 2;
    Mat3   t = c.transform(), inv = c.invTransform();
    for (const Mat3& a : {t, inv})
        MC_CHECK(a(2, 0) == 0 && a(2, 1) == 0 && a(2, 2) == 1 && a(0, 1) == 0 && a(1, 0) == 0, "axes", "after %s a transform mixes its axes", after);
    for (double x : {-1.0, -0.5, 0.0, 0.25, 1.0})
        for (double y : {-1.0, 0.0, 0.75, 1.0})
        {
            Vec3   world{(float)(m.cx + x * hw), (float)(m.cy + y * hh), 1.f};
            Vec3   s  = t * world;
            double ex = 2e-5 + 2e-6 * m.reach / hw, ey = 2e-5 + 2e-6 * m.reach / hh;
            MC_CHECK(std::abs(s[0] - x) <= ex && std::abs(s[1] - y) <= ey, "transform", "after %s (%g, %g) of the view is shown at (%g, %g)", after, x, y, s[0], s[1]);
            Vec3 back = inv * Vec3{(float)x, (float)y, 1.f};
            MC_CHECK(std::abs(back[0] - (m.cx + x * hw)) <= 2e-6 * m.reach + 2e-5 * hw && std::abs(back[1] - (m.cy + y * hh)) <= 2e-6 * m.reach + 2e-5 * hh, "inverse",
                     "after %s (%g, %g) of the screen is (%g, %g) instead of (%g, %g)", after, x, y, back[0], back[1], m.cx + x * hw, m.cy + y * hh);
            Vec3 round = inv * s;
            MC_CHECK(std::abs(round[0] - world[0]) <= 4e-6 * m.reach + 4e-5 * hw && std::abs(round[1] - world[1]) <= 4e-6 * m.reach + 4e-5 * hh, "inverse", "after %s a point does not come back", after);
        }
}

enum Op
{
    Pan, PanTo, Zoom, In, Out, Dims, Screen, Pixel, nOps
};
static void apply(mc::Ctx& ctx, Camera& c, Model& m, bool wide)
{
    static const float nan = std::numeric_limits<float>::quiet_NaN();
    std::vector<Vec2>  pans{Vec2{1.f, 0.f}, Vec2{0.f, -2.f}, Vec2{0.3f, 7.7f}};
    std::vector<Vec2>  targets{Vec2{0.f, 0.f}, Vec2{3.f, -1.f}};
    std::vector<float> zooms{2.f, 0.5f, 0.f, -1.f};
    std::vector<Vec2>  dims{Vec2{4.f, 3.f}, Vec2{0.5f, 10.f}, Vec2{0.f, 3.f}, Vec2{3.f, 0.f}, Vec2{-4.f, 3.f}, Vec2{4.f, -3.f}, Vec2{-1.f, -1.f}};
    std::vector<Vec2>  screens{Vec2{800.f, 600.f}, Vec2{0.f, 600.f}, Vec2{640.f, 0.f}};
    std::vector<float> pixels{0.1f, 0.025f};
    if (wide)
    {
        for (Vec2 p : {Vec2{-150.25f, 1e-3f}, Vec2{1e4f, 1e4f}})
        {
            pans.push_back(p);
            targets.push_back(p);
        }
        for (float z : {100.f, 1e-3f, nan, -0.f, 1.f, 3.3f})
            zooms.push_back(z);
        for (Vec2 d : {Vec2{1e3f, 1.f}, Vec2{0.f, 0.f}, Vec2{nan, 1.f}, Vec2{1.f, nan}, Vec2{1920.f, 1080.f}})
            dims.push_back(d);
        for (Vec2 d : {Vec2{1.f, 1.f}, Vec2{1920.f, 1080.f}, Vec2{-5.f, 5.f}, Vec2{5.f, -5.f}})
            screens.push_back(d);
        pixels.push_back(2.f);
        pixels.push_back(1.f / 3.f);
    }
    Camera before = c;
    switch (ctx.choose(nOps, "operation"))
    {
        case Pan: {
            Vec2 p = ctx.pick(pans, "pan by");
            c.pan(p);
            m.cx += p[0], m.cy += p[1];
            ctx.outcome("pan");
            break;
        }
        case PanTo: {
            Vec2 p = ctx.pick(targets, "pan to");
            c.panTo(p);
            m.cx = p[0], m.cy = p[1];
            ctx.outcome("panTo");
            break;
        }
        case Zoom: {
            float z = ctx.pick(zooms, "zoom");
            c.setZoom(z);
            if (z > 0)
                m.zoom = z;
            ctx.outcome(z > 0 ? "zoom" : "zoom ignored");
            break;
        }
        case In:
            c.zoomIn();
            MC_CHECK(c.zoom() > before.zoom(), "in", "zoomIn takes the zoom from %g to %g", before.zoom(), c.zoom());
            m.zoom = c.zoom();
            {
                Camera back = c;
                back.zoomOut();
                MC_CHECK(std::abs(back.zoom() - before.zoom()) <= 1e-6 * before.zoom(), "restore", "zooming in then out goes from %g to %g", before.zoom(), back.zoom());
            }
            ctx.outcome("in");
            break;
        case Out:
            c.zoomOut();
            MC_CHECK(c.zoom() < before.zoom(), "out", "zoomOut takes the zoom from %g to %g", before.zoom(), c.zoom());
            m.zoom = c.zoom();
            {
                Camera back = c;
                back.zoomIn();
                MC_CHECK(std::abs(back.zoom() - before.zoom()) <= 1e-6 * before.zoom(), "restore", "zooming out then in goes from %g to %g", before.zoom(), back.zoom());
            }
            ctx.outcome("out");
            break;
        case Dims: {
            Vec2 d = ctx.pick(dims, "dimensions");
            c.setViewDimensions(d);
            if (d[0] > 0 && d[1] > 0)
                m.w = d[0], m.h = d[1];
            ctx.outcome(d[0] > 0 && d[1] > 0 ? "dimensions" : "dimensions ignored");
            break;
        }
        case Screen: {
            Vec2 d = ctx.pick(screens, "pixels");
            c.setDimensionsFromScreenCoordinates(d);
            if (d[0] > 0 && d[1] > 0)
                m.w = d[0] * m.pixel, m.h = d[1] * m.pixel;
            ctx.outcome(d[0] > 0 && d[1] > 0 ? "pixels" : "pixels ignored");
            break;
        }
        case Pixel: {
            float p = ctx.pick(pixels, "pixel size");
            c.setPixelSize(p);
            m.pixel = p;
            ctx.outcome("pixel size");
            break;
        }
    }
    m.reach = std::max({m.reach, std::abs(m.cx), std::abs(m.cy)});
    ctx.transition();
    ctx.validated();
}
static void run(mc::Ctx& ctx, int depth, bool wide)
{
    Camera c;
    Model  m;
    m.reach = 0;
    compare(ctx, c, m, "construction");
    for (int i = 0; i < depth; ++i)
    {
        if (i && ctx.flag("stop"))
            break;
        apply(ctx, c, m, wide);
        mc::Hasher h;
        for (double v : {m.cx, m.cy, m.zoom, m.w, m.h, m.pixel})
            h.addf(v);
        ctx.state(h.h);
        compare(ctx, c, m, "the history");
    }
}
MC_SCENARIO(histories) { run(ctx, ctx.tier(4, 6), false); }
MC_SCENARIO(wide) { run(ctx, ctx.tier(3, 4), true); }
