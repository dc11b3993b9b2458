// C04: interval and bounding box predicates against their definitions.
#include "mc.hpp"
#include "Simu/math/Interval.hpp"
#include "Simu/math/Polygon.hpp"
#include "Simu/physics/BoundingBox.hpp"
#include <algorithm>
#include <array>

using namespace simu;

static const std::vector<float> kCoords{
    0.f, 1.f, 2.f, -1.f, 0.1f, 0.3f, 0.7f, std::nextafterf(0.3f, 1.f), std::nextafterf(1.f, 2.f), 1e8f,
    -1e8f, 1e-30f, 3e38f, -3e38f, 16777216.f, std::nextafterf(16777216.f, 0.f)};

struct B
{
    float x0, y0, x1, y1;
    bool  valid() const { return x0 <= x1 && y0 <= y1; }
    bool  overlaps(const B& o) const
    {
        return valid() && o.valid() && x0 <= o.x1 && o.x0 <= x1 && y0 <= o.y1 && o.y0 <= y1;
    }
    bool contains(const B& o) const
    {
        return valid() && o.valid() && x0 <= o.x0 && o.x1 <= x1 && y0 <= o.y0 && o.y1 <= y1;
    }
    BoundingBox bb() const { return BoundingBox{Vec2{x0, y0}, Vec2{x1, y1}}; }
};
static B combine(const B& a, const B& b)
{
    if (!a.valid())
        return b;
    if (!b.valid())
        return a;
    return {std::min(a.x0, b.x0), std::min(a.y0, b.y0), std::max(a.x1, b.x1), std::max(a.y1, b.y1)};
}
static bool same(const BoundingBox& r, const B& m)
{
    if (!m.valid())
        return !r.isValid();
    return r.min()[0] == m.x0 && r.min()[1] == m.y0 && r.max()[0] == m.x1 && r.max()[1] == m.y1;
}

// every pair of intervals over the coordinates, degenerate ones included
MC_SCENARIO(intervals)
{
    int   n = (int)kCoords.size();
    float a = kCoords[ctx.choose(n, "a")], b = kCoords[ctx.choose(n, "b")];
    float c = kCoords[ctx.choose(n, "c")], d = kCoords[ctx.choose(n, "d")];
    Interval<float> i{a, b}, j{c, d};
    MC_CHECK(i.contains(c) == (a <= c && c <= b), "contains", "[%g,%g] contains %g", a, b, c);
    // both non degenerate: overlap is having a common value
    if (a <= b && c <= d)
    {
        bool want = std::max(a, c) <= std::min(b, d);
        MC_CHECK(i.overlaps(j) == want, "overlaps", "[%.9g,%.9g] and [%.9g,%.9g]: %d", a, b, c, d, want);
        MC_CHECK(j.overlaps(i) == want, "overlaps", "not symmetric");
        ctx.outcome(want ? "overlap" : "apart");
    }
    else
    {
        MC_CHECK(!i.overlaps(j), "overlaps", "an interval that contains nothing overlaps");
        ctx.outcome("degenerate");
    }
    ctx.validated(3);
    ctx.transition();
}
MC_SCENARIO(approximations)
{
    int   n = (int)kCoords.size();
    float v = kCoords[ctx.choose(n, "v")], e = kCoords[ctx.choose(n, "e")], x = kCoords[ctx.choose(n, "x")];
    auto  i = approx(v, e);
    float ae = std::abs(e);
    if (std::isinf(v - ae) || std::isinf(v + ae))
        return;
    MC_CHECK(i.contains(v), "approx", "does not contain its centre");
    MC_CHECK(i.contains(x) == (v - ae <= x && x <= v + ae), "approx", "%g +- %g contains %g", v, e, x);
    ctx.validated(2);
    ctx.transition();
}
// matrices as intervals: element-wise
MC_SCENARIO(vector_intervals)
{
    const float cs[4] = {0, 0.3f, std::nextafterf(0.3f, 1.f), 1};
    auto        v     = [&] {
        float x = cs[ctx.choose(4, "x")], y = cs[ctx.choose(4, "y")];
        return Vec2{x, y};
    };
    Vec2 a = v(), b = v(), c = v();
    Vec2 d{c[1], c[0]};
    auto i = Interval<Vec2>{a, b};
    auto cm = i.contains(c);
    auto om = i.overlaps(Interval<Vec2>{c, d});
    for (int k = 0; k < 2; ++k)
    {
        MC_CHECK((bool)cm[k] == (a[k] <= c[k] && c[k] <= b[k]), "contains", "component %d", k);
        bool want = a[k] <= b[k] && c[k] <= d[k] && std::max(a[k], c[k]) <= std::min(b[k], d[k]);
        MC_CHECK((bool)om[k] == want, "overlaps", "component %d", k);
    }
    ctx.validated(4);
    ctx.transition();
}

static B pickBox(mc::Ctx& ctx, const std::vector<float>& cs)
{
    int n = (int)cs.size();
    B   b;
    b.x0 = cs[ctx.choose(n, "x0")];
    b.x1 = cs[ctx.choose(n, "x1")];
    b.y0 = cs[ctx.choose(n, "y0")];
    b.y1 = cs[ctx.choose(n, "y1")];
    return b;
}

static void pairChecks(mc::Ctx& ctx, const B& a, const B& b)
{
    BoundingBox A = a.bb(), C = b.bb();
    MC_CHECK(A.isValid() == a.valid(), "valid", "validity of [%g,%g]x[%g,%g]", a.x0, a.x1, a.y0, a.y1);
    MC_CHECK(A.overlaps(C) == a.overlaps(b), "overlaps", "[%.9g,%.9g]x[%.9g,%.9g] and [%.9g,%.9g]x[%.9g,%.9g]: expected %d",
             a.x0, a.x1, a.y0, a.y1, b.x0, b.x1, b.y0, b.y1, a.overlaps(b));
    MC_CHECK(A.contains(C) == a.contains(b), "contains", "expected %d", a.contains(b));
    MC_CHECK(same(A.combined(C), combine(a, b)), "combined", "not the smallest box containing both");
    bool eq = (!a.valid() && !b.valid()) || (a.x0 == b.x0 && a.y0 == b.y0 && a.x1 == b.x1 && a.y1 == b.y1);
    MC_CHECK((A == C) == eq && (A != C) == !eq, "equality", "expected %d", eq);
    ctx.outcome(!a.valid() || !b.valid() ? "invalid" : a.overlaps(b) ? "overlap" : "apart");
    ctx.validated(5);
    ctx.transition();
}

MC_SCENARIO(box_pairs)
{
    static const std::vector<float> quick{0.f, 0.3f, std::nextafterf(0.3f, 1.f), 0.7f},
        deep{0.f, 0.1f, 0.3f, std::nextafterf(0.3f, 1.f), 1e8f};
    const auto& cs = ctx.thorough ? deep : quick;
    B           a = pickBox(ctx, cs), b = pickBox(ctx, cs);
    pairChecks(ctx, a, b);
}
// mixed magnitudes on one axis with few values on the other
MC_SCENARIO(box_magnitudes)
{
    int   n = (int)kCoords.size();
    B     a{kCoords[ctx.choose(n)], 0, kCoords[ctx.choose(n)], 1}, b{kCoords[ctx.choose(n)], 0, kCoords[ctx.choose(n)], 1};
    float ys[3] = {1, -2, std::nextafterf(1.f, 2.f)};
    b.y0        = ys[ctx.choose(3, "y")];
    b.y1        = b.y0 + 1;
    if (ctx.flag("swap axes"))
    {
        std::swap(a.x0, a.y0);
        std::swap(a.x1, a.y1);
        std::swap(b.x0, b.y0);
        std::swap(b.x1, b.y1);
    }
    pairChecks(ctx, a, b);
}
MC_SCENARIO(combination_laws)
{
    const std::vector<float> cs{0.f, 0.3f, 1.f};
    B                        a = pickBox(ctx, cs);
    B                        b = pickBox(ctx, cs);
    static const std::vector<B> thirds{{0, 0, 1, 1}, {1, 1, 0, 0}, {-1, .3f, 2, .3f}, {5, 5, 5, 5}, {0, 1, 1, 0}};
    B           c = thirds[ctx.choose((int)thirds.size(), "third")];
    BoundingBox A = a.bb(), Bb = b.bb(), C = c.bb();
    MC_CHECK(A.combined(Bb).combined(C) == A.combined(Bb.combined(C)), "associative", "combination is not associative");
    MC_CHECK(A.combined(Bb) == Bb.combined(A), "commutative", "combination is not commutative");
    auto u = A.combined(Bb).combined(C);
    for (auto* m : {&a, &b, &c})
        if (m->valid())
            MC_CHECK(u.contains(m->bb()), "covers", "the combination does not contain a part");
    ctx.validated(3);
    ctx.transition();
}
// where the box is built must not matter: the memory holds every float pattern first
static __attribute__((noipa)) void fillMemory(void* p, float v)
{
    for (size_t i = 0; i < sizeof(BoundingBox) / sizeof(float); ++i)
        memcpy((char*)p + i * sizeof(float), &v, sizeof v);
}
static __attribute__((noipa)) BoundingBox* buildIn(void* p, const std::vector<Vec2>& pts)
{
    return new (p) BoundingBox{pts.begin(), pts.end()};
}
MC_SCENARIO(no_point)
{
    const float       fill[5] = {0.f, 1.f, -3.f, 1e30f, -1e-20f};
    alignas(16) char  buf[sizeof(BoundingBox)];
    std::vector<Vec2> none;
    fillMemory(buf, fill[ctx.choose(5, "previous content")]);
    BoundingBox* b = buildIn(buf, none);
    BoundingBox  u{Vec2{0, 0}, Vec2{1, 1}};
    MC_CHECK(!b->isValid(), "empty", "the box of no point is valid");
    MC_CHECK(!b->overlaps(u) && !u.contains(*b) && u.combined(*b) == u, "empty", "the box of no point is not neutral");
    ctx.validated();
    ctx.transition();
}
MC_SCENARIO(boxes_of_points)
{
    int               n = ctx.choose(5, "points");
    std::vector<Vec2> pts;
    const float       cs[4] = {-1.5f, 0, 0.3f, 1e8f};
    for (int i = 0; i < n; ++i)
    {
        float x = cs[ctx.choose(4, "x")], y = cs[ctx.choose(n <= 3 ? 4 : 3, "y")];
        pts.push_back(Vec2{x, y});
    }
    BoundingBox b{pts.begin(), pts.end()};
    if (n == 0)
    {
        MC_CHECK(!b.isValid(), "empty", "the box of no point is valid");
        return;
    }
    B m{INFINITY, INFINITY, -INFINITY, -INFINITY};
    for (auto& p : pts)
    {
        m.x0 = std::min(m.x0, p[0]);
        m.x1 = std::max(m.x1, p[0]);
        m.y0 = std::min(m.y0, p[1]);
        m.y1 = std::max(m.y1, p[1]);
    }
    MC_CHECK(same(b, m), "points", "not the smallest box containing %d points", n);
    MC_CHECK(b == BoundingBox{pts}, "points", "the box of a range and of its iterators differ");
    ctx.validated(2);
    ctx.transition();
}
MC_SCENARIO(scaling)
{
    const float cs[5] = {-3, -1, 0, 0.5f, 4};
    float       x0 = cs[ctx.choose(5)], x1 = cs[ctx.choose(5)], y0 = cs[ctx.choose(5)], y1 = cs[ctx.choose(5)];
    const float rs[6] = {0, 0.25f, 1, 1.5f, 2, 10};
    float       r     = rs[ctx.choose(6, "ratio")];
    if (x0 > x1 || y0 > y1)
        return;
    BoundingBox b{Vec2{x0, y0}, Vec2{x1, y1}};
    auto        s   = BoundingBox::scaled(b, r);
    auto        near = [](float a, float b) { return std::abs(a - b) <= 1e-5f * (1 + std::abs(b)); };
    MC_CHECK(near(b.center()[0], (x0 + x1) / 2) && near(b.center()[1], (y0 + y1) / 2), "center", "wrong centre");
    MC_CHECK(near(s.center()[0], (x0 + x1) / 2) && near(s.center()[1], (y0 + y1) / 2), "scaled", "scaling moves the centre");
    MC_CHECK(near(s.max()[0] - s.min()[0], r * (x1 - x0)) && near(s.max()[1] - s.min()[1], r * (y1 - y0)), "scaled",
             "extent is not multiplied by %g", r);
    if (r >= 1)
        MC_CHECK(s.isValid(), "scaled", "scaling makes the box invalid");
    ctx.validated(3);
    ctx.transition();
}
// a default box is neutral
MC_SCENARIO(default_box)
{
    const std::vector<float> cs{0.f, 0.3f, 1.f, -2.f};
    B                        a = pickBox(ctx, cs);
    BoundingBox              d;
    MC_CHECK(!d.isValid(), "default", "the default box is valid");
    MC_CHECK(!d.overlaps(a.bb()) && !a.bb().overlaps(d), "default", "the default box overlaps something");
    MC_CHECK(!d.contains(a.bb()) && !a.bb().contains(d), "default", "containment with the default box");
    MC_CHECK(d.combined(a.bb()) == a.bb() && a.bb().combined(d) == a.bb(), "default", "the default box is not neutral");
    ctx.validated(4);
    ctx.transition();
}
