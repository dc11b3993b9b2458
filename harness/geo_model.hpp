// Double precision reference geometry, and the convex shapes used by several harnesses.
#pragma once
#include "Simu/math.hpp"
#include "Simu/math/Gjk.hpp"
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
#include <vector>

namespace geo
{
struct P
{
    double x = 0, y = 0;
};
inline P      operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
inline P      operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
inline P      operator*(P a, double k) { return {a.x * k, a.y * k}; }
inline double dot(P a, P b) { return a.x * b.x + a.y * b.y; }
inline double cross(P a, P b) { return a.x * b.y - a.y * b.x; }
inline double norm(P a) { return std::hypot(a.x, a.y); }
typedef std::vector<P> Poly;

inline P rot(P a, double t)
{
    return {a.x * std::cos(t) - a.y * std::sin(t), a.x * std::sin(t) + a.y * std::cos(t)};
}
inline P      toP(simu::Vec2 v) { return {v[0], v[1]}; }
inline simu::Vec2 toV(P p) { return simu::Vec2{(float)p.x, (float)p.y}; }

inline double area2(const Poly& p)
{
    double a = 0;
    for (size_t i = 0; i < p.size(); ++i)
        a += cross(p[i], p[(i + 1) % p.size()]);
    return a;
}
inline P distPoint(P a, P b, P q) // closest point of segment ab
{
    P      d = b - a;
    double n = dot(d, d), t = n == 0 ? 0 : std::clamp(dot(q - a, d) / n, 0.0, 1.0);
    return a + d * t;
}
inline double segDist(P a, P b, P q) { return norm(distPoint(a, b, q) - q); }

// Signed gap of two convex polygons along the best axis: positive when apart (a lower
// bound of the distance, exact sign), zero when touching, minus the depth when overlapping.
// n receives the axis (pointing from a to b)
inline double signedGap(const Poly& a, const Poly& b, P* n = nullptr)
{
    double best = -std::numeric_limits<double>::infinity();
    auto   axes = [&](const Poly& p, const Poly& q, double s) {
        double o = area2(p) > 0 ? 1 : -1;
        for (size_t i = 0; i < p.size(); ++i)
        {
            P      e = p[(i + 1) % p.size()] - p[i];
            double l = norm(e);
            if (l == 0)
                continue;
            P      m{o * e.y / l, -o * e.x / l}; // outwards
            double lo = std::numeric_limits<double>::infinity();
            for (auto& v : q)
                lo = std::min(lo, dot(v - p[i], m));
            if (lo > best)
            {
                best = lo;
                if (n)
                    *n = m * s;
            }
        }
    };
    axes(a, b, 1);
    axes(b, a, -1);
    return best;
}
inline double distance(const Poly& a, const Poly& b)
{
    if (signedGap(a, b) <= 0)
        return 0;
    double best = std::numeric_limits<double>::infinity();
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < b.size(); ++j)
        {
            best = std::min(best, segDist(a[i], a[(i + 1) % a.size()], b[j]));
            best = std::min(best, segDist(b[j], b[(j + 1) % b.size()], a[i]));
        }
    return best;
}
// signed distance of a point to a convex polygon boundary, negative inside
inline double pointGap(const Poly& p, P q)
{
    double o = area2(p) > 0 ? 1 : -1, in = -std::numeric_limits<double>::infinity(),
           d = std::numeric_limits<double>::infinity();
    for (size_t i = 0; i < p.size(); ++i)
    {
        P e = p[(i + 1) % p.size()] - p[i];
        P m{o * e.y / norm(e), -o * e.x / norm(e)};
        in = std::max(in, dot(q - p[i], m));
        d  = std::min(d, segDist(p[i], p[(i + 1) % p.size()], q));
    }
    return in <= 0 ? in : d;
}

struct MassRef
{
    double area;
    P      c;
    double I; // second moment of area about the centroid
};
inline MassRef massOf(const Poly& p)
{
    double a = 0, I = 0;
    P      c, o = p[0];
    for (size_t i = 0; i < p.size(); ++i)
    {
        P      u = p[i] - o, v = p[(i + 1) % p.size()] - o;
        double k = cross(u, v);
        a += k / 2;
        c = c + (u + v) * (k / 6);
        I += k / 12 * (dot(u, u) + dot(u, v) + dot(v, v));
    }
    c = c * (1 / a);
    I -= a * dot(c, c);
    return {std::abs(a), c + o, std::abs(I)};
}

// every strictly convex polygon with n vertices among the lattice points [0,g)^2,
// touching both axes (one representative per translation), counter-clockwise,
// starting at its lexicographically smallest vertex
inline std::vector<Poly> latticeConvex(int g, int n)
{
    std::vector<Poly>        out;
    std::vector<std::pair<int, int>> pts;
    for (int x = 0; x < g; ++x)
        for (int y = 0; y < g; ++y)
            pts.push_back({x, y});
    std::vector<int>         idx;
    std::function<void(int)> rec = [&](int from) {
        if ((int)idx.size() == n)
        {
            Poly   p;
            double cx = 0, cy = 0;
            int    mx = 99, my = 99;
            for (int i : idx)
            {
                p.push_back({(double)pts[i].first, (double)pts[i].second});
                cx += pts[i].first / (double)n;
                cy += pts[i].second / (double)n;
                mx = std::min(mx, pts[i].first);
                my = std::min(my, pts[i].second);
            }
            if (mx || my)
                return;
            P first = p[0];
            std::sort(p.begin(), p.end(), [&](P a, P b) { return std::atan2(a.y - cy, a.x - cx) < std::atan2(b.y - cy, b.x - cx); });
            while (p[0].x != first.x || p[0].y != first.y)
                std::rotate(p.begin(), p.begin() + 1, p.end());
            for (int i = 0; i < n; ++i)
                if (cross(p[(i + 1) % n] - p[i], p[(i + 2) % n] - p[(i + 1) % n]) <= 0)
                    return;
            out.push_back(p);
            return;
        }
        for (int i = from; i < (int)pts.size(); ++i)
        {
            idx.push_back(i);
            rec(i + 1);
            idx.pop_back();
        }
    };
    rec(0);
    return out;
}
inline Poly regular(int n, double r, double phase)
{
    Poly p;
    for (int i = 0; i < n; ++i)
        p.push_back({r * std::cos(phase + 2 * M_PI * i / n), r * std::sin(phase + 2 * M_PI * i / n)});
    return p;
}
inline Poly box(double w, double h) { return {{-w / 2, -h / 2}, {w / 2, -h / 2}, {w / 2, h / 2}, {-w / 2, h / 2}}; }
inline Poly place(const Poly& p, double angle, P t, double scale = 1)
{
    Poly q;
    for (auto& v : p)
        q.push_back(rot(v * scale, angle) + t);
    return q;
}
inline simu::Vertices toVertices(const Poly& p)
{
    simu::Vertices v;
    for (auto& q : p)
        v.push_back(toV(q));
    return v;
}
inline simu::Polygon toPolygon(const Poly& p)
{
    auto v = toVertices(p);
    return simu::Polygon{v.begin(), v.end()};
}
// the polygon as stored in single precision
template <class T>
inline Poly fromGeo(const T& g)
{
    Poly p;
    for (auto v : g)
        p.push_back(toP(v));
    return p;
}
inline double sizeOf(const Poly& a)
{
    double m = 0;
    for (auto& v : a)
        m = std::max({m, std::abs(v.x), std::abs(v.y)});
    return m;
}
inline std::string show(const Poly& p)
{
    std::string s;
    for (auto& v : p)
        s += mc::fmt("(%.9g,%.9g)", v.x, v.y);
    return s;
}
// strictly convex, or a degenerate polygon whose hull is meant?
} // namespace geo
