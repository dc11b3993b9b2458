// Helpers shared by the harnesses that drive a World.
#pragma once
#include "geo_model.hpp"
#include "Simu/physics.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <set>

using namespace simu;
using geo::P;
using geo::Poly;

// does nothing but be active
struct InertConstraint : Constraint
{
    InertConstraint(const Bodies& b, bool disablesContacts = false) : Constraint(b, disablesContacts) {}
    bool isActive(const Proxies&) override { return true; }
    void initSolve(const Proxies&) override {}
    void warmstart(Proxies&, float) override {}
    void solveVelocities(Proxies&, float) override {}
    void solvePositions(Proxies&) override {}
};
inline Polygon boxAt(double x, double y, double w = 1, double h = 1) { return geo::toPolygon(geo::place(geo::box(w, h), 0, {x, y})); }
inline bool    boxesMeet(const BoundingBox& a, const BoundingBox& b)
{
    return a.min()[0] <= b.max()[0] && b.min()[0] <= a.max()[0] && a.min()[1] <= b.max()[1] && b.min()[1] <= a.max()[1];
}
inline Material tolerant(float pen)
{
    Material m;
    m.penetration = CombinableProperty{pen};
    return m;
}
