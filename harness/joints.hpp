// Bodies, joints and materials shared by the harnesses about solving constraints.
#pragma once
#include "world_common.hpp"

struct BodySpec
{
    P      at;
    double theta = 0, w = 1, h = 1, density = 1, dominance = 1;
    P      v;
    double spin = 0;
    P      offset; // of the collider from the origin of the body
};
inline Body* makeBox(World& w, const BodySpec& s, const Material* material = nullptr)
{
    BodyDescriptor d;
    d.position    = geo::toV(s.at);
    d.orientation = (float)s.theta;
    d.dominance   = (float)s.dominance;
    Body*    b    = w.makeBody(d);
    Material m    = material ? *material : Material{};
    m.density     = (float)s.density;
    b->addCollider(ColliderDescriptor{boxAt(s.offset.x, s.offset.y, s.w, s.h), m});
    b->setVelocity(geo::toV(s.v));
    b->setAngularVelocity((float)s.spin);
    return b;
}
enum Joint
{
    noJoint,
    hingeJoint,
    rotationJoint,
    weldJoint,
    exactDistance,
    minDistance,
    maxDistance,
    rangeDistance,
    nJoints
};
inline const char* jointName(int j)
{
    static const char* n[] = {"none", "hinge", "rotation", "weld", "exact distance", "minimum distance", "maximum distance", "distance range"};
    return n[j];
}
// anchor: point shared by a hinge; distance joints join two points given in world space
inline Constraint* makeJoint(World& w, int kind, const Bodies& b, P anchor, std::array<P, 2> points, double lo, double hi, bool disables = true)
{
    std::array<Vec2, 2>  p{geo::toV(points[0]), geo::toV(points[1])};
    std::optional<float> none = std::nullopt, l = (float)lo, h = (float)hi;
    switch (kind)
    {
        case hingeJoint: return w.makeConstraint<HingeConstraint>(b, geo::toV(anchor), disables);
        case rotationJoint: return w.makeConstraint<RotationConstraint>(b, disables);
        case weldJoint: return w.makeConstraint<WeldConstraint>(b, disables);
        case exactDistance: return w.makeConstraint<DistanceConstraint>(b, p, (float)lo, disables);
        case minDistance: return w.makeConstraint<DistanceConstraint>(b, p, l, none, disables);
        case maxDistance: return w.makeConstraint<DistanceConstraint>(b, p, none, h, disables);
        case rangeDistance: return w.makeConstraint<DistanceConstraint>(b, p, l, h, disables);
    }
    return nullptr;
}
struct BodyState
{
    Vec2  p, v;
    float th, w;
    BodyState() = default;
    BodyState(const Body* b) : p(b->position()), v(b->velocity()), th(b->orientation()), w(b->angularVelocity()) {}
    bool operator==(const BodyState& o) const { return all(p == o.p) && all(v == o.v) && th == o.th && w == o.w; }
    double differs(const BodyState& o) const { return std::max({geo::norm(geo::toP(p - o.p)), geo::norm(geo::toP(v - o.v)), (double)std::abs(th - o.th), (double)std::abs(w - o.w)}); }
    bool   finite() const { return std::isfinite(p[0]) && std::isfinite(p[1]) && std::isfinite(v[0]) && std::isfinite(v[1]) && std::isfinite(th) && std::isfinite(w); }
    std::string str() const { return mc::fmt("at (%.9g,%.9g) turned %.9g moving (%.9g,%.9g) spinning %.9g", p[0], p[1], th, v[0], v[1], w); }
};
