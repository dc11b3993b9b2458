// A scene with everything the tools can touch, and helpers to run the real Application around it.
#pragma once
#include "app_env.hpp"
#include "Simu/app.hpp"
#include <cmath>
#include <string>
using namespace simu;

inline ColliderDescriptor boxCollider(Vec2 dims, Vec2 c = Vec2{0.f, 0.f}, float density = 1.f)
{
    Material m;
    m.density = density;
    return ColliderDescriptor{Polygon::box(dims, c), m};
}

// where the window shows a point of the scene, computed from the camera's view rectangle
inline void cursorOver(Scene& s, double x, double y, double& px, double& py)
{
    double vw = s.camera().viewDimensions()[0] / s.camera().zoom(), vh = s.camera().viewDimensions()[1] / s.camera().zoom();
    px = (x - s.camera().center()[0]) / vw * env.w + env.w / 2.0;
    py = env.h / 2.0 - (y - s.camera().center()[1]) / vh * env.h;
}
inline void moveOver(Scene& s, double x, double y)
{
    double px, py;
    cursorOver(s, x, y, px, py);
    env.move(px, py);
}

inline std::vector<VisibleMouseConstraint*> liveGrabs(Scene& s)
{
    std::vector<VisibleMouseConstraint*> r;
    for (Constraint& c : s.world().constraints())
        if (auto m = dynamic_cast<VisibleMouseConstraint*>(&c); m && !m->isDead())
            r.push_back(m);
    return r;
}
