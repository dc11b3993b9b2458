"""More bugs planted by seed.py."""
from seeds import bug, T, W, C
from seeds2 import BOX, CS

bug('structural-pair-accepted', 'C34', [('include/Simu/physics/ConstraintInterfaces.hpp', 'else if (bodies_.isBodyStructural(bodies_[0]) && bodies_.isBodyStructural(bodies_[1]))', 'else if (bodies_[0]->isStructural() && bodies_[1]->isStructural())')],
    'a constraint that makes both of its bodies structural with dominances of its own',
    'the constraint is accepted although none of its bodies can be moved',
    BOX + r'''
int main()
{
    World w;
    Body* a = w.makeBody(BodyDescriptor{Vec2{0.f, 0.f}});
    Body* b = w.makeBody(BodyDescriptor{Vec2{5.f, 0.f}});
    a->addCollider(ColliderDescriptor{box});
    b->addCollider(ColliderDescriptor{box});
    for (int kind = 0; kind < 2; ++kind)
    {
        bool refused = false;
        try
        {
            Bodies both{{a, b}, Bodies::Dominance{0.f, 0.f}};
            if (kind)
                w.makeConstraint<HingeConstraint>(both, Vec2{2.f, 0.f});
            else
                w.makeConstraint<DistanceConstraint>(both, std::array<Vec2, 2>{Vec2{0, 0}, Vec2{5, 0}}, 5.f);
        }
        catch (const simu::Exception&)
        {
            refused = true;
        }
        if (!refused)
            return std::puts("accepted"), 1;
    }
}
''')
bug('collider-of-no-world', 'C34', [('src/Simu/physics/Body.cpp', '''    SIMU_ASSERT(world_ != nullptr, "Body must be owned by a World");

    Collider* c = colliders_.add(descriptor, this);
''', '''    Collider* c = colliders_.add(descriptor, this);

    SIMU_ASSERT(world_ != nullptr, "Body must be owned by a World");
''')],
    'a collider added to a body that no world owns',
    'the request is refused but the body keeps the collider and cannot be destroyed',
    BOX + r'''
int main()
{
    Body b{BodyDescriptor{}};
    bool refused = false;
    try
    {
        b.addCollider(ColliderDescriptor{box});
    }
    catch (const simu::Exception&)
    {
        refused = true;
    }
    for (auto& c : b.colliders())
        return (void)c, std::puts("the collider was kept"), std::fflush(stdout), std::_Exit(1), 1;
    return !refused;
}
''')
bug('constraint-kept-when-refused', 'C34', [('include/Simu/physics/World.hpp', """        T* c = static_cast<T*>(
            constraints_
                .emplace_back(makeObject<T>(cAlloc_, std::forward<Args>(args)...))
                .get()
        );
""", """        // owned by the world before it is told so, as bodies are
        T* c = static_cast<T*>(
            constraints_
                .emplace_back(makeUnique<T>(cAlloc_, std::forward<Args>(args)...))
                .get()
        );
        c->setAllocator(cAlloc_);
        c->onConstruction(*this);
""")],
    'a constraint whose onConstruction throws',
    'the constraint stays in the world, and is stepped and killed with it, although its bodies do not know it',
    BOX + r"""
struct Refuses : HingeConstraint
{
    using HingeConstraint::HingeConstraint;
    void onConstruction(World&) override { throw 1; }
};
int main()
{
    World w;
    Body* a = w.makeBody(BodyDescriptor{Vec2{0.f, 0.f}});
    Body* b = w.makeBody(BodyDescriptor{Vec2{5.f, 0.f}});
    a->addCollider(ColliderDescriptor{box});
    b->addCollider(ColliderDescriptor{box});
    try
    {
        w.makeConstraint<Refuses>(Bodies{a, b}, Vec2{2.f, 0.f});
        return 2;
    }
    catch (int)
    {
    }
    int n = 0;
    for (Constraint& c : w.constraints())
        ++n, (void)c;
    if (n)
        return std::puts("the constraint was kept"), 1;
}
""")
bug('listed-once-active', 'C34', [('include/Simu/physics/Island.hpp', """        container.emplace_back(constraint);

        auto& b""", """        auto& b"""), ('include/Simu/physics/Island.hpp', """            constraint->bodies().endSolve();
            container.pop_back();
            inactive_""", """            constraint->bodies().endSolve();
            inactive_"""), ('include/Simu/physics/Island.hpp', """            return false;
        }

        return true;
    }

    std::vector<Body*,""", """            return false;
        }

        container.emplace_back(constraint);
        return true;
    }

    std::vector<Body*,""")],
    'an error thrown by isActive of a constraint, and further steps',
    'the constraint still refers to the abandoned solve: it is ignored by all later steps',
    BOX + r"""
static bool boom = false;
static int solved = 0;
struct Breaks : HingeConstraint
{
    using HingeConstraint::HingeConstraint;
    bool isActive(const Proxies& p) override
    {
        if (boom)
            throw 1;
        return HingeConstraint::isActive(p);
    }
    void initSolve(const Proxies& p) override
    {
        ++solved;
        HingeConstraint::initSolve(p);
    }
};
int main()
{
    World w;
    Body* a = w.makeBody(BodyDescriptor{Vec2{0.f, 0.f}});
    Body* b = w.makeBody(BodyDescriptor{Vec2{5.f, 0.f}});
    a->addCollider(ColliderDescriptor{box});
    b->addCollider(ColliderDescriptor{box});
    w.makeConstraint<Breaks>(Bodies{a, b}, Vec2{2.f, 0.f});
    w.step(0.01f);
    boom = true;
    try
    {
        w.step(0.01f);
        return 2;
    }
    catch (int)
    {
    }
    boom = false;
    w.step(0.01f);
    w.step(0.01f);
    return solved != 3;
}
""")
bug('random-end-excluded', 'C33', [('include/Simu/math/Random.hpp', '        return generate<std::uniform_int_distribution<T>>(min, max);', '''        // a single draw, cheaper than a distribution
        return static_cast<T>(min + static_cast<T>(engine_() % static_cast<std::uint64_t>(max - min)));''')],
    'the largest value asked for, or a range of a single value', 'the largest value never comes, and a range of one value divides by zero',
    r'''
#include "Simu/math/Random.hpp"
int main()
{
    std::set<int> seen;
    for (int i = 0; i < 20000; ++i)
        seen.insert(Random::uniform(3, 7));
    if (seen != std::set<int>{3, 4, 5, 6, 7})
        return std::puts("values of the range never come"), 1;
    return Random::uniform(5, 5) != 5;
}
''')
bug('random-float-range', 'C33', [('include/Simu/math/Random.hpp', '        return generate<std::uniform_real_distribution<T>>(min, max);', '''        // faster than a distribution
        return min + (max - min) * static_cast<T>(engine_() >> 11) / static_cast<T>(1ull << 54);''')],
    'numbers of the upper half of a range', 'only the lower half of the range comes',
    r'''
#include "Simu/math/Random.hpp"
int main()
{
    int upper = 0;
    for (int i = 0; i < 2000; ++i)
    {
        float x = Random::uniform(-1.f, 3.f);
        if (!(x >= -1.f && x <= 3.f))
            return std::puts("outside"), 1;
        upper += x > 1.5f;
    }
    return upper < 100;
}
''')

CUSTOM = BOX + '''
struct Slide // second body along x
{
    static constexpr Uint32 nBodies = 2, dimension = 1;
    typedef Vector<float, 1> Value;
    typedef Matrix<float, 1, 6> Jacobian;
    float at = 0.f, lo = -1e9f, hi = 1e9f, plo = -1e9f, phi = 1e9f, b = 0.f;
    Uint32 axis = 0;
    Value eval(const Proxies& p) const { return Value{p[1].centroid()[axis] - p[0].centroid()[axis] - at}; }
    Value bias(const Proxies&) const { return Value{b}; }
    Jacobian jacobian(const Proxies&) const
    {
        Jacobian j{};
        j(0, axis) = -1.f, j(0, 3 + axis) = 1.f;
        return j;
    }
    Value clampLambda(Value l, float dt) const { return Value{std::min(hi * dt, std::max(lo * dt, l[0]))}; }
    Value clampPositionLambda(Value l) const { return Value{std::min(phi, std::max(plo, l[0]))}; }
};
template <class F, class S>
struct Custom : ConstraintImplementation<F, S>
{
    Custom(const Bodies& b, const F& f) : ConstraintImplementation<F, S>(b, f, true) {}
    S& sol() { return this->solver; }
};
static Body* makeBody(World& w, Vec2 at, Vec2 v = Vec2{})
{
    Body* b = w.makeBody(BodyDescriptor{at});
    b->addCollider(ColliderDescriptor{box});
    b->setVelocity(v);
    return b;
}
'''
bug('damping-forgotten', 'C35', [(CS, 'Value previousDamping = addDamping ? KMatrix::diagonal(damping()) * lambda_\n                                           : Value{};\n\n        return -(error + bias + baumgarteStabilization + previousDamping);', '// the damping is already part of the effective mass\n        return -(error + bias + baumgarteStabilization);')],
    'a softened constraint solved by several iterations', 'the softer a constraint should be, the more its iterations undo it',
    CUSTOM + r'''
static float left(Uint32 iterations)
{
    World w;
    auto  s = w.settings();
    s.nVelocityIterations = iterations, s.nPositionIterations = 0;
    w.updateSettings(s);
    Body *a = makeBody(w, Vec2{0, 0}), *b = makeBody(w, Vec2{5, 0}, Vec2{1, 0});
    w.makeConstraint<Custom<Slide, EqualitySolver<Slide>>>(Bodies{a, b}, Slide{5.f})->sol().damping()[0] = 2.f;
    w.step(0.01f);
    return b->velocity()[0] - a->velocity()[0];
}
int main()
{
    std::printf("%g %g\n", left(1), left(8));
    return std::abs(left(1) - left(8)) > 1e-4f;
}
''')
bug('upper-limit-bound-side', 'C35', [(CS, '''                            -f.clampLambda(-lambda, dt), Value::filled(0.f)''', '''                            f.clampLambda(lambda, dt), Value::filled(0.f)''')],
    'an upper limit of a function whose impulses have other bounds on each side', 'the upper limit is enforced with the strength of the lower one',
    CUSTOM + r'''
int main()
{
    World w;
    Body *a = makeBody(w, Vec2{0, 0}), *b = makeBody(w, Vec2{5, 0}, Vec2{1, 0});
    Slide f{5.f};
    f.lo = -10.f, f.hi = 500.f; // pushes well, pulls badly
    w.makeConstraint<Custom<Slide, LimitsSolver<Slide>>>(Bodies{a, b}, f)->sol().setUpperLimit(Vector<float, 1>{-0.5f});
    w.step(0.01f);
    float impulse = (1.f - b->velocity()[0]) * b->mass();
    std::printf("%g\n", impulse);
    return !(impulse < 0.11f && impulse > 0.09f);
}
''')
bug('upper-limit-bias', 'C35', [(CS, '                return error - alreadyCorrected + bias\n                       + baumgarteCoeff * (C - U_.value());', '                return error - alreadyCorrected - bias\n                       + baumgarteCoeff * (C - U_.value());')],
    'an upper limit of a function with a bias', 'a moving limit moves to the other side',
    CUSTOM + r'''
int main()
{
    World w;
    Body *a = makeBody(w, Vec2{0, 0}), *b = makeBody(w, Vec2{5, 0}, Vec2{1, 0});
    Slide f{5.f};
    f.b = 0.5f;
    auto s = w.settings();
    s.nPositionIterations = 0;
    w.updateSettings(s);
    w.makeConstraint<Custom<Slide, LimitsSolver<Slide>>>(Bodies{a, b}, f)->sol().setUpperLimit(Vector<float, 1>{-0.5f});
    w.step(0.01f);
    float v = b->velocity()[0] - a->velocity()[0];
    std::printf("%g\n", v);
    return std::abs(v + 0.5f) > 1e-3f;
}
''')
bug('combined-correction-bounds', 'C35', [('include/Simu/physics/ConstraintFunction.hpp', '''            manip.assign(
                i,
                f.clampPositionLambda(manip.template extract<offset>(i))
            );
            i += offset;''', '''            auto lambda = manip.template extract<offset>(i);
            manip.assign(i, f.clampPositionLambda(lambda));
            i = offset;''')],
    'a combination of three functions or more, with bounds on their corrections', 'the third function is never asked to bound its corrections, the second is asked twice',
    CUSTOM + r'''
int main()
{
    World w;
    Body *a = makeBody(w, Vec2{0, 0}), *b = makeBody(w, Vec2{5, 5});
    struct Turn : Slide
    {
        Value eval(const Proxies& p) const { return Value{p[1].orientation() - p[0].orientation() - at}; }
        Jacobian jacobian(const Proxies&) const { return Jacobian{0, 0, -1, 0, 0, 1}; }
    };
    Slide x{5.f}, y{5.f};
    y.axis = 1;
    Turn t;
    t.at = 0.25f, t.plo = 0.f, t.phi = 0.f; // never corrected
    typedef ConstraintFunctions<Slide, Slide, Turn> F;
    w.makeConstraint<Custom<F, EqualitySolver<F>>>(Bodies{a, b}, F{x, y, t});
    w.step(0.01f);
    std::printf("%g\n", b->orientation());
    return b->orientation() != 0.f;
}
''')
