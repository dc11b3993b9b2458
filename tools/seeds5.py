"""More bugs planted by seed.py."""
from seeds import bug, T, W, C
from seeds2 import BOX, APP
from seeds4 import CS, CUSTOM

bug('unknown-tool-deselects', 'C31', [('include/Simu/app/Scene.hpp', '''        for (const auto& t : tools_)
        {
            if (t->getName() == name)
            {
                if (tool_ != t.get())
                    tool_->onDeselect();

                tool_''', '''        if (tool_->getName() != name)
            tool_->onDeselect();

        for (const auto& t : tools_)
        {
            if (t->getName() == name)
            {
                tool_''')],
    'a tool that is not registered, chosen while another one is at work',
    'the request is refused, but the current tool was told that it is no longer chosen',
    APP + r'''
int main()
{
    resetEnv();
    Application app;
    app.registerScene<Box>("A");
    auto& s = *dynamic_cast<Box*>(app.scene());
    frames(app, 1);
    moveOver(s, 0.5, 0.5);
    env.button(GLFW_MOUSE_BUTTON_LEFT, GLFW_PRESS);
    CHECK(liveGrabs(s).size() == 1);
    struct Open : Scene { using Scene::useTool; };
    bool refused = false;
    try
    {
        static_cast<Open&>(static_cast<Scene&>(s)).useTool(std::string("Hammer"));
    }
    catch (const simu::Exception&)
    {
        refused = true;
    }
    CHECK(refused);
    CHECK(liveGrabs(s).size() == 1);
}
''', app=True)

bug('short-polygon-drawn', 'C29', [('src/Simu/app/Renderer.cpp', '''    SIMU_ASSERT(vertices.size() >= 3, "Not enough vertices to make a Polygon.");

    Uint16 centerIndex''', '''    Uint16 centerIndex'''), ('src/Simu/app/Renderer.cpp', '''    Uint16 index = centerIndex + 2;
    while''', '''    SIMU_ASSERT(vertices.size() >= 3, "Not enough vertices to make a Polygon.");

    Uint16 index = centerIndex + 2;
    while''')],
    'a polygon of two corners, refused, and a flush of what was drawn before',
    'a triangle of the refused polygon is shown',
    APP + r'''
int main()
{
    resetEnv();
    Application app;
    Renderer& r = *app.renderer();
    r.setCameraTransform(Mat3::identity());
    std::vector<Vec2> v{Vec2{0.f, 0.f}, Vec2{1.f, 0.f}, Vec2{0.f, 1.f}};
    const auto& c = v;
    r.drawPolygon(Vec2{0.25f, 0.25f}, makeView(c.data(), c.data() + 3), Rgba{1, 2, 3, 255});
    bool refused = false;
    try
    {
        r.drawPolygon(Vec2{5.f, 5.f}, makeView(c.data(), c.data() + 2), Rgba{1, 2, 3, 255});
    }
    catch (const simu::Exception&)
    {
        refused = true;
    }
    CHECK(refused);
    r.flush();
    size_t n = 0;
    for (auto& k : env.gl.commands)
        n += k.triangles.size();
    if (n != 3)
        return std::printf("%zu triangles\n", n), 1;
}
''', app=True)

bug('profiler-row', 'C31', [('src/Simu/app/Application.cpp', 'printTimeEntry(p.solvePositions, "Solve Positions");', 'printTimeEntry(p.solveVelocities, "Solve Positions");')],
    'a step in which positions take another time than velocities',
    'the profiler window shows the time spent on velocities as the one spent on positions',
    APP + r'''
int main()
{
    resetEnv();
    Application app;
    app.registerScene<Box>("A");
    app.scene()->world().profiler().reset();
    for (int i = 0; i < 2; ++i)
    {
        auto t = app.scene()->world().profiler().solvePositions.time();
        timespec d{0, 20000000};
        nanosleep(&d, nullptr);
    }
    env.menuStart["Engine/Profiler"] = true;
    frames(app, 1);
    for (size_t i = 0; i + 3 < env.texts.size(); ++i)
        if (env.texts[i] == "Solve Positions")
        {
            CHECK(atof(env.texts[i + 2].c_str()) > 5);
            return 0;
        }
    return 1;
}
''', app=True)

bug('switched-limit-warm', 'C35', [(CS, 'canWarmstart_ = (func_ == prev) && (func_ != Func::off);', 'canWarmstart_ = (prev != Func::off) && (func_ != Func::off);')],
    'a range whose one limit is exceeded right after the other was, with warm starting',
    'the impulse of the other limit is applied again, in the direction that breaks this one further',
    CUSTOM + r'''
int main()
{
    World w;
    auto  s = w.settings();
    s.nVelocityIterations = 8, s.nPositionIterations = 0, s.enableWarmstarting = true;
    w.updateSettings(s);
    Body *a = makeBody(w, Vec2{0, 0}), *b = makeBody(w, Vec2{5, 0}, Vec2{-10, 0});
    auto* c = w.makeConstraint<Custom<Slide, LimitsSolver<Slide>>>(Bodies{a, b}, Slide{5.f});
    c->sol().setLowerLimit(Vector<float, 1>{0.f});
    c->sol().setUpperLimit(Vector<float, 1>{1.f});
    w.step(1 / 16.f);
    // thrown over the whole range
    s.nVelocityIterations = 0;
    w.updateSettings(s);
    a->setVelocity(Vec2{0, 0});
    b->setVelocity(Vec2{40, 0});
    c->sol().setLowerLimit(Vector<float, 1>{-2.f});
    c->sol().setUpperLimit(Vector<float, 1>{-1.f});
    w.step(1 / 16.f);
    std::printf("%g\n", b->velocity()[0] - a->velocity()[0]);
    return b->velocity()[0] - a->velocity()[0] != 40.f;
}
''')

bug('motor-start-unbounded', 'C35', [(CS, '        updateLambda(proxies, f, dt, previousLambda_);\n', '        lambda_ = previousLambda_;\n        proxies.applyImpulse(impulse(J_, lambda_));\n')],
    'a saturated motor, warm starting, and a step much shorter than the one before, not iterated',
    'a short step begins with the whole impulse of the longer one, beyond the force of the motor',
    CUSTOM + r'''
int main()
{
    World w;
    auto  s = w.settings();
    s.nVelocityIterations = 8, s.nPositionIterations = 0, s.enableWarmstarting = true;
    w.updateSettings(s);
    Body* b = makeBody(w, Vec2{0, 0});
    auto* m = w.makeConstraint<TranslationMotor>(Bodies::singleBody(b), TranslationMotor::Specs::fromForce(1000.f, 1.f));
    m->direction(Vec2{1, 0});
    w.step(1 / 16.f);
    float before = b->velocity()[0];
    s.nVelocityIterations = 0;
    w.updateSettings(s);
    w.step(1 / 1024.f);
    float gain = (b->velocity()[0] - before) * b->mass();
    std::printf("%g\n", gain);
    return gain > 1.01f / 1024.f;
}
''')
