// The environment of the application layer, implemented under the harness's control:
// a window system whose events the harness delivers, a user interface whose answers the harness
// scripts, and a recorder that executes the OpenGL calls on a small state machine and keeps the
// triangles they put on the screen.
#pragma once
#include "mc.hpp"
#define GLFW_INCLUDE_NONE
#include "GLFW/glfw3.h"
#include "glbinding/glbinding.h"
#include "glbinding/gl33core/gl.h"
#include "glsl.hpp"
#include "imgui.h"
#include "imgui_internal.h"
#include "backends/imgui_impl_glfw.h"
#include "backends/imgui_impl_opengl3.h"
#include <array>
#include <list>
#include <memory>
#include <string>
#include <vector>

struct GLFWwindow
{
    int unused;
};

struct Triangle
{
    float   x[3], y[3];       // as given
    double  sx[3], sy[3];     // on the screen, from -1 to 1
    uint8_t rgba[3][4];
};
struct DrawCommand
{
    enum Kind { Clear, Draw, Viewport, Swap } kind;
    float                 color[4] = {}; // Clear
    int                   view[4]  = {}; // Viewport
    std::vector<Triangle> triangles{};   // Draw
};

struct GlState
{
    struct Attribute
    {
        bool       enabled = false;
        int        size = 0, stride = 0;
        gl::GLenum type = gl::GL_FLOAT;
        bool       normalized = false;
        size_t     offset = 0;
        unsigned   vbo = 0;
    };
    struct Vao
    {
        unsigned                        elements = 0;
        std::array<Attribute, 4>        attributes{};
    };
    unsigned next = 1;
    std::map<unsigned, Vao>                  vaos{{0, Vao{}}};
    std::map<unsigned, std::vector<uint8_t>> buffers;
    struct Program
    {
        std::vector<unsigned>                 attached{};
        glsl::Shader                          vertex{}, fragment{};
        std::vector<std::string>              uniforms{};
        std::map<std::string, int>            attributes{}; // of the vertex shader
        std::string                           color{};      // output of the fragment shader
        bool                                  known = false; // the shaders are understood, otherwise they are taken to be right
        glsl::Shader::Memory                  values{};
        std::array<double, 9>                 matrix{};     // set last
    };
    std::map<unsigned, Program>                          programs;
    std::map<unsigned, std::pair<bool, std::string>>     shaders; // of vertices?, source
    bool blending = false, blendsOver = false;
    unsigned vao = 0, vbo = 0, program = 0;
    float    clear[4] = {};
    int      view[4]  = {};
    std::vector<DrawCommand> commands;
    std::vector<std::string> errors;
    bool     keep = true; // record triangles

    void error(const std::string& e)
    {
        if (errors.size() < 10)
            errors.push_back(e);
    }
    unsigned* bound(gl::GLenum target) { return target == gl::GL_ARRAY_BUFFER ? &vbo : target == gl::GL_ELEMENT_ARRAY_BUFFER ? &vaos[vao].elements : nullptr; }
};

struct AppEnv
{
    // window
    GLFWwindow window{};
    bool       initialised = false, created = false, close = false;
    int        w = 640, h = 480, fw = 640, fh = 480;
    double     cx = 0, cy = 0;
    std::set<int> keys, buttons;
    void*      user = nullptr;
    std::string title;
    double     frameTime = 1.0 / 60;   // what the clock reads in each frame
    int        frame = 0, maxFrames = 1, swaps = 0;
    GLFWframebuffersizefun onFramebuffer = nullptr;
    GLFWwindowsizefun      onSize = nullptr;
    GLFWkeyfun             onKey = nullptr;
    GLFWcursorposfun       onCursor = nullptr;
    GLFWmousebuttonfun     onButton = nullptr;
    GLFWscrollfun          onScroll = nullptr;
    std::function<void()>  poll;        // the harness's turn, once per frame
    std::function<void()>  gui;         // just before the interface is drawn

    // interface
    ImGuiIO       io{};
    ImGuiStyle    style{};
    ImGuiViewport viewport{};
    std::string   menu;                  // the menu being shown
    std::vector<std::string> windows;    // the windows being shown
    std::list<ImGuiWindow>   windowData;
    std::list<std::string>   windowNames;
    std::map<std::string, bool>   menuStart;   // values menu entries are given when first seen
    std::set<std::string>         seenMenu;
    std::string                   click;       // label of the thing clicked in this frame, with its window: "Window/Label"
    std::string                   clicked;     // what was actually hit
    std::map<std::string, std::vector<float>> slide; // sliders moved in this frame
    std::map<std::string, std::vector<float>> shown; // values the sliders showed
    std::map<std::string, std::array<double, 2>> ranges; // and what they allow
    std::map<std::string, bool>   items;       // selectable and checkbox states shown, buttons (true)
    std::vector<std::string>      texts;
    std::vector<std::pair<int, int>> cells; // row and column of each text in its table, or -1
    std::vector<std::string>      headers;  // of the columns of the last table
    int                           row = -1, column = -1, columns = 0;
    bool          guiContext = false;

    GlState gl;

    // events, as the window system would send them
    void key(int k, int action, int mods = 0)
    {
        if (action == GLFW_RELEASE)
            keys.erase(k);
        else
            keys.insert(k);
        if (onKey)
            onKey(&window, k, 0, action, mods);
    }
    void move(double x, double y)
    {
        cx = x, cy = y;
        if (onCursor)
            onCursor(&window, x, y);
    }
    void button(int b, int action, int mods = 0)
    {
        if (action == GLFW_RELEASE)
            buttons.erase(b);
        else
            buttons.insert(b);
        if (onButton)
            onButton(&window, b, action, mods);
    }
    void scroll(double x, double y)
    {
        if (onScroll)
            onScroll(&window, x, y);
    }
    void resize(int nw, int nh, int nfw, int nfh)
    {
        w = nw, h = nh, fw = nfw, fh = nfh;
        if (onFramebuffer)
            onFramebuffer(&window, fw, fh);
        if (onSize)
            onSize(&window, w, h);
    }
    std::string path(const char* label) const
    {
        std::string l = label;
        if (auto p = l.find("##"); p != std::string::npos)
            l = l.substr(0, p);
        return (windows.empty() ? menu : windows.back()) + "/" + l;
    }
    bool hit(const std::string& p)
    {
        if (click.empty() || p != click)
            return false;
        clicked = p;
        click.clear();
        return true;
    }
};
inline AppEnv env;
inline void   resetEnv() { env = AppEnv{}; }

// window system ----------------------------------------------------------------------------------
int          glfwInit() { return env.initialised = true; }
void         glfwTerminate() { env.initialised = false; }
GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun) { return nullptr; }
void         glfwWindowHint(int, int) {}
GLFWwindow*  glfwCreateWindow(int, int, const char* t, GLFWmonitor*, GLFWwindow*)
{
    env.created = true;
    env.title   = t;
    return &env.window;
}
void  glfwDestroyWindow(GLFWwindow*) { env.created = false; }
void  glfwSetWindowUserPointer(GLFWwindow*, void* p) { env.user = p; }
void* glfwGetWindowUserPointer(GLFWwindow*) { return env.user; }
template <class T>
static T exchangeCallback(T& slot, T f)
{
    T old = slot;
    slot  = f;
    return old;
}
GLFWframebuffersizefun glfwSetFramebufferSizeCallback(GLFWwindow*, GLFWframebuffersizefun f) { return exchangeCallback(env.onFramebuffer, f); }
GLFWwindowsizefun      glfwSetWindowSizeCallback(GLFWwindow*, GLFWwindowsizefun f) { return exchangeCallback(env.onSize, f); }
GLFWwindowclosefun     glfwSetWindowCloseCallback(GLFWwindow*, GLFWwindowclosefun) { return nullptr; }
GLFWwindowfocusfun     glfwSetWindowFocusCallback(GLFWwindow*, GLFWwindowfocusfun) { return nullptr; }
GLFWkeyfun             glfwSetKeyCallback(GLFWwindow*, GLFWkeyfun f) { return exchangeCallback(env.onKey, f); }
GLFWcharfun            glfwSetCharCallback(GLFWwindow*, GLFWcharfun) { return nullptr; }
GLFWcursorposfun       glfwSetCursorPosCallback(GLFWwindow*, GLFWcursorposfun f) { return exchangeCallback(env.onCursor, f); }
GLFWcursorenterfun     glfwSetCursorEnterCallback(GLFWwindow*, GLFWcursorenterfun) { return nullptr; }
GLFWmousebuttonfun     glfwSetMouseButtonCallback(GLFWwindow*, GLFWmousebuttonfun f) { return exchangeCallback(env.onButton, f); }
GLFWscrollfun          glfwSetScrollCallback(GLFWwindow*, GLFWscrollfun f) { return exchangeCallback(env.onScroll, f); }
void        glfwMakeContextCurrent(GLFWwindow*) {}
GLFWwindow* glfwGetCurrentContext() { return &env.window; }
GLFWglproc  glfwGetProcAddress(const char*) { return nullptr; }
void        glfwSwapInterval(int) {}
void        glfwSwapBuffers(GLFWwindow*)
{
    ++env.swaps;
    env.gl.commands.push_back({DrawCommand::Swap});
}
void glfwPollEvents()
{
    env.gl.commands.clear();
    env.shown.clear();
    env.items.clear();
    env.texts.clear(), env.cells.clear();
    env.slide.clear();
    env.click.clear();
    env.clicked.clear();
    if (env.poll)
        env.poll();
    ++env.frame;
}
void glfwWaitEvents() { glfwPollEvents(); }
int  glfwWindowShouldClose(GLFWwindow*) { return env.close || env.frame >= env.maxFrames; }
void glfwSetWindowShouldClose(GLFWwindow*, int c) { env.close = c != 0; }
void glfwSetWindowTitle(GLFWwindow*, const char* t) { env.title = t; }
void glfwGetWindowSize(GLFWwindow*, int* w, int* h)
{
    if (w)
        *w = env.w;
    if (h)
        *h = env.h;
}
void glfwSetWindowSize(GLFWwindow*, int w, int h) { env.resize(w, h, w, h); }
void glfwGetFramebufferSize(GLFWwindow*, int* w, int* h)
{
    if (w)
        *w = env.fw;
    if (h)
        *h = env.fh;
}
void glfwGetWindowContentScale(GLFWwindow*, float* x, float* y)
{
    if (x)
        *x = (float)env.fw / env.w;
    if (y)
        *y = (float)env.fh / env.h;
}
int  glfwGetWindowAttrib(GLFWwindow*, int a) { return a != GLFW_ICONIFIED; }
int  glfwGetKey(GLFWwindow*, int k) { return env.keys.count(k) ? GLFW_PRESS : GLFW_RELEASE; }
int  glfwGetMouseButton(GLFWwindow*, int b) { return env.buttons.count(b) ? GLFW_PRESS : GLFW_RELEASE; }
void glfwGetCursorPos(GLFWwindow*, double* x, double* y)
{
    if (x)
        *x = env.cx;
    if (y)
        *y = env.cy;
}
void   glfwSetCursorPos(GLFWwindow*, double x, double y) { env.cx = x, env.cy = y; }
void   glfwSetInputMode(GLFWwindow*, int, int) {}
double glfwGetTime() { return env.frameTime; }
void   glfwSetTime(double) {}

// interface ---------------------------------------------------------------------------------------
static int theImGuiContext;
namespace ImGui
{
ImGuiContext* CreateContext(void*)
{
    env.guiContext = true;
    return reinterpret_cast<ImGuiContext*>(&theImGuiContext);
}
void           DestroyContext(ImGuiContext*) { env.guiContext = false; }
ImGuiIO&       GetIO() { return env.io; }
ImGuiStyle&    GetStyle() { return env.style; }
void           StyleColorsDark(ImGuiStyle*) {}
ImGuiViewport* GetMainViewport() { return &env.viewport; }
void           NewFrame()
{
    if (env.gui)
        env.gui();
}
void        Render() {}
ImDrawData* GetDrawData() { return nullptr; }
void        UpdatePlatformWindows() {}
void        RenderPlatformWindowsDefault(void*, void*) {}
bool        Begin(const char* name, bool* open, ImGuiWindowFlags)
{
    env.windows.push_back(name);
    if (open && env.hit("close/" + std::string(name)))
        *open = false;
    if (!FindWindowByName(name))
    {
        env.windowNames.push_back(name);
        env.windowData.emplace_back();
        env.windowData.back().Name = env.windowNames.back().data();
    }
    env.items["window/" + std::string(name)] = true;
    return true;
}
void End() { env.windows.pop_back(); }
bool BeginMainMenuBar() { return true; }
void EndMainMenuBar() {}
bool BeginMenu(const char* m, bool)
{
    env.menu = m;
    return true;
}
void EndMenu() { env.menu.clear(); }
bool MenuItem(const char* l, const char*, bool, bool enabled)
{
    env.items[env.path(l)] = true;
    return enabled && env.hit(env.path(l));
}
bool MenuItem(const char* l, const char*, bool* p, bool enabled)
{
    std::string path = env.path(l);
    if (p && env.seenMenu.insert(path).second)
    {
        auto it = env.menuStart.find(path);
        *p      = it != env.menuStart.end() ? it->second : path == "Application/Select Scene" || path == "Tools/Select";
    }
    bool h = enabled && env.hit(path);
    if (h && p)
        *p = !*p;
    env.items[path] = p ? *p : true;
    return h;
}
bool Selectable(const char* l, bool selected, ImGuiSelectableFlags, const ImVec2&)
{
    env.items[env.path(l)] = selected;
    return env.hit(env.path(l));
}
bool Selectable(const char* l, bool* p, ImGuiSelectableFlags, const ImVec2&)
{
    env.items[env.path(l)] = p && *p;
    bool h                 = env.hit(env.path(l));
    if (h && p)
        *p = !*p;
    return h;
}
bool Button(const char* l, const ImVec2&)
{
    env.items[env.path(l)] = true;
    return env.hit(env.path(l));
}
bool SmallButton(const char* l) { return Button(l); }
bool Checkbox(const char* l, bool* p)
{
    std::string path = env.path(l);
    if (env.seenMenu.insert(path).second && env.menuStart.count(path))
        *p = env.menuStart[path];
    bool h = env.hit(path);
    if (h)
        *p = !*p;
    env.items[path] = *p;
    return h;
}
template <class T>
static bool slider(const char* l, T* v, int n, double lo = 0, double hi = 0)
{
    std::string path = env.path(l);
    env.ranges[path] = {lo, hi};
    bool        h    = false;
    if (auto it = env.slide.find(path); it != env.slide.end())
    {
        for (int i = 0; i < n && i < (int)it->second.size(); ++i)
            if (v[i] != (T)it->second[i])
                v[i] = (T)it->second[i], h = true;
        env.slide.erase(it);
    }
    env.shown[path].assign(v, v + n);
    return h;
}
bool SliderInt(const char* l, int* v, int lo, int hi, const char*, ImGuiSliderFlags) { return slider(l, v, 1, lo, hi); }
bool SliderFloat(const char* l, float* v, float lo, float hi, const char*, ImGuiSliderFlags) { return slider(l, v, 1, lo, hi); }
bool SliderFloat2(const char* l, float v[2], float, float, const char*, ImGuiSliderFlags) { return slider(l, v, 2); }
bool SliderAngle(const char* l, float* v, float, float, const char*, ImGuiSliderFlags)
{
    float deg = *v * 180.f / 3.14159265f;
    bool  h   = slider(l, &deg, 1);
    if (h)
        *v = deg * 3.14159265f / 180.f;
    return h;
}
bool ColorEdit3(const char* l, float v[3], ImGuiColorEditFlags) { return slider(l, v, 3); }
bool ColorEdit4(const char* l, float v[4], ImGuiColorEditFlags) { return slider(l, v, 4); }
void Text(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    env.texts.push_back(mc::vfmt(f, ap));
    env.cells.push_back({env.row, env.column});
    va_end(ap);
}
void    TextUnformatted(const char* t, const char*) { env.texts.push_back(t), env.cells.push_back({env.row, env.column}); }
void    Separator() {}
void    SameLine(float, float) {}
void    Spacing() {}
void    NewLine() {}
void    BeginDisabled(bool) {}
void    EndDisabled() {}
void    PushItemWidth(float) {}
void    PopItemWidth() {}
void    SetNextItemWidth(float) {}
void    PushID(int) {}
void    PushID(const char*) {}
void    PushID(const void*) {}
void    PopID() {}
bool    IsItemClicked(int) { return false; }
bool    IsItemHovered(int) { return false; }
bool    BeginTable(const char*, int n, ImGuiTableFlags, const ImVec2&, float)
{
    env.columns = n, env.row = env.column = -1;
    env.headers.clear();
    return true;
}
void EndTable() { env.row = env.column = -1; }
void TableSetupColumn(const char* name, ImGuiTableColumnFlags, float, ImGuiID) { env.headers.push_back(name); }
void TableHeadersRow() { ++env.row, env.column = env.columns - 1; }
void TableNextRow(ImGuiTableRowFlags, float) { ++env.row, env.column = -1; }
bool TableNextColumn()
{
    if (env.row < 0 || ++env.column >= env.columns)
        ++env.row, env.column = 0;
    return true;
}
bool TableSetColumnIndex(int i)
{
    env.column = i;
    return true;
}
ImGuiID DockSpaceOverViewport(ImGuiID, const ImGuiViewport*, ImGuiDockNodeFlags, const ImGuiWindowClass*) { return 1; }
void    DockBuilderRemoveNode(ImGuiID) {}
ImGuiID DockBuilderAddNode(ImGuiID, ImGuiDockNodeFlags) { return 1; }
void    DockBuilderSetNodeSize(ImGuiID, ImVec2) {}
ImGuiID DockBuilderSplitNode(ImGuiID, ImGuiDir, float, ImGuiID* a, ImGuiID* b)
{
    if (a)
        *a = 2;
    if (b)
        *b = 3;
    return 2;
}
void         DockBuilderDockWindow(const char*, ImGuiID) {}
void         DockBuilderFinish(ImGuiID) {}
ImGuiWindow* FindWindowByName(const char* n)
{
    for (auto& w : env.windowData)
        if (std::string(n) == w.Name)
            return &w;
    return nullptr;
}
ImGuiWindow* GetCurrentWindow() { return env.windows.empty() ? nullptr : FindWindowByName(env.windows.back().c_str()); }
} // namespace ImGui
bool ImGui_ImplGlfw_InitForOpenGL(GLFWwindow*, bool) { return true; }
void ImGui_ImplGlfw_Shutdown() {}
void ImGui_ImplGlfw_NewFrame() {}
bool ImGui_ImplOpenGL3_Init(const char*) { return true; }
void ImGui_ImplOpenGL3_Shutdown() {}
void ImGui_ImplOpenGL3_NewFrame() {}
void ImGui_ImplOpenGL3_RenderDrawData(ImDrawData*) {}

// OpenGL -------------------------------------------------------------------------------------------
namespace gl
{
static GlState& S() { return env.gl; }
void   glEnable(GLenum w) { S().blending |= w == GL_BLEND; }
void   glDisable(GLenum w)
{
    if (w == GL_BLEND)
        S().blending = false;
}
void   glBlendFunc(GLenum a, GLenum b) { S().blendsOver = a == GL_SRC_ALPHA && b == GL_ONE_MINUS_SRC_ALPHA; }
GLuint glCreateShader(GLenum kind)
{
    S().shaders[S().next] = {kind == GL_VERTEX_SHADER, ""};
    return S().next++;
}
void glShaderSource(GLuint s, GLsizei n, const GLchar* const* t, const GLint* l)
{
    auto& text = S().shaders[s].second;
    text.clear();
    for (int i = 0; i < n; ++i)
        text += l && l[i] >= 0 ? std::string(t[i], (size_t)l[i]) : std::string(t[i]);
}
void glCompileShader(GLuint) {}
void glGetShaderiv(GLuint, GLenum what, GLint* v) { *v = what == GL_COMPILE_STATUS; }
void glGetShaderInfoLog(GLuint, GLsizei, GLsizei*, GLchar*) {}
void glDeleteShader(GLuint s) { S().shaders.erase(s); }
GLuint glCreateProgram()
{
    S().programs[S().next];
    return S().next++;
}
void  glAttachShader(GLuint p, GLuint s) { S().programs[p].attached.push_back(s); }
void  glDetachShader(GLuint, GLuint) {}
void  glLinkProgram(GLuint id)
{
    auto& p = S().programs[id];
    bool  v = false, f = false;
    for (unsigned a : p.attached)
    {
        auto& [vertices, text] = S().shaders[a];
        (vertices ? v : f)     = true;
        (vertices ? p.vertex : p.fragment).compile(text);
    }
    if (!v || !f)
        S().error("a program is linked without both of its shaders");
    p.known = p.vertex.known && p.fragment.known;
    p.uniforms.clear();
    int next = 0;
    for (auto& [n, x] : p.vertex.variables)
    {
        if (x.storage == "uniform")
        {
            p.uniforms.push_back(n);
            auto& m = p.values[n];
            m.rows = m.cols = std::max(1, glsl::orderOf(x.type));
        }
        if (x.storage == "in")
            p.attributes[n] = x.location >= 0 ? x.location : next;
        next += x.storage == "in";
    }
    for (auto& [n, x] : p.fragment.variables)
    {
        if (x.storage == "uniform")
            p.known = false;
        if (x.storage == "out")
            p.color = n;
        if (x.storage == "in" && p.known && !(p.vertex.variables.count(n) && p.vertex.variables[n].storage == "out" && p.vertex.variables[n].type == x.type))
            S().error("the shaders do not fit together");
    }
}
void  glGetProgramiv(GLuint, GLenum what, GLint* v) { *v = what == GL_LINK_STATUS; }
void  glGetProgramInfoLog(GLuint, GLsizei, GLsizei*, GLchar*) {}
void  glDeleteProgram(GLuint p) { S().programs.erase(p); }
void  glUseProgram(GLuint p) { S().program = p; }
GLint glGetUniformLocation(GLuint id, const GLchar* name)
{
    auto& p = S().programs[id];
    if (!p.known)
        return 0;
    for (size_t i = 0; i < p.uniforms.size(); ++i)
        if (p.uniforms[i] == name)
            return (GLint)i;
    return -1;
}
void  glUniformMatrix3fv(GLint at, GLsizei, GLboolean transposed, const GLfloat* m)
{
    if (!S().programs.count(S().program))
        return S().error("a uniform is set without a program");
    auto& p = S().programs[S().program];
    for (int r = 0; r < 3; ++r) // kept in row major order
        for (int c = 0; c < 3; ++c)
            p.matrix[3 * r + c] = transposed ? m[3 * r + c] : m[3 * c + r];
    if (at >= 0 && at < (GLint)p.uniforms.size())
        for (int r = 0; r < 3; ++r)
            for (int c = 0; c < 3; ++c)
                p.values[p.uniforms[at]].v[3 * c + r] = p.matrix[3 * r + c];
}
void glGenVertexArrays(GLsizei n, GLuint* v)
{
    for (int i = 0; i < n; ++i)
        S().vaos[v[i] = S().next++];
}
void glDeleteVertexArrays(GLsizei n, const GLuint* v)
{
    for (int i = 0; i < n; ++i)
        S().vaos.erase(v[i]);
}
void glBindVertexArray(GLuint v)
{
    if (!S().vaos.count(v))
        S().error("a deleted vertex array is bound");
    S().vao = v;
}
void glGenBuffers(GLsizei n, GLuint* v)
{
    for (int i = 0; i < n; ++i)
        S().buffers[v[i] = S().next++];
}
void glDeleteBuffers(GLsizei n, const GLuint* v)
{
    for (int i = 0; i < n; ++i)
        S().buffers.erase(v[i]);
}
void glBindBuffer(GLenum t, GLuint b)
{
    if (b && !S().buffers.count(b))
        S().error("a deleted buffer is bound");
    if (auto p = S().bound(t))
        *p = b;
}
void glBufferData(GLenum t, GLsizeiptr n, const void* d, GLenum)
{
    auto p = S().bound(t);
    if (!p || !*p || n < 0)
        return S().error("data without a buffer");
    auto& b = S().buffers[*p];
    b.assign((size_t)n, 0);
    if (d && n)
        std::memcpy(b.data(), d, (size_t)n);
}
void glBufferSubData(GLenum t, GLintptr o, GLsizeiptr n, const void* d)
{
    auto p = S().bound(t);
    if (!p || !*p || n < 0 || o < 0 || (size_t)(o + n) > S().buffers[*p].size())
        return S().error("partial data outside of the buffer");
    std::memcpy(S().buffers[*p].data() + o, d, (size_t)n);
}
void glVertexAttribPointer(GLuint i, GLint size, GLenum type, GLboolean norm, GLsizei stride, const void* off)
{
    if (i >= 4)
        return S().error("attribute out of range");
    auto& a      = S().vaos[S().vao].attributes[i];
    bool  on     = a.enabled;
    a            = {on, size, stride, type, norm != 0, (size_t)off, S().vbo};
}
void glEnableVertexAttribArray(GLuint i) { S().vaos[S().vao].attributes[i & 3].enabled = true; }
void glDisableVertexAttribArray(GLuint i) { S().vaos[S().vao].attributes[i & 3].enabled = false; }
static bool attribute(unsigned index, int location, glsl::Value& r)
{
    r      = glsl::Value{4, 1, {0, 0, 0, 1}};
    auto& v = S().vaos[S().vao];
    if (location < 0 || location >= 4 || !v.attributes[location].enabled)
        return true;
    auto& a = v.attributes[location];
    if (!S().buffers.count(a.vbo))
        return false;
    auto&  b      = S().buffers[a.vbo];
    bool   bytes  = a.type == GL_UNSIGNED_BYTE;
    size_t size   = bytes ? 1 : a.type == GL_UNSIGNED_SHORT ? 2 : 4;
    size_t stride = a.stride ? a.stride : a.size * size;
    if (a.offset + index * stride + a.size * size > b.size())
        return false;
    const uint8_t* at = b.data() + a.offset + index * stride;
    for (int i = 0; i < std::min(4, a.size); ++i)
        if (bytes)
            r.v[i] = at[i] / (a.normalized ? 255.0 : 1.0);
        else if (a.type == GL_FLOAT)
        {
            float f;
            std::memcpy(&f, at + 4 * i, 4);
            r.v[i] = f;
        }
        else
            return false;
    return true;
}
// runs the shaders on a vertex
static bool fetch(unsigned index, Triangle& t, int k)
{
    auto& v = S().vaos[S().vao];
    if (!v.attributes[0].enabled || !v.attributes[1].enabled)
        return false;
    glsl::Value pos, color;
    if (!attribute(index, 0, pos) || !attribute(index, 1, color))
        return false;
    t.x[k] = (float)pos.v[0], t.y[k] = (float)pos.v[1];
    auto& p = S().programs[S().program];
    auto& u = p.matrix;
    t.sx[k] = u[0] * pos.v[0] + u[1] * pos.v[1] + u[2];
    t.sy[k] = u[3] * pos.v[0] + u[4] * pos.v[1] + u[5];
    if (p.known && S().keep)
        try
        {
            auto& m = p.values; // inputs and locals are written before they are read
            for (auto& [n, at] : p.attributes)
            {
                if (!attribute(index, at, m[n]))
                    return false;
                m[n].rows = glsl::sizeOf(p.vertex.variables.at(n).type);
            }
            p.vertex.run(m);
            auto& out = m.at("gl_Position");
            t.sx[k] = out.v[0] / out.v[3], t.sy[k] = out.v[1] / out.v[3];
            if (!(std::abs(out.v[2]) <= std::abs(out.v[3])))
                S().error("a vertex is clipped");
            p.fragment.run(m);
            color = m.at(p.color);
        }
        catch (glsl::Unknown&)
        {
            p.known = false;
        }
        catch (std::out_of_range&)
        {
            S().error("the shaders set no position or no colour");
        }
    for (int j = 0; j < 4; ++j)
        t.rgba[k][j] = (uint8_t)std::lround(std::min(1., std::max(0., color.v[j])) * 255.);
    if (t.rgba[k][3] < 255 && !(S().blending && S().blendsOver))
        S().error("something translucent is drawn without blending");
    return true;
}
static void drawIndices(GLenum mode, const std::vector<unsigned>& idx)
{
    if (!S().programs.count(S().program))
        return S().error("drawing without a program");
    if (!S().vaos.count(S().vao))
        return S().error("drawing without a vertex array");
    DrawCommand d{DrawCommand::Draw};
    auto        tri = [&](unsigned a, unsigned b, unsigned c) {
        Triangle t;
        if (!fetch(a, t, 0) || !fetch(b, t, 1) || !fetch(c, t, 2))
            S().error(mc::fmt("vertices %u %u %u are outside of the buffers", a, b, c));
        else if (S().keep)
            d.triangles.push_back(t);
    };
    if (mode == GL_TRIANGLES)
        for (size_t i = 0; i + 2 < idx.size(); i += 3)
            tri(idx[i], idx[i + 1], idx[i + 2]);
    else if (mode == GL_TRIANGLE_FAN)
        for (size_t i = 1; i + 1 < idx.size(); ++i)
            tri(idx[0], idx[i], idx[i + 1]);
    else if (mode == GL_TRIANGLE_STRIP)
        for (size_t i = 0; i + 2 < idx.size(); ++i)
            i % 2 ? tri(idx[i + 1], idx[i], idx[i + 2]) : tri(idx[i], idx[i + 1], idx[i + 2]);
    else
        S().error("unknown primitive");
    S().commands.push_back(std::move(d));
}
void glDrawElements(GLenum mode, GLsizei n, GLenum type, const void* off)
{
    unsigned e = S().vaos[S().vao].elements;
    if (!e || !S().buffers.count(e))
        return S().error("no indices are bound");
    auto&                 b    = S().buffers[e];
    size_t                size = type == GL_UNSIGNED_SHORT ? 2 : type == GL_UNSIGNED_INT ? 4 : 1;
    std::vector<unsigned> idx;
    for (int i = 0; i < n; ++i)
    {
        size_t at = (size_t)off + i * size;
        if (at + size > b.size())
            return S().error("indices outside of the buffer");
        unsigned v = 0;
        std::memcpy(&v, b.data() + at, size);
        idx.push_back(v);
    }
    drawIndices(mode, idx);
}
void glDrawArrays(GLenum mode, GLint first, GLsizei n)
{
    std::vector<unsigned> idx;
    for (int i = 0; i < n; ++i)
        idx.push_back(first + i);
    drawIndices(mode, idx);
}
void glClearColor(GLfloat r, GLfloat g, GLfloat b, GLfloat a) { S().clear[0] = r, S().clear[1] = g, S().clear[2] = b, S().clear[3] = a; }
void glClear(ClearBufferMask)
{
    DrawCommand d{DrawCommand::Clear};
    for (int i = 0; i < 4; ++i)
        d.color[i] = S().clear[i];
    S().commands.push_back(d);
}
void glViewport(GLint x, GLint y, GLsizei w, GLsizei h)
{
    DrawCommand d{DrawCommand::Viewport};
    d.view[0] = x, d.view[1] = y, d.view[2] = w, d.view[3] = h;
    for (int i = 0; i < 4; ++i)
        S().view[i] = d.view[i];
    S().commands.push_back(d);
}
void   glFlush() {}
void   glFinish() {}
GLenum glGetError() { return GL_NO_ERROR; }
} // namespace gl
