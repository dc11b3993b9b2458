// Stand-in for Dear ImGui (docking branch): the interface the application layer uses.
// Answers are scripted through app_env.hpp.
#pragma once
#include <cstdarg>
#include <cstddef>
struct ImVec2
{
    float x = 0, y = 0;
    ImVec2() = default;
    ImVec2(float x, float y) : x{x}, y{y} {}
    float&       operator[](size_t i) { return i ? y : x; }
    const float& operator[](size_t i) const { return i ? y : x; }
};
struct ImVec4
{
    float x = 0, y = 0, z = 0, w = 0;
    ImVec4() = default;
    ImVec4(float x, float y, float z, float w) : x{x}, y{y}, z{z}, w{w} {}
};
typedef unsigned ImGuiID;
typedef int      ImGuiWindowFlags, ImGuiTableFlags, ImGuiDockNodeFlags, ImGuiDir, ImGuiConfigFlags, ImGuiCol, ImGuiSliderFlags, ImGuiSelectableFlags, ImGuiColorEditFlags,
    ImGuiTableColumnFlags, ImGuiTableRowFlags, ImGuiCond;
enum { ImGuiWindowFlags_None = 0, ImGuiWindowFlags_AlwaysAutoResize = 1 << 6 };
enum { ImGuiTableFlags_None = 0, ImGuiTableFlags_Borders = 15 << 7 };
enum { ImGuiDockNodeFlags_None = 0, ImGuiDockNodeFlags_PassthruCentralNode = 1 << 3 };
enum { ImGuiDir_None = -1, ImGuiDir_Left = 0, ImGuiDir_Right, ImGuiDir_Up, ImGuiDir_Down };
enum { ImGuiConfigFlags_NavEnableKeyboard = 1, ImGuiConfigFlags_DockingEnable = 1 << 6, ImGuiConfigFlags_ViewportsEnable = 1 << 10 };
enum { ImGuiCol_Text, ImGuiCol_TextDisabled, ImGuiCol_WindowBg, ImGuiCol_COUNT = 60 };
struct ImGuiIO
{
    ImGuiConfigFlags ConfigFlags = 0;
    bool             WantCaptureMouse = false, WantCaptureKeyboard = false;
    float            DeltaTime = 1.f / 60.f, Framerate = 60.f;
    ImVec2           DisplaySize{640, 480};
};
struct ImGuiStyle
{
    ImVec4 Colors[ImGuiCol_COUNT];
    float  WindowRounding = 0;
};
struct ImGuiViewport
{
    ImGuiID ID = 1;
    ImVec2  Pos, Size{640, 480}, WorkPos, WorkSize{640, 460};
};
struct ImDrawData;
struct ImGuiContext;
struct ImGuiWindowClass;
#define IMGUI_CHECKVERSION() ((void)0)
namespace ImGui
{
ImGuiContext*  CreateContext(void* = nullptr);
void           DestroyContext(ImGuiContext* = nullptr);
ImGuiIO&       GetIO();
ImGuiStyle&    GetStyle();
void           StyleColorsDark(ImGuiStyle* = nullptr);
ImGuiViewport* GetMainViewport();
void           NewFrame();
void           Render();
ImDrawData*    GetDrawData();
void           UpdatePlatformWindows();
void           RenderPlatformWindowsDefault(void* = nullptr, void* = nullptr);
bool           Begin(const char*, bool* = nullptr, ImGuiWindowFlags = 0);
void           End();
bool           BeginMainMenuBar();
void           EndMainMenuBar();
bool           BeginMenu(const char*, bool = true);
void           EndMenu();
bool           MenuItem(const char*, const char* = nullptr, bool = false, bool = true);
bool           MenuItem(const char*, const char*, bool*, bool = true);
bool           Selectable(const char*, bool = false, ImGuiSelectableFlags = 0, const ImVec2& = ImVec2(0, 0));
bool           Selectable(const char*, bool*, ImGuiSelectableFlags = 0, const ImVec2& = ImVec2(0, 0));
bool           Button(const char*, const ImVec2& = ImVec2(0, 0));
bool           SmallButton(const char*);
bool           Checkbox(const char*, bool*);
bool           SliderInt(const char*, int*, int, int, const char* = "%d", ImGuiSliderFlags = 0);
bool           SliderFloat(const char*, float*, float, float, const char* = "%.3f", ImGuiSliderFlags = 0);
bool           SliderFloat2(const char*, float[2], float, float, const char* = "%.3f", ImGuiSliderFlags = 0);
bool           SliderAngle(const char*, float*, float = -360, float = 360, const char* = "%.0f deg", ImGuiSliderFlags = 0);
bool           ColorEdit3(const char*, float[3], ImGuiColorEditFlags = 0);
bool           ColorEdit4(const char*, float[4], ImGuiColorEditFlags = 0);
void           Text(const char*, ...);
void           TextUnformatted(const char*, const char* = nullptr);
void           Separator();
void           SameLine(float = 0, float = -1);
void           Spacing();
void           NewLine();
void           BeginDisabled(bool = true);
void           EndDisabled();
void           PushItemWidth(float);
void           PopItemWidth();
void           SetNextItemWidth(float);
void           PushID(int);
void           PushID(const char*);
void           PushID(const void*);
void           PopID();
bool           IsItemClicked(int = 0);
bool           IsItemHovered(int = 0);
bool           BeginTable(const char*, int, ImGuiTableFlags = 0, const ImVec2& = ImVec2(0, 0), float = 0);
void           EndTable();
void           TableSetupColumn(const char*, ImGuiTableColumnFlags = 0, float = 0, ImGuiID = 0);
void           TableHeadersRow();
void           TableNextRow(ImGuiTableRowFlags = 0, float = 0);
bool           TableNextColumn();
bool           TableSetColumnIndex(int);
ImGuiID        DockSpaceOverViewport(ImGuiID = 0, const ImGuiViewport* = nullptr, ImGuiDockNodeFlags = 0, const ImGuiWindowClass* = nullptr);
}
