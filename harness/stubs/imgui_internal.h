// Stand-in for the internal header of Dear ImGui (docking branch).
#pragma once
#include "imgui.h"
enum { ImGuiDockNodeFlags_DockSpace = 1 << 10 };
struct ImGuiWindowTempData
{
    ImVec2 CursorPos, CursorStartPos, CursorMaxPos{100, 20};
};
struct ImGuiWindow
{
    char*               Name = nullptr;
    ImGuiWindowTempData DC;
};
namespace ImGui
{
void         DockBuilderRemoveNode(ImGuiID);
ImGuiID      DockBuilderAddNode(ImGuiID = 0, ImGuiDockNodeFlags = 0);
void         DockBuilderSetNodeSize(ImGuiID, ImVec2);
ImGuiID      DockBuilderSplitNode(ImGuiID, ImGuiDir, float, ImGuiID*, ImGuiID*);
void         DockBuilderDockWindow(const char*, ImGuiID);
void         DockBuilderFinish(ImGuiID);
ImGuiWindow* FindWindowByName(const char*);
ImGuiWindow* GetCurrentWindow();
}
