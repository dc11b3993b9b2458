// Stand-in for glbinding.
#pragma once
#include <functional>
namespace glbinding
{
using ProcAddress = void (*)();
using GetProcAddress = std::function<ProcAddress(const char*)>;
inline void initialize(GetProcAddress, bool = true) {}
}
