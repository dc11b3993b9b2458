// The library's own views, used with compilers whose standard views are not usable:
// the same checks as those of the standard ones.
#define MC_NO_MAIN
#include "mc.hpp"
#include <algorithm>
#include <cassert>
#include <deque>
#include <iterator>
#include <list>
#include <map>
#include <ranges>
#include <concepts>
#include <vector>
#define simu simu_own_views
#define __clang__ 1
#define __clang_major__ 15
#include "Simu/utility/View.hpp"
#undef __clang__
#undef __clang_major__
static_assert(!SIMU_HAS_STD_VIEW);
#include "c33_views.hpp"
MC_SCENARIO(views_own) { allViews(ctx); }
