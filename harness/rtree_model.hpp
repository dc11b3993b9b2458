#pragma once
#include "mc.hpp"
#include "Simu/physics/RTree.hpp"
#include "Simu/utility/Memory.hpp"
#include <algorithm>
#include <memory>

using namespace simu;

struct Box
{
    float x0, y0, x1, y1;
    BoundingBox bb() const { return BoundingBox{Vec2{x0, y0}, Vec2{x1, y1}}; }
    bool overlaps(const Box& o) const
    {
        return x0 <= o.x1 && o.x0 <= x1 && y0 <= o.y1 && o.y0 <= y1;
    }
    bool operator==(const Box&) const = default;
};

// a value with identity that notices being used after destruction
struct Val
{
    int  id;
    int* alive;
    Val(int i, int* a) : id{i}, alive{a} { ++*alive; }
    Val(const Val& o) : id{o.id}, alive{o.alive} { ++*alive; }
    ~Val()
    {
        --*alive;
        id = -12345;
    }
};

// the pool allocator, counting what has not been given back
inline int unreturned = 0;
template <class T>
struct Counted
{
    typedef T            value_type;
    FreeListAllocator<T> pool{};
    Counted() = default;
    template <class U>
    Counted(const Counted<U>& o) : pool{o.pool} {}
    T*   allocate(size_t n) { return ++unreturned, pool.allocate(n); }
    void deallocate(T* p, size_t n) { --unreturned, pool.deallocate(p, n); }
    template <class U>
    bool operator==(const Counted<U>& o) const { return pool == o.pool; }
};

typedef Counted<Val>     Pool;
typedef RTree<Val, Pool> Tree;

struct Model
{
    struct E
    {
        int            id;
        Box            box;
        Tree::iterator it;
    };
    std::vector<E> es;
    int            next  = 0;
    int            alive = 0;
};

inline bool same(const BoundingBox& b, const Box& m)
{
    return b.min()[0] == m.x0 && b.min()[1] == m.y0 && b.max()[0] == m.x1 && b.max()[1] == m.y1;
}

inline Box unite(const std::vector<Model::E>& es)
{
    Box u = es[0].box;
    for (auto& e : es)
    {
        u.x0 = std::min(u.x0, e.box.x0);
        u.y0 = std::min(u.y0, e.box.y0);
        u.x1 = std::max(u.x1, e.box.x1);
        u.y1 = std::max(u.y1, e.box.y1);
    }
    return u;
}

inline void checkTree(mc::Ctx& ctx, Tree& t, Model& m, const std::vector<Box>& queries)
{
    size_t n = m.es.size();
    MC_CHECK(t.size() == n, "size", "size() is %zu, %zu elements are live", t.size(), n);
    MC_CHECK(t.isEmpty() == (n == 0), "empty", "isEmpty() is %d with %zu elements", t.isEmpty(), n);
    MC_CHECK(m.alive == (int)n, "values", "%d values are alive, %zu elements are live", m.alive, n);

    auto find = [&](int id) -> Model::E* {
        for (auto& e : m.es)
            if (e.id == id)
                return &e;
        return nullptr;
    };

    std::vector<int> seen;
    size_t           guard = 0;
    for (auto it = t.begin(); it != t.end(); ++it)
    {
        MC_CHECK(++guard <= n + 4, "iteration", "iteration does not end after %zu elements", guard);
        int   id = it->id;
        auto* e  = find(id);
        MC_CHECK(e, "iteration", "iteration yields id %d which is not live", id);
        MC_CHECK(same(it.bounds(), e->box), "iteration", "iterated element %d has wrong bounds", id);
        MC_CHECK(it == e->it, "handle", "handle of %d no longer designates it", id);
        seen.push_back(id);
    }
    std::sort(seen.begin(), seen.end());
    MC_CHECK(std::unique(seen.begin(), seen.end()) == seen.end(), "iteration", "an element is iterated twice");
    MC_CHECK(seen.size() == n, "iteration", "%zu elements iterated of %zu", seen.size(), n);
    {
        const Tree& ct = t;
        size_t      c  = 0;
        for (auto it = ct.begin(); it != ct.end(); ++it)
        {
            MC_CHECK(++c <= n + 4, "iteration", "const iteration does not end");
            MC_CHECK(find(it->id), "iteration", "const iteration yields a dead element");
        }
        MC_CHECK(c == n, "iteration", "const iteration yields %zu of %zu", c, n);
    }

    if (n)
    {
        Box u = unite(m.es);
        MC_CHECK(same(t.bounds(), u), "bounds", "bounds() is not the union of the elements' bounds");
    }
    else
        MC_CHECK(!t.bounds().isValid(), "bounds", "bounds() of the empty index is valid");

    for (auto& e : m.es)
    {
        MC_CHECK(e.it->id == e.id, "handle", "handle of %d designates %d", e.id, e.it->id);
        MC_CHECK(same(t.bounds(e.it), e.box), "bounds", "bounds of element %d are wrong", e.id);

        std::vector<int> got, want;
        t.forEachOverlapping(e.it, [&](Tree::iterator o) { got.push_back(o->id); });
        for (auto& o : m.es)
            if (o.id != e.id && o.box.overlaps(e.box))
                want.push_back(o.id);
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        MC_CHECK(got == want, "overlapping", "element %d: %zu overlapping reported, %zu expected", e.id,
                 got.size(), want.size());
        ctx.validated();
    }
    for (auto& q : queries)
    {
        std::vector<int> got, want;
        if (q.x0 == q.x1 && q.y0 == q.y1)
            t.forEachAt(Vec2{q.x0, q.y0}, [&](Tree::iterator o) { got.push_back(o->id); });
        else
            t.forEachIn(q.bb(), [&](Tree::iterator o) { got.push_back(o->id); });
        for (auto& o : m.es)
            if (o.box.overlaps(q))
                want.push_back(o.id);
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        MC_CHECK(got == want, "query", "query [%g,%g]x[%g,%g]: %zu reported, %zu expected", q.x0, q.x1, q.y0,
                 q.y1, got.size(), want.size());
        ctx.validated();
    }
    {
        // a query with an invalid box visits nothing
        t.forEachIn(BoundingBox{}, [&](Tree::iterator) { ctx.fail("query", "an invalid box matches an element"); });
    }
}

inline void insert(mc::Ctx& ctx, Tree& t, Model& m, const Box& b, bool emplace = false)
{
    int  id = m.next++;
    auto it = emplace ? t.emplace(b.bb(), id, &m.alive) : t.insert(b.bb(), Val{id, &m.alive});
    MC_CHECK(it->id == id, "handle", "insertion returned a handle to another element");
    m.es.push_back({id, b, it});
    ctx.transition();
}

// queries that separate every pair of catalogue coordinates
inline std::vector<Box> gridQueries(int lo, int hi)
{
    std::vector<Box> q;
    for (int x = lo; x <= hi; ++x)
        for (int y = lo; y <= hi; ++y)
        {
            q.push_back({(float)x, (float)y, (float)x, (float)y});
            q.push_back({x + .25f, y + .25f, x + .75f, y + .75f});
        }
    q.push_back({(float)lo - 5, (float)lo - 5, (float)hi + 5, (float)hi + 5});
    q.push_back({(float)lo - 5, 0, (float)hi + 5, 0});
    q.push_back({1, (float)lo - 5, 1, (float)hi + 5});
    return q;
}

inline const std::vector<Box>& catalogue()
{
    static std::vector<Box> c{
        {0, 0, 1, 1},  // a unit cell
        {2, 0, 3, 1},  // apart from it
        {1, 1, 2, 2},  // touches both at a corner
        {0, 2, 3, 3},  // wide
        {1, 0, 1, 0},  // a point on the border of the first
        {-1, -1, 3, 3},// everything
        {0, 0, 0, 3},  // a vertical segment
        {2, 2, 2, 2},  // a point
    };
    return c;
}
