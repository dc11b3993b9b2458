// C03: pool allocation.
#include "mc.hpp"
#include "Simu/utility/Memory.hpp"
#include <list>
#include <map>
#include <memory>
#include <new>
#include <vector>

using namespace simu;

// every large enough allocation of the process is accounted for
static size_t gLive = 0, gLiveBytes = 0;
static bool   gCount = true; // the explorer's own allocations are not counted
struct NotCounted
{
    bool was = gCount;
    NotCounted() { gCount = false; }
    ~NotCounted() { gCount = was; }
};
static int choose(mc::Ctx& ctx, int n, const char* l)
{
    NotCounted nc;
    return ctx.choose(n, l);
}
void* operator new(std::size_t n)
{
    auto* p = (size_t*)malloc(n + 16);
    if (!p)
        throw std::bad_alloc{};
    p[0] = n;
    p[1] = gCount;
    if (gCount)
    {
        ++gLive;
        gLiveBytes += n;
    }
    return p + 2;
}
void* operator new[](std::size_t n) { return operator new(n); }
void  operator delete(void* q) noexcept
{
    if (!q)
        return;
    auto* p = (size_t*)q - 2;
    if (p[1])
    {
        --gLive;
        gLiveBytes -= p[0];
    }
    free(p);
}
void operator delete[](void* q) noexcept { operator delete(q); }
void operator delete(void* q, std::size_t) noexcept { operator delete(q); }
void operator delete[](void* q, std::size_t) noexcept { operator delete(q); }

struct alignas(16) Wide
{
    char c[48];
};
struct alignas(128) Vast // more than the system allocator grants
{
    char c[128];
};
struct Odd
{
    char c[3];
};

struct Live
{
    unsigned char* p;
    size_t         bytes, align;
    int            kind;
    size_t         n;
    unsigned char  tag;
};

template <size_t BS>
struct Fixture
{
    FreeListAllocator<char, BS>     a;
    FreeListAllocator<Odd, BS>      b{a};
    FreeListAllocator<int, BS>      c{b};
    FreeListAllocator<double, BS>   d{c};
    FreeListAllocator<Wide, BS>     e{d};
    FreeListAllocator<Vast, BS>     v{e};
    std::vector<Live>               live;
    unsigned char                   tag = 1;

    template <class A>
    Live alloc(mc::Ctx& ctx, A& al, int kind, size_t n)
    {
        typedef typename A::value_type T;
        T*                             p = al.allocate(n);
        MC_CHECK(p != nullptr, "null", "null for %zu elements of %zu bytes", n, sizeof(T));
        Live l{(unsigned char*)p, n * sizeof(T), alignof(T), kind, n, tag++};
        MC_CHECK((uintptr_t)p % alignof(T) == 0, "align", "%p is not aligned on %zu", (void*)p, alignof(T));
        for (auto& o : live)
            MC_CHECK(l.p + l.bytes <= o.p || o.p + o.bytes <= l.p, "overlap", "two live allocations overlap (%zu and %zu bytes)",
                     l.bytes, o.bytes);
        memset(l.p, l.tag, l.bytes); // address checking sees writes beyond the pool block
        live.push_back(l);
        return l;
    }
    void check(mc::Ctx& ctx)
    {
        for (auto& o : live)
            for (size_t i = 0; i < o.bytes; ++i)
                MC_CHECK(o.p[i] == o.tag, "content", "content of a live allocation changed");
    }
    void release(int i)
    {
        Live l = live[i];
        live.erase(live.begin() + i);
        switch (l.kind)
        {
            case 0: a.deallocate((char*)l.p, l.n); break;
            case 1: b.deallocate((Odd*)l.p, l.n); break;
            case 2: c.deallocate((int*)l.p, l.n); break;
            case 3: d.deallocate((double*)l.p, l.n); break;
            case 4: e.deallocate((Wide*)l.p, l.n); break;
            case 5: v.deallocate((Vast*)l.p, l.n); break;
        }
    }
};

struct Req
{
    int    kind;
    size_t n;
};
static const std::vector<Req> kReqs{{0, 1}, {3, 1}, {1, 3}, {4, 1}, {0, 40}, {2, 30}, {0, 64}};
static const std::vector<Req> kAligned{{0, 1}, {5, 1}, {5, 3}, {4, 1}, {2, 30}};

template <size_t BS>
static void history(mc::Ctx& ctx, int depth, int nReqs, const std::vector<Req>& reqs = kReqs)
{
    Fixture<BS> f;
    f.live.reserve(64);
    size_t baseLive = gLive;
    for (int d = 0; d < depth; ++d)
    {
        int n = (int)f.live.size();
        int c = choose(ctx, nReqs + n, "operation");
        ctx.transition();
        if (c < nReqs)
        {
            Req r = reqs[c];
            ctx.log("allocate kind %d n %zu", r.kind, r.n);
            switch (r.kind)
            {
                case 0: f.alloc(ctx, f.a, 0, r.n); break;
                case 1: f.alloc(ctx, f.b, 1, r.n); break;
                case 2: f.alloc(ctx, f.c, 2, r.n); break;
                case 3: f.alloc(ctx, f.d, 3, r.n); break;
                case 4: f.alloc(ctx, f.e, 4, r.n); break;
                case 5: f.alloc(ctx, f.v, 5, r.n); break;
            }
        }
        else
        {
            ctx.log("release %d", c - nReqs);
            f.release(c - nReqs);
        }
        f.check(ctx);
        ctx.validated();
    }
    // release the rest in one of the orders
    int order = choose(ctx, 2, "release order");
    while (!f.live.empty())
    {
        f.release(order ? (int)f.live.size() - 1 : 0);
        f.check(ctx);
    }
    MC_CHECK(gLive == baseLive, "returned", "%zd system allocations remain after everything was released",
             (ssize_t)(gLive - baseLive));
    // and the pool is still usable
    f.alloc(ctx, f.e, 4, 2);
    f.release(0);
    MC_CHECK(gLive == baseLive, "returned", "memory of a reused pool is not returned");
}

MC_SCENARIO(blocks_64) { history<64>(ctx, ctx.tier(5, 7), 6); }
MC_SCENARIO(blocks_160) { history<160>(ctx, ctx.tier(5, 7), 6); }
MC_SCENARIO(blocks_1) { history<1>(ctx, ctx.tier(5, 6), 6); }
MC_SCENARIO(blocks_101) { history<101>(ctx, ctx.tier(5, 7), 7); }
MC_SCENARIO(blocks_32k) { history<32 * 1024>(ctx, ctx.tier(5, 6), 7); }
MC_SCENARIO(aligned_1) { history<1>(ctx, ctx.tier(4, 6), 5, kAligned); }
MC_SCENARIO(aligned_128) { history<128>(ctx, ctx.tier(4, 6), 5, kAligned); }
MC_SCENARIO(aligned_400) { history<400>(ctx, ctx.tier(4, 6), 5, kAligned); }

// fill one block, then release and refill in every order: splitting and merging
MC_SCENARIO(permutations)
{
    constexpr size_t  BS = 256;
    Fixture<BS>       f;
    f.live.reserve(64);
    size_t            base = gLive;
    int               k    = ctx.tier(5, 6);
    for (int i = 0; i < k; ++i)
    {
        if (i % 3 == 0)
            f.alloc(ctx, f.a, 0, 11);
        else if (i % 3 == 1)
            f.alloc(ctx, f.d, 3, 4);
        else
            f.alloc(ctx, f.c, 2, 5);
    }
    for (int r = 0; r < k; ++r)
    {
        f.release(choose(ctx, (int)f.live.size(), "release"));
        int again = choose(ctx, 3, "reallocate");
        if (again == 1)
            f.alloc(ctx, f.a, 0, 7);
        else if (again == 2)
            f.alloc(ctx, f.d, 3, 3);
        f.check(ctx);
        ctx.transition();
        if (f.live.empty())
            break;
    }
    while (!f.live.empty())
        f.release(choose(ctx, (int)std::min<size_t>(f.live.size(), 2), "final release"));
    MC_CHECK(gLive == base, "returned", "%zd system allocations remain", (ssize_t)(gLive - base));
    ctx.validated();
}

// released memory is reused: a steady state does not grow
MC_SCENARIO(steady_state)
{
    Fixture<512> f;
    f.live.reserve(64);
    int  pattern = choose(ctx, 6, "pattern"), window = 1 + choose(ctx, 5, "window");
    bool lifo = choose(ctx, 2, "lifo");
    size_t after = 0, byt = 0;
    for (int i = 0; i < 400; ++i)
    {
        switch ((pattern + (pattern >= 4 ? i : 0)) % 4)
        {
            case 0: f.alloc(ctx, f.a, 0, 1 + pattern); break;
            case 1: f.alloc(ctx, f.d, 3, 2); break;
            case 2: f.alloc(ctx, f.b, 1, 5); break;
            case 3: f.alloc(ctx, f.e, 4, 1); break;
        }
        if ((int)f.live.size() > window)
            f.release(lifo ? (int)f.live.size() - 1 : 0);
        ctx.transition();
        if (i == 200)
            byt = gLiveBytes;
        if (i == 399)
            after = gLiveBytes;
    }
    MC_CHECK(after <= byt + 2048, "reuse", "a steady use of the pool grows from %zu to %zu bytes", byt, after);
    while (!f.live.empty())
        f.release(0);
    ctx.validated();
}

struct Tracked
{
    static int alive;
    int        v[3];
    Tracked(int x = 0) : v{x, x, x} { ++alive; }
    Tracked(const Tracked& o) : v{o.v[0], o.v[1], o.v[2]} { ++alive; }
    virtual ~Tracked() { --alive; }
};
int Tracked::alive = 0;
struct Derived : Tracked
{
    double extra;
    Derived(int x) : Tracked{x}, extra(x) {}
};

// containers and owning pointers outlive their allocator, in every order of destruction and move
MC_SCENARIO(ownership)
{
    size_t base = gLive;
    {
        typedef FreeListAllocator<int> A;
        auto                           a  = std::make_unique<A>();
        auto                           a2 = std::make_unique<A>();
        typedef std::vector<Tracked, ReboundTo<A, Tracked>> V;
        typedef std::list<Tracked, ReboundTo<A, Tracked>>   L;
        auto                           v = std::make_unique<V>(ReboundTo<A, Tracked>{*a});
        auto                           l = std::make_unique<L>(ReboundTo<A, Tracked>{*a});
        std::vector<UniquePtr<Tracked>> ptrs;
        UniquePtr<Tracked[]>            arr;
        MC_CHECK(*a == A{*a} && *a != *a2, "equality", "copies share a pool, separate allocators do not");
        int steps = ctx.tier(5, 6);
        std::vector<int> vm, lm, pm;
        int next = 1;
        for (int i = 0; i < steps; ++i)
        {
            ctx.transition();
            switch (choose(ctx, 11, "operation"))
            {
                case 0:
                    if (v) { v->push_back(Tracked{next}); vm.push_back(next++); }
                    break;
                case 1:
                    if (l) { l->emplace_back(next); lm.push_back(next++); }
                    break;
                case 2:
                    if (a) { ptrs.push_back(makeUnique<Tracked>(*a, next)); pm.push_back(next++); }
                    break;
                case 3:
                    if (a) { ptrs.push_back(makeUnique<Derived>(*a, next)); pm.push_back(next++); }
                    break;
                case 4: a.reset(); break;
                case 5:
                    if (v && a2) { replaceAllocator(*v, *a2); MC_CHECK(v->get_allocator() == *a2, "replace", "allocator not replaced"); }
                    break;
                case 6:
                    if (l && a2) { replaceAllocator(*l, *a2); MC_CHECK(l->get_allocator() == *a2, "replace", "allocator not replaced"); }
                    break;
                case 7: a2.reset(); break;
                case 8:
                    if (!ptrs.empty()) { ptrs.erase(ptrs.begin()); pm.erase(pm.begin()); }
                    break;
                case 9:
                    if (a) { arr = makeUnique<Tracked[]>(*a, 3); }
                    break;
                case 10:
                    if (!ptrs.empty()) { UniquePtr<Tracked> moved = std::move(ptrs.back()); ptrs.pop_back(); ptrs.insert(ptrs.begin(), std::move(moved)); pm.insert(pm.begin(), pm.back()); pm.pop_back(); }
                    break;
            }
            auto eq = [&](auto& c, auto& m) {
                size_t k = 0;
                for (auto& t : c)
                {
                    if (k >= m.size() || t.v[0] != m[k] || t.v[2] != m[k])
                        ctx.fail("content", "a container lost its content");
                    ++k;
                }
                if (k != m.size())
                    ctx.fail("content", "a container lost elements");
            };
            eq(*v, vm);
            eq(*l, lm);
            for (size_t k = 0; k < ptrs.size(); ++k)
                MC_CHECK(ptrs[k]->v[1] == pm[k], "content", "an owned object changed");
            MC_CHECK(Tracked::alive == (int)(vm.size() + lm.size() + pm.size()) + (arr ? 3 : 0), "lifetime",
                     "%d objects alive, %zu expected", Tracked::alive, vm.size() + lm.size() + pm.size() + (arr ? 3 : 0));
            ctx.validated();
        }
    }
    MC_CHECK(Tracked::alive == 0, "lifetime", "%d objects survive", Tracked::alive);
    MC_CHECK(gLive == base, "returned", "%zd system allocations survive their owners", (ssize_t)(gLive - base));
}

// no element at all: nothing is reserved and it can be released
MC_SCENARIO(zero_elements)
{
    Fixture<64> f;
    size_t      base = gLive;
    int*        p    = f.c.allocate(0);
    if (choose(ctx, 2, "with other"))
    {
        f.alloc(ctx, f.c, 2, 3);
        f.c.deallocate(p, 0);
        f.check(ctx);
        f.release(0);
    }
    else
        f.c.deallocate(p, 0);
    ctx.transition();
    MC_CHECK(gLive <= base + 1, "returned", "an empty allocation is not returned");
}
