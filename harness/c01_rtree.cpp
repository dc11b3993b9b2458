// C01: the spatial index is exact after any history.
#include "rtree_model.hpp"

static const std::vector<Box> kQueries = gridQueries(-2, 4);

static void op(mc::Ctx& ctx, std::unique_ptr<Tree>& t, Model& m, int nBoxes, int maxN)
{
    int n = (int)m.es.size();
    // alternatives: insert any box | erase i | update i to any box | clear | move | batch shift
    int ins   = n < maxN ? nBoxes : 0;
    int total = ins + n + n * nBoxes + 3;
    int c     = ctx.choose(total, "operation");
    auto& cat = catalogue();
    if (c < ins)
    {
        ctx.log("insert box %d as %d", c, m.next);
        insert(ctx, *t, m, cat[c], c & 1);
        return;
    }
    c -= ins;
    if (c < n)
    {
        ctx.log("erase %d", m.es[c].id);
        auto nextIt = m.es[c].it;
        ++nextIt;
        auto r = t->erase(m.es[c].it);
        MC_CHECK(r == nextIt, "erase", "erase does not return the next element");
        m.es.erase(m.es.begin() + c);
        ctx.transition();
        return;
    }
    c -= n;
    if (c < n * nBoxes)
    {
        auto& e = m.es[c / nBoxes];
        ctx.log("update %d to box %d", e.id, c % nBoxes);
        e.box = cat[c % nBoxes];
        e.it  = t->update(e.it, e.box.bb());
        MC_CHECK(e.it->id == e.id, "handle", "update returned a handle to another element");
        ctx.transition();
        return;
    }
    c -= n * nBoxes;
    ctx.transition();
    if (c == 0)
    {
        ctx.log("clear");
        t->clear();
        m.es.clear();
    }
    else if (c == 1)
    {
        ctx.log("move");
        auto moved = std::make_unique<Tree>(std::move(*t));
        // the moved-from index stays destructible, and is used as the target of an assignment
        *t = Tree{};
        MC_CHECK(t->isEmpty(), "move", "an index assigned from an empty one is not empty");
        t = std::move(moved);
    }
    else
    {
        ctx.log("batch update, every box moved to the next one of the catalogue");
        for (auto& e : m.es)
        {
            size_t k = std::find(cat.begin(), cat.end(), e.box) - cat.begin();
            e.box    = cat[(k + 3) % nBoxes];
        }
        t->updateAndCollide(
            [&](Tree::iterator it) -> BoundingBox {
                for (auto& e : m.es)
                    if (e.id == it->id)
                        return e.box.bb();
                ctx.fail("batch", "asked for the bounds of a dead element %d", it->id);
            },
            [&](Tree::iterator, Tree::iterator) {}
        );
    }
}

static void history(mc::Ctx& ctx, int depth, int nBoxes, int maxN)
{
    Model m;
    unreturned = 0;
    {
        auto t = std::make_unique<Tree>();
        for (int d = 0; d < depth; ++d)
        {
            op(ctx, t, m, nBoxes, maxN);
            if (ctx.fresh())
                checkTree(ctx, *t, m, kQueries);
        }
        ctx.outcome(mc::fmt("n%zu", m.es.size()) == "n0" ? "empty" : m.es.size() == 1 ? "one" : "many");
    }
    MC_CHECK(m.alive == 0, "values", "%d values survive the index", m.alive);
    MC_CHECK(unreturned == 0, "memory", "%d allocations are not given back", unreturned);
}

// every operation sequence over a rich catalogue
MC_SCENARIO(histories) { history(ctx, ctx.tier(3, 4), ctx.tier(6, 7), 4); }
// longer sequences over three boxes
MC_SCENARIO(long_histories) { history(ctx, ctx.tier(4, 6), 3, 4); }

// build from every assignment of boxes, then operate: covers deeper trees
MC_SCENARIO(built_then_erased)
{
    Model m;
    unreturned = 0;
    {
        Tree t;
        int  k = ctx.tier(5, 6);
        for (int i = 0; i < k; ++i)
        {
            insert(ctx, t, m, catalogue()[ctx.choose(ctx.tier(4, 5), "box")]);
        }
        checkTree(ctx, t, m, kQueries);
        int stop = ctx.tier(2, 3);
        for (int d = 0; d < stop && !m.es.empty(); ++d)
        {
            int i = ctx.choose((int)m.es.size(), "erase");
            t.erase(m.es[i].it);
            m.es.erase(m.es.begin() + i);
            ctx.transition();
            if (ctx.fresh())
                checkTree(ctx, t, m, kQueries);
        }
        // and everything else in creation order
        while (!m.es.empty())
        {
            t.erase(m.es[0].it);
            m.es.erase(m.es.begin());
            checkTree(ctx, t, m, kQueries);
            ctx.transition();
        }
        insert(ctx, t, m, catalogue()[1]);
        checkTree(ctx, t, m, kQueries);
    }
    MC_CHECK(m.alive == 0, "values", "%d values survive the index", m.alive);
    MC_CHECK(unreturned == 0, "memory", "%d allocations are not given back", unreturned);
}

// elements on a line or a lattice in every insertion order: rotations
MC_SCENARIO(insertion_orders)
{
    Model m;
    unreturned = 0;
    {
        Tree             t;
        int              k     = ctx.tier(6, 8);
        int              shape = ctx.choose(3, "layout");
        std::vector<Box> boxes;
        for (int i = 0; i < k; ++i)
        {
            float f = (float)i;
            if (shape == 0)
                boxes.push_back({f * .5f, 0, f * .5f + .4f, .5f});
            else if (shape == 1)
                boxes.push_back({(float)(i % 3), (float)(i / 3), (float)(i % 3) + 1, (float)(i / 3) + 1});
            else
                boxes.push_back({0, 0, f * .5f, 3 - f * .25f});
        }
        while (!boxes.empty())
        {
            int i = ctx.choose((int)boxes.size(), "next");
            insert(ctx, t, m, boxes[i]);
            boxes.erase(boxes.begin() + i);
            if (ctx.fresh())
                checkTree(ctx, t, m, kQueries);
        }
        // move the first half one by one
        for (int i = 0; i < k / 2; ++i)
        {
            auto& e = m.es[i];
            e.box   = Box{e.box.x0 - 1, e.box.y0 + 1, e.box.x1 - 1, e.box.y1 + 1};
            e.it    = t.update(e.it, e.box.bb());
            checkTree(ctx, t, m, kQueries);
            ctx.transition();
        }
    }
    MC_CHECK(m.alive == 0, "values", "%d values survive the index", m.alive);
    MC_CHECK(unreturned == 0, "memory", "%d allocations are not given back", unreturned);
}

// hundreds of elements
MC_SCENARIO(crowd)
{
    Model m;
    unreturned = 0;
    {
        Tree                    t;
        static const int        counts[]{257, 600};
        int                     k = counts[ctx.choose(ctx.tier(1, 2), "count")], shape = ctx.choose(4, "layout"), order = ctx.choose(4, "order"), then = ctx.choose(4, "then");
        static const std::vector<Box> far = [] {
            std::vector<Box> q = kQueries;
            for (int i = 0; i < 60; ++i)
                q.push_back({i * 5.f, i % 7 * 4.f, i * 5.f + i % 3 * 20.f, i % 7 * 4.f + i % 4});
            return q;
        }();
        for (int i = 0; i < k; ++i)
        {
            int   j = order == 0 ? i : order == 1 ? k - 1 - i : order == 2 ? (i * 101) % k : (i % 2 ? k - 1 - i / 2 : i / 2);
            float f = (float)j;
            insert(ctx, t, m, shape == 0 ? Box{f * .5f, 0, f * .5f + .4f, .5f} : shape == 1 ? Box{(float)(j % 25), (float)(j / 25), j % 25 + 1.f, j / 25 + 1.f} : shape == 2 ? Box{0, 0, f * .5f, 300 - f * .25f} : Box{f * f / 1000, f / 16, f * f / 1000 + f / 100, f / 16 + 1});
        }
        checkTree(ctx, t, m, far);
        for (int round = 0; round < 3; ++round)
        {
            for (int i = (int)m.es.size() - 1; i >= 0; --i)
                if (then == 0 && i % 3 == round % 3)
                {
                    t.erase(m.es[i].it);
                    m.es.erase(m.es.begin() + i);
                }
                else if (then == 1 && i % 5 == round)
                {
                    m.es[i].box = Box{i * .25f, round * 3.f, i * .25f + 1, round * 3.f + i % 4};
                    m.es[i].it  = t.update(m.es[i].it, m.es[i].box.bb());
                }
                else if (then == 2 && i >= 20)
                {
                    t.erase(m.es[i].it);
                    m.es.pop_back();
                }
            if (then == 3)
            {
                auto moved = std::move(t);
                t          = std::move(moved);
                for (int i = 0; i < 40; ++i)
                    insert(ctx, t, m, catalogue()[(i + round) % 5]);
            }
            ctx.transition();
            checkTree(ctx, t, m, far);
        }
        ctx.outcome("crowd");
    }
    MC_CHECK(m.alive == 0, "values", "%d values survive the index", m.alive);
    MC_CHECK(unreturned == 0, "memory", "%d allocations are not given back", unreturned);
}

// erasing while iterating: everything is met once, exactly the chosen ones disappear
MC_SCENARIO(erase_while_iterating)
{
    Model m;
    unreturned = 0;
    Tree  t;
    int   k      = ctx.tier(6, 7);
    int   layout = ctx.choose(4, "layout");
    for (int i = 0; i < k; ++i)
    {
        if (layout == 0)
            insert(ctx, t, m, {(float)i, (float)i, i + 1.f, i + 1.f});
        else if (layout == 1)
            insert(ctx, t, m, {(float)(i * 5 % 7), 0, (float)(i * 5 % 7) + .5f, 1});
        else if (layout == 2)
            insert(ctx, t, m, {(float)(i % 2), (float)(i / 2), (float)(i % 2) + 1, (float)(i / 2) + 1});
        else
            insert(ctx, t, m, catalogue()[ctx.choose(ctx.tier(4, 5), "box")]);
    }
    int              mask = ctx.choose(1 << k, "erased");
    std::vector<int> met;
    size_t           guard = 0;
    for (auto it = t.begin(); it != t.end();)
    {
        MC_CHECK(++guard < 50, "iteration", "iteration does not end");
        int id = it->id;
        met.push_back(id);
        ctx.transition();
        if (mask >> id & 1)
        {
            it = t.erase(it);
            std::erase_if(m.es, [&](auto& e) { return e.id == id; });
        }
        else
            ++it;
    }
    std::sort(met.begin(), met.end());
    std::vector<int> all;
    for (int i = 0; i < k; ++i)
        all.push_back(i);
    MC_CHECK(met == all, "erase-iterate", "%zu elements met of %d while erasing (mask %d)", met.size(), k, mask);
    checkTree(ctx, t, m, kQueries);
}

// magnitudes: tiny, huge and neighbouring coordinates
MC_SCENARIO(magnitudes)
{
    static const std::vector<Box> b{
        {0.1f, 0.1f, 0.3f, 0.3f},
        {0.3f, 0.3f, 0.7f, 0.7f},
        {std::nextafterf(0.7f, 1.f), 0.f, 1.f, 0.7f},
        {1e6f, 1e6f, 1e6f + 1, 1e6f + 1},
        {-1e7f, 0.f, -1e7f + 4, 1.f},
        {1e-30f, 0.f, 2e-30f, 1e-30f},
        {-3e4f, -3e4f, 3e4f, 3e4f},
        {1e18f, 1e18f, 2e18f, 2e18f},
        {-2e19f, -2e19f, 2e19f, 2e19f},
    };
    Model            m;
    Tree             t;
    std::vector<Box> q = b;
    for (auto& x : b)
    {
        q.push_back({x.x0, x.y0, x.x0, x.y0});
        q.push_back({x.x1, x.y1, x.x1, x.y1});
        float nx = std::nextafterf(x.x1, INFINITY);
        q.push_back({nx, x.y0, nx, x.y0});
        nx = std::nextafterf(x.x0, -INFINITY);
        q.push_back({nx, x.y1, nx, x.y1});
    }
    int k = ctx.tier(4, 5);
    for (int i = 0; i < k; ++i)
    {
        insert(ctx, t, m, b[ctx.choose((int)b.size(), "box")]);
        if (ctx.fresh())
            checkTree(ctx, t, m, q);
    }
    int i = ctx.choose(k, "erase");
    t.erase(m.es[i].it);
    m.es.erase(m.es.begin() + i);
    checkTree(ctx, t, m, q);
}
