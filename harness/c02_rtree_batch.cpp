// C02: the batch update reports every overlapping pair exactly once.
#include "rtree_model.hpp"

static const std::vector<Box> kQueries = gridQueries(-2, 4);

static void batch(mc::Ctx& ctx, Tree& t, Model& m, const std::vector<Box>& newBoxes)
{
    std::map<int, Box> nb;
    std::map<int, int> asked;
    for (size_t i = 0; i < m.es.size(); ++i)
    {
        nb.emplace(m.es[i].id, newBoxes[i]);
        m.es[i].box = newBoxes[i];
    }
    std::map<std::pair<int, int>, int> got;
    t.updateAndCollide(
        [&](Tree::iterator it) -> BoundingBox {
            auto f = nb.find(it->id);
            if (f == nb.end())
                ctx.fail("batch", "bounds asked for dead element %d", it->id);
            ++asked[it->id];
            return f->second.bb();
        },
        [&](Tree::iterator a, Tree::iterator b) {
            int x = a->id, y = b->id;
            MC_CHECK(nb.count(x) && nb.count(y), "pairs", "a dead element is reported (%d,%d)", x, y);
            MC_CHECK(x != y, "pairs", "element %d is reported against itself", x);
            ++got[std::minmax(x, y)];
        }
    );
    ctx.transition();
    for (auto& e : m.es)
        MC_CHECK(asked[e.id] == 1, "batch", "bounds of %d were asked %d times", e.id, asked[e.id]);
    size_t pairs = 0;
    for (size_t i = 0; i < m.es.size(); ++i)
        for (size_t j = 0; j < i; ++j)
        {
            bool want = m.es[i].box.overlaps(m.es[j].box);
            pairs += want;
            auto f = got.find(std::minmax(m.es[i].id, m.es[j].id));
            int  c = f == got.end() ? 0 : f->second;
            MC_CHECK(c == (want ? 1 : 0), "pairs", "pair (%d,%d) of %zu elements: reported %d times, overlap %d",
                     m.es[i].id, m.es[j].id, m.es.size(), c, want);
            ctx.validated();
        }
    ctx.outcome(pairs == 0 ? "no pair" : pairs < m.es.size() ? "some pairs" : "dense");
}

// all assignments of old and new boxes for few elements
MC_SCENARIO(all_boxes)
{
    Model m;
    unreturned = 0;
    {
        Tree t;
        int  k   = ctx.choose(ctx.tier(6, 7), "count");
        int  nb  = k <= 4 ? ctx.tier(7, 8) : k == 5 ? ctx.tier(5, 7) : 5;
        int  old = ctx.choose(3, "old layout");
        for (int i = 0; i < k; ++i)
        {
            Box b = old == 0 ? catalogue()[i % 8] : old == 1 ? catalogue()[1] : Box{(float)-i, 0, 1.f - i, 1};
            insert(ctx, t, m, b);
        }
        std::vector<Box> nbx;
        for (int i = 0; i < k; ++i)
            nbx.push_back(catalogue()[ctx.choose(nb, "new box")]);
        batch(ctx, t, m, nbx);
        checkTree(ctx, t, m, kQueries);
        // the index stays usable: rotate the boxes, again, then erase and insert
        if (k)
        {
            std::rotate(nbx.begin(), nbx.begin() + 1, nbx.end());
            batch(ctx, t, m, nbx);
            t.erase(m.es[k / 2].it);
            m.es.erase(m.es.begin() + k / 2);
            insert(ctx, t, m, catalogue()[2]);
            m.es[0].box = catalogue()[5];
            m.es[0].it  = t.update(m.es[0].it, catalogue()[5].bb());
            checkTree(ctx, t, m, kQueries);
        }
    }
    MC_CHECK(m.alive == 0, "values", "%d values survive the index", m.alive);
    MC_CHECK(unreturned == 0, "memory", "%d allocations are not given back", unreturned);
}

// many elements: the split rules depend on the count
MC_SCENARIO(many)
{
    Model m;
    unreturned = 0;
    {
        Tree             t;
        int              k       = 1 + ctx.choose(ctx.tier(48, 100), "count");
        int              pattern = ctx.choose(9, "pattern");
        int              odd     = ctx.choose(ctx.tier(4, 8), "outlier");
        std::vector<Box> nbx;
        for (int i = 0; i < k; ++i)
        {
            insert(ctx, t, m, Box{(float)(i % 7), (float)(i / 7), (float)(i % 7) + .5f, (float)(i / 7) + .5f});
            float f = (float)i;
            Box   b{};
            switch (pattern)
            {
                case 0: b = {0, 0, 1, 1}; break;                                      // coincident
                case 1: b = {f, 0, f + 1, 0}; break;                                  // touching chain
                case 2: b = {f, 0, f + .5f, .5f}; break;                              // apart
                case 3: b = {-f, -f, f, f}; break;                                    // nested
                case 4: b = {f * f, 0, f * f + f, 1}; break;                          // skewed
                case 5: b = {(float)(i & 1) * 100, f, (float)(i & 1) * 100 + 1, f + 1}; break; // two columns
                case 6: b = {(float)(i * 7 % 10), (float)(i * 3 % 10), (float)(i * 7 % 10) + 1.5f, (float)(i * 3 % 10) + 1.5f}; break;
                case 7: b = {0, f, 0, f}; break;                                      // points on a line
                case 8: b = {0, f, (float)k, f + .25f}; break;                        // stripes
            }
            nbx.push_back(b);
        }
        if (odd)
        {
            int i  = (odd * 5) % k;
            nbx[i] = odd & 1 ? Box{1e5f, 1e5f, 1e5f + 1, 1e5f + 1} : Box{-1e5f, -1e5f, 1e5f, 1e5f};
        }
        batch(ctx, t, m, nbx);
        checkTree(ctx, t, m, {{0, 0, 0, 0}, {-1e6f, -1e6f, 1e6f, 1e6f}, {0.5f, 0.5f, 3, 3}});
        std::reverse(nbx.begin(), nbx.end());
        batch(ctx, t, m, nbx);
        for (int i = 0; i < k; i += 2)
        {
            int at = i / 2;
            t.erase(m.es[at].it);
            m.es.erase(m.es.begin() + at);
        }
        checkTree(ctx, t, m, {{0, 0, 0, 0}, {0.5f, 0.5f, 3, 3}});
    }
    MC_CHECK(m.alive == 0, "values", "%d values survive the index", m.alive);
    MC_CHECK(unreturned == 0, "memory", "%d allocations are not given back", unreturned);
}

// a batch update in the middle of a history of other operations
MC_SCENARIO(mixed_histories)
{
    Model m;
    unreturned = 0;
    Tree  t;
    int   depth = ctx.tier(4, 5);
    for (int d = 0; d < depth; ++d)
    {
        int n = (int)m.es.size();
        int c = ctx.choose(3 + (n < 5 ? 4 : 0) + n, "operation");
        if (c < 3)
        {
            std::vector<Box> nbx;
            for (int i = 0; i < n; ++i)
                nbx.push_back(c == 0 ? catalogue()[(i * 3 + d) % 8] : c == 1 ? catalogue()[2] : Box{(float)i, 0, i + 1.f, 1});
            batch(ctx, t, m, nbx);
        }
        else if ((c -= 3) < (n < 5 ? 4 : 0))
        {
            insert(ctx, t, m, catalogue()[c]);
            insert(ctx, t, m, catalogue()[c + 3]);
        }
        else
        {
            c -= n < 5 ? 4 : 0;
            t.erase(m.es[c].it);
            m.es.erase(m.es.begin() + c);
        }
        if (ctx.fresh())
            checkTree(ctx, t, m, kQueries);
    }
}

// joint query for several handles
MC_SCENARIO(joint_query)
{
    Model m;
    unreturned = 0;
    Tree  t;
    int   k = 1 + ctx.choose(ctx.tier(5, 6), "count");
    for (int i = 0; i < k; ++i)
        insert(ctx, t, m, catalogue()[ctx.choose(ctx.tier(4, 5), "box")]);
    int                         mask = ctx.choose(1 << k, "queried");
    std::vector<Tree::iterator> q;
    for (int i = 0; i < k; ++i)
        if (mask >> i & 1)
            q.push_back(m.es[i].it);
    std::map<std::pair<int, int>, int> got;
    t.forEachOverlapping(makeView(q.data(), q.data() + q.size()), [&](Tree::iterator stored, Tree::iterator queried) {
        ++got[{stored->id, queried->id}];
    });
    ctx.transition();
    for (int i = 0; i < k; ++i)
        for (int j = 0; j < k; ++j)
        {
            if (i == j)
                continue;
            bool want = (mask >> j & 1) && m.es[i].box.overlaps(m.es[j].box);
            int  c    = 0;
            if (auto f = got.find({i, j}); f != got.end())
                c = f->second;
            MC_CHECK(c == want, "joint", "stored %d, queried %d (mask %d): reported %d times, overlap %d", i, j, mask, c, want);
            ctx.validated();
        }
    checkTree(ctx, t, m, kQueries);
}
