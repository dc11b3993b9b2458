// The views of a sequence, checked for both of their implementations: this is
// included by two sources, one of which selects the library's own classes.
namespace
{
struct Item
{
    int v;
    bool operator==(const Item& o) const { return v == o.v; }
};
struct Twice
{
    Item* p;
    Item& operator*() { return *p; }
    const Item& operator*() const { return *p; }
};
struct Second
{
    int& operator()(std::pair<const int, int>& p) const { return p.second; }
    const int& operator()(const std::pair<const int, int>& p) const { return p.second; }
};

// v shows exactly the elements of want, in order, as often as it is asked
template <class V>
void sameView(mc::Ctx& ctx, V&& v, const std::vector<const void*>& want, const char* what)
{
    if constexpr (requires { v.size(); })
        MC_CHECK((size_t)v.size() == want.size(), what, "a view of %zu elements says it has %zu", want.size(), (size_t)v.size());
    MC_CHECK(v.empty() == want.empty(), what, "a view of %zu elements says empty = %d", want.size(), (int)v.empty());
    for (int round = 0; round < 2; ++round)
    {
        size_t n = 0;
        for (auto& e : v)
        {
            MC_CHECK(n < want.size(), what, "a view of %zu elements goes on", want.size());
            MC_CHECK((const void*)&e == want[n], what, "element %zu of a view of %zu is another object", n, want.size());
            ++n;
        }
        MC_CHECK(n == want.size(), what, "a view of %zu elements stops after %zu", want.size(), n);
    }
    // several positions of the same view, both ways of moving on
    auto a = v.begin();
    for (size_t n = 0; n < want.size(); ++n)
    {
        auto b = a;
        MC_CHECK(a == b && !(a != b) && a != v.end(), what, "position %zu", n);
        auto old = b++;
        MC_CHECK((const void*)&*old == want[n], what, "it++ gives another position");
        MC_CHECK(old == a && b != a, what, "it++ does not move");
        auto& r = ++a;
        MC_CHECK(&r == &a && a == b, what, "++it and it++ move differently");
    }
    MC_CHECK(a == v.end(), what, "%zu moves do not reach the end", want.size());
    auto copy = v;
    MC_CHECK((size_t)std::distance(copy.begin(), copy.end()) == want.size(), what, "a copy of the view");
    ctx.validated(want.size() + 1);
}

template <class C>
std::vector<const void*> addresses(C& c, size_t from, size_t to)
{
    std::vector<const void*> r;
    size_t i = 0;
    for (auto& e : c)
    {
        if (i >= from && i < to)
            r.push_back(&e);
        ++i;
    }
    return r;
}

template <class C>
void views(mc::Ctx& ctx, size_t n)
{
    C c;
    for (size_t i = 0; i < n; ++i)
        c.push_back(Item{(int)i});
    size_t from = ctx.choose((int)n + 1, "from"), to = from + ctx.choose((int)(n - from) + 1, "to");
    auto b = std::next(c.begin(), from), e = std::next(c.begin(), to);
    sameView(ctx, simu::makeView(b, e), addresses(c, from, to), "plain");
    const C& k = c;
    sameView(ctx, simu::makeView(std::next(k.begin(), from), std::next(k.begin(), to)), addresses(c, from, to), "const");
    sameView(ctx, simu::makeView(c), addresses(c, 0, n), "whole");
    sameView(ctx, simu::makeView(k), addresses(c, 0, n), "whole const");
    static_assert(std::is_same_v<decltype(*simu::makeView(b, e).begin()), Item&>);
    static_assert(std::is_same_v<decltype(*simu::makeView(k).begin()), const Item&>);
    // changes made through a view are seen
    if (n)
    {
        (*simu::makeView(c).begin()).v = 77;
        MC_CHECK(c.begin()->v == 77, "through", "a change through the view is lost");
    }
}

template <class P>
void doubleViews(mc::Ctx& ctx, size_t n)
{
    std::list<Item>          items;
    std::vector<const void*> all;
    P                        c;
    for (size_t i = 0; i < n; ++i)
        items.push_back(Item{(int)i});
    // in an order other than that of the objects
    for (auto it = items.rbegin(); it != items.rend(); ++it)
    {
        typedef typename P::value_type V;
        c.push_back(V{&*it});
        all.push_back(&*it);
    }
    size_t from = ctx.choose((int)n + 1, "from"), to = from + ctx.choose((int)(n - from) + 1, "to");
    std::vector<const void*> part(all.begin() + from, all.begin() + to);
    auto b = std::next(c.begin(), from), e = std::next(c.begin(), to);
    sameView(ctx, simu::makeView(b, e, simu::DoubleDereference{}), part, "double");
    sameView(ctx, simu::makeView(c, simu::DoubleDereference{}), all, "double whole");
    const P& k = c;
    sameView(ctx, simu::makeView(k, simu::DoubleDereference{}), all, "double const");
    auto v = simu::makeView(c, simu::DoubleDereference{});
    size_t i = 0;
    for (auto it = v.begin(); it != v.end(); ++it, ++i)
        MC_CHECK((*it).v == (int)(n - 1 - i), "double", "element %zu", i);
    static_assert(std::is_same_v<decltype(*simu::makeView(c, simu::DoubleDereference{}).begin()), Item&>);
    // what the world gives: smart pointers seen as const are seen as const objects
    static_assert(std::is_same_v<decltype(*simu::makeView(k, simu::DoubleDereference{}).begin()), const Item&>);
}

void mapViews(mc::Ctx& ctx, size_t n)
{
    std::map<int, int>       m;
    std::vector<const void*> all;
    for (size_t i = 0; i < n; ++i)
        m[(int)((i * 5) % 7)] = (int)i;
    for (auto& e : m)
        all.push_back(&e.second);
    sameView(ctx, simu::makeView(m, Second{}), all, "map");
    const auto& k = m;
    sameView(ctx, simu::makeView(k, Second{}), all, "const map");
    for (int& x : simu::makeView(m, Second{}))
        x += 100;
    for (auto& e : m)
        MC_CHECK(e.second >= 100, "map", "a change through the view is lost");
}

void allViews(mc::Ctx& ctx)
{
    int kind = ctx.choose(8, "sequence");
    size_t n = ctx.choose(ctx.tier(7, 13), "elements");
    switch (kind)
    {
        case 0: views<std::vector<Item>>(ctx, n); break;
        case 1: views<std::list<Item>>(ctx, n); break;
        case 2: views<std::deque<Item>>(ctx, n); break;
        case 3: doubleViews<std::vector<Item*>>(ctx, n); break;
        case 4: doubleViews<std::list<Twice>>(ctx, n); break;
        case 5: doubleViews<std::deque<Twice>>(ctx, n); break;
        case 6: mapViews(ctx, std::min<size_t>(n, 7)); break;
        default:
        {
            // positions that are pointers, as in the trees
            std::vector<Item> c;
            for (size_t i = 0; i < n; ++i)
                c.push_back(Item{(int)i});
            size_t from = ctx.choose((int)n + 1, "from"), to = from + ctx.choose((int)(n - from) + 1, "to");
            sameView(ctx, simu::makeView(c.data() + from, c.data() + to), addresses(c, from, to), "pointers");
            simu::ViewType<Item*> v = simu::makeView(c.data() + from, c.data() + to);
            simu::ViewType<Item*> w = simu::makeView(c.data(), c.data());
            w = v;
            sameView(ctx, w, addresses(c, from, to), "assigned");
            break;
        }
    }
    ctx.outcome(n == 0 ? "empty" : "elements");
    ctx.transition();
}
}
