#include <algorithm>

#include "lib.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/leaf.hpp"

// Block hierarchies against a model of a forest with ordered children.
namespace
{
struct Node
{
    std::shared_ptr<pooya::Block> b;
    std::shared_ptr<pooya::Submodel> s; // the same object when it is a submodel
    int parent{-1};
    std::vector<int> children;
    std::string name;
    bool connected{false};
    std::shared_ptr<pooya::ScalarSignal> in, out; // (signals are assigned by value)
};

class UserLeaf : public pooya::Leaf
{
public:
    UserLeaf(pooya::Submodel* p, std::string_view n) : Leaf(p, n) {}
    void activation_function(double) override {}
};

std::string sanitise(const std::string& s)
{
    std::string r;
    for (char ch : s)
    {
        const auto u = static_cast<unsigned char>(ch);
        r += ((u >= '0' && u <= '9') || (u >= 'A' && u <= 'Z') || (u >= 'a' && u <= 'z') || u == '_') ? ch : '_';
    }
    return r;
}
using Visits = std::vector<std::pair<const pooya::Block*, uint32_t>>;
} // namespace

PROPERTY("C19", "random sequences of creating leaves and submodels (with or without a parent), giving parents (the first, the same again, a different one) "
                "directly, by adding and by linking, renaming, and connecting; after each operation parents, connections and full names, and at random points complete, "
                "limited and stopped traversals from any block by both visitors, are compared with a forest model; non-trivial: at least 3 levels "
                "or a refused parent, and at least one traversal of 4 blocks")
{
    const std::size_t depth = lib::trace_depth();
    std::vector<Node> nodes;
    uint64_t refused = 0, again = 0, traversals = 0, stopped = 0, limited = 0;
    std::size_t largest = 0;
    bool deep           = false;
    const bool wild     = c.chance(1, 4);
    auto name           = [&] { return wild ? c.bytes_string(6) : c.name(4); };

    auto full = [&](int k)
    {
        std::string r;
        for (; k >= 0; k = nodes[std::size_t(k)].parent) r = "/" + nodes[std::size_t(k)].name + r;
        return r;
    };
    auto is_ancestor = [&](int a, int k)
    {
        for (; k >= 0; k = nodes[std::size_t(k)].parent)
            if (k == a) return true;
        return false;
    };
    std::function<bool(int, uint32_t, uint32_t, std::size_t, Visits&)> walk = [&](int k, uint32_t level, uint32_t max, std::size_t stop, Visits& v) -> bool
    {
        if (level > max) return true;
        v.emplace_back(nodes[std::size_t(k)].b.get(), level);
        if (v.size() > stop) return false;
        for (int ch : nodes[std::size_t(k)].children)
            if (!walk(ch, level + 1, max, stop, v)) return false;
        return true;
    };
    auto check = [&](const std::string& what)
    {
        CHECK(ctx, lib::trace_depth() == depth, what << ": the diagnostic trace is left unbalanced");
        for (std::size_t k = 0; k < nodes.size(); k++)
        {
            auto& n = nodes[k];
            CHECK(ctx, n.b->parent() == (n.parent < 0 ? nullptr : nodes[std::size_t(n.parent)].s.get()), what << ": block " << k << " reports another parent");
            CHECK(ctx, n.b->connected() == n.connected, what << ": block " << k << " should be " << (n.connected ? "" : "un") << "connected");
            CHECK(ctx, n.b->name().str() == n.name, what << ": block " << k << " is called '" << n.b->name().str() << "' instead of '" << n.name << "'");
            CHECK(ctx, n.b->full_name().str() == full(int(k)), what << ": block " << k << " has the full name '" << n.b->full_name().str() << "' instead of '" << full(int(k)) << "'");
            if (n.connected)
                CHECK(ctx, n.b->ibus().size() == 1 && n.b->obus().size() == 1 && &n.b->ibus().at(0).impl() == &static_cast<pooya::Signal&>(*n.in).impl() &&
                               &n.b->obus().at(0).impl() == &static_cast<pooya::Signal&>(*n.out).impl(),
                      what << ": the connections of block " << k << " have changed");
        }
    };
    auto traverse = [&](int k, uint32_t level, uint32_t max, std::size_t stop)
    {
        Visits want, got, cgot;
        bool w  = walk(k, level, max, stop, want);
        auto& b = *nodes[std::size_t(k)].b;
        const bool dflt = max == std::numeric_limits<uint32_t>::max() && c.flip();
        auto cb  = [&](pooya::Block& x, uint32_t l) -> bool
        {
            got.emplace_back(&x, l);
            return got.size() <= stop;
        };
        auto ccb = [&](const pooya::Block& x, uint32_t l) -> bool
        {
            cgot.emplace_back(&x, l);
            return cgot.size() <= stop;
        };
        bool g  = dflt ? b.visit(cb, level) : b.visit(cb, level, max);
        bool cg = dflt ? static_cast<const pooya::Block&>(b).const_visit(ccb, level) : static_cast<const pooya::Block&>(b).const_visit(ccb, level, max);
        auto show = [&](const Visits& v)
        {
            std::string r;
            for (auto& [x, l] : v)
            {
                for (std::size_t q = 0; q < nodes.size(); q++)
                    if (nodes[q].b.get() == x) r += std::to_string(q);
                r += "@" + std::to_string(l) + " ";
            }
            return r;
        };
        CHECK(ctx, got == want, "the traversal from block " << k << " at level " << level << " (limit " << max << ", stop after " << stop << ") visits " << show(got) << "instead of " << show(want));
        CHECK(ctx, cgot == want, "the read-only traversal from block " << k << " at level " << level << " (limit " << max << ", stop after " << stop << ") visits " << show(cgot) << "instead of "
                                                                       << show(want));
        CHECK(ctx, g == w && cg == w, "a traversal " << (w ? "that was completed reports that it was stopped" : "that was stopped reports that it was completed"));
        largest = std::max(largest, want.size());
        traversals++;
        if (!w) stopped++;
        CHECK(ctx, lib::trace_depth() == depth, "a traversal leaves the diagnostic trace unbalanced");
    };

    const int ops = c.big(2, 25, 120, 700, 256);
    for (int k = 0; k < ops; k++)
    {
        std::vector<int> subs;
        for (std::size_t q = 0; q < nodes.size(); q++)
            if (nodes[q].s) subs.push_back(int(q));
        std::string what;
        switch (nodes.empty() ? 0 : c.weighted({7, 5, 3, 2, 2, 2, 3}))
        {
        case 0: // a new block
        {
            if (nodes.size() > 60) break;
            Node n;
            std::string nm = name();
            n.name         = sanitise(nm);
            n.parent       = !subs.empty() && c.chance(1, 2) ? (c.flip() ? subs.back() : c.pick(subs)) : -1;
            auto* p        = n.parent < 0 ? nullptr : nodes[std::size_t(n.parent)].s.get();
            switch (c.weighted({3, 2, 2}))
            {
            case 0: n.s = std::make_shared<pooya::Submodel>(p, nm); n.b = n.s; break;
            case 1: n.b = std::make_shared<pooya::Pipe>(p, nm); break;
            default: n.b = std::make_shared<UserLeaf>(p, nm);
            }
            n.in = std::make_shared<pooya::ScalarSignal>();
            n.out = std::make_shared<pooya::ScalarSignal>();
            if (n.parent >= 0) nodes[std::size_t(n.parent)].children.push_back(int(nodes.size()));
            what = "creation of block " + std::to_string(nodes.size()) + (n.s ? " (submodel)" : "") + " in " + std::to_string(n.parent);
            NOTE(ctx, "  " << what);
            nodes.push_back(n);
            break;
        }
        case 1: // set_parent or add_block
        {
            if (subs.empty()) break;
            int b = int(c.draw(nodes.size())), p = c.pick(subs);
            auto& n = nodes[std::size_t(b)];
            if (n.parent >= 0 && c.chance(1, 3)) p = n.parent;
            const bool ok = n.parent < 0 || n.parent == p;
            // (the library does not look for cycles)
            if (ok && n.parent < 0 && is_ancestor(b, p)) break;
            const bool add = c.flip();
            what           = std::string(add ? "adding" : "giving") + " block " + std::to_string(b) + " to " + std::to_string(p);
            NOTE(ctx, "  " << what << (ok ? "" : " (must be refused)"));
            if (ok && n.parent < 0)
            {
                n.parent = p;
                nodes[std::size_t(p)].children.push_back(b);
            }
            else if (ok)
                again++;
            else
                refused++;
            auto& sub = *nodes[std::size_t(p)].s;
            if (!add)
            {
                CHECK(ctx, n.b->set_parent(sub) == ok, what << (ok ? " was refused" : " was not refused"));
                break;
            }
            bool threw = false, ret = false;
            try
            {
                ret = sub.add_block(*n.b, {*n.in}, {*n.out});
            }
            catch (const std::runtime_error&)
            {
                threw = true;
            }
            if (!ok)
                CHECK(ctx, !ret && !threw, what << " was not refused");
            else if (n.connected)
                CHECK(ctx, threw, what << " connected it a second time");
            else
            {
                CHECK(ctx, ret && !threw, what << " was refused");
                n.connected = true;
            }
            break;
        }
        case 2: // link_block: only for a block that already has this parent, and then without effect
        {
            if (subs.empty()) break;
            int b = int(c.draw(nodes.size())), p = c.pick(subs);
            if (nodes[std::size_t(b)].parent >= 0 && c.flip()) p = nodes[std::size_t(b)].parent;
            const bool ok = nodes[std::size_t(b)].parent == p;
            what          = "linking block " + std::to_string(b) + " to " + std::to_string(p);
            NOTE(ctx, "  " << what << (ok ? "" : " (must be refused)"));
            CHECK(ctx, nodes[std::size_t(p)].s->link_block(*nodes[std::size_t(b)].b) == ok, what << (ok ? " was refused" : " was not refused"));
            (ok ? again : refused)++;
            break;
        }
        case 3:
        {
            int b               = int(c.draw(nodes.size()));
            std::string nm      = name();
            nodes[std::size_t(b)].b->rename(nm);
            nodes[std::size_t(b)].name = sanitise(nm);
            what                = "renaming block " + std::to_string(b);
            NOTE(ctx, "  " << what);
            break;
        }
        case 4:
        {
            int b   = int(c.draw(nodes.size()));
            auto& n = nodes[std::size_t(b)];
            what    = "connecting block " + std::to_string(b);
            NOTE(ctx, "  " << what);
            bool threw = false;
            try
            {
                n.b->connect({*n.in}, {*n.out});
            }
            catch (const std::runtime_error&)
            {
                threw = true;
            }
            CHECK(ctx, threw == n.connected, what << (threw ? " was refused" : " a second time was not refused"));
            n.connected = true;
            break;
        }
        default: // traversals
        {
            int b          = int(c.draw(nodes.size()));
            uint32_t level = c.flip() ? 0 : uint32_t(c.draw(4));
            uint32_t max   = c.flip() ? std::numeric_limits<uint32_t>::max() : uint32_t(c.draw(7));
            std::size_t st = c.flip() ? std::size_t(-1) : std::size_t(c.draw(9));
            if (max < 100) limited++;
            what = "traversal";
            NOTE(ctx, "  traversal from block " << b << " at level " << level << ", limit " << max << ", stop after " << st);
            traverse(b, level, max, st);
        }
        }
        if (!what.empty()) check(what);
    }
    for (std::size_t k = 0; k < nodes.size(); k++)
    {
        int d = 0;
        for (int q = nodes[k].parent; q >= 0; q = nodes[std::size_t(q)].parent) d++;
        deep |= d >= 2;
        if (nodes[k].parent < 0) traverse(int(k), 0, std::numeric_limits<uint32_t>::max(), std::size_t(-1));
    }
    ctx.mix(uint64_t(largest));
    // destruction in any order
    while (!nodes.empty()) nodes.erase(nodes.begin() + long(c.draw(nodes.size())));
    if ((deep || refused) && largest >= 4) ctx.nontrivial();
    ctx.label("refused", refused);
    ctx.label("same parent again", again);
    ctx.label("traversals", traversals);
    ctx.label("stopped", stopped);
    ctx.label("limited", limited);
    if (deep) ctx.label("at least 3 levels");
}
