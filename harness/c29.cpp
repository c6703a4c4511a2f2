#include <algorithm>

#include "lib.hpp"

// Only the wiring of a diagram matters: the same blocks declared in another order, nested otherwise and named otherwise, and
// next to other blocks that they do not read from, give the same values bit for bit.
using ref::Kind;
using ref::Ty;

PROPERTY("C29", "random diagram against the same blocks and signals with another random declaration order, nesting, way of giving parents and names, and (with a "
                "solver of fixed steps, or without states) next to a second diagram and to blocks that read its signals; every signal at "
                "every request and step end, and the sub-steps, must be bit-for-bit the same; non-trivial: at least 3 blocks, at least one fed by another, "
                "whose structure differs")
{
    ref::GenOpts o;
    o.typical_nodes = 8;
    auto m          = ref::gen_model(c, o);
    auto p          = lib::gen_plan(c, m, 5, !m.has(Kind::Delay));
    NOTE(ctx, m.describe() << p.describe());

    auto v            = m; // the variant
    const bool others = (p.method != ref::Method::Rkf45 || m.num_states() == 0) && c.flip();
    if (others)
    {
        if (c.flip())
        {
            ref::GenOpts q;
            q.typical_nodes = 4;
            q.max_nodes     = 12;
            
            if (m.num_states() == 0) q.states = false; // the solver must not come into play
            if (!m.has(Kind::Delay)) q.delays = false; // they refuse repeated steps
            ref::append(v, ref::gen_model(c, q));
        }
        // readers of the first diagram's signals
        const int n = int(c.range(0, 4));
        for (int i = 0; i < n; i++)
        {
            std::vector<int> cand;
            for (std::size_t s = 0; s < m.sigs.size(); s++)
                if ((m.sigs[s].ty == Ty::S || m.sigs[s].ty == Ty::A) && m.sigs[s].bound >= 0 &&
                    (m.producer(int(s)) >= 0 || std::any_of(m.exts.begin(), m.exts.end(), [&](auto& e) { return e.sig == int(s); })))
                    cand.push_back(int(s));
            if (cand.empty()) break;
            const int s  = c.pick(cand);
            const Ty ty  = m.sigs[std::size_t(s)].ty;
            const int sz = m.sigs[std::size_t(s)].n;
            switch (c.weighted({2, 2, 2, m.num_states() ? 3u : 0u}))
            {
            case 0: ref::add_node(v, Kind::Memory, ty, sz, {s}, ref::gen_values(c, ty, sz)); break;
            case 1: ref::add_node(v, Kind::Deriv, ty, sz, {s}, ref::gen_values(c, ty, sz)); break;
            case 2: ref::add_node(v, Kind::InitVal, ty, sz, {s}); break;
            default: ref::add_node(v, Kind::Integ, ty, sz, {s}, ref::gen_values(c, ty, sz));
            }
        }
    }
    ref::gen_structure(c, v, o);
    const int naming = int(c.draw(4));
    auto name        = [&](const std::string& old) { return naming == 0 ? old : naming == 1 ? std::string() : naming == 2 ? std::string("x") : c.name(8); };
    for (auto& n : v.nodes) n.name = name(n.name);
    for (auto& s : v.sigs) s.name = name(s.name);
    for (auto& s : v.sub_name) s = name(s);
    NOTE(ctx, " variant:\n" << v.describe());

    auto a = lib::run_library(m, p);
    auto b = lib::run_library(v, p);
    auto msg = lib::diff(m, a.at_requests, b.at_requests); // (compares the signals of m only)
    CHECK(ctx, msg.empty(), "the values depend on the structure of the diagram: " << msg);
    if (!m.bare && !v.bare)
    {
        msg = lib::diff(m, a.at_ends, b.at_ends);
        CHECK(ctx, msg.empty(), "the values at a step end depend on the structure of the diagram: " << msg);
    }
    if (m.num_states())
    {
        CHECK(ctx, a.attempts.size() == b.attempts.size(), "there are " << a.attempts.size() << " sub-steps and " << b.attempts.size() << " in the variant");
        for (std::size_t k = 0; k < a.attempts.size(); k++)
            CHECK(ctx, a.attempts[k].t0 == b.attempts[k].t0 && a.attempts[k].t1 == b.attempts[k].t1 && a.attempts[k].eval_t == b.attempts[k].eval_t,
                  "sub-step " << k << " from " << a.attempts[k].t0 << " to " << a.attempts[k].t1 << " is from " << b.attempts[k].t0 << " to " << b.attempts[k].t1
                              << " in the variant");
    }
    for (auto& [t, s] : a.at_requests)
        for (auto& x : s)
            for (double d : x.x) ctx.mix(d);
    bool wired = false;
    for (auto& n : m.nodes)
        for (int i : n.in) wired |= m.producer(i) >= 0;
    bool differs = m.order != v.order;
    for (std::size_t k = 0; k < m.nodes.size(); k++) differs |= m.nodes[k].parent != v.nodes[k].parent;
    if (m.nodes.size() >= 3 && wired && differs) ctx.nontrivial();
    if (v.nodes.size() > m.nodes.size()) ctx.label("with other blocks");
    if (m.sub_parent.size() != v.sub_parent.size()) ctx.label("another number of submodels");
    if (naming) ctx.label("renamed");
    if (m.num_states()) ctx.label("with states");
    ctx.label("snapshots compared", a.at_requests.size() + a.at_ends.size());
}
