#include <algorithm>

#include "lib.hpp"

// The three simulator variants over identical copies of a random diagram: every signal, at every request and at every end of a
// step, must be bit-for-bit the same. In some cases another simulator has run over the diagram before.
namespace
{
struct Trace
{
    std::vector<std::pair<double, lib::LSnap>> at_requests, at_ends;
};

Trace go(const ref::Model& m, const lib::RunPlan& p, lib::SimKind kind, const lib::RunPlan* before)
{
    Trace tr;
    lib::Diagram d(m);
    auto st = lib::make_stepper(p.method);
    if (d.root) d.root->on_post = [&](double t) { tr.at_ends.emplace_back(t, d.snap()); };
    auto drive = [&](lib::SimKind k, const lib::RunPlan& q)
    {
        // no stepper is needed for a diagram without state variables; giving one must not matter
        auto sim = lib::make_sim(k, d.model(), d.callback(), m.num_states() || q.min_step > 0.5 ? st.get() : nullptr);
        if (q.explicit_init)
            sim->init(q.t0);
        else
            sim->run(q.t0, q.min_step, q.max_step);
        tr.at_requests.emplace_back(q.t0, d.snap());
        for (double t : q.times)
        {
            sim->run(t, q.min_step, q.max_step);
            tr.at_requests.emplace_back(t, d.snap());
        }
    };
    if (before) drive(before->sim, *before);
    drive(kind, p);
    return tr;
}
} // namespace

PROPERTY("C02", "random loop-free diagram run by all three simulator variants (identical copies, same solver and times; optionally after "
                "another simulator has already run over each copy); non-trivial: at least 2 blocks, at least one of them fed by another")
{
    ref::GenOpts o;
    switch (c.draw(4))
    {
    case 0: o.states = false; break;
    case 1: o.typical_nodes = 2; break;
    default: break;
    }
    const bool wide = c.chance(1, 3000); // very many blocks at once
    if (wide)
    {
        o.typical_nodes = 2;
        o.max_nodes     = 4;
        o.allow_bare    = false;
    }
    auto m = ref::gen_model(c, o);
    if (wide)
    {
        const int u = ref::add_ext(m, ref::Ty::S, 1);
        const int n = int(c.range(200, 700));
        m.exts.back().fn = ref::gen_fn(c, 0);
        for (int i = 0; i < n; i++) ref::add_node(m, ref::Kind::Gain, ref::Ty::S, 1, {u}, {double(i % 17) - 8});
        o.long_run = true;
        ref::gen_structure(c, m, o);
        ctx.label("hundreds of blocks at once");
    }
    bool delays  = m.has(ref::Kind::Delay);
    auto p       = lib::gen_plan(c, m, wide ? 2 : 5, !delays);
    bool earlier = c.chance(1, 4);
    lib::RunPlan b;
    if (earlier)
    {
        b        = p;
        b.sim    = lib::SimKind(c.draw(3));
        double w = p.times.back() - p.t0 + 0.5;
        b.t0 -= w;
        for (auto& t : b.times) t -= w;
        b.times.resize(c.draw(b.times.size() + 1));
        b.explicit_init = c.flip();
        b.times.erase(std::unique(b.times.begin(), b.times.end()), b.times.end());
        if (!b.times.empty() && b.times.front() <= b.t0) b.times.clear();
    }
    NOTE(ctx, m.describe() << p.describe());
    if (earlier) NOTE(ctx, "  before that:\n" << b.describe());
    auto plain = go(m, p, lib::SimKind::Plain, earlier ? &b : nullptr);
    for (auto k : {lib::SimKind::Reuse, lib::SimKind::Fast})
    {
        auto other = go(m, p, k, earlier ? &b : nullptr);
        auto msg   = lib::diff(m, plain.at_requests, other.at_requests);
        CHECK(ctx, msg.empty(), "Simulator and " << lib::sim_name(k) << " differ: " << msg);
        msg = lib::diff(m, plain.at_ends, other.at_ends);
        CHECK(ctx, msg.empty(), "Simulator and " << lib::sim_name(k) << " differ at a step end: " << msg);
    }
    // all signals that can have a value must have one
    for (auto& n : m.nodes)
        for (int s : n.out)
            CHECK(ctx, plain.at_requests.back().second[std::size_t(s)].assigned, "signal " << m.sigs[std::size_t(s)].name << " has no value");
    for (auto& [t, s] : plain.at_requests)
        for (auto& v : s)
            for (double x : v.x) ctx.mix(x);
    bool wired = false;
    for (auto& n : m.nodes)
        for (int i : n.in) wired |= m.producer(i) >= 0;
    if (m.nodes.size() >= 2 && wired) ctx.nontrivial();
    ctx.label(m.num_states() ? "with states" : "stateless");
    if (m.bare) ctx.label("bare block as model");
    if (m.groups.size()) ctx.label("bus-wide blocks");
    for (auto& g : m.groups)
        for (auto& e : g.entries)
            if (e.excluded)
            {
                ctx.label("excluded bus entries");
                break;
            }
    for (auto& n : m.nodes)
        if (n.spare.size())
        {
            ctx.label("outputs never written");
            break;
        }
    if (earlier) ctx.label(std::string("evaluated before by ") + lib::sim_name(b.sim));
    ctx.label("snapshots compared", plain.at_requests.size() * 2);
}
