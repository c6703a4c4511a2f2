#include <set>

#include "loops.hpp"

using loops::feeds_through;
using loops::known;
using loops::node_known;
using ref::Kind;
// Random diagrams in which inputs of feed-through blocks are rewired so that algebraic loops appear (or not).

PROPERTY("C03", "random diagram, then 0-3 inputs of feed-through blocks are rewired to any signal of the same type and size (own output "
                "and later blocks included), so that zero or more algebraic loops exist, and sometimes an input never gets a value; run by all three variants; non-trivial: at "
                "least one algebraic loop exists, or a cycle through a state-holding block")
{
    ref::GenOpts o;
    o.min_nodes     = 2;
    o.typical_nodes = 8;
    if (c.chance(1, 3)) o.states = false;
    auto m = ref::gen_model(c, o);
    loops::rewire(c, m, int(c.weighted({1, 4, 2, 2})));
    if (c.chance(1, 6) && !m.exts.empty()) m.exts.erase(m.exts.begin() + long(c.draw(m.exts.size()))); // an input that never gets a value
    auto p = lib::gen_plan(c, m, 3);
    auto k = known(m);
    std::vector<char> expect;
    bool loop = false;
    for (std::size_t i = 0; i < m.nodes.size(); i++)
    {
        expect.push_back(node_known(m, k, i));
        loop |= !expect.back();
    }
    NOTE(ctx, m.describe() << p.describe());

    if (loop)
    {
        lib::Diagram d(m);
        auto st   = lib::make_stepper(p.method);
        auto sim  = lib::make_sim(lib::SimKind::Fast, d.model(), d.callback(), st.get());
        bool threw = false;
        auto depth = lib::trace_depth();
        try
        {
            if (p.explicit_init)
                sim->init(p.t0);
            else
                sim->run(p.t0, p.min_step, p.max_step);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        CHECK(ctx, threw, "FastSimulator accepted a diagram with an algebraic loop");
        threw = false;
        try
        {
            sim->run(p.t0, p.min_step, p.max_step);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        CHECK(ctx, threw, "FastSimulator refused a diagram with an algebraic loop and accepted it when tried again");
        CHECK(ctx, lib::trace_depth() == depth, "the diagnostic trace is not balanced");
        ctx.label("loop: FastSimulator must refuse");
        ctx.nontrivial();

        // blocks that sample their input at the end of a step must not read from a loop when the plain simulators run
        const bool fixed = loops::fix_holders(c, m);
        k    = known(m);
        loop = false;
        expect.clear();
        for (std::size_t i = 0; i < m.nodes.size(); i++)
        {
            expect.push_back(node_known(m, k, i));
            loop |= !expect.back();
        }
        if (fixed) NOTE(ctx, "  after rewiring the state-holding blocks that read from the loop:\n" << m.describe());
    }

    else
        loops::fix_holders(c, m); // (they must not read from an input without a value either)

    // cycles through state-holding blocks
    bool state_cycle = false;
    for (std::size_t s0 = 0; s0 < m.nodes.size() && !state_cycle; s0++)
    {
        if (feeds_through(m.nodes[s0].kind)) continue;
        std::set<int> seen, front{int(s0)};
        while (!front.empty() && !state_cycle)
        {
            int x = *front.begin();
            front.erase(front.begin());
            for (int i : m.nodes[std::size_t(x)].in)
            {
                int q = m.producer(i);
                if (q == int(s0)) state_cycle = true;
                if (q >= 0 && seen.insert(q).second) front.insert(q);
            }
        }
    }
    if (state_cycle)
    {
        ctx.nontrivial();
        ctx.label("cycle through a state-holding block");
    }
    for (auto kind : {lib::SimKind::Plain, lib::SimKind::Reuse, lib::SimKind::Fast})
    {
        if (loop && kind == lib::SimKind::Fast) continue;
        p.sim = kind;
        lib::RunOpts ro;
        ro.expect_called = expect;
        auto st          = lib::run_against_reference(ctx, m, p, ro);
        if (loop) ctx.label(std::string("loop: run by ") + lib::sim_name(kind));
        ctx.label("values compared", st.compared);
    }
    std::size_t unk = 0;
    for (auto e : expect) unk += !e;
    if (loop) ctx.label("blocks on or behind loops", unk);
    if (!loop) ctx.label("no loop: all variants must compute it");
}
