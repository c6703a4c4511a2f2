#include "lib.hpp"

// Random acyclic diagrams run by a random simulator variant and compared, signal by signal and step by step, with the
// reference interpreter.
PROPERTY("C01", "random loop-free diagram (all block kinds, random wiring, declaration order, nesting, external inputs) run by a random "
                "simulator variant and solver over random times; non-trivial: at least 3 blocks with at least one block-to-block "
                "connection and at least one value compared after initialisation")
{
    ref::GenOpts o;
    if (c.chance(1, 3)) o.states = false;
    auto m = ref::gen_model(c, o);
    auto p = lib::gen_plan(c, m, 6);
    NOTE(ctx, m.describe() << p.describe());
    auto st = lib::run_against_reference(ctx, m, p);
    bool wired = false;
    for (auto& n : m.nodes)
        for (int i : n.in) wired |= m.producer(i) >= 0;
    if (m.nodes.size() >= 3 && wired && st.compared > 0) ctx.nontrivial();
    ctx.label(std::string("sim ") + lib::sim_name(p.sim));
    ctx.label(m.num_states() ? "with states" : "stateless");
    if (m.sub_parent.size()) ctx.label("nested submodels");
    if (m.groups.size()) ctx.label("bus-wide blocks");
    if (m.bare) ctx.label("bare block as model");
    if (st.ambiguous) ctx.label("cut short: outcome hinges on rounding");
    if (st.rejected) ctx.label("rejected sub-steps");
    if (st.substeps) ctx.label("several sub-steps");
    for (auto& n : m.nodes) ctx.label(std::string("block ") + ref::kind_name(n.kind));
    ctx.label("values compared", st.compared);
    ctx.label("values not decidable", st.undecidable);
}
