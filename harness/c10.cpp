#include "lib.hpp"

// Derivative blocks with arbitrary (exactly known) inputs.
using ref::Kind;
using ref::Ty;

PROPERTY("C10", "random derivative blocks (scalar and array, chained, feeding integrators, function blocks and memories, bare) with arbitrary "
                "external inputs over irregular and repeated steps, against the reference; non-trivial: at least 3 accepted steps at different "
                "times after the first, or a repeated one, with at least one derivative block")
{
    ref::Model m;
    const uint64_t seed = c.draw(0);
    const int nb        = c.size(1, 2, 8);
    std::vector<int> pool[2];
    const int asz = c.size(1, 3, 20);
    for (int i = 0; i < nb; i++)
    {
        const Ty ty  = c.flip() ? Ty::A : Ty::S;
        const int sz = ty == Ty::A ? asz : 1;
        auto& P      = pool[ty == Ty::A];
        if (P.empty() || c.chance(1, 3)) P.push_back(ref::add_ext(m, ty, sz));
        const int x = c.flip() ? P.back() : c.pick(P);
        switch (c.weighted({6, 2, 1, 2, 1, 1}))
        {
        case 0: P.push_back(ref::add_node(m, Kind::Deriv, ty, sz, {x}, ref::gen_values(c, ty, sz))); break;
        case 1: P.push_back(ref::add_node(m, Kind::Integ, ty, sz, {x}, ref::gen_values(c, ty, sz))); break;
        case 2: P.push_back(ref::add_node(m, Kind::Memory, ty, sz, {x}, ref::gen_values(c, ty, sz))); break;
        case 3:
            P.push_back(ref::add_node(m, Kind::Gain, ty, sz, {x}));
            m.nodes.back().par1 = c.moderate(2);
            break;
        case 4: P.push_back(ref::add_node(m, Kind::Sub, ty, sz, {x, c.pick(P)})); break;
        default: P.push_back(ref::add_node(m, Kind::Pipe, ty, sz, {x})); break;
        }
    }
    if (!m.has(Kind::Deriv))
    {
        auto& P = pool[pool[0].empty() ? 1 : 0];
        auto sp = m.sigs[std::size_t(P.back())];
        P.push_back(ref::add_node(m, Kind::Deriv, sp.ty, sp.n, {P.back()}, ref::gen_values(c, sp.ty, sp.n)));
    }
    ref::prune_exts(m);
    ref::GenOpts go;
    ref::gen_structure(c, m, go);
    auto p = lib::gen_plan(c, m, 12, true);
    NOTE(ctx, m.describe() << p.describe());
    lib::RunOpts o;
    uint64_t salt       = 0; // what the input callback writes for a time changes from call to call (or not)
    const uint64_t inc  = c.flip() ? 0x632be59bd9b4e019ULL : 0;
    const bool constant = c.chance(1, 10);
    o.after             = [&](lib::Diagram&, double, const std::vector<double>&, const std::vector<lib::Attempt>&) { salt += inc; };
    o.ext               = [&](const ref::Ext& e, double t)
    {
        auto& sp = m.sigs[std::size_t(e.sig)];
        return ref::table_values(seed + salt, e.sig, sp.ty, sp.n, constant ? 0 : t, false);
    };
    std::vector<double> ends;
    o.on_end    = [&](lib::Diagram&, double t) { ends.push_back(t); };
    auto st     = lib::run_against_reference(ctx, m, p, o);
    int fresh   = 0, repeated = 0;
    auto& times = m.bare ? p.times : ends;
    for (std::size_t i = 1; i < times.size(); i++) (times[i] == times[i - 1] ? repeated : fresh)++;
    if (fresh >= 3 || repeated) ctx.nontrivial();
    for (auto& n : m.nodes)
        if (n.kind == Kind::Deriv) ctx.label(n.ty == Ty::A ? "array derivatives" : "scalar derivatives");
    if (m.num_states()) ctx.label("with integrators");
    ctx.label("repeated steps", uint64_t(repeated));
    ctx.label("values compared", st.compared);
    ctx.label("values not decidable", st.undecidable);
}
