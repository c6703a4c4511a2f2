#include "lib.hpp"

// Memories of all types in chains, rings, self-feedback and behind pipes, fed by arbitrary (exactly known) external values.
using ref::Kind;
using ref::Ty;

PROPERTY("C08", "random networks of memories (all four types, chains, own output as input, rings of memories and pipes, function blocks "
                "between them, any declaration order and nesting, bus-wide memories, bare block) driven by arbitrary external values "
                "including special values, sometimes with an integrator whose solver makes trial evaluations; exact comparison with the "
                "reference and constancy of every memory output within each step; non-trivial: at least 3 accepted steps with at least "
                "one memory whose input changes")
{
    ref::Model m;
    const uint64_t seed = c.draw(0);
    const bool special  = c.flip();
    struct Lane
    {
        Ty ty;
        int n;
    };
    // a few signal types, several memories of each
    const int lanes = int(c.range(1, 3));
    std::vector<std::pair<int, int>> deferred; // node, type lane
    std::vector<std::vector<int>> pool(std::size_t(lanes), std::vector<int>{});
    std::vector<Lane> L;
    std::vector<int> mems;
    for (int l = 0; l < lanes; l++)
    {
        const Ty ty = c.oneof({Ty::S, Ty::I, Ty::B, Ty::A});
        L.push_back({ty, ty == Ty::A ? c.size(1, 3, 40) : 1});
        auto& P = pool[std::size_t(l)];
        if (!c.chance(1, 6)) P.push_back(ref::add_ext(m, ty, L.back().n));
        int k = c.big(1, 2, 7, 60, 32);
        for (int i = 0; i < k; i++)
        {
            int in = -1; // decided later: may be any signal of the lane, the memory's own output included
            if (!P.empty() && c.flip()) in = c.chance(3, 4) ? P.back() : c.pick(P);
            mems.push_back(int(m.nodes.size()));
            if (in < 0) deferred.push_back({int(m.nodes.size()), l});
            P.push_back(ref::add_node(m, Kind::Memory, ty, L.back().n, {in}, ref::gen_values(c, ty, L.back().n, special)));
            if (c.chance(1, 4)) P.push_back(ref::add_node(m, Kind::Pipe, ty, L.back().n, {c.pick(P)}));
            if (ty != Ty::I && ty != Ty::B && L.back().n > 0 && c.chance(1, 6))
            {
                int x = ref::add_node(m, Kind::Gain, ty, L.back().n, {c.pick(P)});
                m.nodes.back().par1 = c.oneof({1.0, -1.0, 2.0, 0.5}); // exact
                P.push_back(x);
            }
        }
    }
    for (auto& [k, l] : deferred)
    {
        auto& n = m.nodes[std::size_t(k)];
        n.in[0] = c.chance(1, 4) ? n.out[0] : c.pick(pool[std::size_t(l)]);
    }
    // some are built by a bus-wide memory
    if (c.chance(1, 5))
    {
        ref::Group g;
        for (int k : mems)
            if (c.flip())
            {
                ref::GroupEntry e;
                auto& n = m.nodes[std::size_t(k)];
                e.node  = k;
                e.in    = n.in[0];
                e.out   = n.out[0];
                e.path  = c.chance(1, 3) ? std::vector<std::string>{"g", "e" + std::to_string(k)} : std::vector<std::string>{"e" + std::to_string(k)};
                e.has_ic = true;
                n.group  = 0;
                g.entries.push_back(e);
            }
        if (!g.entries.empty())
        {
            g.in_order  = c.permutation(int(g.entries.size()));
            g.out_order = c.permutation(int(g.entries.size()));
            m.groups.push_back(g);
        }
    }
    if (c.flip())
    {
        int src = ref::add_ext(m, Ty::S, 1);
        ref::add_node(m, Kind::Integ, Ty::S, 1, {src}, {c.moderate(1)});
    }
    ref::prune_exts(m);
    ref::GenOpts go;
    ref::gen_structure(c, m, go);
    auto p = lib::gen_plan(c, m, 9, true);
    NOTE(ctx, m.describe() << p.describe() << (special ? ", special values" : ""));

    lib::RunOpts o;
    uint64_t salt = 0; // what the input callback writes for a time changes from call to call
    o.after       = [&](lib::Diagram&, double, const std::vector<double>&, const std::vector<lib::Attempt>&) { salt += 0x632be59bd9b4e019ULL; };
    o.ext = [&](const ref::Ext& e, double t)
    {
        auto& sp = m.sigs[std::size_t(e.sig)];
        return ref::table_values(seed + salt, e.sig, sp.ty, sp.n, t, special && !m.has(Kind::Integ));
    };
    std::vector<lib::LVal> within(m.sigs.size());
    std::vector<char> seen(m.sigs.size(), 0);
    auto constant = [&](lib::Diagram& d, double t)
    {
        for (int k : mems)
        {
            auto s = std::size_t(m.nodes[std::size_t(k)].out[0]);
            auto v = lib::read(d.sigs[s]);
            if (!seen[s])
            {
                within[s] = v;
                seen[s]   = 1;
            }
            CHECK(ctx, within[s] == v, "the output of memory " << k << " changed within a step from " << lib::show(within[s]) << " to " << lib::show(v)
                                                               << " at t=" << t);
        }
    };
    o.on_eval = constant;
    bool changes = false;
    std::vector<lib::LVal> prev(m.sigs.size());
    std::size_t ends = 0;
    o.on_end         = [&](lib::Diagram& d, double t)
    {
        constant(d, t);
        std::fill(seen.begin(), seen.end(), 0);
        for (int k : mems)
        {
            auto& n  = m.nodes[std::size_t(k)];
            auto in  = lib::read(d.sigs[std::size_t(n.in[0])]);
            auto out = lib::read(d.sigs[std::size_t(n.out[0])]);
            // bit for bit the input of the previous end of a step
            auto& before = prev[std::size_t(k)];
            lib::LVal ic;
            ic.assigned = true;
            ic.x        = n.ic;
            auto& want  = ends == 0 ? ic : before;
            CHECK(ctx, want == out, "memory " << k << " outputs " << lib::show(out) << " at t=" << t << " but its input was " << lib::show(want)
                                              << " at the previous step");
            for (std::size_t i = 0; i < want.x.size(); i++)
                CHECK(ctx, std::signbit(want.x[i]) == std::signbit(out.x[i]) || want.x[i] != want.x[i], "memory " << k << " changed the sign of a zero");
            if (ends > 0 && !(before == in)) changes = true;
        }
        for (int k : mems) prev[std::size_t(k)] = lib::read(d.sigs[std::size_t(m.nodes[std::size_t(k)].in[0])]);
        ends++;
    };
    auto st = lib::run_against_reference(ctx, m, p, o);
    if ((changes && ends >= 3) || (m.bare && p.times.size() >= 3)) ctx.nontrivial();
    for (int k : mems) ctx.label(std::string("memory ") + ref::ty_name(m.nodes[std::size_t(k)].ty));
    for (int k : mems)
        if (m.nodes[std::size_t(k)].in[0] == m.nodes[std::size_t(k)].out[0]) ctx.label("own output as input");
    if (m.groups.size()) ctx.label("bus-wide memory");
    if (m.num_states()) ctx.label("with trial evaluations");
    if (m.bare) ctx.label("bare memory");
    ctx.label("values compared", st.compared);
}
