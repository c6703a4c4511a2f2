#include <cmath>

#include "lib.hpp"

// Initial-value blocks behind all kinds of signals.
using ref::Kind;
using ref::Ty;

PROPERTY("C13", "random initial-value blocks (scalar and array) fed by arbitrary external signals (special values included), integrators, memories, "
                "derivatives, function blocks or each other, run by a random simulator and solver and then by further simulators over the same "
                "diagram; every output must keep, bit for bit, the value that its input had at the first evaluation; "
                "non-trivial: the input of some initial-value block changes later on")
{
    ref::Model m;
    const uint64_t seed = c.draw(0);
    const int nb        = c.size(1, 3, 9);
    std::vector<int> pool[2];
    const int asz      = c.size(1, 3, 30);
    const bool states  = c.flip();
    const bool special = !states && c.flip();
    for (int i = 0; i < nb || !m.has(Kind::InitVal); i++)
    {
        const Ty ty  = c.flip() ? Ty::A : Ty::S;
        const int sz = ty == Ty::A ? asz : 1;
        auto& P      = pool[ty == Ty::A];
        if (P.empty() || c.chance(1, 3)) P.push_back(ref::add_ext(m, ty, sz));
        const int x = c.flip() ? P.back() : c.pick(P);
        switch (c.weighted({6, states ? 3u : 0u, 1, 1, 1, 1, 1}))
        {
        case 0: P.push_back(ref::add_node(m, Kind::InitVal, ty, sz, {x})); break;
        case 1: P.push_back(ref::add_node(m, Kind::Integ, ty, sz, {x}, ref::gen_values(c, ty, sz))); break;
        case 2: P.push_back(ref::add_node(m, Kind::Memory, ty, sz, {x}, ref::gen_values(c, ty, sz, special))); break;
        case 3:
            P.push_back(ref::add_node(m, Kind::SisoFn, ty, sz, {x}));
            m.nodes.back().fn.push_back(ref::gen_fn(c, 1));
            break;
        case 4: P.push_back(ref::add_node(m, Kind::Sub, ty, sz, {x, c.pick(P)})); break;
        case 5: P.push_back(ref::add_node(m, Kind::Deriv, ty, sz, {x}, ref::gen_values(c, ty, sz))); break;
        default:
            P.push_back(ref::add_node(m, Kind::Source, ty, sz, {}));
            m.nodes.back().fn.push_back(ref::gen_fn(c, 0));
            break;
        }
    }
    ref::prune_exts(m);
    ref::GenOpts go;
    ref::gen_structure(c, m, go);
    auto p              = lib::gen_plan(c, m, 6, true);
    uint64_t salt       = 0;
    const int resim     = int(c.weighted({2, 1, 1}));
    std::vector<lib::RunPlan> plans{p};
    for (int i = 0; i < resim; i++)
    {
        plans.push_back(lib::gen_plan(c, m, 3, true));
        // time may restart anywhere, but the state-holding blocks expect increasing times
        const double shift = plans[plans.size() - 2].times.back() + 1 - plans.back().t0;
        plans.back().t0 += shift;
        for (auto& t : plans.back().times) t += shift;
    }
    NOTE(ctx, m.describe());
    for (auto& q : plans) NOTE(ctx, q.describe());
    if (resim == 0 && c.flip())
    {
        lib::RunOpts o;
        o.after = [&](lib::Diagram&, double, const std::vector<double>&, const std::vector<lib::Attempt>&) { salt += 0x632be59bd9b4e019ULL; };
        o.ext   = [&](const ref::Ext& e, double t)
        {
            auto& sp = m.sigs[std::size_t(e.sig)];
            return ref::table_values(seed + salt, e.sig, sp.ty, sp.n, t, special);
        };
        auto st = lib::run_against_reference(ctx, m, p, o);
        ctx.nontrivial();
        ctx.label("cases compared with the reference");
        ctx.label("values compared", st.compared);
        return;
    }
    lib::Diagram d(m);
    d.ext_override = [&](const ref::Ext& e, double t)
    {
        auto& sp = m.sigs[std::size_t(e.sig)];
        return ref::table_values(seed + salt, e.sig, sp.ty, sp.n, t, special);
    };
    lib::LSnap first;
    auto check = [&](double t)
    {
        auto s = d.snap();
        if (first.empty()) first = s;
        for (std::size_t k = 0; k < m.nodes.size(); k++)
        {
            auto& n = m.nodes[k];
            if (n.kind != Kind::InitVal) continue;
            const auto i = std::size_t(n.in[0]), o = std::size_t(n.out[0]);
            bool ok = s[o] == first[i];
            for (std::size_t q = 0; ok && q < s[o].x.size(); q++) ok = std::signbit(s[o].x[q]) == std::signbit(first[i].x[q]) || s[o].x[q] != s[o].x[q];
            CHECK(ctx, ok, "initial-value block " << k << " outputs " << lib::show(s[o]) << " at t=" << t << " but the first value of its input was " << lib::show(first[i]));
            if (!(s[i] == first[i])) ctx.nontrivial();
        }
        for (auto& v : s)
            for (double x : v.x) ctx.mix(x);
    };
    if (d.root) d.root->on_post = check;
    for (auto& q : plans)
    {
        auto st  = lib::make_stepper(q.method);
        auto sim = lib::make_sim(q.sim, d.model(), d.callback(), m.num_states() ? st.get() : nullptr);
        if (q.explicit_init)
            sim->init(q.t0);
        else
            sim->run(q.t0, q.min_step, q.max_step);
        check(q.t0);
        for (double t : q.times)
        {
            salt += 0x632be59bd9b4e019ULL;
            sim->run(t, q.min_step, q.max_step);
            check(t);
        }
    }
    if (resim) ctx.label("driven by several simulators");
    if (m.num_states()) ctx.label("with integrators");
    if (special) ctx.label("special values");
}
