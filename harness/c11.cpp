#include <cmath>

#include "lib.hpp"

// Triggered integrators with arbitrary triggers.
using ref::Kind;
using ref::Ty;

PROPERTY("C11", "random triggered integrators (scalar and array, in feedback and chains, several on one trigger) whose triggers are arbitrary "
                "Boolean functions of time - different at trial times and at step ends -, of memories, or of their own outputs, over irregular "
                "and repeated steps with sub-steps and rejected attempts, against the reference; non-trivial: at least one accepted step with a "
                "true trigger followed by another step")
{
    ref::Model m;
    const uint64_t seed = c.draw(0);
    const int nb        = c.size(1, 2, 6);
    std::vector<int> pool[2], trig;
    const int asz = c.size(1, 3, 12);
    std::vector<std::pair<int, int>> late; // node, port: may be a later signal (feedback)
    trig.push_back(ref::add_ext(m, Ty::B, 1));
    for (int i = 0; i < nb; i++)
    {
        const Ty ty  = c.flip() ? Ty::A : Ty::S;
        const int sz = ty == Ty::A ? asz : 1;
        auto& P      = pool[ty == Ty::A];
        if (P.empty() || c.chance(1, 4)) P.push_back(ref::add_ext(m, ty, sz));
        if (c.chance(1, 4)) trig.push_back(ref::add_ext(m, Ty::B, 1));
        if (c.chance(1, 5)) trig.push_back(ref::add_node(m, Kind::Memory, Ty::B, 1, {c.pick(trig)}, {double(c.draw(2))}));
        if (c.chance(1, 5))
        {
            // a comparison of a signal
            const int s = c.pick(P);
            trig.push_back(ref::add_node(m, Kind::Fn, Ty::B, 1, {s}));
            m.nodes.back().fn.push_back(ref::gen_fn(c, 1));
        }
        const int x = c.flip() ? P.back() : c.pick(P);
        if (c.chance(1, 3)) late.emplace_back(int(m.nodes.size()), ty == Ty::A);
        P.push_back(ref::add_node(m, c.chance(1, 6) ? Kind::Integ : Kind::TrigInt, ty, sz, {x}, ref::gen_values(c, ty, sz)));
        if (m.nodes.back().kind == Kind::TrigInt) m.nodes.back().in.push_back(c.pick(trig));
        if (c.chance(1, 4))
        {
            P.push_back(ref::add_node(m, Kind::Gain, ty, sz, {P.back()}));
            m.nodes.back().par1 = c.moderate(2);
        }
    }
    for (auto& [k, l] : late) m.nodes[std::size_t(k)].in[0] = c.pick(pool[l]);
    if (!m.has(Kind::TrigInt))
    {
        auto& P = pool[pool[0].empty() ? 1 : 0];
        auto sp = m.sigs[std::size_t(P.back())];
        ref::add_node(m, Kind::TrigInt, sp.ty, sp.n, {P.back(), trig[0]}, ref::gen_values(c, sp.ty, sp.n));
    }
    ref::prune_exts(m);
    ref::GenOpts go;
    ref::gen_structure(c, m, go);
    auto p = lib::gen_plan(c, m, 10, true);
    lib::RunOpts o;
    uint64_t salt      = 0;
    const uint64_t inc = c.flip() ? 0x632be59bd9b4e019ULL : 0;
    const int density  = int(c.draw(4)); // 0: any; 1: rare; 2: frequent; 3: constant true
    const int ruin    = c.chance(1, 6) ? int(c.range(1, 4)) : 0;
    // proposals by script: rejected attempts and forced ones
    lib::ScriptedStepper script;
    const bool scripted = c.chance(1, 3);
    script.midpoint     = c.flip();
    // (the proposals of an adaptive solver are judged elsewhere)
    if (ruin && !scripted && p.method == ref::Method::Rkf45) p.method = ref::Method::Rk4;
    NOTE(ctx, m.describe() << p.describe());
    if (scripted)
    {
        script.proposal = [&](uint64_t k, double, double h)
        {
            const double u = (ref::table_values(seed, 1000, Ty::S, 1, double(k), false)[0] + 4) / 8;
            return u < 0.3 ? h / 2 : u < 0.6 ? h : 2 * h;
        };
        o.stepper          = &script;
        o.custom_proposals = true;
        o.step_override    = [&](const ref::Deriv& f, double a, const std::vector<ref::Num>& v0, double b)
        {
            ref::StepOut so;
            const ref::Num h = ref::Num(b) - ref::Num(a);
            auto k           = f(ref::Num(a), v0);
            if (script.midpoint)
            {
                auto v = v0;
                for (std::size_t i = 0; i < v.size(); i++) v[i] = v0[i] + h / ref::Num(2) * k[i];
                k = f(ref::Num(a) + h / ref::Num(2), v);
            }
            so.v1 = v0;
            for (std::size_t i = 0; i < v0.size(); i++) so.v1[i] = v0[i] + h * k[i];
            return so;
        };
    }
    o.after = [&](lib::Diagram&, double, const std::vector<double>&, const std::vector<lib::Attempt>&) { salt += inc; };
    o.ext   = [&](const ref::Ext& e, double t) -> std::vector<double>
    {
        auto& sp = m.sigs[std::size_t(e.sig)];
        if (sp.ty == Ty::B && density)
        {
            const double u = (ref::table_values(seed + salt, e.sig, Ty::S, 1, t, false)[0] + 4) / 8;
            return {density == 3 ? 1.0 : density == 1 ? (u < 0.2 ? 1.0 : 0.0) : (u < 0.8 ? 1.0 : 0.0)};
        }
        auto v = ref::table_values(seed + salt, e.sig, sp.ty, sp.n, t, false);
        // now and then an input that ruins the state, until the next restart
        if (ruin && (sp.ty == Ty::S || sp.ty == Ty::A) && ref::table_values(seed + salt, 1001 + e.sig, Ty::S, 1, t, false)[0] > 3)
        {
            v[std::size_t(e.sig) % v.size()] = ruin == 1 ? INFINITY : ruin == 2 ? -INFINITY : ruin == 3 ? NAN : 1e308;
            ctx.label("inputs that are not finite or huge");
        }
        return v;
    };
    std::vector<char> triggered;
    o.on_end = [&](lib::Diagram& d, double)
    {
        char any = 0;
        for (auto& n : m.nodes)
            if (n.kind == Kind::TrigInt)
            {
                const bool g = lib::read(d.sigs[std::size_t(n.in[1])]).x[0] != 0;
                any |= g;
                ctx.label(g ? "step ends with a true trigger" : "step ends with a false trigger");
            }
        triggered.push_back(any);
    };
    auto st = lib::run_against_reference(ctx, m, p, o);
    for (std::size_t i = 0; i + 1 < triggered.size(); i++)
        if (triggered[i])
        {
            ctx.nontrivial();
            break;
        }
    if (scripted) ctx.label("scripted proposals");
    if (st.rejected) ctx.label("rejected attempts", st.rejected);
    if (st.substeps) ctx.label("intermediate sub-steps", st.substeps);
    if (st.ambiguous) ctx.label("cut short: outcome hinges on rounding");
    ctx.label("values compared", st.compared);
}
