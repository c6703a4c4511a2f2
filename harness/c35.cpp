#include <algorithm>

#include "lib.hpp"

// How a simulation is cut into requests does not matter, as long as the sub-steps are the same.
using ref::Kind;
using ref::Ty;

PROPERTY("C35", "random diagrams with states, run over a grid of sub-steps of one length, with a random set of grid times requested, and with another one (and any of the three simulators); "
                "all signals at all common step ends must be the same bit for bit; non-trivial: one of the runs goes over a time that the other one requests, and at least 3 blocks")
{
    ref::GenOpts o;
    o.typical_nodes = 8;
    o.allow_bare    = false;
    auto m          = ref::gen_model(c, o);
    if (m.num_states() == 0)
    {
        ref::add_node(m, Kind::Integ, Ty::S, 1, {ref::add_ext(m, Ty::S, 1)}, {c.moderate(2)});
        m.exts.back().fn = ref::gen_fn(c, 0);
        ref::gen_structure(c, m, o);
    }
    const double H = c.oneof({0.125, 0.25, 0.0625, 0.5});
    const double t0 = c.flip() ? 0 : H * double(c.range(-40, 40));
    const int n     = c.chance(1, 64) ? int(c.range(2, 300)) : int(c.range(2, 12));
    lib::RunPlan p[2];
    // a longer proposal than the limit is cut to it
    const bool scripted = c.chance(1, 3);
    const auto method   = scripted ? ref::Method::Rkf45 : ref::Method(c.draw(2));
    const bool midpoint = c.flip();
    const double tail   = c.flip() ? H * c.oneof({0.5, 0.25, 0.125, 1. / 64, c.uniform(0.001, 0.9)}) : 0; // a shorter last step, possibly shorter than the minimum
    std::vector<char> req[2];
    for (int k = 0; k < 2; k++)
    {
        p[k].sim           = lib::SimKind(c.draw(3));
        p[k].method        = method;
        p[k].t0            = t0;
        p[k].max_step      = H;
        p[k].min_step      = H / double(c.range(2, 20));
        p[k].explicit_init = c.flip();
        const unsigned den = unsigned(c.range(2, 6));
        for (int i = 1; i <= n; i++)
        {
            const bool r = (i == n && tail == 0) || (k == 0 ? c.chance(1, den) : c.flip());
            req[k].push_back(r);
            if (r) p[k].times.push_back(t0 + H * i);
        }
        if (tail > 0) p[k].times.push_back(t0 + H * n + tail);
    }
    NOTE(ctx, m.describe() << p[0].describe() << p[1].describe() << (scripted ? "  scripted solver" : ""));
    lib::LibTrace tr[2];
    for (int k = 0; k < 2; k++)
    {
        lib::ScriptedStepper st;
        st.midpoint = midpoint;
        st.proposal = [&](uint64_t i, double, double h) { return i % 3 ? h * 3 : h; };
        tr[k]       = lib::run_library(m, p[k], scripted ? &st : nullptr);
    }
    CHECK(ctx, tr[0].attempts.size() == tr[1].attempts.size(), tr[0].attempts.size() << " sub-steps instead of " << tr[1].attempts.size() << ", depending on the requests");
    for (std::size_t i = 0; i < tr[0].attempts.size(); i++)
    {
        auto &a = tr[0].attempts[i], &b = tr[1].attempts[i];
        CHECK(ctx, a.t0 == b.t0 && a.t1 == b.t1 && a.eval_t == b.eval_t, "sub-step " << i << " depends on the requests");
    }
    auto msg = lib::diff(m, tr[0].at_ends, tr[1].at_ends);
    CHECK(ctx, msg.empty(), "values at a step end depend on what times are requested: " << msg);
    // after the return of a call, everything is as at that step's end
    for (int k = 0; k < 2; k++)
        for (auto& [t, s] : tr[k].at_requests)
        {
            bool found = false;
            for (auto& [te, se] : tr[1 - k].at_ends)
                if (te == t && !found)
                {
                    found = true;
                    auto one = lib::diff(m, {{t, s}}, {{te, se}});
                    CHECK(ctx, one.empty(), "values after the request of t=" << t << " are not those of a run that passes it: " << one);
                }
            CHECK(ctx, found, "the run that passes t=" << t << " has no step end there");
            for (auto& x : s)
                for (double v : x.x) ctx.mix(v);
        }
    std::size_t passed = 0;
    for (int i = 0; i < n; i++) passed += req[0][std::size_t(i)] != req[1][std::size_t(i)];
    ctx.label("times requested by one of the runs only", passed);
    ctx.label("step ends compared", tr[0].at_ends.size());
    if (passed && m.nodes.size() >= 3) ctx.nontrivial();
}
