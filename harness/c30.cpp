#include <algorithm>

#include "lib.hpp"

// Nothing depends on where the origin of time lies.
using ref::Kind;
using ref::Ty;

namespace
{
lib::LibTrace go(const ref::Model& m, lib::RunPlan p, double shift, bool midpoint, const std::vector<double>& script)
{
    p.t0 += shift;
    for (auto& t : p.times) t += shift;
    lib::ScriptedStepper st;
    st.midpoint = midpoint;
    st.proposal = [&](uint64_t k, double, double h) { return script.empty() ? h : h * script[k % script.size()]; };
    auto own = lib::make_stepper(p.method);
    auto tr  = lib::run_library(m, p, p.method == ref::Method::Rkf45 ? &st : own.get(), [&](lib::Diagram& d) { d.shift = shift; });
    for (auto& [t, s] : tr.at_requests) t -= shift;
    for (auto& [t, s] : tr.at_ends) t -= shift;
    for (auto& a : tr.attempts)
    {
        a.t0 -= shift;
        a.t1 -= shift;
        for (auto& t : a.eval_t) t -= shift;
    }
    return tr;
}
} // namespace

PROPERTY("C30", "random diagram whose inputs and user functions are functions of the time since a point T, and a random run, on a time grid that is exact in floating point, with T "
                "= 0 and with a random T of either sign up to 2^20; all signals at all requests and step ends must be the same bit for bit; "
                "non-trivial: T is not 0, at least 2 blocks and at least 2 accepted steps")
{
    ref::GenOpts o;
    o.typical_nodes = 8;
    o.delays        = false; // their delays are not on the grid
    auto m          = ref::gen_model(c, o);
    const double g  = 0x1p-10; // all requested times are multiples of this
    const int nd    = int(c.weighted({2, 2, 1}));
    for (int i = 0; i < nd; i++)
    {
        std::vector<int> cand;
        for (std::size_t s = 0; s < m.sigs.size(); s++)
            if ((m.sigs[s].ty == Ty::S || m.sigs[s].ty == Ty::A) && m.producer(int(s)) >= 0) cand.push_back(int(s));
        if (cand.empty()) break;
        const int s = c.pick(cand);
        const Ty ty = m.sigs[std::size_t(s)].ty;
        const int n = m.sigs[std::size_t(s)].n;
        const double L = g * double(c.range(1, 3000));
        const int d    = ref::add_node(m, Kind::Const, Ty::S, 1, {}, {c.flip() ? L : g * std::floor(L / g * c.unit())});
        std::vector<int> same;
        for (int q : cand)
            if (m.sigs[std::size_t(q)].ty == ty && m.sigs[std::size_t(q)].n == n) same.push_back(q);
        ref::add_node(m, Kind::Delay, ty, n, {s, d, c.pick(same)});
        m.nodes.back().par1       = L;
        m.nodes.back().port_order = c.permutation(3);
    }
    ref::gen_structure(c, m, o);
    const bool repeats = !m.has(Kind::Delay);

    lib::RunPlan p;
    p.sim            = lib::SimKind(c.draw(3));
    p.method         = ref::Method(c.draw(3)); // (Rkf45: scripted)
    p.t0             = c.flip() ? 0 : g * double(c.range(-5000, 5000));
    const int n      = c.chance(1, 64) ? int(c.range(5, 100)) : int(c.range(1, 6));
    double t         = p.t0, longest = 0;
    const double reg = c.flip() ? g * double(c.range(1, 512)) : 0;
    for (int i = 0; i < n; i++)
    {
        const double d = reg > 0 ? reg : g * double(c.range(1, 1024));
        if (!(repeats && c.chance(1, 5)))
        {
            t += d;
            longest = std::max(longest, d);
        }
        p.times.push_back(t);
    }
    if (longest == 0) longest = 1;
    // multiples of g / 16
    p.min_step      = std::max(1.0, std::floor(longest / g * 16 / double(c.range(2, 20)))) * g / 16;
    p.max_step      = p.min_step * double(c.range(2, 20));
    p.explicit_init = c.flip();
    // proposals keep the lengths on the grid: 1, 2 (or more: clamped)
    std::vector<double> script;
    if (c.flip())
        for (int k = int(c.range(1, 5)); k > 0; k--) script.push_back(c.oneof({1.0, 2.0, 1e9, 1e-9}));
    const bool midpoint = c.flip();
    double T            = 0;
    switch (c.draw(4))
    {
    case 0: T = -p.t0; break;
    case 1: T = -t; break;
    case 2: T = g * double(c.range(-4096, 4096)); break;
    default: T = g * double(c.range(-(1 << 30), 1 << 30)); break;
    }
    NOTE(ctx, m.describe() << p.describe() << "  T = " << T << (p.method == ref::Method::Rkf45 ? " (scripted solver)" : ""));
    auto a   = go(m, p, 0, midpoint, script);
    auto b   = go(m, p, T, midpoint, script);
    auto msg = lib::diff(m, a.at_requests, b.at_requests);
    CHECK(ctx, msg.empty(), "shifting time by " << T << " changes values: " << msg);
    msg = lib::diff(m, a.at_ends, b.at_ends);
    CHECK(ctx, msg.empty(), "shifting time by " << T << " changes values at a step end: " << msg);
    CHECK(ctx, a.attempts.size() == b.attempts.size(), "shifting time by " << T << " changes the number of sub-steps from " << a.attempts.size() << " to " << b.attempts.size());
    for (std::size_t k = 0; k < a.attempts.size(); k++)
        CHECK(ctx, a.attempts[k].t0 == b.attempts[k].t0 && a.attempts[k].t1 == b.attempts[k].t1 && a.attempts[k].eval_t == b.attempts[k].eval_t,
              "shifting time by " << T << " changes sub-step " << k);
    for (auto& [tt, s] : a.at_requests)
        for (auto& x : s)
            for (double d : x.x) ctx.mix(d);
    if (T != 0 && m.nodes.size() >= 2 && t > p.t0 + longest / 2) ctx.nontrivial();
    if (m.num_states()) ctx.label("with states");
    if (m.has(Kind::Delay)) ctx.label("with delays");
    if (m.has(Kind::Deriv)) ctx.label("with derivatives");
    if (p.t0 + T < 0 && t + T > 0) ctx.label("passes time 0");
    ctx.label("snapshots compared", a.at_requests.size() + a.at_ends.size());
}
