#include <numeric>

#include "lib.hpp"

// A diagram of array blocks against diagrams of scalar blocks for its elements.
using ref::Kind;
using ref::Ty;
namespace
{
// the scalar counterpart for the given elements; back[k] tells which signal and element of the array diagram signal k is
ref::Model expand(const ref::Model& m, const std::vector<int>& elems, std::vector<std::pair<int, int>>& back)
{
    ref::Model r;
    std::vector<std::vector<int>> at(m.sigs.size()); // [signal][position in elems]
    for (std::size_t s = 0; s < m.sigs.size(); s++)
    {
        const bool A = m.sigs[s].ty == Ty::A;
        for (std::size_t k = 0; k < elems.size(); k++)
        {
            if (k && !A)
            {
                at[s].push_back(at[s][0]);
                continue;
            }
            at[s].push_back(r.add_sig(A ? Ty::S : m.sigs[s].ty, 1));
            r.sigs.back().bound = m.sigs[s].bound;
            back.emplace_back(int(s), A ? elems[k] : 0);
        }
    }
    auto name = [&](const std::string& n, std::size_t k) { return n + "e" + std::to_string(elems[k]); };
    for (auto& n : m.nodes)
    {
        const bool A = n.ty == Ty::A;
        for (std::size_t k = 0; k < elems.size(); k++)
        {
            if (k && !A) break;
            auto q = n;
            for (int& s : q.in) s = at[std::size_t(s)][k];
            for (int& s : q.out) s = at[std::size_t(s)][k];
            if (A)
            {
                q.name = name(n.name, k);
                q.ty   = Ty::S;
                q.n    = 1;
                if (!q.ic.empty()) q.ic = {n.ic[std::size_t(elems[k])]};
                if (q.kind == Kind::Source)
                {
                    q.fn[0].form = 0;
                    q.fn[0].b += 0.75 * elems[k];
                    q.fn[0].p += elems[k] * n.fn[0].q;
                }
            }
            r.nodes.push_back(q);
        }
    }
    for (auto& e : m.exts)
        for (std::size_t k = 0; k < elems.size(); k++)
        {
            if (k && m.sigs[std::size_t(e.sig)].ty != Ty::A) break;
            auto q = e;
            q.sig  = at[std::size_t(e.sig)][k];
            r.exts.push_back(q);
        }
    return r;
}

struct Trace
{
    std::vector<std::pair<double, lib::LSnap>> all; // step ends (requests, if there is no root)
    std::vector<std::pair<double, lib::LSnap>> requests;
    std::vector<std::vector<lib::Attempt>> logs;
};

Trace go(const ref::Model& m, const lib::RunPlan& p, const std::function<std::vector<double>(int, double, int)>& input, const std::vector<std::pair<int, int>>& back)
{
    Trace tr;
    lib::Diagram d(m);
    d.monitor  = false;
    int call   = 0;
    d.ext_override = [&](const ref::Ext& e, double t)
    {
        auto [s, i] = back[std::size_t(e.sig)];
        auto v      = input(s, t, call);
        if (m.sigs[std::size_t(e.sig)].ty == Ty::A) return v;
        return std::vector<double>{v.at(std::size_t(i))};
    };
    auto st = lib::make_stepper(p.method);
    lib::SpyStepper spy(*st);
    if (d.root) d.root->on_post = [&](double t) { tr.all.emplace_back(t, d.snap()); };
    auto sim   = lib::make_sim(p.sim, d.model(), d.callback(), m.num_states() ? &spy : nullptr);
    auto after = [&](double t)
    {
        if (!d.root) tr.all.emplace_back(t, d.snap());
        tr.requests.emplace_back(t, d.snap());
        tr.logs.push_back(spy.log);
        spy.log.clear();
        call++;
    };
    if (p.explicit_init)
        sim->init(p.t0);
    else
        sim->run(p.t0, p.min_step, p.max_step);
    after(p.t0);
    for (double t : p.times)
    {
        sim->run(t, p.min_step, p.max_step);
        after(t);
    }
    return tr;
}
} // namespace

PROPERTY("C25", "random networks of array blocks that exist in both variants (1-40 elements, feedback through states and memories, shared triggers and delays, "
                "arbitrary external inputs) against networks of scalar blocks: one diagram per element or one for all, other structure and simulator; "
                "every element at every step end, up to rounding; non-trivial: at least 2 elements, 2 array blocks and one later step")
{
    ref::Model m;
    const uint64_t seed = c.draw(0);
    const int n         = c.big(1, 4, 40, 200, 64);
    const int nb        = c.big(1, 5, 20, 80, 64);
    std::vector<int> pool, trig, dly;
    std::vector<std::pair<int, int>> late; // node: may be fed back
    for (int i = int(c.weighted({1, 3, 2})); i > 0; i--) pool.push_back(ref::add_ext(m, Ty::A, n));
    auto some = [&]
    {
        if (pool.empty() || c.chance(1, 12)) pool.push_back(ref::add_ext(m, Ty::A, n));
        return c.flip() ? pool.back() : c.pick(pool);
    };
    auto values = [&] { return ref::gen_values(c, Ty::A, n); };
    bool delays = false;
    for (int i = 0; i < nb; i++)
    {
        int out = -1;
        switch (c.weighted({3, 2, 2, 1, 2, 2, 1, 1, 2, 3, 2, 2, 2, 4, 3}))
        {
        case 0:
        case 1:
        {
            std::vector<int> in;
            for (int k = int(c.range(1, 4)); k > 0; k--) in.push_back(some());
            const bool add = c.flip();
            out            = ref::add_node(m, add ? Kind::Add : Kind::Mul, Ty::A, n, in, values());
            break;
        }
        case 2:
        {
            const int a = some(), b = some();
            out         = ref::add_node(m, Kind::Sub, Ty::A, n, {a, b});
            break;
        }
        case 3:
        {
            const int a = some(), b = some();
            out         = ref::add_node(m, Kind::Div, Ty::A, n, {a, b});
            break;
        }
        case 4:
            out                 = ref::add_node(m, Kind::Gain, Ty::A, n, {some()});
            m.nodes.back().par1 = c.moderate(2);
            break;
        case 5: out = ref::add_node(m, Kind::Const, Ty::A, n, {}, values()); break;
        case 6:
            out = ref::add_node(m, Kind::Source, Ty::A, n, {});
            m.nodes.back().fn.push_back(ref::gen_fn(c, 0));
            break;
        case 7: out = ref::add_node(m, Kind::Pipe, Ty::A, n, {some()}); break;
        case 8:
            out = ref::add_node(m, Kind::SisoFn, Ty::A, n, {some()});
            m.nodes.back().fn.push_back(ref::gen_fn(c, 1));
            break;
        case 9:
            late.emplace_back(int(m.nodes.size()), 0);
            out = ref::add_node(m, Kind::Memory, Ty::A, n, {some()}, values());
            break;
        case 10:
        {
            if (dly.empty() || c.chance(1, 3)) dly.push_back(ref::add_ext(m, Ty::S, 1));
            const int x = some(), y = some();
            out                       = ref::add_node(m, Kind::Delay, Ty::A, n, {x, c.pick(dly), y});
            m.nodes.back().par1       = c.oneof({4.0, 5.0, 8.0, 100.0});
            m.nodes.back().port_order = c.permutation(3);
            delays                    = true;
            break;
        }
        case 11: out = ref::add_node(m, Kind::Deriv, Ty::A, n, {some()}, values()); break;
        case 12: out = ref::add_node(m, Kind::InitVal, Ty::A, n, {some()}); break;
        case 13:
            late.emplace_back(int(m.nodes.size()), 0);
            out = ref::add_node(m, Kind::Integ, Ty::A, n, {some()}, values());
            break;
        default:
            if (trig.empty() || c.chance(1, 4)) trig.push_back(ref::add_ext(m, Ty::B, 1));
            late.emplace_back(int(m.nodes.size()), 0);
            out = ref::add_node(m, Kind::TrigInt, Ty::A, n, {some()}, values());
            m.nodes.back().in.push_back(c.pick(trig));
        }
        pool.push_back(out);
    }
    for (auto& l : late)
        if (c.flip()) m.nodes[std::size_t(l.first)].in[0] = c.pick(pool);
    ref::prune_exts(m);
    ref::GenOpts go_;
    ref::gen_structure(c, m, go_);
    auto p   = lib::gen_plan(c, m, 8, !delays);
    p.method = c.flip() ? ref::Method::Rk4 : ref::Method::Euler;
    NOTE(ctx, m.describe() << p.describe());
    const bool smooth = c.flip(), changing = c.flip();
    auto input        = [&](int s, double t, int call)
    {
        auto& sp = m.sigs[std::size_t(s)];
        if (sp.ty == Ty::S) // a delay
            return std::vector<double>{std::fabs(ref::table_values(seed, s, Ty::S, 1, t, false)[0])};
        if (sp.ty == Ty::A && smooth)
        {
            auto v = ref::table_values(seed, s, Ty::A, sp.n, 0, false);
            for (std::size_t i = 0; i < v.size(); i++) v[i] = std::sin(v[i] * t + double(i));
            return v;
        }
        return ref::table_values(seed + (changing ? uint64_t(call) * 0x632be59bd9b4e019ULL : 0), s, sp.ty, sp.n, t, false);
    };
    std::vector<std::pair<int, int>> ident;
    for (std::size_t s = 0; s < m.sigs.size(); s++) ident.emplace_back(int(s), 0);
    auto ta = go(m, p, input, ident);
    // the rounding errors to be expected
    lib::RefRun rr(m, p.method, m.num_states() == 0);
    int call             = 0;
    rr.in.ext_override   = [&](const ref::Ext& e, ref::Num t)
    {
        auto v = input(e.sig, t.v, call);
        return std::vector<ref::Num>(v.begin(), v.end());
    };
    std::vector<std::pair<double, ref::Snap>> bounds;
    bool ambiguous = false;
    try
    {
        lib::RunStats st;
        for (std::size_t k = 0; k <= p.times.size(); k++)
        {
            std::size_t pos = 0;
            rr.ends.clear();
            if (k == 0)
                rr.init(p.t0);
            else
                rr.run(p.times[k - 1], p.min_step, p.max_step, ta.logs[k], pos, st);
            if (m.bare) rr.ends.erase(rr.ends.begin(), rr.ends.end() - 1);
            for (auto& e : rr.ends) bounds.push_back(e);
            call++;
        }
        CHECK(ctx, bounds.size() == ta.all.size(), "the array diagram has " << ta.all.size() << " step ends instead of " << bounds.size());
    }
    catch (const ref::Ambiguous&)
    {
        ambiguous = true;
    }
    std::vector<std::vector<int>> runs;
    if (c.flip())
    {
        runs.emplace_back(std::size_t(n));
        std::iota(runs[0].begin(), runs[0].end(), 0);
        ctx.label("one scalar diagram");
    }
    else
    {
        for (int i = 0; i < n; i++)
            if (n <= 6 || i == 0 || i == n - 1 || c.chance(1, 4)) runs.push_back({i});
        ctx.label("one scalar diagram per element", runs.size());
    }
    uint64_t compared = 0, undecidable = 0;
    for (auto& elems : runs)
    {
        std::vector<std::pair<int, int>> back;
        auto ms  = expand(m, elems, back);
        ref::gen_structure(c, ms, go_);
        auto ps = p;
        ps.sim  = lib::SimKind(c.draw(3));
        if (m.bare) ms.bare = false;
        auto tb = go(ms, ps, input, back);
        // without a root there are no notifications of step ends
        const auto &xa = m.bare || ms.bare ? ta.requests : ta.all, &xb = m.bare || ms.bare ? tb.requests : tb.all;
        CHECK(ctx, xa.size() == xb.size(), "the array diagram has " << xa.size() << " step ends, the scalar one " << xb.size());
        if (ambiguous) continue;
        std::size_t bi = 0;
        for (std::size_t k = 0; k < xa.size(); k++)
        {
            CHECK(ctx, xa[k].first == xb[k].first, "step ends differ: " << xa[k].first << " vs " << xb[k].first);
            // the bounds have all the step ends; requests are the last ones at their time
            if (&xa == &ta.all)
                bi = k;
            else
            {
                bi = 0;
                std::size_t want = k;
                // k-th request: with a bare array diagram the bounds are already one per request
                if (m.bare)
                    bi = want;
                else
                {
                    std::size_t seen = 0, from = 0;
                    for (std::size_t q = 0; q <= want; q++)
                    {
                        const double tq = q == 0 ? p.t0 : p.times[q - 1];
                        for (seen = from; seen < bounds.size() && bounds[seen].first != tq; seen++) {}
                        from = seen + 1;
                    }
                    bi = seen;
                }
            }
            CHECK(ctx, bi < bounds.size() && bounds[bi].first == xa[k].first, "a step end is missing");
            for (std::size_t s = 0; s < ms.sigs.size(); s++)
            {
                auto [o, i] = back[s];
                auto &va = xa[k].second[std::size_t(o)], &vb = xb[k].second[s];
                CHECK(ctx, va.assigned == vb.assigned, "signal " << m.sigs[std::size_t(o)].name << " at t=" << xa[k].first << " is " << (va.assigned ? "" : "not ")
                                                                 << "assigned in the array diagram only or in the scalar one only");
                if (!va.assigned) continue;
                CHECK(ctx, vb.x.size() == 1 && std::size_t(i) < va.x.size() && va.x.size() == std::size_t(m.sigs[std::size_t(o)].n), "wrong size");
                const double a = va.x[std::size_t(i)], b = vb.x[0];
                auto& w = bounds[bi].second[std::size_t(o)];
                if (!w.assigned || !ref::usable(w.x[std::size_t(i)]))
                {
                    undecidable++;
                    continue;
                }
                compared++;
                CHECK(ctx, a == b || (a != a && b != b) || ref::close(ref::Num(a, 2 * w.x[std::size_t(i)].e + 1e-18 + 1e-17 * std::fabs(a)), b),
                      "element " << i << " of " << m.sigs[std::size_t(o)].name << " at t=" << xa[k].first << " is " << a << ", the scalar diagram gives " << b << " (+-"
                                 << 2e3 * w.x[std::size_t(i)].e << ")");
            }
        }
    }
    for (auto& [t, s] : ta.requests)
        for (auto& v : s)
            for (double x : v.x) ctx.mix(x);
    if (n >= 2 && m.nodes.size() >= 2 && !ambiguous) ctx.nontrivial();
    for (auto& q : m.nodes) ctx.label(std::string("block ") + ref::kind_name(q.kind));
    ctx.label("elements compared", compared);
    ctx.label("elements out of reach of the comparison", undecidable);
    if (ambiguous) ctx.label("decided by rounding");
}
