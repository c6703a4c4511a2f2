#include "lib.hpp"

// Requests for later, equal and earlier times, and the two ways to initialise.
using ref::Kind;
namespace
{
struct World
{
    explicit World(const ref::Model& m, const lib::RunPlan& p, uint64_t seed, pbt::Ctx& ctx) : d(m), stepper(lib::make_stepper(p.method)), spy(*stepper)
    {
        d.monitor      = false;
        d.ext_override = [this, &m, seed](const ref::Ext& e, double t)
        {
            auto& sp = m.sigs[std::size_t(e.sig)];
            return ref::table_values(seed + salt, e.sig, sp.ty, sp.n, t, false);
        };
        if (d.root) d.root->on_post = [this](double t) { ends.push_back(t); };
        sim = lib::make_sim(p.sim, d.model(), d.callback(), m.num_states() ? &spy : nullptr);
        (void)ctx;
    }
    uint64_t salt{0};
    lib::Diagram d;
    std::shared_ptr<pooya::StepperBase> stepper;
    lib::SpyStepper spy;
    std::shared_ptr<pooya::SimulatorBase> sim;
    std::vector<double> ends;
};
} // namespace

PROPERTY("C23", "random diagrams (mostly with integrators, time-driven and arbitrary external inputs that change from call to call), initialised once explicitly and once by the "
                "first run; then random requests for later, equal and earlier times; refused requests must leave everything as it was, repeated ones keep the states and "
                "re-sample the inputs, and both diagrams (only one of which sees the refused requests) must stay bit-identical; also compared with the reference; "
                "non-trivial: at least one refused or repeated request and two later ones")
{
    ref::GenOpts o;
    o.typical_nodes = 7;
    ref::Model m    = ref::gen_model(c, o);
    if (m.num_states() == 0 && !c.chance(1, 8))
    {
        ref::Node nd;
        nd.kind = Kind::Integ;
        nd.name = "extra";
        int x   = m.add_sig(ref::Ty::S, 1);
        nd.in = nd.out = {x};
        nd.ic          = {c.moderate(1)};
        m.nodes.push_back(nd);
        ref::gen_structure(c, m, o);
    }
    const bool states  = m.num_states() > 0;
    const bool repeats = !m.has(Kind::Delay);
    auto p             = lib::gen_plan(c, m, 5, false);
    const uint64_t seed = c.draw(0);
    struct Op
    {
        int what; // 0 later, 1 equal, 2 earlier, 3 initialise again
        double t;
    };
    std::vector<Op> ops;
    double t = p.t0;
    auto maybe = [&]
    {
        while (c.chance(1, 3))
        {
            if (repeats && c.flip())
                ops.push_back({1, t});
            else if (states)
                ops.push_back({2, c.oneof({t - c.uniform(1e-9, 3), p.t0 - 1, std::nextafter(t, -1e300), t - 1e6})});
            else
                break;
        }
    };
    maybe();
    for (double x : p.times)
    {
        if (c.chance(1, 10))
        {
            t += (x - t) * c.uniform(0.1, 0.9);
            ops.push_back({3, t});
            maybe();
        }
        t = x;
        ops.push_back({0, x});
        maybe();
    }
    NOTE(ctx, m.describe() << p.describe());
    if (ctx.verbose)
    {
        ctx.text << "  requests:";
        for (auto& q : ops) ctx.text << " " << (q.what == 3 ? "initialise:" : q.what == 2 ? "earlier:" : q.what == 1 ? "again:" : "") << q.t;
        ctx.text << "\n";
        ctx.flush_text();
    }
    World a(m, p, seed, ctx), b(m, p, seed, ctx);
    const std::size_t depth = lib::trace_depth();
    auto same = [&](const char* what)
    {
        auto msg = lib::diff(m, {{0.0, a.d.snap()}}, {{0.0, b.d.snap()}});
        CHECK(ctx, msg.empty(), what << ": " << msg);
        CHECK(ctx, a.ends == b.ends, what << ": the accepted steps differ");
        CHECK(ctx, lib::trace_depth() == depth, what << ": the diagnostic trace is left unbalanced");
    };
    a.sim->init(p.t0);
    // (the step limits mean nothing to the first run)
    if (c.flip())
        b.sim->run(p.t0);
    else
        b.sim->run(p.t0, p.min_step, p.max_step);
    same("after the explicit and the implicit initialisation");
    CHECK(ctx, a.spy.log.empty() && b.spy.log.empty(), "an initialisation took steps");
    uint64_t later = 0, again = 0, earlier = 0;
    bool triggered = false, restarted = false;
    auto state_signals = [&]
    {
        std::vector<int> v;
        for (auto& n : m.nodes)
            switch (n.kind)
            {
            case Kind::Integ:
            case Kind::UserStateA: v.push_back(n.out[0]); break;
            case Kind::UserState:
                v.push_back(n.out[0]);
                v.push_back(n.out[1]);
                break;
            case Kind::TrigInt:
            {
                // restarts from zero if it was triggered
                auto tr   = lib::read(a.d.sigs[std::size_t(n.in[1])]);
                triggered = tr.assigned && tr.x[0] != 0;
                if (!triggered) v.push_back(n.out[0]);
                break;
            }
            default: break;
            }
        return v;
    };
    for (auto& q : ops)
    {
        auto before          = a.d.snap();
        const auto ends      = a.ends.size();
        const auto keep      = state_signals();
        if (q.what == 2)
        {
            bool threw = false;
            try
            {
                a.sim->run(q.t, p.min_step, p.max_step);
            }
            catch (const std::runtime_error&)
            {
                threw = true;
            }
            CHECK(ctx, threw, "a run back to t=" << q.t << " was not refused");
            auto now = a.d.snap();
            for (std::size_t s = 0; s < m.sigs.size(); s++)
                CHECK(ctx, now[s] == before[s], "a refused run changed signal " << m.sigs[s].name << " from " << lib::show(before[s]) << " to " << lib::show(now[s]));
            CHECK(ctx, a.ends.size() == ends, "a refused run completed a step");
            same("after a refused run");
            earlier++;
            continue;
        }
        a.salt += 0x632be59bd9b4e019ULL;
        b.salt = a.salt;
        if (q.what == 3)
        {
            // a new start with what the blocks hold, as with a new simulator
            a.sim->init(q.t);
            b.sim = lib::make_sim(p.sim, b.d.model(), b.d.callback(), states ? &b.spy : nullptr);
            b.sim->init(q.t);
            same("after another initialisation");
            ctx.label("initialised again");
            restarted = true;
            continue;
        }
        a.sim->run(q.t, p.min_step, p.max_step);
        b.sim->run(q.t, p.min_step, p.max_step);
        same(q.what ? "after a repeated run" : "after a run");
        if (m.bare) continue;
        CHECK(ctx, a.ends.size() > ends && a.ends.back() == q.t, "a run to t=" << q.t << " ended at " << (a.ends.empty() ? NAN : a.ends.back()));
        if (q.what == 1)
        {
            auto now = a.d.snap();
            for (int s : keep)
                CHECK(ctx, now[std::size_t(s)] == before[std::size_t(s)], "running to the current time again changed the state " << m.sigs[std::size_t(s)].name << " from "
                                                                                    << lib::show(before[std::size_t(s)]) << " to " << lib::show(now[std::size_t(s)]));
            CHECK(ctx, a.ends.size() == ends + 1, "running to the current time again took steps");
            again++;
        }
        else
            later++;
        for (auto& e : m.exts)
        {
            auto got = lib::read(a.d.sigs[std::size_t(e.sig)]);
            auto w   = a.d.ext_override(e, q.t);
            CHECK(ctx, got.assigned && got.x == w, "the external input " << m.sigs[std::size_t(e.sig)].name << " is " << lib::show(got) << " after the run to t=" << q.t
                                                                         << ", not what the callback writes at that time");
        }
    }
    for (auto& v : a.d.snap())
        for (double x : v.x) ctx.mix(x);
    // the same requests (without the refused ones) against the reference
    auto pr = p;
    pr.times.clear();
    for (auto& q : ops)
        if (q.what != 2) pr.times.push_back(q.t);
    if (!pr.times.empty() && !restarted && c.flip())
    {
        auto st = lib::run_against_reference(ctx, m, pr);
        ctx.label("values compared with the reference", st.compared);
    }
    if (later >= 2 && again + earlier) ctx.nontrivial();
    ctx.label("later", later);
    ctx.label("repeated", again);
    ctx.label("refused", earlier);
    if (!states) ctx.label("no states");
}
