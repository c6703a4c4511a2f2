#include "lib.hpp"

// Extra trial evaluations and rejected attempts must not change any value at an accepted step.
namespace
{
struct Script
{
    bool midpoint{false};
    struct Trial
    {
        int when; // 0: first, 1: middle, 2: last
        double frac, scale, shift;
    };
    std::vector<std::vector<Trial>> trials; // by attempt, cyclic
    bool propose_max{false};
    double reject_above{0};                 // reject longer attempts (once each) by proposing this length
    uint64_t rejected{0}, extra{0};
};

struct Trace
{
    std::vector<std::pair<double, lib::LSnap>> at_requests, at_ends;
};

class Stepper : public pooya::StepperBase
{
public:
    Script& s;
    uint64_t k{0};
    explicit Stepper(Script& sc) : s(sc) {}
    void step(StepperCallback callback, double t0, const pooya::Array& v0, double t1, pooya::Array& v1, double& new_h) override
    {
        if (k++ > 20000) throw pbt::Failure("the solver was asked for too many sub-steps");
        const double h = t1 - t0;
        auto trials    = [&](int when)
        {
            if (s.trials.empty()) return;
            for (auto& t : s.trials[k % s.trials.size()])
                if (t.when == when)
                {
                    const pooya::Array v = v0 * t.scale + t.shift;
                    callback(std::min(t0 + t.frac * h, t1), v);
                    s.extra++;
                }
        };
        trials(0);
        pooya::Array d = callback(t0, v0);
        trials(1);
        if (s.midpoint) d = callback(t0 + h / 2, v0 + (h / 2) * d);
        v1 = v0 + h * d;
        trials(2);
        new_h = s.propose_max ? 1e9 : h;
        if (s.reject_above > 0)
        {
            if (t1 > t0 + s.reject_above)
            {
                new_h = s.reject_above;
                s.rejected++;
            }
            else
                new_h = 1e9;
        }
    }
};

Trace go(const ref::Model& m, const lib::RunPlan& p, Script& s)
{
    Trace tr;
    lib::Diagram d(m);
    d.monitor = false;
    Stepper st(s);
    if (d.root) d.root->on_post = [&](double t) { tr.at_ends.emplace_back(t, d.snap()); };
    auto sim = lib::make_sim(p.sim, d.model(), d.callback(), &st);
    sim->init(p.t0);
    tr.at_requests.emplace_back(p.t0, d.snap());
    for (double t : p.times)
    {
        sim->run(t, p.min_step, p.max_step);
        tr.at_requests.emplace_back(t, d.snap());
    }
    return tr;
}
} // namespace

PROPERTY("C07", "random diagram with integrators and state-holding blocks, run twice over the same accepted steps: once plainly and once with random "
                "extra derivative evaluations (times within the step, arbitrary states) or with longer attempts that get rejected first; "
                "non-trivial: the diagram has a state-holding block besides integrators and at least one extra evaluation or rejection happened")
{
    ref::GenOpts o;
    o.typical_nodes = 8;
    ref::Model m    = ref::gen_model(c, o);
    if (m.num_states() == 0)
    {
        ref::Node nd;
        nd.kind = ref::Kind::Integ;
        nd.name = "extra";
        int x   = m.add_sig(ref::Ty::S, 1);
        nd.in = nd.out = {x};
        nd.ic          = {c.moderate(1)};
        m.nodes.push_back(nd);
        ref::gen_structure(c, m, o);
    }
    auto p = lib::gen_plan(c, m, 5, !m.has(ref::Kind::Delay));
    Script a, b;
    a.midpoint = b.midpoint = c.flip();
    auto gen_trials         = [&](Script& s)
    {
        int n = int(c.range(1, 4));
        for (int i = 0; i < n; i++)
        {
            std::vector<Script::Trial> v;
            int q = int(c.range(i == 0 ? 1 : 0, 3));
            for (int j = 0; j < q; j++)
            {
                Script::Trial t;
                t.when  = int(c.draw(3));
                t.frac  = c.oneof({0.0, 0.5, 1.0, -1.0});
                if (t.frac < 0) t.frac = c.unit();
                t.scale = c.oneof({1.0, 0.0, -2.0, 1.1});
                t.shift = c.moderate(5);
                v.push_back(t);
            }
            s.trials.push_back(v);
        }
    };
    auto pa = p, pb = p;
    const int what = int(c.draw(3));
    if (what != 1) gen_trials(b);
    if (what != 0)
    {
        // the accepted steps are those of length at most L; run b first attempts longer ones
        double longest = 0, prev = p.t0;
        for (double t : p.times)
        {
            longest = std::max(longest, t - prev);
            prev    = t;
        }
        if (longest == 0) longest = 1;
        const double L = longest / (c.flip() ? c.uniform(1, 6) : double(c.range(1, 6)));
        a.propose_max  = true;
        pa.max_step    = L;
        pa.min_step    = L * c.uniform(0.01, 0.9);
        pb.min_step    = pa.min_step;
        pb.max_step    = L * c.uniform(1.5, 8);
        b.reject_above = L;
    }
    NOTE(ctx, m.describe() << pa.describe());
    NOTE(ctx, "  second run: steps in [" << pb.min_step << ", " << pb.max_step << "], attempts longer than " << b.reject_above << " are rejected, "
                                         << b.trials.size() << " lists of trials");
    auto ta = go(m, pa, a), tb = go(m, pb, b);
    auto msg = lib::diff(m, ta.at_requests, tb.at_requests);
    CHECK(ctx, msg.empty(), "values differ although the accepted steps are the same: " << msg);
    msg = lib::diff(m, ta.at_ends, tb.at_ends);
    CHECK(ctx, msg.empty(), "values at step ends differ although the accepted steps are the same: " << msg);
    for (auto& [t, s] : tb.at_requests)
        for (auto& v : s)
            for (double x : v.x) ctx.mix(x);
    bool holder = false;
    for (auto& n : m.nodes)
        switch (n.kind)
        {
        case ref::Kind::Memory:
        case ref::Kind::Keep:
        case ref::Kind::Delay:
        case ref::Kind::Deriv:
        case ref::Kind::InitVal:
        case ref::Kind::TrigInt:
            holder = true;
            ctx.label(std::string("block ") + ref::kind_name(n.kind));
            break;
        default: break;
        }
    if (holder && (b.extra || b.rejected)) ctx.nontrivial();
    ctx.label("extra evaluations", b.extra);
    ctx.label("rejected attempts", b.rejected);
    ctx.label("step ends compared", ta.at_ends.size());
}
