#include "lib.hpp"

#include "src/block/leaf.hpp"

using ref::Num;
// Step control: the sub-steps that the solver is asked for, and the notifications that the blocks receive, under arbitrary
// sequences of requested times, limits and proposals.
namespace
{
class Probe : public pooya::Leaf
{
public:
    std::vector<double> pre, post;
    std::vector<lib::LSnap> at_post;
    std::function<lib::LSnap()> snap;
    Probe(pooya::Submodel* p, const std::string& n) : pooya::Leaf(p, n, 0, 0) {}
    void activation_function(double) override {}
    void pre_step(double t) override { pre.push_back(t); }
    void post_step(double t) override
    {
        post.push_back(t);
        at_post.push_back(snap());
    }
};

std::string list(const std::vector<double>& v)
{
    std::ostringstream o;
    o.precision(17);
    for (double x : v) o << x << " ";
    return o.str();
}
} // namespace

PROPERTY("C06", "random diagrams (mostly with integrators) advanced over random request times and step limits by a solver whose proposals follow "
                "a random script (keep, halve, double, tiny, huge, zero, at the limits) or by the library's own solvers; probe "
                "blocks at several places of the hierarchy log the notifications; non-trivial: at least 2 accepted sub-steps in one run() call")
{
    ref::GenOpts o;
    o.typical_nodes = 4;
    o.allow_bare    = false;
    if (c.chance(1, 12)) o.states = false;
    ref::Model m = ref::gen_model(c, o);
    if (o.states && m.num_states() == 0)
    {
        ref::Node nd;
        nd.kind = ref::Kind::Integ;
        nd.name = "extra";
        int x   = m.add_sig(ref::Ty::S, 1);
        nd.in = nd.out = {x};
        nd.ic          = {c.moderate(1)};
        m.nodes.push_back(nd);
        ref::gen_structure(c, m, o);
    }
    m.bare      = false;
    auto p      = lib::gen_plan(c, m, 5, !m.has(ref::Kind::Delay));
    bool script = m.num_states() && c.chance(3, 4);
    double longest = 0, prev = p.t0;
    for (double t : p.times)
    {
        longest = std::max(longest, t - prev);
        prev    = t;
    }
    if (longest == 0) longest = 1;
    if (m.num_states())
    {
        p.min_step = longest / double(c.range(1, 12));
        p.max_step = p.min_step * (c.flip() ? c.uniform(1.05, 6) : double(c.range(2, 8)));
    }
    p.default_limits = c.chance(1, 24);
    if (p.default_limits)
    {
        p.min_step = 1e-3;
        p.max_step = 1;
        if (c.flip())
        {
            // a request of several of the longest steps
            const double far = (p.times.empty() ? p.t0 : p.times.back()) + c.uniform(1, 4);
            p.times.push_back(far);
        }
        ctx.label("default limits");
    }
    lib::ScriptedStepper ss;
    ss.midpoint    = c.flip();
    auto props     = std::vector<std::pair<int, double>>();
    const int nscr = script ? int(c.range(1, 12)) : 0;
    for (int i = 0; i < nscr; i++) props.push_back({int(c.draw(9)), c.uniform(0.05, 4)});
    ss.proposal = [&](uint64_t k, double, double h) -> double
    {
        auto [what, f] = props[k % props.size()];
        // a script may not keep the solver busy forever
        if (k > 3000) return h;
        switch (what)
        {
        case 0: return h;
        case 1: return h / 2;
        case 2: return 2 * h;
        case 3: return h * f;
        case 4: return p.min_step;
        case 5: return p.max_step;
        case 6: return p.min_step / 3;
        case 7: return 1e9;
        default: return f > 2 ? 0 : h * 0.999;
        }
    };
    NOTE(ctx, m.describe() << p.describe());
    for (auto& [w, f] : props) NOTE(ctx, "  proposal " << w << " " << f);

    lib::RunOpts ro;
    if (script)
    {
        ro.stepper          = &ss;
        ro.custom_proposals = true;
        ro.step_override    = [&](const ref::Deriv& f, double t0, const std::vector<Num>& v0, double t1)
        {
            ref::StepOut so;
            const Num h = Num(t1) - Num(t0);
            auto k      = f(Num(t0), v0);
            auto ax     = [&](Num s, const std::vector<Num>& d)
            {
                auto r = v0;
                for (std::size_t i = 0; i < r.size(); i++) r[i] = r[i] + s * d[i];
                return r;
            };
            if (ss.midpoint) k = f(Num(t0) + h * Num(0.5), ax(h * Num(0.5), k));
            so.v1 = ax(h, k);
            return so;
        };
    }
    std::vector<std::shared_ptr<Probe>> probes;
    ro.prepare = [&](lib::Diagram& d)
    {
        auto add = [&](pooya::Submodel* s)
        {
            probes.push_back(std::make_shared<Probe>(s, "probe" + std::to_string(probes.size())));
            probes.back()->connect();
            probes.back()->snap = [&d] { return d.snap(); };
        };
        add(d.root.get());
        for (auto& s : d.subs) add(s.get());
    };
    bool first        = true;
    uint64_t max_subs = 0;
    double t_prev     = p.t0;
    ro.after          = [&](lib::Diagram&, double t, const std::vector<double>& ends, const std::vector<lib::Attempt>& log)
    {
        std::vector<double> starts;
        for (auto& a : log)
        {
            const double h = a.t1 - a.t0;
            CHECK(ctx, h <= p.max_step * (1 + 1e-9) + 1e-12, "attempted sub-step of length " << h << ", the maximum is " << p.max_step);
            CHECK(ctx, a.t1 == t || h >= p.min_step * (1 - 1e-9) - 1e-12, "attempted sub-step of length " << h << ", the minimum is " << p.min_step);
            starts.push_back(a.t0);
        }
        if (!first && log.empty()) starts = {t}; // no integrator, or a repeated time
        for (auto& pr : probes)
        {
            if (first)
            {
                CHECK(ctx, !pr->pre.empty(), "no start-of-step notification at the initialisation");
                for (double x : pr->pre) CHECK(ctx, x == t, "start-of-step notification at " << x << " during the initialisation at " << t);
            }
            else
                CHECK(ctx, pr->pre == starts,
                      pr->full_name().str() << " received start-of-step notifications at " << list(pr->pre) << "instead of " << list(starts));
            CHECK(ctx, pr->post.size() == ends.size(),
                  pr->full_name().str() << " received end-of-step notifications at " << list(pr->post) << "instead of " << list(ends));
            for (std::size_t i = 0; i < ends.size(); i++)
                CHECK(ctx, std::fabs(pr->post[i] - ends[i]) <= 1e-12 * (1 + std::fabs(ends[i])),
                      pr->full_name().str() << " received end-of-step notifications at " << list(pr->post) << "instead of " << list(ends));
            for (std::size_t i = 0; i < ends.size(); i++)
                CHECK(ctx, pr->at_post[i] == probes[0]->at_post[i], "two blocks saw different signal values at the same step end");
            CHECK(ctx, pr->post.back() == t, "the last end-of-step notification is at " << pr->post.back() << " instead of " << t);
            pr->pre.clear();
            pr->post.clear();
        }
        for (auto& pr : probes) pr->at_post.clear();
        if (!first) max_subs = std::max(max_subs, uint64_t(ends.size()));
        first  = false;
        t_prev = t;
    };
    auto st = lib::run_against_reference(ctx, m, p, ro);
    (void)t_prev;
    if (max_subs >= 2) ctx.nontrivial();
    if (st.rejected) ctx.label("cases with rejected sub-steps");
    if (st.ambiguous) ctx.label("cut short: outcome hinges on rounding");
    ctx.label("rejected sub-steps", st.rejected);
    ctx.label("attempted sub-steps", st.attempts);
    ctx.label(script ? "scripted proposals" : m.num_states() ? "library solver" : "no integrator");
}
