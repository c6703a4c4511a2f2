#include <cmath>

#include "lib.hpp"

#include "src/block/extra/add.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/integrator.hpp"

using ref::Num;
// (a) random diagrams with integrators against the reference; (b) order of convergence on linear systems with known solutions
namespace
{
// x' = M x, x in R^n, exact solution by a scaled Taylor series
std::vector<double> expm_apply(const std::vector<double>& M, int n, double t, std::vector<double> x)
{
    const int parts = 64;
    for (int q = 0; q < parts; q++)
    {
        std::vector<double> term = x;
        for (int k = 1; k < 14; k++)
        {
            std::vector<double> nt(std::size_t(n), 0.0);
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++) nt[std::size_t(i)] += M[std::size_t(i * n + j)] * term[std::size_t(j)];
            for (int i = 0; i < n; i++)
            {
                term[std::size_t(i)] = nt[std::size_t(i)] * (t / parts) / k;
                x[std::size_t(i)] += term[std::size_t(i)];
            }
        }
    }
    return x;
}

void convergence(pbt::Choices& c, pbt::Ctx& ctx)
{
    const int n     = int(c.range(1, 4));
    const auto meth = ref::Method(c.draw(3));
    const auto kind = lib::SimKind(c.draw(3));
    std::vector<double> M, x0;
    double norm = 0;
    for (int i = 0; i < n; i++)
    {
        double row = 0;
        for (int j = 0; j < n; j++)
        {
            M.push_back(c.uniform(-1, 1));
            row += std::fabs(M.back());
        }
        norm = std::max(norm, row);
        x0.push_back((c.flip() ? -1 : 1) * c.uniform(0.5, 2));
    }
    for (auto& x : M) x *= 1.0 / std::max(norm, 0.2);
    const double T = c.uniform(0.5, 2);
    NOTE(ctx, "  convergence of " << ref::method_name(meth) << " with " << lib::sim_name(kind) << ", dimension " << n << ", T=" << T);
    double prev_err = -1;
    const int order = meth == ref::Method::Euler ? 1 : 4;
    double xscale   = 1;
    for (int steps : {8, 16, 32})
    {
        pooya::Submodel root(nullptr, "root");
        std::vector<pooya::ScalarSignal> x, dx;
        std::vector<std::shared_ptr<pooya::Block>> keep;
        for (int i = 0; i < n; i++)
        {
            x.emplace_back();
            dx.emplace_back();
        }
        for (int i = 0; i < n; i++)
        {
            std::vector<pooya::Signal> terms;
            for (int j = 0; j < n; j++)
            {
                pooya::ScalarSignal s;
                auto g = std::make_shared<pooya::Gain>(M[std::size_t(i * n + j)]);
                root.add_block(*g, lib::make_bus(std::vector<pooya::Signal>{x[std::size_t(j)]}), lib::make_bus(std::vector<pooya::Signal>{s}));
                keep.push_back(g);
                terms.push_back(s);
            }
            auto a = std::make_shared<pooya::Add>();
            root.add_block(*a, lib::make_bus(terms), lib::make_bus(std::vector<pooya::Signal>{dx[std::size_t(i)]}));
            auto q = std::make_shared<pooya::Integrator>(x0[std::size_t(i)]);
            root.add_block(*q, lib::make_bus(std::vector<pooya::Signal>{dx[std::size_t(i)]}), lib::make_bus(std::vector<pooya::Signal>{x[std::size_t(i)]}));
            keep.push_back(a);
            keep.push_back(q);
        }
        auto st        = lib::make_stepper(meth);
        auto sim       = lib::make_sim(kind, root, nullptr, st.get());
        const double h = T / steps;
        double err     = 0;
        sim->init(0);
        for (int k = 0; k < steps; k++)
        {
            const double t = T * (k + 1) / steps;
            sim->run(t, 2 * h, 4 * h); // a single step
            auto ex = expm_apply(M, n, t, x0);
            for (int i = 0; i < n; i++)
            {
                err = std::max(err, std::fabs(x[std::size_t(i)]->get_value() - ex[std::size_t(i)]));
                xscale = std::max(xscale, std::fabs(ex[std::size_t(i)]));
                ctx.mix(x[std::size_t(i)]->get_value());
            }
        }
        if (prev_err >= 0)
            CHECK(ctx, err <= 1.6 * prev_err * std::pow(2.0, -order) + 1e-12 * xscale,
                  "halving the step to " << h << " changed the error from " << prev_err << " to " << err << ", less than a method of order " << order
                                         << " must");
        else
            CHECK(ctx, err <= (order == 1 ? 2.0 : 0.02) * xscale, "error " << err << " with " << steps << " steps");
        prev_err = err;
    }
    ctx.label(std::string("convergence of ") + ref::method_name(meth));
    ctx.nontrivial();
}
} // namespace

PROPERTY("C05", "random diagrams with integrators (scalar, array, chained, feedback, nested, user-declared state variables), solvers and run "
                "times against the reference; 1 in 16 cases measures the order of convergence on a random linear system instead; "
                "non-trivial: at least one state variable whose derivative depends on a signal, and values compared after initialisation")
{
    if (c.chance(1, 16))
    {
        convergence(c, ctx);
        return;
    }
    ref::GenOpts o;
    o.typical_nodes = 5;
    o.groups        = c.chance(1, 4);
    if (c.flip()) o.memories = o.delays = o.derivs = false;
    ref::Model m = ref::gen_model(c, o);
    if (m.num_states() == 0)
    {
        // make sure that there is an integrator, possibly in feedback
        std::vector<int> cand;
        for (std::size_t i = 0; i < m.sigs.size(); i++)
            if ((m.sigs[i].ty == ref::Ty::S || m.sigs[i].ty == ref::Ty::A) && (m.producer(int(i)) >= 0)) cand.push_back(int(i));
        ref::Node nd;
        nd.kind = ref::Kind::Integ;
        nd.name = "extra";
        if (cand.empty())
        {
            int x = m.add_sig(ref::Ty::S, 1);
            nd.in = nd.out = {x};
        }
        else
        {
            int s  = c.pick(cand);
            nd.ty  = m.sigs[std::size_t(s)].ty;
            nd.n   = m.sigs[std::size_t(s)].n;
            nd.in  = {s};
            nd.out = {m.add_sig(nd.ty, nd.n)};
        }
        for (int i = 0; i < nd.n; i++) nd.ic.push_back(c.moderate(3));
        m.nodes.push_back(nd);
        ref::gen_structure(c, m, o);
    }
    auto p = lib::gen_plan(c, m, 8, !m.has(ref::Kind::Delay));
    NOTE(ctx, m.describe() << p.describe());
    auto st = lib::run_against_reference(ctx, m, p);
    if (st.evals > 0 && st.compared > 0) ctx.nontrivial();
    ctx.label(std::string("sim ") + lib::sim_name(p.sim));
    ctx.label(std::string("solver ") + ref::method_name(p.method));
    if (m.sub_parent.size()) ctx.label("nested submodels");
    if (st.ambiguous) ctx.label("cut short: outcome hinges on rounding");
    ctx.label("state variables", uint64_t(m.num_states()));
    ctx.label("sub-steps", st.attempts);
    ctx.label("rejected sub-steps", st.rejected);
    ctx.label("values compared", st.compared);
    ctx.label("values not decidable", st.undecidable);
    for (auto& n : m.nodes)
        switch (n.kind)
        {
        case ref::Kind::Integ:
        case ref::Kind::TrigInt:
        case ref::Kind::UserState:
        case ref::Kind::UserStateA: ctx.label(std::string("block ") + ref::kind_name(n.kind) + " " + ref::ty_name(n.ty)); break;
        default: break;
        }
}
