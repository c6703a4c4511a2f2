#include <algorithm>

#include <Eigen/Dense>

#include "lib.hpp"

// The solution approximates the exact solution of the differential equations that the diagram draws, and converges to it at the order of the method.
using ref::Kind;
using ref::Ty;

namespace
{
using LMat = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
using LVec = Eigen::Matrix<long double, Eigen::Dynamic, 1>;

LMat expm(const LMat& a)
{
    long double n = a.cwiseAbs().colwise().sum().maxCoeff();
    int s         = 0;
    while (n > 0.125L) n /= 2, s++;
    LMat b = a / std::pow(2.0L, s), r = LMat::Identity(a.rows(), a.cols()), p = r;
    for (int k = 1; k < 24; k++)
    {
        p = (p * b / (long double)(k)).eval();
        r += p;
    }
    for (; s > 0; s--) r = (r * r).eval();
    return r;
}
} // namespace

PROPERTY("C34", "random linear systems x' = A x + B u(t) of 1-4 unknowns (scalars, or arrays of 1-4), with sines, ramps and constants as inputs, drawn as diagrams of integrators, gains, adders, "
                "subtractors, products and dividers by constants, and sources, in random submodels and order; solved by every method with three step limits; compared with the exact "
                "solution (matrix exponential in extended precision) within a bound of the method's order; non-trivial: at least 8 sub-steps and a state that is not constant")
{
    const int d   = c.size(1, 2, 4);
    const bool A  = c.chance(1, 3);
    const int n   = A ? int(c.range(1, 4)) : 1; // elements
    const Ty ty   = A ? Ty::A : Ty::S;
    ref::Model m;
    // inputs: sine (with phase by element), ramp, constant
    struct In
    {
        int kind;
        ref::FnPar f;
        std::vector<double> k;
        int sig;
    };
    std::vector<In> ins;
    const int nu = int(c.draw(4));
    for (int i = 0; i < nu; i++)
    {
        In u;
        u.kind = int(c.draw(A ? 2 : 3)); // (ramps only as scalars)
        if (u.kind == 2)
        {
            u.f.form = 1;
            u.f.b    = c.moderate(2);
            u.f.q    = c.moderate(2);
        }
        else if (u.kind == 0)
        {
            u.f.form = 0;
            u.f.a    = c.moderate(2);
            u.f.b    = c.moderate(2);
            u.f.w    = c.uniform(-2, 2);
            u.f.p    = c.moderate(2);
            u.f.q    = A ? c.moderate(2) : 0;
        }
        else
            u.k = ref::gen_values(c, ty, n);
        if (u.kind == 1)
            u.sig = ref::add_node(m, Kind::Const, ty, n, {}, u.k);
        else if (c.flip())
        {
            u.sig = ref::add_node(m, Kind::Source, ty, n, {});
            m.nodes.back().fn.push_back(u.f);
        }
        else
        {
            u.sig               = ref::add_ext(m, ty, n);
            m.exts.back().fn    = u.f;
            m.exts.back().hook  = false;
        }
        ins.push_back(u);
    }
    // states
    std::vector<int> x, integ;
    std::vector<std::vector<double>> x0;
    for (int i = 0; i < d; i++)
    {
        x0.push_back(ref::gen_values(c, ty, n));
        x.push_back(ref::add_node(m, Kind::Integ, ty, n, {-1}, x0.back()));
        integ.push_back(int(m.nodes.size()) - 1);
    }
    LMat a = LMat::Zero(d, d), b = LMat::Zero(d, nu);
    for (int i = 0; i < d; i++)
    {
        std::vector<std::pair<int, double>> terms; // signal, factor
        for (int j = 0; j < d; j++)
            if (c.flip()) terms.emplace_back(x[std::size_t(j)], double(a(i, j) = c.flip() ? c.oneof({1.0, -1.0}) : c.moderate(2)));
        for (int j = 0; j < nu; j++)
            if (c.flip()) terms.emplace_back(ins[std::size_t(j)].sig, double(b(i, j) = c.flip() ? c.oneof({1.0, -1.0}) : c.moderate(2)));
        // the sum of the terms
        std::vector<int> pos, neg;
        for (auto& [s, f] : terms)
        {
            if (f == 1 && c.flip())
                pos.push_back(s);
            else if (f == -1 && c.flip())
                neg.push_back(s);
            else
                switch (c.draw(3))
                {
                case 0:
                    pos.push_back(ref::add_node(m, Kind::Gain, ty, n, {s}));
                    m.nodes.back().par1 = f;
                    break;
                case 1:
                {
                    const int k = ref::add_node(m, Kind::Const, ty, n, {}, std::vector<double>(std::size_t(n), f));
                    auto in     = c.flip() ? std::vector<int>{s, k} : std::vector<int>{k, s};
                    pos.push_back(ref::add_node(m, Kind::Mul, ty, n, in, std::vector<double>(std::size_t(n), 1.0)));
                    break;
                }
                default:
                {
                    if (f == 0)
                    {
                        pos.push_back(ref::add_node(m, Kind::Sub, ty, n, {s, s}));
                        break;
                    }
                    const int k = ref::add_node(m, Kind::Const, ty, n, {}, std::vector<double>(std::size_t(n), 1 / f));
                    pos.push_back(ref::add_node(m, Kind::Div, ty, n, {s, k}));
                }
                }
        }
        int sum = -1;
        if (pos.size() == 1 && c.flip())
            sum = pos[0];
        else
        {
            if (pos.empty()) pos.push_back(ref::add_node(m, Kind::Const, ty, n, {}, std::vector<double>(std::size_t(n), 0.0)));
            sum = ref::add_node(m, Kind::Add, ty, n, pos, std::vector<double>(std::size_t(n), 0.0));
        }
        for (int s : neg) sum = ref::add_node(m, Kind::Sub, ty, n, {sum, s});
        if (c.chance(1, 8)) sum = ref::add_node(m, Kind::Pipe, ty, n, {sum});
        m.nodes[std::size_t(integ[std::size_t(i)])].in = {sum};
    }
    ref::prune_exts(m);
    ref::GenOpts go;
    go.allow_bare = false;
    go.long_run   = true;
    ref::gen_structure(c, m, go);

    // the exact solution, element by element: z = (x, 1, t, sines, cosines)
    const double t0 = c.flip() ? 0 : c.moderate(3);
    const int N     = d + 2 + 2 * nu;
    std::vector<LMat> M;
    std::vector<LVec> z0;
    for (int e = 0; e < n; e++)
    {
        LMat q = LMat::Zero(N, N);
        LVec z = LVec::Zero(N);
        q.topLeftCorner(d, d) = a;
        for (int i = 0; i < d; i++) z(i) = x0[std::size_t(i)][std::size_t(e)];
        z(d)        = 1;
        z(d + 1)    = 0; // t - t0
        q(d + 1, d) = 1;
        for (int j = 0; j < nu; j++)
        {
            auto& u     = ins[std::size_t(j)];
            const int s = d + 2 + 2 * j;
            long double one = 0, ramp = 0, sine = 0;
            switch (u.kind)
            {
            case 1: one = u.k[std::size_t(e)]; break;
            case 2:
                one  = (long double)(u.f.b) + (long double)(u.f.q) * t0;
                ramp = u.f.q;
                break;
            default:
                one         = (long double)(u.f.p) + e * (long double)(u.f.q);
                sine        = u.f.a;
                q(s, s + 1) = u.f.w;
                q(s + 1, s) = -(long double)(u.f.w);
                z(s)        = std::sin((long double)(u.f.w) * t0 + u.f.b + 0.75L * e);
                z(s + 1)    = std::cos((long double)(u.f.w) * t0 + u.f.b + 0.75L * e);
            }
            for (int i = 0; i < d; i++)
            {
                q(i, d) += b(i, j) * one;
                q(i, d + 1) += b(i, j) * ramp;
                q(i, s) += b(i, j) * sine;
            }
        }
        M.push_back(q);
        z0.push_back(z);
    }
    double L = 0.25;
    for (auto& q : M) L = std::max(L, double(q.cwiseAbs().colwise().sum().maxCoeff()));
    const double T     = c.uniform(0.2, 4) / L;
    const int requests = int(c.range(1, 3));
    const auto method  = ref::Method(c.draw(3));
    const int p        = method == ref::Method::Euler ? 1 : 4;
    NOTE(ctx, m.describe() << "  from " << t0 << " over " << T << ", " << requests << " requests, " << ref::method_name(method) << ", norm " << L);

    std::vector<std::vector<LVec>> exact; // [request][element]
    double Z = 0;
    bool moves = false;
    for (int r = 1; r <= requests; r++)
    {
        exact.emplace_back();
        for (int e = 0; e < n; e++)
        {
            exact.back().push_back(expm(M[std::size_t(e)] * ((long double)(T) * r / requests)) * z0[std::size_t(e)]);
            for (int s = 0; s < d; s++) moves |= std::fabs(double(exact.back().back()(s) - z0[std::size_t(e)](s))) > 1e-3;
        }
    }
    for (int e = 0; e < n; e++)
    {
        const LMat step = expm(M[std::size_t(e)] * ((long double)(T) / 16));
        LVec z          = z0[std::size_t(e)];
        for (int k = 0; k <= 16; k++)
        {
            Z = std::max(Z, double(z.cwiseAbs().sum()));
            z = step * z;
        }
    }
    std::size_t steps = 0;
    for (double hl : {0.3, 0.06, 0.012})
    {
        const double h = hl / L;
        lib::RunPlan plan;
        plan.sim      = lib::SimKind(c.draw(3));
        plan.method   = method;
        plan.t0       = t0;
        plan.max_step = h;
        plan.min_step = h / 3;
        plan.explicit_init = c.flip();
        for (int r = 1; r <= requests; r++) plan.times.push_back(t0 + T * r / requests);
        auto tr = lib::run_library(m, plan);
        steps += tr.attempts.size();
        // the number of steps, the local error, and its growth
        double fact = 1;
        for (int k = 2; k <= p + 1; k++) fact *= k;
        const double n_steps = T / (h / 3) + requests + 1;
        const double bound   = 20 * n_steps * std::pow(hl, p + 1) / fact * Z * std::exp(L * T) + 1e-12 * n_steps * (1 + Z) * std::exp(L * T);
        for (int r = 0; r < requests; r++)
            for (int i = 0; i < d; i++)
            {
                auto& got = tr.at_requests.at(std::size_t(r) + 1).second.at(std::size_t(x[std::size_t(i)]));
                CHECK(ctx, got.assigned && got.x.size() == std::size_t(n), "a state has no value");
                for (int e = 0; e < n; e++)
                {
                    const double want = double(exact[std::size_t(r)][std::size_t(e)](i)), err = std::fabs(got.x[std::size_t(e)] - want);
                    CHECK(ctx, err <= bound, "with steps up to " << h << " the state " << i << "[" << e << "] at t=" << plan.times[std::size_t(r)] << " is " << got.x[std::size_t(e)] << ", the exact solution "
                                                                 << want << "; the error " << err << " exceeds the bound " << bound << " of a method of order " << p);
                    ctx.mix(got.x[std::size_t(e)]);
                    ctx.label("values compared");
                    if (bound < 1e-3 * (1 + std::fabs(want))) ctx.label("values compared to better than 1e-3");
                    if (bound < 1e-6 * (1 + std::fabs(want))) ctx.label("values compared to better than 1e-6");
                }
            }
    }
    ctx.label(ref::method_name(method));
    if (steps >= 8 && moves) ctx.nontrivial();
}
