#include <algorithm>
#include <cmath>
#include <map>

#include "lib.hpp"

// Homogeneity: every signal has a degree; when all inputs and initial values of degree d are multiplied by 2^(k d), so are all signals of degree d,
// bit for bit.
using ref::Kind;
using ref::Ty;

namespace
{
struct World
{
    pbt::Choices& c;
    ref::Model m;
    std::vector<int> deg; // by signal
    struct Deferred
    {
        int node, port, degree;
    };
    std::vector<Deferred> deferred;
    int asz{1};

    int note(int sig, int d)
    {
        deg.resize(m.sigs.size(), 0);
        deg[std::size_t(sig)] = d;
        return sig;
    }
    int ext(Ty ty, int d) { return note(ref::add_ext(m, ty, ty == Ty::A ? asz : 1), d); }
    std::vector<int> having(Ty ty, int d)
    {
        std::vector<int> r;
        for (std::size_t s = 0; s < m.sigs.size(); s++)
            if (m.sigs[s].ty == ty && deg[s] == d) r.push_back(int(s));
        return r;
    }
    int need(Ty ty, int d)
    {
        auto cand = having(ty, d);
        if (!cand.empty() && !c.chance(1, 6)) return c.flip() ? cand.back() : c.pick(cand);
        if (ty != Ty::B && c.chance(1, 3))
        {
            const int n = ty == Ty::A ? asz : 1;
            return note(ref::add_node(m, Kind::Const, ty, n, {}, ref::gen_values(c, ty, n)), d);
        }
        return ext(ty, d);
    }
    int any_degree(Ty ty)
    {
        // mostly one that is in use
        std::vector<int> d;
        for (std::size_t s = 0; s < m.sigs.size(); s++)
            if (m.sigs[s].ty == ty) d.push_back(deg[s]);
        if (!d.empty() && c.chance(3, 4)) return c.pick(d);
        return c.oneof({1, 0, -1, 2});
    }
    void add()
    {
        const Ty ty = c.flip() ? Ty::A : Ty::S;
        const int n = ty == Ty::A ? asz : 1;
        const int d = any_degree(ty);
        auto in     = [&](int degree) { return need(ty, degree); };
        auto ics    = [&] { return ref::gen_values(c, ty, n); };
        switch (c.weighted({4, 3, 3, 3, 3, 1, 3, 2, 2, 2, 5, 2}))
        {
        case 0:
        {
            std::vector<int> v;
            for (int k = int(c.range(1, 4)); k > 0; k--) v.push_back(in(d));
            note(ref::add_node(m, Kind::Add, ty, n, v, ics()), d);
            break;
        }
        case 1:
        {
            const int a = in(d), b = in(d);
            note(ref::add_node(m, Kind::Sub, ty, n, {a, b}), d);
            break;
        }
        case 2:
        {
            const int d2 = any_degree(ty);
            if (std::abs(d + d2) > 3) break;
            const int a = in(d), b = in(d2);
            // (its initial value has the degree 0)
            note(ref::add_node(m, Kind::Mul, ty, n, {a, b}, ics()), d + d2);
            break;
        }
        case 3:
        {
            const int d2 = any_degree(ty);
            if (std::abs(d - d2) > 3) break;
            const int a = in(d), b = in(d2);
            note(ref::add_node(m, Kind::Div, ty, n, {a, b}), d - d2);
            break;
        }
        case 4:
        {
            const int a = in(d);
            note(ref::add_node(m, Kind::Gain, ty, n, {a}), d);
            m.nodes.back().par1 = c.moderate(2);
            break;
        }
        case 5:
        {
            const int a = in(d);
            note(ref::add_node(m, Kind::Pipe, ty, n, {a}), d);
            break;
        }
        case 6:
        {
            const bool defer = c.flip();
            const int a      = defer ? -1 : in(d);
            note(ref::add_node(m, Kind::Memory, ty, n, {a}, ics()), d);
            if (defer) deferred.push_back({int(m.nodes.size()) - 1, 0, d});
            break;
        }
        case 7:
        {
            const double L = c.uniform(0.05, 2);
            const int a = in(d), i = in(d);
            const int q = note(ref::add_node(m, Kind::Const, Ty::S, 1, {}, {L * c.unit()}), 0);
            // (nobody else may take it for a signal to be scaled: its degree is 0)
            note(ref::add_node(m, Kind::Delay, ty, n, {a, q, i}), d);
            m.nodes.back().par1       = L;
            m.nodes.back().port_order = c.permutation(3);
            break;
        }
        case 8:
        {
            const int a = in(d);
            note(ref::add_node(m, Kind::Deriv, ty, n, {a}, ics()), d);
            break;
        }
        case 9:
        {
            const int a = in(d);
            note(ref::add_node(m, Kind::InitVal, ty, n, {a}), d);
            break;
        }
        case 10:
        {
            const bool defer = c.flip();
            const int a      = defer ? -1 : in(d);
            note(ref::add_node(m, Kind::Integ, ty, n, {a}, ics()), d);
            if (defer) deferred.push_back({int(m.nodes.size()) - 1, 0, d});
            break;
        }
        default:
        {
            const int a = in(d), b = need(Ty::B, 0);
            note(ref::add_node(m, Kind::TrigInt, ty, n, {a, b}, ics()), d);
        }
        }
    }
};
} // namespace

PROPERTY("C31", "random diagrams of homogeneous blocks (sums, products, quotients, gains, memories, delays, derivatives, initial values, integrators), whose signals have degrees, "
                "run with inputs and initial values as generated and multiplied by 2^(k degree), |k| up to 150; every signal must be multiplied alike, bit for bit; "
                "non-trivial: k is not 0, at least 2 blocks, a value that is neither 0 nor infinite nor NaN on a signal of degree other than 0")
{
    World w{c, {}, {}, {}, 1};
    const uint64_t seed = c.draw(0);
    w.asz               = c.size(1, 3, 12);
    const int nb        = c.big(1, 6, 25, 80, 100);
    for (int i = 0; i < nb || w.m.nodes.empty(); i++) w.add();
    for (auto& d : w.deferred)
    {
        auto& n   = w.m.nodes[std::size_t(d.node)];
        auto cand = w.having(n.ty, d.degree);
        n.in[std::size_t(d.port)] = c.pick(cand); // (its own output at least)
    }
    auto& m = w.m;
    ref::prune_exts(m);
    ref::GenOpts go;
    ref::gen_structure(c, m, go);
    auto p = lib::gen_plan(c, m, 6, !m.has(Kind::Delay));
    if (p.method == ref::Method::Rkf45) p.method = ref::Method::Rk4; // its step control has an absolute tolerance
    const int k = int(c.chance(1, 4) ? c.range(-4, 4) : c.range(-150, 150));
    NOTE(ctx, m.describe() << p.describe() << "  factor 2^" << k);
    if (ctx.verbose)
    {
        ctx.text << "  degrees:";
        for (std::size_t s = 0; s < m.sigs.size(); s++) ctx.text << " " << m.sigs[s].name << ":" << w.deg[s];
        ctx.text << "\n";
    }
    auto scale = [&](double x, int d, int kk) { return std::ldexp(x, kk * d); };
    auto run   = [&](const ref::Model& mm, int kk)
    {
        return lib::run_library(mm, p, nullptr, [&](lib::Diagram& d)
                                {
                                    d.ext_override = [&, kk](const ref::Ext& e, double t)
                                    {
                                        auto& sp = m.sigs[std::size_t(e.sig)];
                                        auto v   = ref::table_values(seed, e.sig, sp.ty, sp.n, t, false);
                                        if (sp.ty != Ty::B)
                                            for (auto& x : v) x = scale(x, w.deg[std::size_t(e.sig)], kk);
                                        return v;
                                    };
                                });
    };
    auto s = m;
    for (auto& n : s.nodes)
        if (n.kind != Kind::Mul)
            for (auto& x : n.ic) x = scale(x, w.deg[std::size_t(n.out[0])], k);
    auto a = run(m, 0), b = run(s, k);
    bool interesting = false;
    // values for which scaling is exact in all intermediate results: products of a few of them stay far from the limits
    double biggest = 1;
    for (auto* tr : {&a, &b})
        for (auto* list : {&tr->at_requests, &tr->at_ends})
            for (auto& [t, q] : *list)
                for (std::size_t i = 0; i < q.size(); i++)
                    for (double x : q[i].x)
                    {
                        if (m.sigs[i].ty == Ty::B || x == 0 || x != x || std::isinf(x)) continue;
                        const double y = std::fabs(tr == &a ? x : scale(x, -w.deg[i], k));
                        biggest        = std::max({biggest, y, 1 / y});
                    }
    if (biggest > 1e60)
    {
        ctx.label("beyond the range in which scaling is exact");
        return;
    }
    auto compare = [&](const auto& x, const auto& y)
    {
        CHECK(ctx, x.size() == y.size(), "the numbers of steps differ");
        for (std::size_t q = 0; q < x.size(); q++)
        {
            CHECK(ctx, x[q].first == y[q].first, "the times of the steps differ: " << x[q].first << ", " << y[q].first);
            for (std::size_t i = 0; i < m.sigs.size(); i++)
            {
                auto &u = x[q].second[i], &v = y[q].second[i];
                CHECK(ctx, u.assigned == v.assigned && u.x.size() == v.x.size(), "signal " << m.sigs[i].name << " has a value in one of the runs only");
                for (std::size_t j = 0; j < u.x.size(); j++)
                {
                    const double want = m.sigs[i].ty == Ty::B ? u.x[j] : scale(u.x[j], w.deg[i], k);
                    CHECK(ctx, want == v.x[j] || (want != want && v.x[j] != v.x[j]),
                          "signal " << m.sigs[i].name << "[" << j << "] of degree " << w.deg[i] << " is " << v.x[j] << " instead of " << want << " = 2^" << k * w.deg[i] << " * "
                                    << u.x[j] << " at t=" << x[q].first);
                    if (w.deg[i] && std::isfinite(u.x[j]) && u.x[j] != 0 && m.producer(int(i)) >= 0) interesting = true;
                    ctx.mix(u.x[j]);
                }
            }
        }
    };
    compare(a.at_requests, b.at_requests);
    compare(a.at_ends, b.at_ends);
    if (k && m.nodes.size() >= 2 && interesting) ctx.nontrivial();
    if (m.num_states()) ctx.label("with states");
    for (auto kd : {Kind::Delay, Kind::Deriv, Kind::Memory, Kind::TrigInt, Kind::Div, Kind::Mul, Kind::InitVal})
        if (m.has(kd)) ctx.label(std::string("with ") + ref::kind_name(kd));
    ctx.label("snapshots compared", a.at_requests.size() + a.at_ends.size());
}
