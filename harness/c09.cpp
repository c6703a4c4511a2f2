#include "lib.hpp"

// Delays with arbitrary (exactly known) inputs, delay signals and step spacings.
using ref::Kind;
using ref::Ty;

PROPERTY("C09", "random delays (scalar and array, lifespans from shorter than a step to longer than the run, constant or arbitrarily time-varying "
                "delays in [0, lifespan] that often hit samples, 0 or the lifespan exactly, inputs listed in any order, time-varying initial "
                "input, chained delays) over up to 60 irregular accepted steps, with and without trial evaluations in between, against the "
                "piecewise-linear reference; non-trivial: some evaluation interpolates between earlier samples and one yields the initial input")
{
    ref::Model m;
    const uint64_t seed = c.draw(0);
    // times first: lifespans and delays relate to them
    const double t0  = c.weighted({4, 1, 1}) == 0 ? 0.0 : c.moderate(50);
    const bool many  = c.chance(1, 4000); // more samples than usual within a lifespan
    const int n      = many ? int(c.range(600, 6000)) : c.big(2, 12, 60, 600, 48);
    const int style  = int(c.draw(4));
    const double dt  = c.oneof({0.1, 0.25, 0.5, 1.0});
    std::vector<double> times;
    double t = t0;
    for (int i = 0; i < n; i++)
    {
        switch (style)
        {
        case 0: t += dt; break;                                           // regular
        case 1: t = t0 + (i + 1) * dt; break;
        case 2: t += c.uniform(0.01, 1.5); break;                          // irregular
        default: t += c.chance(1, 5) ? c.uniform(1, 6) : c.uniform(0.01, 0.2); // bursts
        }
        times.push_back(t);
    }
    struct Spec
    {
        double L;
        int mode;
        double fixed, grid;
    };
    std::vector<std::pair<int, Spec>> delays; // by delay signal
    const int nd = many ? 1 : c.size(1, 1, 4);
    std::vector<int> outs[2];
    int asz = many ? 2 : c.big(1, 3, 20, 150, 48);
    for (int i = 0; i < nd; i++)
    {
        const Ty ty  = c.flip() ? Ty::A : Ty::S;
        const int sz = ty == Ty::A ? asz : 1;
        auto& prev   = outs[ty == Ty::A];
        const int x  = !prev.empty() && c.flip() ? prev.back() : ref::add_ext(m, ty, sz);
        Spec s;
        s.L = c.oneof({dt, 2 * dt, 3 * dt, 10 * dt, 0.3, 1.0, 100.0});
        if (c.flip()) s.L = c.uniform(0.02, 5);
        if (many) s.L = (times.back() - t0) * c.oneof({0.4, 0.7, 0.9});
        s.mode  = int(c.draw(5));
        s.fixed = s.L * c.unit();
        s.grid  = dt;
        const int d = ref::add_ext(m, Ty::S, 1);
        delays.emplace_back(d, s);
        const int in = c.flip() ? x : ref::add_ext(m, ty, sz);
        prev.push_back(ref::add_node(m, Kind::Delay, ty, sz, {x, d, in}));
        m.nodes.back().par1       = s.L;
        m.nodes.back().port_order = c.permutation(3);
    }
    if (c.chance(1, 3)) ref::add_node(m, Kind::Integ, Ty::S, 1, {c.flip() || outs[0].empty() ? ref::add_ext(m, Ty::S, 1) : outs[0].back()}, {0.0});
    ref::prune_exts(m);
    ref::GenOpts go;
    go.long_run = n > 60;
    ref::gen_structure(c, m, go);
    lib::RunPlan p;
    p.sim           = lib::SimKind(c.draw(3));
    p.method        = ref::Method(c.draw(3));
    p.t0            = t0;
    if (many) ctx.label("thousands of samples");
    p.times         = times;
    p.explicit_init = c.flip();
    if (m.num_states())
    {
        p.min_step = c.uniform(0.1, 1.0);
        p.max_step = p.min_step * c.uniform(1.2, 8);
    }
    NOTE(ctx, m.describe() << p.describe());
    for (auto& [s, d] : delays)
        NOTE(ctx, "  delay signal " << m.sigs[std::size_t(s)].name << ": lifespan " << d.L << " mode " << d.mode << " fixed " << d.fixed << " grid " << d.grid);
    lib::RunOpts o;
    uint64_t salt = 0; // what the input callback writes for a time changes from call to call
    o.after       = [&](lib::Diagram&, double, const std::vector<double>&, const std::vector<lib::Attempt>&) { salt += 0x632be59bd9b4e019ULL; };
    o.ext = [&](const ref::Ext& e, double tt) -> std::vector<double>
    {
        for (auto& [s, d] : delays)
            if (s == e.sig)
            {
                const double u = (ref::table_values(seed + salt, s, Ty::S, 1, tt, false)[0] + 4) / 8; // [0, 1]
                switch (d.mode)
                {
                case 0: return {d.fixed};
                case 1: return {d.L};
                case 2: return {std::min(d.L, u * d.L)};
                case 3: return {std::min(d.L, std::floor(u * 8) * d.grid)};
                default: return {u < 0.3 ? 0.0 : u > 0.7 ? d.L : std::min(d.L, u * d.L)};
                }
            }
        auto& sp = m.sigs[std::size_t(e.sig)];
        return ref::table_values(seed + salt, e.sig, sp.ty, sp.n, tt, false);
    };
    // what kinds of evaluations occurred
    uint64_t interp = 0, initial = 0, latest = 0, discarded = 0, decided = 0;
    std::vector<double> samples;
    o.on_end = [&](lib::Diagram& d, double tt)
    {
        for (auto& nd : m.nodes)
            if (nd.kind == Kind::Delay && !samples.empty())
            {
                const double q = tt - lib::read(d.sigs[std::size_t(nd.in[1])]).x[0];
                if (q < samples.front())
                    initial++;
                else if (q > samples.back())
                    latest++;
                else
                    interp++;
                if (samples.front() < tt - nd.par1) discarded++;
            }
        samples.push_back(tt);
    };
    auto st = lib::run_against_reference(ctx, m, p, o);
    decided = st.compared;
    if ((interp && initial) || m.bare) ctx.nontrivial();
    ctx.label("interpolating evaluations", interp);
    ctx.label("initial-input evaluations", initial);
    ctx.label("latest-sample evaluations", latest);
    ctx.label("evaluations after samples left the lifespan", discarded);
    ctx.label("values compared", decided);
    ctx.label("values not decidable", st.undecidable);
}
