#include "lib.hpp"

#include "src/solver/euler.hpp"
#include "src/solver/rk4.hpp"
#include "src/solver/rkf45.hpp"

using ref::Num;
// Direct steps of the library's steppers over random first-order systems, compared with the textbook tableaux.
namespace
{
struct System
{
    int n;
    int form;
    std::vector<double> lin; // n x n
    std::vector<double> a, w, b, p;
    std::vector<int> k;
    template<class T>
    std::vector<T> eval(T t, const std::vector<T>& v) const
    {
        using std::sin;
        using std::tanh;
        std::vector<T> r;
        for (int i = 0; i < n; i++)
        {
            const auto u = std::size_t(i);
            T s(b[u]);
            if (form != 3)
                for (int j = 0; j < n; j++)
                    if (lin[u * std::size_t(n) + std::size_t(j)] != 0) s = s + T(lin[u * std::size_t(n) + std::size_t(j)]) * v[std::size_t(j)];
            switch (form)
            {
            case 0: r.push_back(s); break;                                                             // linear, autonomous
            case 1: r.push_back(s + T(a[u]) * sin(T(w[u]) * t + T(p[u]))); break;                        // forced
            case 2: r.push_back(T(a[u]) * tanh(s) + T(p[u]) * v[std::size_t(k[u])] * sin(T(w[u]) * t)); break; // nonlinear
            case 3: r.push_back(T(a[u]) * sin(T(w[u]) * t)); break;                                    // pure quadrature
            default: r.push_back(T(a[u]) * v[u] * v[std::size_t(k[u])] + s * T(0.25)); break;          // quadratic
            }
        }
        return r;
    }
};

System gen_system(pbt::Choices& c)
{
    System s;
    s.n    = c.big(1, 3, 24, 400, 1000);
    s.form = int(c.draw(5));
    double scale = c.oneof({1.0, 1.0, 4.0, 0.1});
    bool zero    = c.chance(1, 12);
    for (int i = 0; i < s.n * s.n; i++) s.lin.push_back(zero || (s.n > 3 && c.flip()) ? 0.0 : scale * c.moderate(1.5));
    for (int i = 0; i < s.n; i++)
    {
        s.a.push_back(zero ? 0.0 : c.moderate(2));
        s.b.push_back(zero ? 0.0 : c.moderate(1));
        s.p.push_back(zero ? 0.0 : c.moderate(1));
        s.w.push_back(c.uniform(0.1, 9));
        s.k.push_back(int(c.draw(std::uint64_t(s.n))));
    }
    return s;
}
} // namespace

PROPERTY("C04", "1-5 consecutive calls of step() on one Euler, RK4 or RKF45 object over random systems (linear, forced, nonlinear, quadrature, "
                "quadratic; dimension 1-24, changing between calls), start times, states and step lengths; non-trivial: the derivative is "
                "not identically zero and the result is decidable")
{
    const auto meth = ref::Method(c.draw(3));
    auto st         = lib::make_stepper(meth);
    const int calls = c.chance(1, 1000) ? int(c.range(5, 60)) : int(c.range(1, 5));
    auto sys        = gen_system(c);
    ctx.label(ref::method_name(meth));
    double t0 = c.weighted({4, 1}) ? c.moderate(100) : 0.0;
    std::vector<double> v0;
    auto fresh_state = [&]
    {
        double m = c.oneof({1.0, 3.0, 50.0, 1e-3});
        v0.clear();
        for (int i = 0; i < sys.n; i++) v0.push_back(c.chance(1, 10) ? 0.0 : m * c.moderate(1));
    };
    fresh_state();
    for (int k = 0; k < calls; k++)
    {
        if (k > 0 && c.chance(1, 3))
        {
            sys = gen_system(c);
            fresh_state();
        }
        double h = c.weighted({4, 2, 1, 1}) == 0 ? c.oneof({0.125, 0.1, 0.01, 0.5, 1.0}) : c.uniform(1e-4, 1.5);
        if (c.chance(1, 16)) h *= 1e-5;
        const double t1 = t0 + h;
        if (!(t1 > t0)) return;
        NOTE(ctx, "  " << ref::method_name(meth) << " form " << sys.form << " dimension " << sys.n << " from t0=" << t0 << " to " << t1);

        auto so = ref::method_step(
            meth, [&](Num t, const std::vector<Num>& v) { return sys.eval<Num>(t, v); }, t0, std::vector<Num>(v0.begin(), v0.end()), t1);

        // the callback returns a reference to a buffer that it overwrites at each call, as the simulators' does
        pooya::Array buf(sys.n), start = lib::to_array(v0), v1(sys.n);
        v1.setConstant(7e77);
        std::vector<std::pair<double, std::vector<double>>> points;
        double new_h = -3;
        const auto depth = lib::trace_depth();
        st->step(
            [&](double t, const pooya::Array& v) -> const pooya::Array&
            {
                auto x = lib::to_vec(v);
                points.push_back({t, x});
                buf.setConstant(-9e99);
                auto r = sys.eval<double>(t, x);
                for (int i = 0; i < sys.n; i++) buf[i] = r[std::size_t(i)];
                return buf;
            },
            t0, start, t1, v1, new_h);
        CHECK(ctx, lib::trace_depth() == depth, "the diagnostic trace is not balanced");
        for (int i = 0; i < sys.n; i++)
            CHECK(ctx, start[i] == v0[std::size_t(i)], "the start state was changed");
        CHECK(ctx, int(v1.size()) == sys.n, "the result has " << v1.size() << " components instead of " << sys.n);
        bool decidable = true;
        for (int i = 0; i < sys.n; i++)
        {
            Num w = so.v1[std::size_t(i)];
            if (!ref::usable(w))
            {
                decidable = false;
                continue;
            }
            CHECK(ctx, ref::close(w, v1[i]), "component " << i << " is " << v1[i] << " but should be " << w.v << " (+-" << ref::tol_of(w) << ")");
        }
        // every evaluation is at one of the method's stages, and every stage is evaluated
        std::vector<char> hit(so.points.size(), 0);
        for (auto& [t, v] : points)
        {
            bool found = false;
            for (std::size_t q = 0; q < so.points.size(); q++)
            {
                auto& [tt, vv] = so.points[q];
                bool same      = ref::close(tt, t) && int(v.size()) == sys.n;
                for (int i = 0; same && i < sys.n; i++) same = ref::close(vv[std::size_t(i)], v[std::size_t(i)]);
                if (same) hit[q] = 1;
                found |= same;
            }
            CHECK(ctx, found, "the derivative was evaluated at t=" << t << ", which with this state is no stage of the method");
        }
        if (decidable)
            for (std::size_t q = 0; q < hit.size(); q++) CHECK(ctx, hit[q], "stage " << q << " (t=" << so.points[q].first.v << ") was not evaluated");
        bool ok = false;
        for (double w : ref::proposals(meth, so, t1 - t0)) ok |= std::fabs(new_h - w) <= 1e-12 * std::fabs(w);
        CHECK(ctx, ok,
              "proposed step length " << new_h << " after a step of " << t1 - t0 << " (first acceptable: " << ref::proposals(meth, so, t1 - t0)[0]
                                      << ", largest error component " << so.err_max << ")");
        if (meth == ref::Method::Rkf45)
            ctx.label(so.ratio_exact_one ? "error exactly zero" : ref::proposals(meth, so, h).size() > 1 ? "proposal hinges on rounding"
                                                                : new_h < h ? "halved" : new_h > h ? "doubled" : "kept");
        // components that are not a number, next to the system, must not change anything for the others
        if (c.chance(1, 4))
        {
            const int extra = int(c.range(1, 3));
            std::vector<int> at; // position of each component of the system in the larger one
            std::vector<char> own;
            for (int i = 0, e = extra; i < sys.n || e > 0;)
                if (e > 0 && (i == sys.n || c.chance(1, 3)))
                {
                    own.push_back(0);
                    e--;
                }
                else
                {
                    at.push_back(int(own.size()));
                    own.push_back(1);
                    i++;
                }
            const bool bad_state = c.flip();
            const double nan     = std::nan("");
            pooya::Array big(int(own.size())), big0(int(own.size())), big1(int(own.size()));
            big0.setConstant(bad_state ? nan : 0.0);
            for (int i = 0; i < sys.n; i++) big0[at[std::size_t(i)]] = v0[std::size_t(i)];
            double big_h = -3;
            auto st2     = lib::make_stepper(meth);
            st2->step(
                [&](double t, const pooya::Array& v) -> const pooya::Array&
                {
                    std::vector<double> x;
                    for (int i = 0; i < sys.n; i++) x.push_back(v[at[std::size_t(i)]]);
                    auto r = sys.eval<double>(t, x);
                    big.setConstant(nan);
                    for (int i = 0; i < sys.n; i++) big[at[std::size_t(i)]] = r[std::size_t(i)];
                    return big;
                },
                t0, big0, t1, big1, big_h);
            for (int i = 0; i < sys.n; i++)
            {
                const double x = big1[at[std::size_t(i)]];
                CHECK(ctx, x == v1[i] || (x != x && v1[i] != v1[i]), "component " << i << " is " << x << " instead of " << v1[i] << " when unrelated components are not a number");
            }
            CHECK(ctx, big_h == new_h, "proposed step length " << big_h << " instead of " << new_h << " when " << extra << " unrelated components are not a number");
            ctx.label("with components that are not a number");
        }
        bool zero = true;
        for (auto& [t, v] : points)
            for (double x : sys.eval<double>(t, v)) zero &= x == 0;
        if (!zero && decidable) ctx.nontrivial();
        if (!decidable) ctx.label("not decidable");
        for (int i = 0; i < sys.n; i++) ctx.mix(double(v1[i]));
        ctx.mix(new_h);
        // go on from the result
        t0 = t1;
        for (int i = 0; i < sys.n; i++)
        {
            v0[std::size_t(i)] = v1[i];
            if (!(std::fabs(v1[i]) < 1e6)) return;
        }
    }
}
