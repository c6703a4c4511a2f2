#include <algorithm>
#include <cmath>

#include "lib.hpp"

#include "src/block/extra/add.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/so_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/sources.hpp"
#include "src/block/extra/subtract.hpp"

// One block at a time, every type variant, special values, many inputs, large arrays, aliased inputs.
using ref::Ty;
namespace
{
bool same(double a, double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }

// is `got` a possible result of adding the terms in some order?
bool sum_ok(const std::vector<double>& x, double got)
{
    bool nan = false, pinf = false, ninf = false;
    double mag = 0;
    for (double v : x)
    {
        nan |= v != v;
        pinf |= v == INFINITY;
        ninf |= v == -INFINITY;
        if (std::isfinite(v)) mag += std::fabs(v);
    }
    if (nan || (pinf && ninf)) return got != got;
    if (!(mag < 1e308)) return true; // partial sums may overflow or not
    if (pinf || ninf) return got == (pinf ? INFINITY : -INFINITY);
    long double s = 0;
    for (double v : x) s += v;
    return std::fabs(double(s) - got) <= double(x.size() + 2) * 0x1p-52 * mag;
}
// is `got` a possible result of multiplying the factors in some order?
bool product_ok(const std::vector<double>& x, double got)
{
    bool nan = false, inf = false, zero = false, neg = false;
    double up = 0, down = 0;
    for (double v : x)
    {
        nan |= v != v;
        inf |= std::isinf(v);
        zero |= v == 0;
        neg ^= std::signbit(v);
        if (std::isfinite(v) && v != 0)
        {
            double l = std::log2(std::fabs(v));
            (l > 0 ? up : down) += l;
        }
    }
    if (nan || (inf && zero)) return got != got;
    if (inf) return down < -1000 || (std::isinf(got) && std::signbit(got) == neg);
    if (zero) return up > 1000 || (got == 0 && std::signbit(got) == neg);
    if (up > 1000 || down < -1000) return true;
    long double p = 1;
    for (double v : x) p *= v;
    return std::fabs(double(p) - got) <= double(x.size() + 2) * 0x1p-52 * std::fabs(double(p));
}

double mix_fn(int form, double t, double x, double w)
{
    switch (form)
    {
    case 0: return x;
    case 1: return x * w;
    case 2: return x + t;
    case 3: return x < w ? t : -x;
    default: return x * x - w * t;
    }
}
using Vals = std::vector<double>;
// some function of everything a user function can see
Vals out_fn(int form, double w, double t, const std::vector<Vals>& in, Ty ty, int n)
{
    Vals r;
    for (int i = 0; i < n; i++)
    {
        double s = w + i;
        for (std::size_t k = 0; k < in.size(); k++) s = form == 4 ? std::fmax(s, in[k][std::size_t(i) % in[k].size()]) : s + mix_fn(form, t, in[k][std::size_t(i) % in[k].size()], w) * double(k + 1);
        if (in.empty()) s = mix_fn(form, t, s, w);
        switch (ty)
        {
        case Ty::I: s = s > 1e9 ? 7 : s < -1e9 ? -7 : s != s ? 11 : std::floor(s) + 0.0; break;
        case Ty::B: s = s > w ? 1 : 0; break;
        default: break;
        }
        r.push_back(s);
    }
    return r;
}
} // namespace

PROPERTY("C12", "one random block of random kind and type variant, random numbers of inputs/outputs and sizes, aliased and labelled inputs, special "
                "values (NaN, infinities, signed zeros, denormals, extremes), evaluated by a random simulator at several times; results compared "
                "with the stated function, bit for bit where the order of operations is determined; non-trivial: at least one output value "
                "checked that depends on an input or on time")
{
    enum { Add, Mul, Sub, Div, Gain, Const, Source, Sources, Pipe, Siso, So, Fn, N };
    const int kind      = int(c.draw(N));
    const uint64_t seed = c.draw(0);
    const bool special  = c.chance(2, 3);
    static const char* names[] = {"Add", "Multiply", "Subtract", "Divide", "Gain", "Const", "Source", "Sources", "Pipe", "SISOFunction", "SOFunction", "Function"};
    // type variants named by the library
    Ty ty = Ty::S;
    switch (kind)
    {
    case Gain:
    case Source: ty = c.oneof({Ty::S, Ty::A, Ty::I}); break;
    case Pipe: ty = c.oneof({Ty::S, Ty::A, Ty::I, Ty::B}); break;
    case Sources:
    case Fn: break;
    default: ty = c.oneof({Ty::S, Ty::A});
    }
    const int n = ty == Ty::A ? c.size(1, 4, 300) : 1;
    auto any    = [&](int& sz)
    {
        Ty x = c.oneof({Ty::S, Ty::A, Ty::I, Ty::B});
        sz   = x == Ty::A ? c.size(1, 4, 60) : 1;
        return x;
    };
    struct Sig
    {
        Ty ty;
        int n;
        pooya::Signal s;
    };
    std::vector<Sig> in, out;
    auto new_sig = [&](Ty t, int sz) { return Sig{t, sz, lib::make_signal(t, sz, c.flip() ? "" : "x")}; };
    int ni = 0;
    switch (kind)
    {
    case Add:
    case Mul: ni = c.big(1, 3, 60, 500, 512); break;
    case Sub:
    case Div: ni = 2; break;
    case Gain:
    case Pipe:
    case Siso: ni = 1; break;
    case So:
    case Fn: ni = c.big(0, 3, 30, 300, 512); break;
    default: break;
    }
    for (int i = 0; i < ni; i++)
    {
        if (!in.empty() && c.chance(1, 5))
        {
            in.push_back(c.pick(in)); // the same signal again
            continue;
        }
        int sz = n;
        Ty t   = kind == So || kind == Fn ? any(sz) : ty;
        in.push_back(new_sig(t, sz));
    }
    int no = kind == Sources || kind == Fn ? c.size(kind == Fn ? 0 : 0, 2, 20) : 1;
    for (int i = 0; i < no; i++)
    {
        int sz = n;
        Ty t   = kind == Sources || kind == Fn ? any(sz) : ty;
        out.push_back(new_sig(t, sz));
    }
    const bool labelled = c.flip();
    auto bus            = [&](const std::vector<Sig>& v)
    {
        if (labelled)
        {
            std::vector<std::pair<std::string, pooya::Signal>> l;
            for (std::size_t k = 0; k < v.size(); k++) l.emplace_back("port" + std::to_string(k), v[k].s);
            return lib::make_bus(l);
        }
        std::vector<pooya::Signal> l;
        for (auto& s : v) l.push_back(s.s);
        return lib::make_bus(l);
    };
    auto ib = bus(in), ob = bus(out);

    Vals ic = ref::gen_values(c, ty, n, special);
    if (c.flip()) ic.assign(std::size_t(n), kind == Mul ? 1.0 : 0.0);
    const double k    = ty == Ty::I ? double(c.range(-20, 20)) : ref::gen_values(c, Ty::S, 1, special)[0];
    const int form    = int(c.draw(5));
    const double w    = c.moderate(3);
    const bool by_ref = c.flip();
    const bool bare   = c.flip();
    std::vector<Vals> seen_in; // what a user function was given
    double seen_t  = NAN;
    int called     = 0;
    pooya::Array by_ref_result;
    std::shared_ptr<pooya::Block> b;
    pooya::Submodel root(nullptr, "root");
    pooya::Submodel* parent = bare ? nullptr : &root;
    auto read_bus           = [&](const pooya::Bus& bus)
    {
        seen_in.clear();
        for (std::size_t q = 0; q < bus.size(); q++)
            seen_in.push_back(lib::read(labelled ? bus.at("port" + std::to_string(q)) : bus.at(q)).x);
    };
    using std::make_shared;
    switch (kind)
    {
    case Add:
        if (ty == Ty::A)
            b = make_shared<pooya::AddA>(lib::to_array(ic), parent);
        else if (ic[0] == 0 && !std::signbit(ic[0]) && !parent)
            b = make_shared<pooya::Add>();
        else
            b = make_shared<pooya::Add>(ic[0], parent);
        break;
    case Mul:
        if (ty == Ty::A)
            b = make_shared<pooya::MultiplyA>(lib::to_array(ic), parent);
        else if (ic[0] == 1 && !parent)
            b = make_shared<pooya::Multiply>();
        else
            b = make_shared<pooya::Multiply>(ic[0], parent);
        break;
    case Sub:
        if (ty == Ty::A)
            b = make_shared<pooya::SubtractA>(parent);
        else
            b = make_shared<pooya::Subtract>(parent);
        break;
    case Div:
        if (ty == Ty::A)
            b = make_shared<pooya::DivideA>(parent);
        else
            b = make_shared<pooya::Divide>(parent);
        break;
    case Gain:
        if (ty == Ty::A)
        {
            auto g = make_shared<pooya::GainA>(k, parent);
            CHECK(ctx, same(g->gain(), k), "gain() is " << g->gain() << " instead of " << k);
            b = g;
        }
        else if (ty == Ty::I)
        {
            auto g = make_shared<pooya::GainI>(int(k), parent);
            CHECK(ctx, g->gain() == int(k), "gain() is " << g->gain() << " instead of " << k);
            b = g;
        }
        else
        {
            auto g = make_shared<pooya::Gain>(k, parent);
            CHECK(ctx, same(g->gain(), k), "gain() is " << g->gain() << " instead of " << k);
            b = g;
        }
        break;
    case Const:
        if (ty == Ty::A)
            b = make_shared<pooya::ConstA>(lib::to_array(ic), parent);
        else
            b = make_shared<pooya::Const>(ic[0], parent);
        break;
    case Source:
    {
        auto f = [&](double t)
        {
            seen_t = t;
            called++;
            return out_fn(form, w, t, {}, ty, n);
        };
        if (ty == Ty::A && by_ref) // a function returning a reference
            b = make_shared<pooya::SourceA>([&, f](double t) -> const pooya::Array& { return by_ref_result = lib::to_array(f(t)); }, parent);
        else if (ty == Ty::A)
            b = make_shared<pooya::SourceA>([f](double t) { return lib::to_array(f(t)); }, parent);
        else if (ty == Ty::I)
            b = make_shared<pooya::SourceI>([f](double t) { return int(f(t)[0]); }, parent);
        else
            b = make_shared<pooya::Source>([f](double t) { return f(t)[0]; }, parent);
        break;
    }
    case Sources:
    {
        auto f = [&](const pooya::Bus& o, double t)
        {
            seen_t = t;
            called++;
            for (std::size_t q = 0; q < out.size(); q++)
                lib::write(labelled ? o.at("port" + std::to_string(q)) : o.at(q), out[q].ty, out_fn(form, w + double(q), t, {}, out[q].ty, out[q].n));
        };
        if (c.flip())
            b = make_shared<pooya::Sources>(f, parent, "", uint16_t(no));
        else
            b = make_shared<pooya::Sources>(f, parent);
        break;
    }
    case Pipe:
        switch (ty)
        {
        case Ty::S: b = make_shared<pooya::Pipe>(parent); break;
        case Ty::I: b = make_shared<pooya::PipeI>(parent); break;
        case Ty::B: b = make_shared<pooya::PipeB>(parent); break;
        default: b = make_shared<pooya::PipeA>(parent);
        }
        break;
    case Siso:
        if (ty == Ty::A)
        {
            auto f = [&](double t, const pooya::Array& x)
            {
                seen_t  = t;
                seen_in = {lib::to_vec(x)};
                called++;
                return out_fn(form, w, t, seen_in, ty, n);
            };
            if (by_ref)
                b = make_shared<pooya::SISOFunctionA>(
                    [&, f](double t, const pooya::Array& x) -> const pooya::Array& { return by_ref_result = lib::to_array(f(t, x)); }, parent);
            else
                b = make_shared<pooya::SISOFunctionA>([f](double t, const pooya::Array& x) { return lib::to_array(f(t, x)); }, parent);
        }
        else
            b = make_shared<pooya::SISOFunction>(
                [&](double t, double x)
                {
                    seen_t  = t;
                    seen_in = {{x}};
                    called++;
                    return out_fn(form, w, t, seen_in, ty, n)[0];
                },
                parent);
        break;
    case So:
    {
        auto f = [&](double t, const pooya::Bus& bus)
        {
            seen_t = t;
            called++;
            read_bus(bus);
            return out_fn(form, w, t, seen_in, ty, n);
        };
        const uint16_t lim = c.flip() ? uint16_t(ni) : pooya::Block::NoIOLimit;
        if (ty == Ty::A && by_ref)
            b = make_shared<pooya::SOFunctionA>([&, f](double t, const pooya::Bus& bus) -> const pooya::Array& { return by_ref_result = lib::to_array(f(t, bus)); }, parent, "", lim);
        else if (ty == Ty::A)
            b = make_shared<pooya::SOFunctionA>([f](double t, const pooya::Bus& bus) { return lib::to_array(f(t, bus)); }, parent, "", lim);
        else
            b = make_shared<pooya::SOFunction>([f](double t, const pooya::Bus& bus) { return f(t, bus)[0]; }, parent, "", lim);
        break;
    }
    default:
    {
        auto f = [&](double t, const pooya::Bus& i, const pooya::Bus& o)
        {
            seen_t = t;
            called++;
            read_bus(i);
            for (std::size_t q = 0; q < out.size(); q++)
                lib::write(labelled ? o.at("port" + std::to_string(q)) : o.at(q), out[q].ty, out_fn(form, w + double(q), t, seen_in, out[q].ty, out[q].n));
        };
        if (c.flip())
            b = make_shared<pooya::Function>(f, parent, "", uint16_t(ni), uint16_t(no));
        else
            b = make_shared<pooya::Function>(f, parent);
    }
    }
    b->connect(ib, ob);

    std::vector<Vals> given(in.size());
    const bool small = form == 4 && (kind == So || kind == Fn || kind == Siso); // keep products finite
    auto inputs = [&](pooya::Block&, double t)
    {
        for (std::size_t q = 0; q < in.size(); q++)
        {
            bool first = true;
            for (std::size_t r = 0; r < q; r++)
                if (&in[r].s.impl() == &in[q].s.impl())
                {
                    given[q] = given[r];
                    first    = false;
                    break;
                }
            if (!first) continue;
            given[q] = ref::table_values(seed, int(q), in[q].ty, in[q].n, t, special && !small);
            if (in[q].ty == Ty::I)
                for (auto& x : given[q])
                    if (kind == Gain) x = double(int(x) % 100000000);
            lib::write(in[q].s, in[q].ty, given[q]);
        }
    };
    const auto sk = lib::SimKind(c.draw(3));
    auto sim      = lib::make_sim(sk, bare ? *b : static_cast<pooya::Block&>(root), inputs, nullptr);
    NOTE(ctx, "  " << names[kind] << " " << ref::ty_name(ty) << "[" << n << "], " << ni << " inputs, " << no << " outputs, form " << form << ", w " << w << ", k " << k
                   << (labelled ? ", labelled" : "") << (bare ? ", bare" : "") << (by_ref ? ", by reference" : "") << ", " << lib::sim_name(sk));
    double t = c.moderate(10);
    for (int step = int(c.range(1, 3)); step >= 0; step--, t += c.uniform(0.01, 2))
    {
        called = 0;
        if (c.flip() || step == 0)
            sim->run(t);
        else
            sim->run(t, 0.1, 0.5);
        NOTE(ctx, "  t=" << t);
        const bool user = kind == Source || kind == Sources || kind >= Siso;
        if (user)
        {
            CHECK(ctx, called >= 1, "the user function was not called at t=" << t);
            CHECK(ctx, seen_t == t, "the user function was given the time " << seen_t << " instead of " << t);
        }
        if (kind >= Siso)
        {
            CHECK(ctx, seen_in.size() == in.size(), "the user function was given " << seen_in.size() << " inputs instead of " << in.size());
            for (std::size_t q = 0; q < in.size(); q++)
            {
                CHECK(ctx, seen_in[q].size() == given[q].size(), "input " << q << " has " << seen_in[q].size() << " elements");
                for (std::size_t i = 0; i < given[q].size(); i++)
                    CHECK(ctx, same(seen_in[q][i], given[q][i]), "the user function was given " << seen_in[q][i] << " instead of " << given[q][i] << " for input " << q);
            }
        }
        for (std::size_t q = 0; q < out.size(); q++)
        {
            auto got = lib::read(out[q].s);
            CHECK(ctx, got.assigned, "output " << q << " has no value");
            CHECK(ctx, int(got.x.size()) == out[q].n, "output " << q << " has " << got.x.size() << " elements instead of " << out[q].n);
            Vals want;
            switch (kind)
            {
            case Source: want = out_fn(form, w, t, {}, ty, n); break;
            case Sources: want = out_fn(form, w + double(q), t, {}, out[q].ty, out[q].n); break;
            case Siso:
            case So: want = out_fn(form, w, t, given, ty, n); break;
            case Fn: want = out_fn(form, w + double(q), t, given, out[q].ty, out[q].n); break;
            default: break;
            }
            for (std::size_t i = 0; i < got.x.size(); i++)
            {
                const double g = got.x[i];
                ctx.mix(g);
                Vals x{ic.size() > i ? ic[i] : 0};
                if (kind == Add || kind == Mul)
                {
                    for (auto& v : given) x.push_back(v[i]);
                    std::ostringstream o;
                    for (double v : x) o << v << " ";
                    CHECK(ctx, kind == Add ? sum_ok(x, g) : product_ok(x, g), names[kind] << "[" << i << "] of " << o.str() << "is " << g);
                    continue;
                }
                double e = 0;
                switch (kind)
                {
                case Sub: e = given[0][i] - given[1][i]; break;
                case Div: e = given[0][i] / given[1][i]; break;
                case Gain: e = k * given[0][i] + (ty == Ty::I ? 0.0 : -0.0); break;
                case Const: e = ic[i]; break;
                case Pipe: e = given[0][i]; break;
                default: e = want[i];
                }
                CHECK(ctx, same(e, g), names[kind] << " output " << q << "[" << i << "] is " << g << " instead of " << e << " at t=" << t);
            }
            if (!got.x.empty() && (!in.empty() || user)) ctx.nontrivial();
        }
        // inputs are left alone
        for (std::size_t q = 0; q < in.size(); q++)
        {
            auto v = lib::read(in[q].s);
            CHECK(ctx, v.assigned && v.x.size() == given[q].size(), "input " << q << " was changed");
            for (std::size_t i = 0; i < v.x.size(); i++) CHECK(ctx, same(v.x[i], given[q][i]), "input " << q << " was changed");
        }
    }
    ctx.label(std::string(names[kind]) + (kind == Sources || kind == Fn ? "" : std::string(" ") + ref::ty_name(ty)));
    if (n > 50) ctx.label("arrays of more than 50 elements");
    if (ni > 10) ctx.label("more than 10 inputs");
}
