#include <optional>

#include "lib.hpp"

#include "src/block/extra/gain.hpp"
#include "src/block/integrator.hpp"
#include "src/block/leaf.hpp"

// A simulator simulates exactly the model it is given, be it a part of a larger one.
namespace
{
class Probe : public pooya::Leaf
{
public:
    Probe(pooya::Submodel* parent, std::string_view name) : pooya::Leaf(parent, name, NoIOLimit, NoIOLimit) {}
    uint64_t calls{0};
    std::vector<double> posts;
    void input_cb(double) override { calls++; }
    void pre_step(double) override { calls++; }
    void post_step(double t) override
    {
        calls++;
        posts.push_back(t);
    }
    void activation_function(double) override { calls++; }
};

struct Trace
{
    std::vector<std::pair<double, lib::LSnap>> requests, ends;
};

struct Part
{
    ref::Model m;
    lib::RunPlan p;
    // as a part
    std::optional<lib::Diagram> d;
    std::shared_ptr<pooya::StepperBase> stepper;
    std::shared_ptr<pooya::SimulatorBase> sim;
    std::size_t stage{0};
    Trace out;

    void make(pooya::Submodel* host, Trace& to)
    {
        d.emplace(m, host);
        d->monitor = false;
        if (d->root) d->root->on_post = [this, &to](double t) { to.ends.emplace_back(t, d->snap()); };
    }
    void inputs(double t)
    {
        if (d->root)
        {
            if (!m.no_callback) d->inputs_cb(*d->root, t);
            d->root->input_cb(t);
        }
        else
            d->inputs_cb(d->model(), t);
    }
    void simulator()
    {
        stepper = lib::make_stepper(p.method);
        sim     = lib::make_sim(p.sim, d->model(), d->callback(), m.num_states() ? stepper.get() : nullptr);
    }
    bool done() const { return stage > p.times.size(); }
    void advance(Trace& to)
    {
        const double t = stage ? p.times[stage - 1] : p.t0;
        if (stage || !p.explicit_init)
            sim->run(t, p.min_step, p.max_step);
        else
            sim->init(t);
        to.requests.emplace_back(t, d->snap());
        stage++;
    }
};
} // namespace

namespace
{
bool known(const char* id)
{
    const char* e = std::getenv("PBT_KNOWN");
    return e && std::string(e).find(id) != std::string::npos;
}

// a controller, say, that reads the states of the plant, which is not simulated
template<typename Sig, typename GainX, typename IntegX>
void border(pbt::Choices& c, pbt::Ctx& ctx, int n)
{
    const int ns        = int(c.range(1, 2)); // states outside
    const bool own      = c.flip();
    const bool inside   = c.flip();           // also one inside
    const auto sim_kind = lib::SimKind(c.draw(3));
    const auto method   = ref::Method(c.draw(3));
    const double k      = c.moderate(3);
    const double t0     = c.moderate(5);
    const double dt     = c.uniform(0.05, 0.4);
    const int runs      = int(c.range(1, 4));
    NOTE(ctx, " part with " << ns << " inputs that are states outside" << (own ? ", of a block outside it in the same model" : ", of another model") << (inside ? ", and a state of its own" : "")
                            << ", elements " << n);
    auto make = [&](const char* name)
    {
        if constexpr (std::is_same_v<Sig, pooya::ArraySignal>)
            return Sig(std::size_t(n), name);
        else
            return Sig(name);
    };
    auto value = [&](double v)
    {
        if constexpr (std::is_same_v<Sig, pooya::ArraySignal>)
            return pooya::Array(pooya::Array::Constant(n, v));
        else
            return v;
    };
    auto read = [&](const Sig& s) -> double
    {
        if constexpr (std::is_same_v<Sig, pooya::ArraySignal>)
            return s->get_value()[0];
        else
            return s->get_value();
    };
    pooya::Submodel top(nullptr, "top"), other(nullptr, "other"), part(&top, "part");
    pooya::Submodel& plant = own ? top : other;
    Sig a = make("a"), v = make("v"), x = make("x"), y = make("y"), z = make("z");
    IntegX i1(value(1.0)), i2(value(2.0)), i3(value(0.0));
    GainX g1(k), g2(k);
    plant.add_block(i1, {a}, {v});
    if (ns == 2) plant.add_block(i2, {v}, {x});
    part.add_block(g1, {v}, {y});
    if (ns == 2) part.add_block(g2, {x}, {z});
    Sig w = make("w");
    if (inside) part.add_block(i3, {y}, {w});
    auto f       = [&](double t) { return 1 + t * t / 8; };
    auto stepper = lib::make_stepper(method);
    bool ok      = true;
    try
    {
        auto sim = lib::make_sim(sim_kind, part,
                                 [&](pooya::Block&, double t)
                                 {
                                     v = value(f(t));
                                     if (ns == 2) x = value(-f(t));
                                 },
                                 stepper.get());
        sim->init(t0);
        for (int r = 0; r <= runs; r++)
        {
            const double t = t0 + r * dt;
            if (r) sim->run(t);
            ok = ok && read(y) == k * f(t) && (ns == 1 || read(z) == k * -f(t));
            if (r && inside) ok = ok && w->assigned();
        }
    }
    catch (const std::exception&)
    {
        ok = false;
    }
    if (ok) return;
    CHECK(ctx, known("KF2"), "a part of a model whose inputs are states of blocks outside it cannot be simulated");
    ctx.label("known finding KF2");
}
} // namespace

PROPERTY("C40", "2-3 random diagrams as parts of one larger model (nested submodels, bystander blocks of the user and the library between them), each simulated by a simulator of its own, "
                "in a random interleaving; then, sometimes, the whole by one simulator; each part must have bit for bit the values and step ends that it has as a model of its own, and what is outside "
                "the simulated part is neither called nor changed; non-trivial: two parts with at least two requests each")
{
    if (c.chance(1, 100))
    {
        if (c.flip())
            border<pooya::ScalarSignal, pooya::Gain, pooya::Integrator>(c, ctx, 1);
        else
            border<pooya::ArraySignal, pooya::GainA, pooya::IntegratorA>(c, ctx, int(c.range(1, 4)));
        return;
    }
    ref::GenOpts o;
    o.typical_nodes = 4;
    o.max_nodes     = 16;
    std::vector<std::unique_ptr<Part>> parts;
    const int n = int(c.range(2, 3));
    bool first_states = false;
    for (int i = 0; i < n; i++)
    {
        auto p = std::make_unique<Part>();
        p->m   = ref::gen_model(c, o);
        const bool around = c.chance(1, 3);
        if (!around) p->m.outer = 0;
        p->p = lib::gen_plan(c, p->m, 4);
        if (!i) first_states = p->m.num_states() > 0;
        NOTE(ctx, " part " << i << "\n" << p->m.describe() << p->p.describe());
        parts.push_back(std::move(p));
    }
    // the whole afterwards
    bool whole = c.flip();
    for (auto& p : parts) whole = whole && (p->m.num_states() > 0) == first_states;
    lib::RunPlan wp;
    if (whole)
    {
        const int sim = int(c.draw(3));
        wp.sim        = lib::SimKind(sim);
        wp.method     = c.flip() ? ref::Method::Euler : ref::Method::Rk4;
        double t      = -1e300;
        for (auto& p : parts) t = std::max(t, p->p.times.empty() ? p->p.t0 : p->p.times.back());
        wp.t0       = t + c.uniform(0.01, 0.5);
        wp.max_step = c.uniform(0.05, 0.6);
        wp.min_step = 1e-4;
        const int k = int(c.range(1, 4));
        t           = wp.t0;
        for (int i = 0; i < k; i++)
        {
            t += c.uniform(0.02, 0.8);
            wp.times.push_back(t);
        }
        wp.explicit_init = c.flip();
        NOTE(ctx, " then the whole\n" << wp.describe());
    }
    // each alone
    std::vector<Trace> alone(parts.size()), alone_whole(parts.size());
    for (std::size_t i = 0; i < parts.size(); i++)
    {
        Part x;
        x.m = parts[i]->m;
        x.p = parts[i]->p;
        x.m.outer = 0;
        x.make(nullptr, alone[i]);
        x.simulator();
        while (!x.done()) x.advance(alone[i]);
        if (whole)
        {
            x.p     = wp;
            x.stage = 0;
            if (x.d->root) x.d->root->on_post = [&](double t) { alone_whole[i].ends.emplace_back(t, x.d->snap()); };
            x.simulator();
            while (!x.done()) x.advance(alone_whole[i]);
        }
    }
    // as parts
    std::vector<std::shared_ptr<pooya::Submodel>> hosts;
    hosts.push_back(std::make_shared<pooya::Submodel>(nullptr, "whole"));
    const int inner = int(c.draw(3));
    for (int i = 0; i < inner; i++)
    {
        const std::size_t h = c.draw(hosts.size());
        hosts.push_back(std::make_shared<pooya::Submodel>(hosts[h].get(), "inner" + std::to_string(i)));
    }
    std::vector<std::shared_ptr<Probe>> probes;
    std::vector<pooya::ScalarSignal> outside;
    auto probe = [&]
    {
        const int k         = int(c.draw(3));
        const std::size_t h = c.draw(hosts.size());
        if (!k) return;
        pooya::ScalarSignal a("pa"), b("pb");
        a = 2.5;
        std::vector<pooya::Signal> in;
        for (auto& p : parts)
            if (p->d && k == 2)
                for (std::size_t i = 0; i < p->m.sigs.size(); i++)
                    if (p->m.producer(int(i)) >= 0)
                    {
                        in.push_back(p->d->sigs[i]);
                        break;
                    }
        in.push_back(a);
        auto q = std::make_shared<Probe>(hosts[h].get(), "probe" + std::to_string(probes.size()));
        q->connect(lib::make_bus(in), {b});
        probes.push_back(q);
        outside.push_back(std::move(a));
        outside.push_back(std::move(b));
    };
    // (whole: bystanders made by Diagram complain when they are called)
    for (auto& p : parts)
    {
        if (whole) p->m.outer = 0;
        probe();
        const std::size_t h = c.draw(hosts.size());
        p->make(hosts[h].get(), p->out);
        probe();
    }
    for (auto& p : parts) p->simulator();
    auto untouched = [&](const char* when)
    {
        for (auto& q : probes) CHECK(ctx, q->calls == 0, "a block outside the simulated parts was called (" << when << ")");
        for (std::size_t k = 0; k < outside.size(); k++)
            CHECK(ctx, outside[k]->assigned() == (k % 2 == 0) && (k % 2 || double(outside[k]) == 2.5), "a signal outside the simulated parts was changed (" << when << ")");
    };
    uint64_t switches = 0;
    Part* last        = nullptr;
    for (;;)
    {
        std::vector<Part*> can;
        for (auto& p : parts)
            if (!p->done()) can.push_back(p.get());
        if (can.empty()) break;
        Part* p = can[c.draw(can.size())];
        std::vector<lib::LSnap> before;
        for (auto& q : parts) before.push_back(q->d->snap());
        p->advance(p->out);
        for (std::size_t k = 0; k < parts.size(); k++)
            if (parts[k].get() != p) CHECK(ctx, parts[k]->d->snap() == before[k], "running one part of a model changes signals of another one");
        untouched("while the parts were simulated");
        if (last && last != p) switches++;
        last = p;
    }
    for (std::size_t i = 0; i < parts.size(); i++)
    {
        auto msg = lib::diff(parts[i]->m, alone[i].requests, parts[i]->out.requests);
        if (msg.empty()) msg = lib::diff(parts[i]->m, alone[i].ends, parts[i]->out.ends);
        CHECK(ctx, msg.empty(), "part " << i << " of a larger model behaves otherwise than on its own: " << msg);
        for (auto& [t, s] : alone[i].requests)
            for (auto& v : s)
                for (double x : v.x) ctx.mix(x);
    }
    if (switches && parts[0]->p.times.size() && parts[1]->p.times.size()) ctx.nontrivial();
    ctx.label("interleavings", switches);
    if (!whole) return;
    for (auto& p : parts) p->out = {};
    auto stepper = lib::make_stepper(wp.method);
    auto sim     = lib::make_sim(wp.sim, *hosts[0],
                             [&](pooya::Block& b, double t)
                             {
                                 CHECK(ctx, &b == hosts[0].get(), "the input callback was given a block that is not the model");
                                 for (std::size_t k = 0; k < outside.size(); k += 2) outside[k] = 2.5;
                                 for (auto& p : parts) p->inputs(t);
                             },
                             first_states ? stepper.get() : nullptr);
    std::vector<double> ends;
    for (std::size_t k = 0; k <= wp.times.size(); k++)
    {
        const double t = k ? wp.times[k - 1] : wp.t0;
        if (k || !wp.explicit_init)
            sim->run(t, wp.min_step, wp.max_step);
        else
            sim->init(t);
        for (auto& p : parts) p->out.requests.emplace_back(t, p->d->snap());
    }
    for (std::size_t i = 0; i < parts.size(); i++)
    {
        auto msg = lib::diff(parts[i]->m, alone_whole[i].requests, parts[i]->out.requests);
        if (msg.empty()) msg = lib::diff(parts[i]->m, alone_whole[i].ends, parts[i]->out.ends);
        CHECK(ctx, msg.empty(), "part " << i << " behaves otherwise when the whole is simulated: " << msg);
        if (parts[i]->d->root)
            for (auto& [t, s] : parts[i]->out.ends) ends.push_back(t);
        for (auto& q : probes)
            if (parts[i]->d->root) CHECK(ctx, q->posts == ends, "a block of the whole model did not get the notifications that the parts got");
        ends.clear();
    }
    for (auto& q : probes) CHECK(ctx, q->calls > q->posts.size(), "a block of the whole model was not evaluated");
    ctx.label("whole simulated afterwards");
}
