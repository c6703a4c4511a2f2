#include <optional>

#include "lib.hpp"

// Several simulations at once: each must behave bit for bit as it does alone.
namespace
{
struct Spec
{
    ref::Model m;
    lib::RunPlan p;
    int stepper{0}; // index into the shared ones, or -1: its own
};

struct Sample
{
    std::vector<std::pair<double, lib::LSnap>> at_requests, at_ends;
    std::vector<lib::Attempt> attempts;
};

struct World
{
    const Spec& s;
    Sample out;
    std::size_t stage{0}; // 0: diagram, 1: simulator, 2: init, 3...: runs, last: destruction
    bool busy{false};
    std::optional<lib::Diagram> d;
    std::shared_ptr<pooya::StepperBase> own;
    pooya::StepperBase* stepper{nullptr};
    std::optional<lib::SpyStepper> spy;
    std::shared_ptr<pooya::SimulatorBase> sim;
    std::function<void(World&)> interrupt; // called within the input callback

    World(const Spec& sp, pooya::StepperBase* shared) : s(sp), stepper(shared) {}
    std::size_t stages() const { return s.p.times.size() + 4; }
    bool done() const { return stage >= stages(); }
    void advance()
    {
        busy            = true;
        const auto k    = stage++;
        const auto& p   = s.p;
        const auto grab = [&](double t)
        {
            out.at_requests.emplace_back(t, d->snap());
            for (auto& a : spy->log) out.attempts.push_back(a);
            spy->log.clear();
        };
        if (k == 0)
        {
            d.emplace(s.m);
            d->monitor = false;
            if (d->root) d->root->on_post = [this](double t) { out.at_ends.emplace_back(t, d->snap()); };
            d->on_inputs = [this](double)
            {
                if (interrupt) interrupt(*this);
            };
        }
        else if (k == 1)
        {
            if (!stepper)
            {
                own     = lib::make_stepper(p.method);
                stepper = own.get();
            }
            spy.emplace(*stepper);
            sim = lib::make_sim(p.sim, d->model(), d->callback(), s.m.num_states() ? &*spy : nullptr);
        }
        else if (k == 2)
        {
            if (p.explicit_init)
                sim->init(p.t0);
            else
                sim->run(p.t0, p.min_step, p.max_step);
            grab(p.t0);
        }
        else if (k + 1 < stages())
        {
            const double t = p.times[k - 3];
            sim->run(t, p.min_step, p.max_step);
            grab(t);
        }
        else
        {
            sim.reset();
            d.reset();
            spy.reset();
            own.reset();
        }
        busy = false;
    }
};

std::string differ(const Spec& s, const Sample& a, const Sample& b)
{
    auto msg = lib::diff(s.m, a.at_requests, b.at_requests);
    if (msg.empty()) msg = lib::diff(s.m, a.at_ends, b.at_ends);
    if (!msg.empty()) return msg;
    if (a.attempts.size() != b.attempts.size()) return "different numbers of sub-steps";
    for (std::size_t i = 0; i < a.attempts.size(); i++)
    {
        auto &x = a.attempts[i], &y = b.attempts[i];
        if (x.t0 != y.t0 || x.t1 != y.t1 || x.new_h != y.new_h || x.eval_t != y.eval_t) return "the sub-steps differ";
    }
    return "";
}
} // namespace

PROPERTY("C24", "2-4 random diagrams (also several copies of one) with their simulators and solvers, some sharing a solver object; each is built, initialised, run and "
                "destroyed in a random interleaving with the others, partly from within another simulation's input callback, and must give bit for bit the values, "
                "step ends and sub-steps it gives alone; alone it must give the same ones every time; non-trivial: two simulations really interleaved")
{
    ref::GenOpts o;
    o.typical_nodes = 5;
    o.max_nodes     = 20;
    std::vector<Spec> specs;
    const int n = int(c.range(2, 4));
    for (int i = 0; i < n; i++)
    {
        Spec s;
        s.m = i && c.chance(1, 3) ? specs[c.draw(uint64_t(i))].m : ref::gen_model(c, o);
        s.p = lib::gen_plan(c, s.m, 4, !s.m.has(ref::Kind::Delay));
        if (i && c.chance(1, 2))
        {
            // the same times and method as another one
            auto& q     = specs[c.draw(uint64_t(i))].p;
            s.p.method  = q.method;
            if (!s.m.has(ref::Kind::Delay)) s.p.t0 = q.t0, s.p.times = q.times;
        }
        s.stepper = c.chance(1, 4) ? -1 : int(s.p.method);
        specs.push_back(std::move(s));
    }
    for (int i = 0; i < n; i++) NOTE(ctx, " simulation " << i << (specs[std::size_t(i)].stepper < 0 ? " (own solver object)" : "") << "\n" << specs[std::size_t(i)].m.describe() << specs[std::size_t(i)].p.describe());
    // alone, twice, with the memory in different shape
    std::vector<Sample> alone;
    for (auto& s : specs)
    {
        World a(s, nullptr);
        while (!a.done()) a.advance();
        std::vector<std::unique_ptr<char[]>> junk;
        for (std::size_t i = 0; i < 24; i++) junk.emplace_back(new char[16 + (i * 2654435761u) % 400]);
        for (std::size_t i = 0; i < junk.size(); i += 1 + (i * 7) % 3) junk[i].reset();
        World b(s, nullptr);
        while (!b.done()) b.advance();
        auto msg = differ(s, a.out, b.out);
        CHECK(ctx, msg.empty(), "the same simulation run twice gives different results: " << msg);
        alone.push_back(std::move(a.out));
    }
    std::vector<std::shared_ptr<pooya::StepperBase>> shared;
    for (int k = 0; k < 3; k++) shared.push_back(lib::make_stepper(ref::Method(k)));
    std::vector<std::unique_ptr<World>> w;
    for (auto& s : specs) w.push_back(std::make_unique<World>(s, s.stepper < 0 ? nullptr : shared[std::size_t(s.stepper)].get()));
    const bool nest = c.chance(1, 2);
    uint64_t nested = 0, budget = 6;
    int depth = 0;
    if (nest)
        for (auto& x : w)
            x->interrupt = [&](World& me)
            {
                if (depth >= 2 || nested >= budget || !c.chance(1, 4)) return;
                std::vector<World*> can;
                for (auto& y : w)
                {
                    // a solver in the middle of a step is not free for another simulation
                    bool ok = !y->busy && !y->done() && y.get() != &me;
                    for (auto& z : w)
                        if (z->busy && z->stepper && z->stepper == y->stepper) ok = false;
                    if (ok) can.push_back(y.get());
                }
                if (can.empty()) return;
                World* y = can[c.draw(can.size())];
                NOTE(ctx, "  (within its input callback:) simulation " << &y->s - specs.data() << " stage " << y->stage);
                depth++;
                nested++;
                y->advance();
                depth--;
            };
    uint64_t switches = 0;
    World* last       = nullptr;
    for (;;)
    {
        std::vector<World*> can;
        for (auto& x : w)
            if (!x->done()) can.push_back(x.get());
        if (can.empty()) break;
        World* x = can[c.draw(can.size())];
        if (last && last != x && x->stage > 2 && !last->done()) switches++;
        last = x;
        NOTE(ctx, "  simulation " << &x->s - specs.data() << " stage " << x->stage);
        x->advance();
    }
    bool sharing = false;
    for (int i = 0; i < n; i++)
    {
        auto msg = differ(specs[std::size_t(i)], alone[std::size_t(i)], w[std::size_t(i)]->out);
        CHECK(ctx, msg.empty(), "simulation " << i << " gives other results next to others than alone: " << msg);
        for (auto& [t, s] : alone[std::size_t(i)].at_requests)
            for (auto& v : s)
                for (double x : v.x) ctx.mix(x);
        for (int j = 0; j < i; j++)
            sharing |= specs[std::size_t(i)].stepper >= 0 && specs[std::size_t(i)].stepper == specs[std::size_t(j)].stepper && specs[std::size_t(i)].m.num_states() && specs[std::size_t(j)].m.num_states();
    }
    if (switches) ctx.nontrivial();
    if (sharing) ctx.label("solver shared");
    if (nested) ctx.label("advanced from another one's callback", nested);
    ctx.label("interleavings", switches);
}
