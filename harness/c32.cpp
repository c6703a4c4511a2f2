#include <algorithm>

#include "memtrack.hpp"

#include "lib.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/integrator.hpp"
#include "src/solver/history.hpp"

// The memory a simulation holds does not grow with its length, and all of it is given back.
using ref::Kind;
using ref::Ty;

namespace
{
struct Oops
{
};
enum class Act { None, Throw, ThrowInput, Back, Reconnect, Scope, Repeat, Reinit };
struct Phase
{
    bool reinit{false};
    std::vector<Act> acts; // one per step
    std::vector<unsigned> when;
};
struct Case
{
    ref::Model m;
    lib::SimKind kind{};
    ref::Method method{};
    double t0{}, h{}, max_step{};
    std::vector<Phase> phases;
    unsigned rows{0}, grow{1}; // of the history; 0: none
    std::vector<std::size_t> ring; // integrators whose derivatives are each other's outputs, with their sizes
    bool ring_twice{false};
    std::vector<int> dup; // signals that are put into buses and handles
};

struct Life
{
    std::vector<mem::Live> marks; // after each phase
    std::vector<double> ends;     // times of the accepted step ends
    std::vector<std::size_t> ends_at; // their number at each mark
    std::string problem;
    uint64_t refused{0};
};

void live_once(const Case& k, Life& out)
{
    out.marks.clear();
    out.ends.clear();
    out.ends_at.clear();
    lib::Diagram d(k.m);
    d.monitor = false;
    if (d.root)
        d.root->on_post = [&](double t)
        {
            if (out.ends.size() == out.ends.capacity()) throw pbt::Discard();
            out.ends.push_back(t);
        };
    // integrators that feed each other directly
    std::vector<pooya::ArraySignal> ring_sigs;
    std::vector<std::unique_ptr<pooya::IntegratorA>> ring;
    for (std::size_t i = 0; i < k.ring.size(); i++) ring_sigs.emplace_back(k.ring[i]);
    for (std::size_t i = 0; i < k.ring.size(); i++)
    {
        ring.push_back(std::make_unique<pooya::IntegratorA>(lib::to_array(std::vector<double>(k.ring[i], 0.5))));
        if (d.root && k.ring_twice) ring.back()->set_parent(*d.root);
        pooya::Bus ib{ring_sigs[(i + 1) % k.ring.size()]}, ob{ring_sigs[i]};
        ring.back()->connect(ib, ob);
    }
    // handles
    std::vector<pooya::Signal> held;
    std::vector<pooya::Bus> buses;
    for (int s : k.dup)
    {
        held.push_back(d.sigs[std::size_t(s)]);
        buses.push_back(buses.empty() ? pooya::Bus{d.sigs[std::size_t(s)]} : pooya::Bus{d.sigs[std::size_t(s)], buses.back()});
    }

    auto st  = lib::make_stepper(k.method);
    const bool states = k.m.num_states() > 0 || (d.root && k.ring_twice && !k.ring.empty());
    auto sim = lib::make_sim(k.kind, d.model(), d.callback(), states ? st.get() : nullptr);
    pooya::History history(k.grow);
    if (k.rows)
        for (auto& s : d.sigs) history.track(s);

    unsigned calls = 0, until = 0;
    bool armed = false, armed_input = false;
    d.on_called = [&](int, double)
    {
        if (armed && calls++ == until) throw Oops();
    };
    d.on_inputs = [&](double)
    {
        if (armed_input && calls++ == until) throw Oops();
    };
    double t = k.t0;
    auto end = [&]
    {
        if (!d.root) out.ends.push_back(t);
    };
    unsigned row = 0;
    sim->init(t);
    end();
    for (auto& ph : k.phases)
    {
        if (ph.reinit)
        {
            t += k.h;
            sim->init(t);
            end();
        }
        for (std::size_t i = 0; i < ph.acts.size(); i++)
        {
            switch (ph.acts[i])
            {
            case Act::Throw:
            case Act::ThrowInput:
                calls = 0;
                until = ph.when[i];
                (ph.acts[i] == Act::Throw ? armed : armed_input) = true;
                break;
            case Act::Back:
                if (!states) break;
                try
                {
                    sim->run(t - k.h, k.h / 5, k.max_step);
                    out.problem = "a run back in time is accepted";
                }
                catch (const std::exception&)
                {
                    out.refused++;
                }
                break;
            case Act::Reconnect:
                for (auto& b : d.blocks)
                    if (b)
                    {
                        try
                        {
                            b->connect(pooya::Bus(), pooya::Bus());
                            out.problem = "a block is connected twice";
                        }
                        catch (const std::exception&)
                        {
                            out.refused++;
                        }
                        break;
                    }
                break;
            case Act::Scope:
            {
                // things that come and go
                pooya::ScalarSignal x("x"), y("y");
                pooya::Pipe pipe(nullptr, "pipe");
                pooya::Integrator self(1.0);
                {
                    pooya::Bus ib{x}, ob{y};
                    pipe.connect(ib, ob);
                }
                {
                    pooya::Bus ib{y}, ob{y};
                    self.connect(ib, ob);
                }
                pooya::History h(3);
                h.track(x);
                for (auto& s : d.sigs) h.track(s);
                h.update(0, 0.0);
                h.update(7, 1.0);
                h.shrink_to_fit();
                break;
            }
            default: break;
            }
            t += k.h;
            bool thrown = false;
            try
            {
                sim->run(t, k.h / 5, k.max_step);
            }
            catch (const Oops&)
            {
                thrown = true;
                out.refused++;
            }
            armed = armed_input = false;
            if (thrown)
            {
                t += k.h;
                sim->run(t, k.h / 5, k.max_step);
            }
            end();
            if (k.rows) history.update(row++ % k.rows, t);
        }
        out.marks.push_back(mem::live());
        out.ends_at.push_back(out.ends.size());
        if (out.marks.size() == out.marks.capacity()) break;
    }
}
} // namespace

PROPERTY("C32", "random diagrams, plus integrators that feed each other directly, held by handles, buses and a history, run by any of the simulators and methods in 3-8 phases of "
                "4-80 regular steps, with re-initialisations, exceptions in user functions and inputs, refused calls, recording of the same rows, and objects that come and "
                "go; the number and size of live heap blocks after each phase may exceed that after the second only by what the delays' lifespans explain, and must be the "
                "same after as before the whole life of all objects; non-trivial: at least 2 blocks and 30 steps")
{
    mem::start();
    Case k;
    ref::GenOpts o;
    o.typical_nodes = 6;
    o.max_nodes     = 20;
    k.m             = ref::gen_model(c, o);
    k.kind          = lib::SimKind(c.draw(3));
    k.method        = ref::Method(c.draw(3));
    k.t0            = c.flip() ? 0 : c.moderate(3);
    k.h             = c.oneof({0.125, 0.1, 0.03, 0.5});
    k.max_step      = c.chance(1, 3) ? k.h / 2.5 : 1;
    const bool delays = k.m.has(Kind::Delay);
    bool user         = false;
    for (auto& n : k.m.nodes) user |= n.kind == Kind::Fn || n.kind == Kind::SisoFn || n.kind == Kind::SoFn || n.kind == Kind::Source || n.kind == Kind::Sources;
    const int np      = int(c.range(3, 8));
    const int ns      = std::min(c.big(4, 24, 60, 200, 100), 4 + 2000 / (k.m.weight() + 1));
    const bool reinit = c.chance(1, 3), disturb = c.flip();
    std::size_t steps = 0;
    for (int i = 0; i < np; i++)
    {
        Phase p;
        p.reinit = reinit && (i == 0 || c.flip());
        for (int s = 0; s < ns; s++)
        {
            const std::size_t a = disturb && (i == 0 ? s < 5 : c.chance(1, 6)) ? (i == 0 ? std::size_t(s) : c.draw(5)) : 5;
            p.acts.push_back(a == 0 ? (user ? Act::Throw : Act::None) : a == 1 ? Act::ThrowInput : a == 2 ? Act::Back : a == 3 ? Act::Reconnect : a == 4 ? Act::Scope : Act::None);
            p.when.push_back(unsigned(c.draw(6)));
            steps++;
        }
        k.phases.push_back(std::move(p));
    }
    if (c.chance(1, 3))
    {
        k.rows = unsigned(c.range(1, ns));
        k.grow = unsigned(c.oneof({1, 2, 7, 100}));
    }
    if (c.chance(1, 3))
    {
        const std::size_t n = std::size_t(c.range(1, 4));
        k.ring.assign(std::size_t(c.range(1, 4)), n);
        k.ring_twice = c.flip();
    }
    const int nd = int(c.draw(4));
    for (int i = 0; i < nd && !k.m.sigs.empty(); i++) k.dup.push_back(int(c.draw(k.m.sigs.size())));
    NOTE(ctx, k.m.describe() << "  " << lib::sim_name(k.kind) << ", " << ref::method_name(k.method) << ", t0 " << k.t0 << ", step " << k.h << ", max_step " << k.max_step << ", " << np << " phases of "
                             << ns << " steps" << (reinit ? ", re-initialised" : "") << (disturb ? ", disturbed" : "") << (k.rows ? ", history" : "") << ", ring of " << k.ring.size()
                             << (k.ring_twice ? " (in the model)" : ""));

    Life life;
    life.marks.reserve(16);
    life.ends.reserve(1 << 16);
    life.ends_at.reserve(16);
    const auto depth = lib::trace_depth();
    mem::Live before[4];
    for (int i = 0; i < 4; i++)
    {
        before[i] = mem::live();
        if (i < 3) live_once(k, life);
        CHECK(ctx, life.problem.empty(), life.problem);
    }
    CHECK(ctx, lib::trace_depth() == depth, "the diagnostic trace is not balanced");
    // (the first life may leave something that is made only once)
    CHECK(ctx, before[3].blocks == before[2].blocks && before[3].bytes == before[2].bytes,
          "after everything has been destroyed, " << before[3].blocks - before[2].blocks << " heap blocks (" << before[3].bytes - before[2].bytes << " bytes) are still allocated");

    // (something may be made late, or be released in batches, but nothing may grow with the number of steps)
    double may_bytes = 1024, may_blocks = 6;
    // what the delays need: the samples of one lifespan
    if (delays)
        for (auto& n : k.m.nodes)
        {
            if (n.kind != Kind::Delay) continue;
            std::size_t most = 0, lo = 0;
            for (std::size_t e = 0; e < life.ends.size(); e++)
            {
                while (life.ends[lo] < life.ends[e] - n.par1) lo++;
                most = std::max(most, e - lo + 1);
            }
            const double samples = double(most) + 3;
            may_bytes += 2 * (16 + 16) * samples + 2048; // the two vectors, up to half full (or deques)
            may_blocks += samples / 16 + 4;
            if (n.ty == Ty::A)
            {
                may_bytes += (8 * n.n + 32) * samples;
                may_blocks += samples;
            }
        }
    const auto& base = life.marks.at(1);
    for (std::size_t i = 2; i < life.marks.size(); i++)
    {
        const auto& x = life.marks[i];
        CHECK(ctx, double(x.blocks - base.blocks) <= may_blocks && double(x.bytes - base.bytes) <= may_bytes,
              "from " << life.ends_at[1] << " to " << life.ends_at[i] << " steps, the memory in use grows by " << x.blocks - base.blocks << " heap blocks and " << x.bytes - base.bytes
                      << " bytes (at most " << may_blocks << " and " << may_bytes << " can be explained)");
    }
    ctx.mix(uint64_t(life.ends.size()));
    ctx.label("steps", life.ends.size());
    ctx.label("refused calls", life.refused);
    if (delays) ctx.label("with delays");
    if (!k.ring.empty()) ctx.label("integrators that feed each other");
    if (k.m.nodes.size() >= 2 && steps >= 30) ctx.nontrivial();
}
