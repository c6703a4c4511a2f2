#include <ios>
#include <new>
#include <optional>
#include <stdexcept>
#include <system_error>
#include <typeinfo>
#include <variant>

#include "lib.hpp"

#include "src/block/extra/bus_pipe.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/subtract.hpp"
#include "src/block/integrator.hpp"
#include "src/solver/history.hpp"

// Failing calls: what is raised, what it leaves behind, and what happens afterwards.
using ref::Kind;
using ref::Ty;
namespace
{
// what user code throws: exceptions of its own, derived from any of the standard ones or from none
struct UserError
{
    int flavour{0};
};
template<class B>
struct UserErrorOf : B, UserError
{
    template<class... A>
    explicit UserErrorOf(int f, A&&... a) : B(std::forward<A>(a)...), UserError{f}
    {
    }
};
constexpr int num_flavours = 16;
[[noreturn]] void throw_user_error(int f)
{
    const char* text = "by the user";
    switch (f)
    {
    case 0: throw UserErrorOf<std::runtime_error>(f, text);
    case 1: throw UserErrorOf<std::logic_error>(f, text);
    case 2: throw UserErrorOf<std::invalid_argument>(f, text);
    case 3: throw UserErrorOf<std::out_of_range>(f, text);
    case 4: throw UserErrorOf<std::domain_error>(f, text);
    case 5: throw UserErrorOf<std::length_error>(f, text);
    case 6: throw UserErrorOf<std::range_error>(f, text);
    case 7: throw UserErrorOf<std::overflow_error>(f, text);
    case 8: throw UserErrorOf<std::underflow_error>(f, text);
    case 9: throw UserErrorOf<std::bad_alloc>(f);
    case 10: throw UserErrorOf<std::bad_cast>(f);
    case 11: throw UserErrorOf<std::bad_variant_access>(f);
    case 12: throw UserErrorOf<std::system_error>(f, std::make_error_code(std::errc::io_error), text);
    case 13: throw UserErrorOf<std::ios_base::failure>(f, text);
    case 14: throw UserErrorOf<std::exception>(f);
    default: throw UserError{f};
    }
}

// ---- simulations whose callbacks fail at some evaluation ------------------------------------------------------------
struct World
{
    World(const ref::Model& m, const lib::RunPlan& p) : d(m), stepper(lib::make_stepper(p.method)), plan(p)
    {
        d.monitor     = false;
        d.on_inputs   = [this](double) { tick("input callback"); };
        d.on_called   = [this](int, double) { tick("user function"); };
        auto write    = d.root->on_input;
        d.root->on_input = [this, write](double t)
        {
            tick("input hook");
            if (write) write(t);
        };
        d.root->on_pre  = [this](double) { tick("start of a step"); };
        d.root->on_post = [this](double t) { ends.emplace_back(t, d.snap()); };
    }
    void make(lib::SimKind k) { sim = lib::make_sim(k, d.model(), d.callback(), d.m.num_states() ? stepper.get() : nullptr); }
    void tick(const char* where)
    {
        if (left == 0 || --left > 0) return;
        thrown = where;
        switch (fault)
        {
        case 0: throw_user_error(flavour);
        case 1: throw 42;
        default:
        {
            // misuse that the library notices
            pooya::ScalarSignal s("nobody");
            if (fault == 2)
                (void)double(s);
            else
            {
                s = 1.0;
                s = 2.0;
            }
        }
        }
    }
    lib::Diagram d;
    std::shared_ptr<pooya::StepperBase> stepper;
    std::shared_ptr<pooya::SimulatorBase> sim;
    lib::RunPlan plan;
    std::vector<std::pair<double, lib::LSnap>> ends;
    uint64_t left{0}; // calls of user code until the fault; 0: none
    int fault{0}, flavour{0};
    const char* thrown{nullptr};
};

// runs f; returns 0: returned, 1: UserError, 2: int, 3: another standard exception (its text in what)
template<class F>
int outcome(pbt::Ctx& ctx, F&& f, std::string& what)
{
    const auto depth = lib::trace_depth();
    int r            = 0;
    what.clear();
    try
    {
        f();
    }
    catch (const pbt::Failure&)
    {
        throw;
    }
    catch (const UserError& e)
    {
        what = "user error " + std::to_string(e.flavour);
        r    = 1;
    }
    catch (int k)
    {
        CHECK(ctx, k == 42, "another int was thrown");
        r = 2;
    }
    catch (const std::exception& e)
    {
        what = e.what();
        r    = 3;
    }
    CHECK(ctx, lib::trace_depth() == depth, "the diagnostic trace is " << lib::trace_depth() << " deep after the call, " << depth << " before (" << (r ? "raised" : "returned") << ")");
    return r;
}

void faulty_simulation(pbt::Choices& c, pbt::Ctx& ctx)
{
    ref::GenOpts o;
    o.typical_nodes = 6;
    o.allow_bare    = false;
    auto m          = ref::gen_model(c, o);
    const bool states  = m.num_states() > 0;
    const bool repeats = !m.has(Kind::Delay);
    auto p             = lib::gen_plan(c, m, 5, false);
    if (p.method == ref::Method::Rkf45) p.method = ref::Method::Rk4; // sub-steps do not depend on where a run ends
    if (c.flip()) p.max_step = c.uniform(0.05, 0.4);
    p.min_step = p.max_step / 100;
    NOTE(ctx, m.describe() << p.describe());
    World a(m, p), b(m, p);
    std::string what;
    uint64_t faults = 0, refused = 0, resumed = 0, later = 0;
    auto same = [&](const char* when)
    {
        auto msg = lib::diff(m, a.ends, b.ends);
        CHECK(ctx, msg.empty(), when << ": " << msg);
        msg = lib::diff(m, {{0.0, a.d.snap()}}, {{0.0, b.d.snap()}});
        CHECK(ctx, msg.empty(), when << ": " << msg);
    };
    auto arm = [&]
    {
        a.fault  = int(c.draw(lib::checked_build ? 4 : 2));
        a.flavour = a.fault == 0 ? int(c.draw(num_flavours)) : 0;
        a.left   = 1 + (c.flip() ? c.draw(6) : c.draw(120));
        a.thrown = nullptr;
        NOTE(ctx, "   user code fails at call " << a.left << " (kind " << a.fault << ")");
    };
    // after a call that may have failed by the armed fault: did it?
    auto failed = [&](int r, const char* call)
    {
        a.left = 0;
        if (!a.thrown)
        {
            CHECK(ctx, r == 0, call << " raised an exception although nothing was wrong: " << what);
            return false;
        }
        const int expected = a.fault == 0 ? 1 : a.fault == 1 ? 2 : 3;
        CHECK(ctx, r == expected, "an exception raised within the " << a.thrown << " did not get out of " << call << " as it was");
        if (r == 1) CHECK(ctx, what == "user error " + std::to_string(a.flavour), "another exception than the one raised: " << what);
        if (r == 3) CHECK(ctx, what.find("nobody") != std::string::npos, "the error does not name the signal: " << what);
        ctx.label(std::string("raised in ") + a.thrown);
        faults++;
        return true;
    };
    // a simulator without a solver comes to nothing, but harms nobody
    if (lib::checked_build && states && c.chance(1, 6))
    {
        for (auto* w : {&a, &b})
        {
            auto sim = lib::make_sim(p.sim, w->d.model(), w->d.callback(), nullptr);
            sim->init(p.t0 - 2);
            if (w == &a)
                for (int k = 0; k < 2; k++)
                {
                    const int r = outcome(ctx, [&] { sim->run(p.t0 - 1, p.min_step, p.max_step); }, what);
                    CHECK(ctx, r == 3 && !what.empty(), "a run without a solver was not refused");
                    refused++;
                }
        }
        same("after a run without solver");
    }
    a.make(p.sim);
    b.make(p.sim);
    // initialisation, perhaps after failed attempts
    bool have = false;
    for (int k = int(c.weighted({3, 2, 1})); k > 0 && !have; k--)
    {
        const bool impl = c.flip();
        NOTE(ctx, "  " << (impl ? "first run" : "init") << " at " << p.t0);
        arm();
        have = !failed(outcome(ctx, [&] { impl ? a.sim->run(p.t0, p.min_step, p.max_step) : a.sim->init(p.t0); }, what), "the initialisation");
        if (have) break;
        CHECK(ctx, a.ends.size() == b.ends.size(), "a failed initialisation completed a step");
        if (c.chance(1, 3))
        {
            NOTE(ctx, "  a new simulator");
            a.make(p.sim);
        }
        ctx.label("initialisation failed");
    }
    if (!have) p.explicit_init ? a.sim->init(p.t0) : a.sim->run(p.t0, p.min_step, p.max_step);
    b.sim->init(p.t0);
    same("after the initialisation");
    double t_prev = p.t0;
    auto bad      = [&](double t)
    {
        // requests that must be refused and change nothing
        while (c.chance(1, 4))
        {
            auto before     = a.d.snap();
            const auto ends = a.ends.size();
            int r           = 0;
            if (states && c.flip())
            {
                const double back = c.oneof({t_prev - 1, std::nextafter(t_prev, -1e300), p.t0 - 100});
                NOTE(ctx, "  run back to " << back);
                r = outcome(ctx, [&] { a.sim->run(back, p.min_step, p.max_step); }, what);
            }
            else if (states && lib::checked_build && t > t_prev)
            {
                const int k     = int(c.draw(4));
                const double mn = k == 0 ? 0 : k == 1 ? -0.1 : k == 2 ? 0.5 : 0.7, mx = 0.5;
                NOTE(ctx, "  run with the limits " << mn << ", " << mx);
                r = outcome(ctx, [&] { a.sim->run(t, mn, mx); }, what);
            }
            else
                continue;
            CHECK(ctx, r == 3 && !what.empty(), "an impossible request was not refused");
            auto now = a.d.snap();
            for (std::size_t s = 0; s < m.sigs.size(); s++)
                CHECK(ctx, now[s] == before[s], "a refused request changed signal " << m.sigs[s].name << " from " << lib::show(before[s]) << " to " << lib::show(now[s]));
            CHECK(ctx, a.ends.size() == ends, "a refused request completed a step");
            refused++;
        }
    };
    std::vector<double> times;
    for (double t : p.times)
    {
        times.push_back(t);
        if (repeats && c.chance(1, 5)) times.push_back(t);
    }
    for (double t : times)
    {
        bad(t);
        bool done = false;
        for (int k = int(c.weighted({3, 3, 1, 1})); k > 0 && !done; k--)
        {
            NOTE(ctx, "  run to " << t);
            const auto ends = a.ends.size();
            arm();
            done = !failed(outcome(ctx, [&] { a.sim->run(t, p.min_step, p.max_step); }, what), "the run");
            if (!done && a.ends.size() > ends)
            {
                // the simulation has come this far
                t_prev = a.ends.back().first;
                CHECK(ctx, states && t_prev < t, "a failed run completed the step to t=" << t_prev);
                NOTE(ctx, "   it got to " << t_prev);
                b.sim->run(t_prev, p.min_step, p.max_step);
                auto msg = lib::diff(m, a.ends, b.ends);
                CHECK(ctx, msg.empty(), "up to the failure: " << msg);
                resumed++;
            }
        }
        if (!done) a.sim->run(t, p.min_step, p.max_step);
        b.sim->run(t, p.min_step, p.max_step);
        same("after a run");
        if (faults) later++;
        t_prev = t;
    }
    for (auto& v : a.d.snap())
        for (double x : v.x) ctx.mix(x);
    if (faults + refused && later) ctx.nontrivial();
    ctx.label("faults", faults);
    ctx.label("refused requests", refused);
    ctx.label("resumed from within a run", resumed);
    if (!states) ctx.label("no states");
}

// ---- misuse of single objects ---------------------------------------------------------------------------------------
void misuse(pbt::Choices& c, pbt::Ctx& ctx)
{
    struct Cell
    {
        Ty ty;
        int n;
        bool assigned{false};
        std::vector<double> x;
        std::string name;
    };
    std::vector<Cell> cells;
    std::vector<pooya::Signal> sigs;
    const int ns = int(c.range(4, 9));
    for (int i = 0; i < ns; i++)
    {
        Cell k;
        k.ty   = i < 4 ? Ty(i) : Ty(c.draw(4));
        k.n    = k.ty == Ty::A ? int(c.range(1, 4)) : 1;
        k.name = "sig" + std::to_string(i) + "x";
        cells.push_back(k);
        sigs.push_back(lib::make_signal(k.ty, k.n, k.name));
    }
    pooya::Signal inner(lib::make_bus(std::vector<std::pair<std::string, pooya::Signal>>{{"p", sigs[0]}, {"q", sigs[1]}}, "inner"));
    std::vector<std::pair<std::string, pooya::Signal>> members;
    for (int i = 0; i < ns; i++) members.emplace_back("m" + std::to_string(i), sigs[std::size_t(i)]);
    members.emplace_back("in", inner);
    pooya::Bus bus = lib::make_bus(members, "bus");
    pooya::Submodel top(nullptr, "top"), other(nullptr, "other");
    pooya::Gain gain(2.0, &top, "gain");
    pooya::Subtract sub(&top, "sub");
    pooya::Integrator integ(0.5, &top, "integ");
    bool conn[3] = {false, false, false};
    pooya::ScalarSignal hs("hs"), target("target");
    pooya::ArraySignal ha(3, "ha");
    int bound = -1; // the cell that the typed handle refers to
    pooya::History hist(4);
    pooya::ScalarSignal tracked("tracked");
    hist.track(tracked);
    bool recorded = false;
    std::string what;
    uint64_t refused = 0, valid = 0;
    enum
    {
        Never,
        Always,
        Checked
    };
    auto expect = [&](int when, const char* op, const std::string& names, auto&& f)
    {
        if (when == Checked && !lib::checked_build) return; // not a defined use
        const int r = outcome(ctx, f, what);
        if (when == Never)
        {
            CHECK(ctx, r == 0, op << " raised an exception: " << what);
            valid++;
            return;
        }
        CHECK(ctx, r == 3, op << " was not refused");
        CHECK(ctx, !what.empty() && what.find(names) != std::string::npos, op << ": the error does not tell the cause (" << names << "): " << what);
        ctx.label(op);
        refused++;
    };
    auto all_as_they_should_be = [&](const char* op)
    {
        for (int i = 0; i < ns; i++)
        {
            auto v = lib::read(sigs[std::size_t(i)]);
            CHECK(ctx, v.assigned == cells[std::size_t(i)].assigned && (!v.assigned || v.x == cells[std::size_t(i)].x),
                  "after " << op << " the signal " << cells[std::size_t(i)].name << " is " << lib::show(v));
        }
        CHECK(ctx, gain.connected() == conn[0] && sub.connected() == conn[1] && integ.connected() == conn[2], "after " << op << " a block is connected or not, wrongly");
        CHECK(ctx, gain.parent() == &top && sub.parent() == &top && integ.parent() == &top && top.parent() == nullptr, "after " << op << " a block has another parent");
        CHECK(ctx, &hs.impl() == (bound < 0 ? &hs.impl() : dynamic_cast<pooya::ScalarSignalImpl*>(&sigs[std::size_t(bound)].impl())), "after " << op << " a handle refers to another signal");
        CHECK(ctx, hist.nrows() == uint(recorded), "after " << op << " the history has other rows");
    };
    pooya::Block* blocks[3] = {&gain, &sub, &integ};
    const char* bnames[3]   = {"gain", "sub", "integ"};
    const int steps         = c.chance(1, 64) ? int(c.range(25, 300)) : int(c.range(3, 25));
    for (int s = 0; s < steps; s++)
    {
        const int i  = int(c.draw(uint64_t(ns)));
        auto& k      = cells[std::size_t(i)];
        auto& sig    = sigs[std::size_t(i)];
        auto values  = [&] { return ref::gen_values(c, k.ty, k.n); };
        auto* vi     = dynamic_cast<pooya::ValueSignalImpl*>(&sig.impl());
        const char* op = "";
        switch (c.draw(14))
        {
        case 0:
            op = "clearing a signal";
            expect(Never, op, "", [&] { vi->clear(); });
            k.assigned = false;
            break;
        case 1:
        case 2:
        {
            auto v = values();
            if (k.assigned)
            {
                op = "assigning a signal again";
                expect(Checked, op, k.name, [&] { lib::write(sig, k.ty, v); });
            }
            else
            {
                op = "assigning a signal";
                expect(Never, op, "", [&] { lib::write(sig, k.ty, v); });
                k.assigned = true;
                k.x        = v;
            }
            break;
        }
        case 3:
            if (k.assigned) break;
            op = "reading an unassigned signal";
            expect(Checked, op, k.name,
                   [&]
                   {
                       switch (k.ty)
                       {
                       case Ty::S: (void)double(pooya::ScalarSignal(sig)); break;
                       case Ty::I: (void)int(pooya::IntSignal(sig)); break;
                       case Ty::B: (void)bool(pooya::BoolSignal(sig)); break;
                       default: (void)pooya::ArraySignal(sig)->get_value().size();
                       }
                   });
            break;
        case 4:
            if (k.ty != Ty::A) break;
            op = "assigning an array of a wrong size";
            expect(Checked, op, k.name, [&] { pooya::ArraySignal(sig)->set_value(pooya::Array::Zero(k.n + int(c.range(1, 3)))); });
            break;
        case 5:
        {
            const Ty w = Ty(c.draw(4));
            if (w == k.ty) break;
            op = "a typed handle for a signal of another type";
            expect(Always, op, k.name,
                   [&]
                   {
                       switch (w)
                       {
                       case Ty::S: pooya::ScalarSignal{sig}; break;
                       case Ty::I: pooya::IntSignal{sig}; break;
                       case Ty::B: pooya::BoolSignal{sig}; break;
                       default: pooya::ArraySignal{sig};
                       }
                   });
            break;
        }
        case 6:
            op = "resetting a typed handle";
            if (k.ty == Ty::S)
            {
                expect(Never, op, "", [&] { hs.reset(sig); });
                bound = i;
            }
            else
                expect(Always, "resetting a typed handle to a signal of another type", k.name, [&] { hs.reset(sig); });
            break;
        case 7:
        {
            const std::string bad = c.oneof({std::string("m99"), std::string("in.zz"), std::string("in.p.x"), std::string("m0.p"), std::string("")});
            op                    = "looking up a missing label";
            expect(Always, op, bad == "in.zz" ? "zz" : bad == "in.p.x" || bad == "m0.p" ? std::string("sig0x") : bad, [&] { (void)bus.at(bad); });
            expect(Never, "looking up a label", "", [&] { CHECK(ctx, &bus.at("m" + std::to_string(i)).impl() == &sig.impl(), "wrong signal found"); });
            expect(Never, "trying a missing label", "", [&] { CHECK(ctx, !bus->try_at(bad).has_value(), "a missing label was found"); });
            break;
        }
        case 8:
        {
            op                     = "an index out of range";
            const std::size_t far = bus.size() + c.draw(3);
            expect(Always, op, "", [&] { (void)bus.at(far); });
            expect(Checked, op, "", [&] { (void)bus[far]; });
            break;
        }
        case 9:
        case 10:
        {
            const int b         = int(c.draw(3));
            const int want      = b == 1 ? 2 : 1;
            const int ni        = int(c.draw(4)), no = int(c.draw(3));
            std::vector<pooya::Signal> in, out;
            for (int q = 0; q < ni; q++) in.emplace_back(pooya::ScalarSignal());
            for (int q = 0; q < no; q++) out.emplace_back(pooya::ScalarSignal());
            auto ib = lib::make_bus(in), ob = lib::make_bus(out);
            const bool ok = !conn[b] && ni == want && no == 1;
            op            = conn[b] ? "connecting a block again" : "connecting a block";
            expect(ok ? Never : Always, op, bnames[b], [&] { blocks[b]->connect(ib, ob); });
            if (ok) conn[b] = true;
            break;
        }
        case 11:
        {
            op = "an unsuitable derivative signal";
            const int n = int(c.range(1, 5));
            pooya::ArraySignal d(std::size_t(n), "der");
            auto before = ha->deriv_signal();
            expect(n == 3 ? Never : Always, op, "der", [&] { ha->set_deriv_signal(d); });
            CHECK(ctx, ha->deriv_signal() == (n == 3 ? &d.impl() : before), "the state variable has another derivative signal");
            if (k.ty != Ty::A)
            {
                before = ha->deriv_signal();
                expect(Always, op, k.name, [&] { ha->set_deriv_signal(sig); });
                CHECK(ctx, ha->deriv_signal() == before, "the state variable has another derivative signal");
            }
            break;
        }
        case 12:
            if (!recorded && c.flip())
            {
                op = "recording";
                tracked->clear();
                tracked = 1.5;
                expect(Never, op, "", [&] { hist.update(0, 3.25); });
                recorded = true;
                break;
            }
            op = "tracking a signal late";
            if (recorded) expect(Checked, op, "", [&] { hist.track(sig); });
            if (recorded) expect(Checked, op, "", [&] { hist.untrack(tracked); });
            expect(Always, "the history of a bus", "", [&] { (void)hist[bus]; });
            expect(Always, "the history of a signal that is not tracked", "", [&] { (void)hist[sig]; });
            if (recorded) expect(Never, "the history of a signal", "", [&] { CHECK(ctx, hist[tracked](0, 0) == 1.5 && hist.time()[0] == 3.25, "the record is lost"); });
            break;
        default:
        {
            op          = "giving a block another parent";
            const int b = int(c.draw(3));
            bool r      = true;
            expect(Never, op, "", [&] { r = blocks[b]->set_parent(other); });
            CHECK(ctx, !r, "a block with a parent accepted another one");
            break;
        }
        }
        NOTE(ctx, "  " << op);
        all_as_they_should_be(op);
    }
    uint32_t members_seen = 0;
    top.visit(
        [&](pooya::Block&, uint32_t) -> bool
        {
            members_seen++;
            return true;
        },
        0);
    CHECK(ctx, members_seen == 4, "the submodel has " << members_seen - 1 << " blocks instead of 3");
    if (refused && valid) ctx.nontrivial();
    ctx.label("misuse of single objects");
}
} // namespace

PROPERTY("C27", "two kinds of cases: (1) random simulations in which user code (callbacks, hooks, functions) raises user-defined, non-standard or library exceptions at a "
                "random call of an initialisation or run, which is then repeated, mixed with requests the library must refuse, and compared bit for bit with a simulation "
                "that never failed; (2) random sequences of valid uses and misuses of signals, handles, buses, blocks and histories against a model; the depth of the "
                "diagnostic trace is compared around each call; non-trivial: at least one failed call followed by a valid one")
{
    if (c.chance(2, 5))
        misuse(c, ctx);
    else
        faulty_simulation(c, ctx);
}
