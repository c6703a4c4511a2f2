#include "lib.hpp"

#include "src/block/leaf.hpp"

// When the external inputs are asked for, with what time and in which situation, and what becomes of the values.
using ref::Kind;
using ref::Ty;
namespace
{
enum class Ev { Callback, Hook, Pre, Eval, Post };
const char* ev_name(Ev e)
{
    switch (e)
    {
    case Ev::Callback: return "input callback";
    case Ev::Hook: return "input hook";
    case Ev::Pre: return "start of step";
    case Ev::Eval: return "derivative evaluation";
    default: return "end of step";
    }
}
struct Event
{
    Ev what;
    double t;
    bool operator==(const Event& o) const { return what == o.what && t == o.t; }
};

std::vector<Event> strip(const std::vector<Event>& v, bool callback, bool hook)
{
    std::vector<Event> r;
    for (auto& e : v)
        if ((e.what != Ev::Callback || callback) && (hook || e.what == Ev::Eval || e.what == Ev::Callback)) r.push_back(e);
    return r;
}

// a single block that is the model, has an input hook of its own and a state
class HookLeaf : public pooya::Leaf
{
public:
    pooya::ScalarSignal u, x, y, cb_in;
    double state{0}, w{1};
    std::vector<double> hooks;
    std::string problem;
    bool has_state;
    explicit HookLeaf(bool with_state) : pooya::Leaf(nullptr, "leaf", 0, 0), has_state(with_state) {}
    bool connect(const pooya::Bus& i, const pooya::Bus& o) override
    {
        if (!pooya::Leaf::connect(i, o)) return false;
        link_signal(u, SignalLinkType::Required);
        link_signal(cb_in, SignalLinkType::Required);
        link_signal(y, SignalLinkType::Output);
        if (has_state)
        {
            x->set_deriv_signal(u);
            link_signal(x, SignalLinkType::Required);
        }
        return true;
    }
    double f(double t) const { return std::sin(w * t) + t; }
    void input_cb(double t) override
    {
        if (u->assigned() || y->assigned()) problem = "a signal is assigned when the hook is called";
        hooks.push_back(t);
        u = f(t);
    }
    void activation_function(double t) override
    {
        if (double(u) != f(t)) problem = "the input is not the value at the time of the evaluation";
        y = double(u) + double(cb_in);
    }
    void pre_step(double) override
    {
        if (has_state) x = state;
    }
    void post_step(double t) override
    {
        if (double(u) != f(t)) problem = "the input is not the value at the time of the step's end";
        if (has_state) state = x;
    }
};

void bare_leaf(pbt::Choices& c, pbt::Ctx& ctx)
{
    const auto kind   = lib::SimKind(c.draw(3));
    const bool states = c.chance(3, 4);
    auto st           = lib::make_stepper(ref::Method(c.draw(3)));
    lib::SpyStepper spy(*st);
    HookLeaf leaf(states);
    leaf.w = c.moderate(2);
    leaf.connect(pooya::Bus(), pooya::Bus());
    std::vector<double> cbs;
    std::string problem;
    auto sim = lib::make_sim(kind, leaf,
                             [&](pooya::Block& b, double t)
                             {
                                 if (&b != &leaf) problem = "the callback was given another block";
                                 if (cbs.size() != leaf.hooks.size()) problem = "the callback does not come before the hook";
                                 if (leaf.u->assigned() || leaf.y->assigned() || leaf.cb_in->assigned()) problem = "a signal is assigned when the callback is called";
                                 cbs.push_back(t);
                                 leaf.cb_in = 2 * t;
                             },
                             states ? &spy : nullptr);
    double t = c.moderate(3);
    NOTE(ctx, "  one block as the model, with an input hook, " << lib::sim_name(kind) << ", " << (states ? "with" : "without") << " state, t0 " << t);
    sim->init(t);
    const int n = int(c.range(1, 6));
    for (int i = 0; i <= n; i++)
    {
        if (i)
        {
            t += c.uniform(0.01, 1);
            spy.log.clear();
            sim->run(t, 1e-3, c.oneof({0.1, 0.3, 1.0}));
        }
        CHECK(ctx, problem.empty() && leaf.problem.empty(), problem << leaf.problem);
        CHECK(ctx, cbs == leaf.hooks, "the callback and the hook are called with different times");
        CHECK(ctx, !cbs.empty() && cbs.back() == t, "the inputs were last asked for at " << cbs.back() << ", not at " << t);
        CHECK(ctx, double(leaf.u) == leaf.f(t) && double(leaf.y) == leaf.f(t) + 2 * t, "signals do not have the values of t=" << t);
        if (i)
        {
            std::vector<double> want;
            for (std::size_t k = 0; k < spy.log.size(); k++)
            {
                auto& a = spy.log[k];
                if (k && spy.log[k].t0 != spy.log[k - 1].t0) want.push_back(a.t0); // the end of the step before
                want.push_back(a.t0);
                for (double e : a.eval_t) want.push_back(e);
            }
            want.push_back(t);
            CHECK(ctx, cbs == want, "inputs asked for " << cbs.size() << " times instead of " << want.size() << ", or at other times");
        }
        cbs.clear();
        leaf.hooks.clear();
    }
    ctx.label("single block with a hook");
    if (states) ctx.nontrivial();
}
} // namespace

PROPERTY("C26", "random diagrams with time-driven inputs written by the callback or by the model's hook; every call of both is recorded with its time and the state of "
                "all signals, and the sequence is compared with that of the evaluations and attempts seen by the solver; values written are compared at each "
                "evaluation, step end and return; the diagram with source blocks instead of the inputs must give bit-identical values; also single blocks with a "
                "hook; non-trivial: at least one input and one step with states, or two runs without")
{
    if (c.chance(1, 10)) return bare_leaf(c, ctx);
    ref::GenOpts o;
    ref::Model m = ref::gen_model(c, o);
    auto p       = lib::gen_plan(c, m, 5, !m.has(Kind::Delay));
    m.no_callback          = false; // (done here)
    const bool no_callback = !m.bare && c.chance(1, 8);
    if (no_callback)
        for (auto& e : m.exts) e.hook = true;
    NOTE(ctx, m.describe() << p.describe() << (no_callback ? "  no input callback\n" : ""));
    const bool states = m.num_states() > 0;
    std::vector<char> is_state(m.sigs.size(), 0);
    for (auto& n : m.nodes)
        switch (n.kind)
        {
        case Kind::Integ:
        case Kind::TrigInt:
        case Kind::UserStateA: is_state[std::size_t(n.out[0])] = 1; break;
        case Kind::UserState: is_state[std::size_t(n.out[0])] = is_state[std::size_t(n.out[1])] = 1; break;
        default: break;
        }
    lib::Diagram d(m);
    d.monitor = false;
    std::vector<Event> log;
    std::string problem;
    double now        = 0; // the time of the last callback or hook
    uint64_t calls    = 0;
    auto unassigned   = [&](const char* where, double t, bool written)
    {
        auto s = d.snap();
        for (std::size_t k = 0; k < s.size(); k++)
        {
            if (is_state[k]) continue;
            bool ext = false;
            for (auto& e : m.exts) ext |= written && !e.hook && e.sig == int(k);
            if (s[k].assigned != ext && problem.empty())
                problem = "signal " + m.sigs[k].name + (ext ? " has lost its value" : " is assigned") + " when the " + where + " is called for t=" + std::to_string(t);
        }
    };
    auto hold = [&](const char* where, double t)
    {
        for (auto& e : m.exts)
        {
            auto& sp = m.sigs[std::size_t(e.sig)];
            auto got = lib::read(d.sigs[std::size_t(e.sig)]);
            if ((!got.assigned || got.x != ref::fn_eval<double>(e.fn, sp.ty, sp.n, t, {}, {})) && problem.empty())
                problem = "the external input " + sp.name + " does not hold the value written for t=" + std::to_string(t) + " at the " + where;
        }
    };
    d.on_inputs = [&](double t)
    {
        log.push_back({Ev::Callback, t});
        unassigned("input callback", t, false);
        now = t;
        calls++;
    };
    std::vector<std::pair<double, lib::LSnap>> ends, requests;
    if (d.root)
    {
        auto write      = d.root->on_input;
        d.root->on_input = [&, write](double t)
        {
            log.push_back({Ev::Hook, t});
            unassigned("input hook", t, true);
            if (write) write(t);
            hold("input hook", t);
            if (no_callback) calls++;
            now = t;
        };
        d.root->on_pre = [&](double t)
        {
            log.push_back({Ev::Pre, t});
            hold("start of a step", t);
        };
        d.root->on_post = [&](double t)
        {
            log.push_back({Ev::Post, t});
            hold("end of a step", t);
            ends.emplace_back(t, d.snap());
        };
    }
    auto st = lib::make_stepper(p.method);
    lib::SpyStepper spy(*st);
    spy.on_eval_done = [&](double t)
    {
        log.push_back({Ev::Eval, t});
        hold("derivative evaluation", t);
    };
    auto sim = lib::make_sim(p.sim, d.model(), no_callback ? pooya::SimulatorBase::InputCallback{} : d.callback(), states ? &spy : nullptr);
    const bool hooks = d.root != nullptr;
    auto inputs_at   = [&](std::vector<Event>& v, double t)
    {
        v.push_back({Ev::Callback, t});
        v.push_back({Ev::Hook, t});
    };
    auto describe = [&](const std::vector<Event>& v, std::size_t from)
    {
        std::ostringstream s;
        s.precision(17);
        for (std::size_t i = from; i < std::min(v.size(), from + 6); i++) s << " [" << ev_name(v[i].what) << " " << v[i].t << "]";
        return s.str();
    };
    // without a root, starts and ends of steps are not seen
    auto expect = [&](const std::vector<Event>& want0, const std::vector<Event>& got0, const char* what)
    {
        auto want = strip(want0, !no_callback, hooks), got = strip(got0, true, true);
        std::size_t i = 0;
        while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
        CHECK(ctx, i == want.size() && i == got.size(), "event " << i << " of " << what << ": got" << describe(got, i) << " instead of" << describe(want, i));
    };
    bool stepped = false;
    auto run     = [&](double t, bool first, double before)
    {
        log.clear();
        spy.log.clear();
        if (first && p.explicit_init)
            sim->init(t);
        else
            sim->run(t, p.min_step, p.max_step);
        CHECK(ctx, problem.empty(), problem);
        hold("return to the caller", t);
        CHECK(ctx, problem.empty(), problem);
        requests.emplace_back(t, d.snap());
        std::vector<Event> want;
        if (first)
        {
            // one or more evaluations at the initial time
            std::vector<Event> one;
            inputs_at(one, t);
            one.push_back({Ev::Pre, t});
            one        = strip(one, !no_callback, hooks);
            auto got   = log;
            const auto n = one.size();
            std::size_t pos = 0, rounds = 0;
            while (pos + n <= got.size() && std::equal(one.begin(), one.end(), got.begin() + std::ptrdiff_t(pos)) && n > 0)
            {
                pos += n;
                rounds++;
                if (hooks && pos < got.size() && got[pos].what == Ev::Post && got[pos].t == t) pos++;
            }
            CHECK(ctx, pos == got.size() && (rounds > 0 || n == 0) && (!hooks || (got.back() == Event{Ev::Post, t})), "the initialisation does: " << describe(got, pos));
            return;
        }
        if (states && t == before)
        {
            inputs_at(want, t);
            want.push_back({Ev::Pre, t});
            inputs_at(want, t);
            want.push_back({Ev::Post, t});
        }
        else if (states)
        {
            stepped = true;
            for (std::size_t k = 0; k < spy.log.size(); k++)
            {
                auto& a = spy.log[k];
                if (k && a.t0 != spy.log[k - 1].t0)
                {
                    inputs_at(want, a.t0);
                    want.push_back({Ev::Post, a.t0});
                }
                inputs_at(want, a.t0);
                want.push_back({Ev::Pre, a.t0});
                for (double e : a.eval_t)
                {
                    inputs_at(want, e);
                    want.push_back({Ev::Eval, e});
                }
            }
            inputs_at(want, t);
            want.push_back({Ev::Post, t});
        }
        else
        {
            inputs_at(want, t);
            want.push_back({Ev::Pre, t});
            want.push_back({Ev::Post, t});
        }
        expect(want, log, "the run");
    };
    run(p.t0, true, p.t0);
    double before = p.t0;
    for (double t : p.times)
    {
        run(t, false, before);
        before = t;
    }
    for (auto& [t, s] : requests)
        for (auto& v : s)
            for (double x : v.x) ctx.mix(x);
    ctx.mix(calls);
    // source blocks instead of inputs
    if (!m.exts.empty())
    {
        auto m2 = m;
        m2.exts.clear();
        std::vector<std::pair<int, int>> items;
        for (auto& e : m.exts)
        {
            auto& sp = m.sigs[std::size_t(e.sig)];
            ref::Node n;
            n.kind = sp.ty == Ty::B ? Kind::Sources : Kind::Source;
            n.ty   = sp.ty;
            n.n    = sp.n;
            n.name = "src" + std::to_string(e.sig);
            n.out  = {e.sig};
            n.fn   = {e.fn};
            n.parent = m.sub_parent.empty() ? -1 : int(c.range(-1, int(m.sub_parent.size()) - 1));
            items.push_back({0, int(m2.nodes.size())});
            m2.nodes.push_back(n);
        }
        if (m2.bare) m2.order = {{0, 0}};
        m2.bare = false;
        for (auto& it : items) m2.order.insert(m2.order.begin() + std::ptrdiff_t(c.draw(m2.order.size() + 1)), it);
        auto tr = lib::run_library(m2, p);
        auto msg = lib::diff(m, requests, tr.at_requests);
        CHECK(ctx, msg.empty(), "external inputs and source blocks of the same functions of time differ: " << msg);
        if (hooks)
        {
            msg = lib::diff(m, ends, tr.at_ends);
            CHECK(ctx, msg.empty(), "external inputs and source blocks of the same functions of time differ at a step end: " << msg);
        }
        ctx.label("compared with sources");
    }
    if (!m.exts.empty() && (stepped || p.times.size() >= 2)) ctx.nontrivial();
    bool hook = false;
    for (auto& e : m.exts) hook |= e.hook;
    if (hook) ctx.label("inputs written by the hook");
    if (no_callback) ctx.label("no callback");
    ctx.label("calls for inputs", calls);
    (void)now;
}
