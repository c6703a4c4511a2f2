#include <algorithm>
#include <cstdlib>

#include "lib.hpp"
#include "src/block/extra/add.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/delay.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/initial_value.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/so_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/sources.hpp"
#include "src/block/extra/subtract.hpp"
#include "src/block/extra/triggered_integrator.hpp"
#include "src/block/integrator.hpp"
#include "src/block/leaf.hpp"

// Sequences of attempts to connect a block against the table of what each block requires.
using ref::Ty;
namespace
{
constexpr int ANY = -1;

struct Port
{
    std::string label;
    int type{}; // 0..3: Ty, 4: bus
    int n{1};
    std::optional<pooya::Signal> sig;
};
using Ports = std::vector<Port>;

class UserLeaf : public pooya::Leaf
{
public:
    UserLeaf(pooya::Submodel* p, uint16_t i, uint16_t o) : Leaf(p, "user", i, o) {}
    void activation_function(double) override {}
};

struct Kind
{
    std::string name;
    std::function<std::shared_ptr<pooya::Block>(pooya::Submodel*)> make;
    int nin, nout; // ANY: no limit
    int in_type{ANY}, out_type{ANY};           // required of all inputs/of the output
    bool at_least_one{false};                  // adder, multiplier
    int special{0};                            // 1: delay, 2: integrator, 3: triggered integrator, 4: no inputs needed to be typed
};

pooya::Array A0(const std::vector<double>& v) { return lib::to_array(v); }

std::vector<Kind> kinds(int li, int lo)
{
    using namespace pooya;
    std::vector<Kind> k;
    auto add = [&](Kind x) { k.push_back(std::move(x)); };
    add({"Add", [](Submodel* p) { return std::make_shared<Add>(0.0, p); }, ANY, 1, 0, 0, true});
    add({"AddA", [](Submodel* p) { return std::make_shared<AddA>(A0({0, 0}), p); }, ANY, 1, 3, 3, true});
    add({"Multiply", [](Submodel* p) { return std::make_shared<Multiply>(1.0, p); }, ANY, 1, 0, 0, true});
    add({"MultiplyA", [](Submodel* p) { return std::make_shared<MultiplyA>(A0({1, 1}), p); }, ANY, 1, 3, 3, true});
    add({"Subtract", [](Submodel* p) { return std::make_shared<Subtract>(p); }, 2, 1, 0, 0});
    add({"SubtractA", [](Submodel* p) { return std::make_shared<SubtractA>(p); }, 2, 1, 3, 3});
    add({"Divide", [](Submodel* p) { return std::make_shared<Divide>(p); }, 2, 1, 0, 0});
    add({"DivideA", [](Submodel* p) { return std::make_shared<DivideA>(p); }, 2, 1, 3, 3});
    add({"Gain", [](Submodel* p) { return std::make_shared<Gain>(2.0, p); }, 1, 1, 0, 0});
    add({"GainI", [](Submodel* p) { return std::make_shared<GainI>(2, p); }, 1, 1, 1, 1});
    add({"GainA", [](Submodel* p) { return std::make_shared<GainA>(2.0, p); }, 1, 1, 3, 3});
    add({"Const", [](Submodel* p) { return std::make_shared<Const>(2.0, p); }, 0, 1, ANY, 0});
    add({"ConstA", [](Submodel* p) { return std::make_shared<ConstA>(A0({1, 2}), p); }, 0, 1, ANY, 3});
    add({"Source", [](Submodel* p) { return std::make_shared<Source>([](double t) { return t; }, p); }, ANY, 1, ANY, 0});
    add({"SourceI", [](Submodel* p) { return std::make_shared<SourceI>([](double) { return 1; }, p); }, ANY, 1, ANY, 1});
    add({"SourceA", [](Submodel* p) { return std::make_shared<SourceA>([](double) { return A0({1, 2}); }, p); }, ANY, 1, ANY, 3});
    add({"Sources", [lo](Submodel* p) { return std::make_shared<Sources>([](const Bus&, double) {}, p, "", lo == ANY ? Block::NoIOLimit : uint16_t(lo)); }, 0, lo});
    add({"Pipe", [](Submodel* p) { return std::make_shared<Pipe>(p); }, 1, 1, 0, 0});
    add({"PipeI", [](Submodel* p) { return std::make_shared<PipeI>(p); }, 1, 1, 1, 1});
    add({"PipeB", [](Submodel* p) { return std::make_shared<PipeB>(p); }, 1, 1, 2, 2});
    add({"PipeA", [](Submodel* p) { return std::make_shared<PipeA>(p); }, 1, 1, 3, 3});
    add({"Memory", [](Submodel* p) { return std::make_shared<Memory>(0.0, p); }, 1, 1, 0, 0});
    add({"MemoryI", [](Submodel* p) { return std::make_shared<MemoryI>(0, p); }, 1, 1, 1, 1});
    add({"MemoryB", [](Submodel* p) { return std::make_shared<MemoryB>(false, p); }, 1, 1, 2, 2});
    add({"MemoryA", [](Submodel* p) { return std::make_shared<MemoryA>(A0({0, 0}), p); }, 1, 1, 3, 3});
    add({"Delay", [](Submodel* p) { return std::make_shared<Delay>(1.0, p); }, 3, 1, 0, 0, false, 1});
    add({"DelayA", [](Submodel* p) { return std::make_shared<DelayA>(1.0, p); }, 3, 1, 3, 3, false, 1});
    add({"Derivative", [](Submodel* p) { return std::make_shared<Derivative>(0.0, p); }, 1, 1, 0, 0});
    add({"DerivativeA", [](Submodel* p) { return std::make_shared<DerivativeA>(A0({0, 0}), p); }, 1, 1, 3, 3});
    add({"InitialValue", [](Submodel* p) { return std::make_shared<InitialValue>(p); }, 1, 1, 0, 0});
    add({"InitialValueA", [](Submodel* p) { return std::make_shared<InitialValueA>(p); }, 1, 1, 3, 3});
    add({"Integrator", [](Submodel* p) { return std::make_shared<Integrator>(0.0, p); }, 1, 1, 0, 0, false, 2});
    add({"IntegratorA", [](Submodel* p) { return std::make_shared<IntegratorA>(A0({0, 0}), p); }, 1, 1, 3, 3, false, 2});
    add({"TriggeredIntegrator", [](Submodel* p) { return std::make_shared<TriggeredIntegrator>(0.0, p); }, 2, 1, 0, 0, false, 3});
    add({"TriggeredIntegratorA", [](Submodel* p) { return std::make_shared<TriggeredIntegratorA>(A0({0, 0}), p); }, 2, 1, 3, 3, false, 3});
    add({"Function", [li, lo](Submodel* p)
         {
             return std::make_shared<Function>([](double, const Bus&, const Bus&) {}, p, "f", li == ANY ? Block::NoIOLimit : uint16_t(li), lo == ANY ? Block::NoIOLimit : uint16_t(lo));
         },
         li, lo});
    add({"SISOFunction", [](Submodel* p) { return std::make_shared<SISOFunction>([](double, double x) { return x; }, p); }, 1, 1, 0, 0});
    add({"SISOFunctionA", [](Submodel* p) { return std::make_shared<SISOFunctionA>([](double, const Array& x) { return x; }, p); }, 1, 1, 3, 3});
    add({"SOFunction", [li](Submodel* p) { return std::make_shared<SOFunction>([](double, const Bus&) { return 1.0; }, p, "f", li == ANY ? Block::NoIOLimit : uint16_t(li)); }, li, 1, ANY, 0});
    add({"SOFunctionA", [li](Submodel* p) { return std::make_shared<SOFunctionA>([](double, const Bus&) { return A0({1, 2}); }, p, "f", li == ANY ? Block::NoIOLimit : uint16_t(li)); }, li, 1, ANY, 3});
    add({"user leaf", [li, lo](Submodel* p) { return std::make_shared<UserLeaf>(p, li == ANY ? Block::NoIOLimit : uint16_t(li), lo == ANY ? Block::NoIOLimit : uint16_t(lo)); }, li, lo});
    add({"submodel", [li, lo](Submodel* p) { return std::make_shared<Submodel>(p, "s", li == ANY ? Block::NoIOLimit : uint16_t(li), lo == ANY ? Block::NoIOLimit : uint16_t(lo)); }, li, lo});
    return k;
}

Ty ty_of(int type) { return type == 0 ? Ty::S : type == 1 ? Ty::I : type == 2 ? Ty::B : Ty::A; }

bool known(const char* id)
{
    const char* e = std::getenv("PBT_KNOWN");
    return e && std::strstr(e, id);
}
} // namespace

PROPERTY("C18", "every block of the library, user-written leaves and submodels with random port requirements; sequences of connection attempts (directly or by "
                "adding to a parent) with random numbers of labelled or unlabelled signals of all types, nested buses, repeated and shared signals; "
                "acceptance, and what the block reports afterwards, compared with a table of the requirements; non-trivial: at least one refused and "
                "one accepted attempt")
{
    const std::size_t depth = lib::trace_depth();
    const int li            = c.chance(1, 4) ? ANY : c.size(0, 2, 5);
    const int lo            = c.chance(1, 4) ? ANY : c.size(0, 2, 5);
    const auto all          = kinds(li, lo);
    const auto& K           = all[c.draw(all.size())];
    auto need               = [](int n) { return n == ANY ? std::string("any number of") : std::to_string(n); };
    NOTE(ctx, "  " << K.name << " requires " << need(K.nin) << " inputs and " << need(K.nout) << " outputs");

    pooya::Submodel root(nullptr, "root");
    const int parenting = int(c.draw(3)); // 0: none, 1: by the constructor, 2: by add_block
    auto block          = K.make(parenting == 1 ? &root : nullptr);
    std::vector<Port> pool;
    std::optional<std::pair<Ports, Ports>> connected;
    uint64_t refused = 0;
    bool finding     = false;

    auto make_port = [&](int type)
    {
        Port p;
        p.type = type;
        std::vector<std::size_t> same;
        for (std::size_t q = 0; q < pool.size(); q++)
            if (pool[q].type == type) same.push_back(q);
        if (!same.empty() && c.chance(1, 3)) return pool[c.pick(same)];
        p.n = type == 3 ? (c.chance(1, 8) ? 3 : 2) : 1;
        if (type == 4)
        {
            std::vector<pooya::Signal> v;
            int m = c.size(0, 2, 3);
            for (int i = 0; i < m; i++) v.push_back(lib::make_signal(ty_of(int(c.draw(4))), 2, ""));
            p.sig.emplace(lib::make_bus(v));
        }
        else
            p.sig.emplace(lib::make_signal(ty_of(type), p.n, ""));
        pool.push_back(p);
        return p;
    };
    auto gen_ports = [&](int want, int type, bool output)
    {
        Ports v;
        int n = want == ANY || c.chance(1, 3) ? c.size(0, 2, 6) : want;
        if (K.at_least_one && !output && n == 0 && !lib::checked_build) n = 1;
        for (int i = 0; i < n; i++)
        {
            int t = type == ANY ? int(c.weighted({3, 3, 2, 3, 1})) : type;
            // (without the checks, adders and multipliers do not look at the types of their inputs)
            if (type != ANY && c.chance(1, 8) && !(K.at_least_one && !output && !lib::checked_build)) t = int(c.draw(5));
            v.push_back(make_port(t));
        }
        const bool labels = c.flip() || ((K.special == 1 || K.special == 3) && !output);
        for (std::size_t i = 0; i < v.size(); i++) v[i].label = labels ? "p" + std::to_string(i) : "sig" + std::to_string(i);
        if (!output && n == 3 && K.special == 1)
        {
            std::vector<std::string> l{"in", "delay", "initial"};
            auto p = c.permutation(3);
            for (int i = 0; i < 3; i++)
            {
                v[std::size_t(i)].label = l[std::size_t(p[std::size_t(i)])];
                if (v[std::size_t(i)].label == "delay" && !c.chance(1, 8))
                {
                    auto s       = make_port(0);
                    s.label      = "delay";
                    v[std::size_t(i)] = s;
                }
            }
            if (c.chance(1, 10)) v[c.draw(3)].label = "other";
        }
        if (!output && n == 2 && K.special == 3)
        {
            v[0].label = "in";
            if (!c.chance(1, 8)) v[1] = make_port(2);
            v[1].label = c.chance(1, 10) ? "other" : "trigger";
        }
        return v;
    };
    auto bus_of = [](const Ports& v)
    {
        std::vector<std::pair<std::string, pooya::Signal>> e;
        for (auto& p : v) e.emplace_back(p.label, *p.sig);
        return lib::make_bus(e);
    };
    auto by_label = [](const Ports& v, const char* l) -> const Port*
    {
        for (auto& p : v)
            if (p.label == l) return &p;
        return nullptr;
    };
    // do the types and labels suit the block (the numbers being right)?
    auto types_ok = [&](const Ports& in, const Ports& out)
    {
        if (K.at_least_one && in.empty()) return false;
        if (K.out_type != ANY)
            for (auto& p : out)
                if (p.type != K.out_type) return false;
        switch (K.special)
        {
        case 1:
        {
            auto *a = by_label(in, "in"), *d = by_label(in, "delay"), *i = by_label(in, "initial");
            return a && d && i && a->type == K.in_type && i->type == K.in_type && d->type == 0;
        }
        case 3:
        {
            auto* t = by_label(in, "trigger");
            return in[0].type == K.in_type && in[0].n == out[0].n && t && t->type == 2;
        }
        case 2: return in[0].type == K.in_type && in[0].n == out[0].n;
        default:
            if (K.in_type != ANY)
                for (auto& p : in)
                    if (p.type != K.in_type) return false;
            return true;
        }
    };
    auto check_bus = [&](const pooya::Bus& b, const Ports& want, const char* which)
    {
        CHECK(ctx, b.size() == want.size(), "the " << which << " bus reports " << b.size() << " signals instead of " << want.size());
        std::size_t k = 0;
        for (auto& [l, s] : b)
        {
            CHECK(ctx, l == want[k].label && &s.impl() == &want[k].sig->impl(), "entry " << k << " of the " << which << " bus is not the signal given");
            k++;
        }
    };
    auto check_state = [&](const std::string& after)
    {
        NOTE(ctx, "    " << after << ": " << (block->connected() ? "connected" : "not connected"));
        CHECK(ctx, block->connected() == connected.has_value(), K.name << " is " << (block->connected() ? "connected" : "not connected") << " after " << after);
        static const Ports none;
        const Ports& in  = connected ? connected->first : none;
        const Ports& out = connected ? connected->second : none;
        check_bus(block->ibus(), in, "input");
        check_bus(block->obus(), out, "output");
        std::vector<pooya::SignalImpl*> want;
        for (auto* v : {&in, &out})
            for (auto& p : *v)
                if (p.type != 4 && std::find(want.begin(), want.end(), &p.sig->impl()) == want.end()) want.push_back(&p.sig->impl());
        for (auto* w : want)
        {
            int n        = 0;
            uint32_t fl  = 0;
            for (auto& l : block->linked_signals())
                if (l.first.get() == w)
                {
                    n++;
                    fl |= l.second;
                }
            CHECK(ctx, n == 1, "a signal given to " << K.name << " appears " << n << " times among its linked signals");
            bool is_in = false, is_out = false;
            for (auto& p : in) is_in |= &p.sig->impl() == w;
            for (auto& p : out) is_out |= &p.sig->impl() == w;
            CHECK(ctx, bool(fl & pooya::Block::Input) == is_in && bool(fl & pooya::Block::Output) == is_out, "a signal given to " << K.name << " is linked in the wrong role");
        }
        CHECK(ctx, block->linked_signals().size() == want.size(), K.name << " has " << block->linked_signals().size() << " linked signals instead of " << want.size());
        CHECK(ctx, lib::trace_depth() == depth, "the diagnostic trace is left unbalanced after " << after);
    };
    check_state("construction");

    const int attempts = c.big(1, 3, 7, 60, 256);
    for (int k = 0; k < attempts && !finding; k++)
    {
        auto in  = gen_ports(K.nin, K.in_type, false);
        auto out = gen_ports(K.nout, K.out_type, true);
        // the last attempts are usually right
        const bool numbers = (K.nin == ANY || int(in.size()) == K.nin) && (K.nout == ANY || int(out.size()) == K.nout);
        const bool types   = numbers && types_ok(in, out);
        const bool ok      = !connected && types;
        if (ctx.verbose)
        {
            ctx.text << "  connect";
            for (auto* v : {&in, &out})
            {
                ctx.text << " (";
                for (auto& p : *v) ctx.text << " " << p.label << ":" << (p.type == 4 ? "bus" : ref::ty_name(ty_of(p.type))) << (p.type == 3 ? std::to_string(p.n) : "");
                ctx.text << " )";
            }
            ctx.text << (ok ? "" : connected ? " must be refused: connected" : !numbers ? " must be refused: numbers" : " must be refused: types") << "\n";
            ctx.flush_text();
        }
        bool threw = false, ret = true;
        {
            auto ib = bus_of(in), ob = bus_of(out);
            try
            {
                ret = parenting == 2 ? root.add_block(*block, ib, ob) : block->connect(ib, ob);
            }
            catch (const std::exception&)
            {
                threw = true;
            }
        }
        CHECK(ctx, threw == !ok, K.name << ": a connection that " << (ok ? "meets" : "does not meet") << " the requirements was " << (threw ? "refused" : "accepted"));
        if (ok)
        {
            CHECK(ctx, ret, K.name << ": a connection was accepted but reported as refused");
            connected.emplace(in, out);
        }
        else
        {
            refused++;
            if (!connected && numbers && block->connected())
            {
                // listed: refused by the block's own checks, which follow those of the numbers
                CHECK(ctx, known("KF1"), K.name << " is connected after a refused connection (unsuitable types or labels)");
                finding = true;
                ctx.label("known finding KF1");
                break;
            }
        }
        check_state(ok ? "an accepted connection" : "a refused connection");
        ctx.mix(uint64_t(ok));
    }
    if (connected && refused) ctx.nontrivial();
    ctx.label("refused", refused);
    ctx.label(connected ? "connected" : "never connected");
    ctx.label(K.name);
}
