#include <set>
#include <variant>

#include "lib.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/integrator.hpp"
#include "src/solver/history.hpp"

// Typed handles and lifetimes of signals against a model: what each holder refers to, and what is reachable from them.
using ref::Ty;
namespace
{
struct Sig
{
    int type{}; // 0..3: Ty, 4: bus
    int n{1};
    pooya::SignalImpl* impl{};
    std::weak_ptr<pooya::SignalImpl> weak;
    std::vector<int> refs; // signals it keeps alive
    bool assigned{false};
    std::vector<double> x;
};
struct Holder
{
    int typed{-1}; // type of a typed handle, -1: another holder
    std::vector<int> refs;
    std::variant<std::monostate, std::shared_ptr<pooya::ScalarSignal>, std::shared_ptr<pooya::IntSignal>, std::shared_ptr<pooya::BoolSignal>,
                 std::shared_ptr<pooya::ArraySignal>, std::shared_ptr<pooya::Bus>, std::shared_ptr<pooya::Signal>, std::shared_ptr<pooya::Block>,
                 std::shared_ptr<pooya::SimulatorBase>, std::shared_ptr<pooya::History>>
        obj;
};
const char* names[] = {"scalar", "int", "bool", "array", "bus"};

template<class F>
auto with_typed(const Holder& h, F f)
{
    switch (h.typed)
    {
    case 0: return f(*std::get<std::shared_ptr<pooya::ScalarSignal>>(h.obj));
    case 1: return f(*std::get<std::shared_ptr<pooya::IntSignal>>(h.obj));
    case 2: return f(*std::get<std::shared_ptr<pooya::BoolSignal>>(h.obj));
    case 3: return f(*std::get<std::shared_ptr<pooya::ArraySignal>>(h.obj));
    default: return f(*std::get<std::shared_ptr<pooya::Bus>>(h.obj));
    }
}
// a user-written block that takes anything and refers to further signals, which it links
class Linker : public pooya::Leaf
{
public:
    std::vector<pooya::SignalImpl*> more;
    std::vector<uint32_t> types;

    Linker() : pooya::Leaf(nullptr, "linker") {}
    bool connect(const pooya::Bus& ibus, const pooya::Bus& obus) override
    {
        if (!pooya::Leaf::connect(ibus, obus)) return false;
        for (std::size_t k = 0; k < more.size(); k++) link_signal(pooya::Signal(*more[k]), types[k]);
        more.clear();
        return true;
    }
    void activation_function(double) override {}
};
Ty ty_of(int type) { return type == 0 ? Ty::S : type == 1 ? Ty::I : type == 2 ? Ty::B : Ty::A; }
} // namespace

PROPERTY("C17", "random sequences of creating signals of all types and nested buses, creating and re-binding typed handles from signals of the right and of "
                "wrong types, using them, connecting blocks, initialising simulators, tracking in histories, and destroying any of these in any order; "
                "every handle is compared with a model of what it denotes and every signal reachable from a surviving holder must be alive; "
                "non-trivial: at least one accepted and one refused (re-)binding and one destroyed holder")
{
    const std::size_t depth = lib::trace_depth();
    std::vector<Sig> sigs;
    std::vector<Holder> holders;
    uint64_t bound = 0, refused = 0, destroyed = 0, others = 0;

    auto reachable = [&]
    {
        std::vector<char> r(sigs.size(), 0);
        std::vector<int> todo;
        for (auto& h : holders)
            for (int s : h.refs) todo.push_back(s);
        while (!todo.empty())
        {
            int s = todo.back();
            todo.pop_back();
            if (r[std::size_t(s)]) continue;
            r[std::size_t(s)] = 1;
            for (int q : sigs[std::size_t(s)].refs) todo.push_back(q);
        }
        return r;
    };
    // handle of a live signal
    auto get = [&](int s) { return pooya::Signal(*sigs[std::size_t(s)].impl); };
    auto use = [&](const Holder& h, const std::string& what)
    {
        const int s = h.refs.at(0);
        auto& x     = sigs[std::size_t(s)];
        CHECK(ctx, h.typed == x.type, "harness: wrong model");
        with_typed(h, [&](auto& t)
                   {
                       CHECK(ctx, static_cast<pooya::SignalImpl*>(&t.impl()) == x.impl, what << ": a " << names[x.type] << " handle denotes another signal");
                       CHECK(ctx, static_cast<pooya::SignalImpl*>(t.operator->()) == x.impl, what << ": a " << names[x.type] << " handle denotes another signal");
                       CHECK(ctx, &static_cast<const pooya::Signal&>(t).impl() == x.impl, what << ": a " << names[x.type] << " handle denotes different signals by its two types");
                   });
        if (x.type == 4)
        {
            auto& b = *std::get<std::shared_ptr<pooya::Bus>>(h.obj);
            CHECK(ctx, b.size() == x.refs.size(), what << ": a bus handle sees " << b.size() << " entries instead of " << x.refs.size());
            for (std::size_t k = 0; k < x.refs.size(); k++)
                CHECK(ctx, &b.at(k).impl() == sigs[std::size_t(x.refs[k])].impl, what << ": entry " << k << " of a bus is another signal");
        }
        else
        {
            auto v = lib::read(get(s));
            CHECK(ctx, v.assigned == x.assigned && (!x.assigned || v.x == x.x), what << ": signal " << s << " holds " << lib::show(v));
        }
    };
    auto check = [&](const std::string& what)
    {
        CHECK(ctx, lib::trace_depth() == depth, what << ": the diagnostic trace is left unbalanced");
        auto r = reachable();
        for (std::size_t s = 0; s < sigs.size(); s++)
            if (r[s]) CHECK(ctx, !sigs[s].weak.expired(), what << ": signal " << s << " (" << names[sigs[s].type] << ") was destroyed while still referred to");
        for (auto& h : holders)
            if (h.typed >= 0) use(h, what);
    };
    auto add_sig = [&](pooya::Signal s, int type, int n, std::vector<int> refs)
    {
        Sig x;
        x.type = type;
        x.n    = n;
        x.impl = &s.impl();
        x.weak = s->weak_from_this();
        x.refs = std::move(refs);
        sigs.push_back(x);
        return int(sigs.size()) - 1;
    };
    auto make_typed = [&](Holder& h, int type, const pooya::Signal& s, bool by_impl)
    {
        h.typed = type;
        switch (type)
        {
        case 0: h.obj = by_impl ? std::make_shared<pooya::ScalarSignal>(s.impl()) : std::make_shared<pooya::ScalarSignal>(s); break;
        case 1: h.obj = by_impl ? std::make_shared<pooya::IntSignal>(s.impl()) : std::make_shared<pooya::IntSignal>(s); break;
        case 2: h.obj = by_impl ? std::make_shared<pooya::BoolSignal>(s.impl()) : std::make_shared<pooya::BoolSignal>(s); break;
        case 3: h.obj = by_impl ? std::make_shared<pooya::ArraySignal>(s.impl()) : std::make_shared<pooya::ArraySignal>(s); break;
        default: h.obj = by_impl ? std::make_shared<pooya::Bus>(s.impl()) : std::make_shared<pooya::Bus>(s);
        }
    };

    const int ops = c.big(2, 22, 90, 600, 256);
    for (int k = 0; k < ops; k++)
    {
        auto r = reachable();
        std::vector<int> alive;
        for (std::size_t s = 0; s < sigs.size(); s++)
            if (r[s]) alive.push_back(int(s));
        switch (alive.empty() ? 0 : c.weighted({4, 6, 6, 4, 4, 2, 1, 1, 2, 2}))
        {
        case 0: // a new signal, held by a typed or a generic handle
        {
            Holder h;
            int type = int(c.draw(5)), n = type == 3 ? c.size(1, 2, 9) : 1;
            const bool derived = c.chance(1, 6); // of a class derived from the library's
            std::vector<int> refs;
            std::optional<pooya::Signal> s;
            if (type == 4)
            {
                std::vector<pooya::Signal> v;
                int m = alive.empty() ? 0 : c.big(0, 2, 5, 60, 256);
                for (int q = 0; q < m; q++)
                {
                    refs.push_back(c.pick(alive));
                    v.push_back(get(refs.back()));
                }
                s.emplace(lib::make_bus(v, "bus"));
            }
            else
                s.emplace(lib::make_signal(ty_of(type), n, c.flip() ? "s" : "", derived));
            int id = add_sig(*s, type, n, refs);
            NOTE(ctx, "  new " << names[type] << " signal " << id);
            h.refs = {id};
            if (c.flip())
                make_typed(h, type, *s, c.flip());
            else
                h.obj = std::make_shared<pooya::Signal>(*s);
            holders.push_back(h);
            break;
        }
        case 1: // a typed handle from any signal
        {
            Holder h;
            int s = c.pick(alive), type = c.chance(1, 3) ? sigs[std::size_t(s)].type : int(c.draw(5));
            const bool ok = type == sigs[std::size_t(s)].type;
            NOTE(ctx, "  " << names[type] << " handle from " << names[sigs[std::size_t(s)].type] << " signal " << s);
            bool threw = false;
            try
            {
                make_typed(h, type, get(s), c.flip());
            }
            catch (const std::runtime_error&)
            {
                threw = true;
            }
            CHECK(ctx, threw != ok, "creating a " << names[type] << " handle from a " << names[sigs[std::size_t(s)].type] << " signal " << (threw ? "was refused" : "succeeded"));
            if (ok)
            {
                h.refs = {s};
                holders.push_back(h);
                bound++;
            }
            else
                refused++;
            break;
        }
        case 2: // re-bind
        {
            std::vector<std::size_t> cand;
            for (std::size_t q = 0; q < holders.size(); q++)
                if (holders[q].typed >= 0) cand.push_back(q);
            if (cand.empty()) break;
            auto& h = holders[c.pick(cand)];
            int s   = c.pick(alive);
            if (c.chance(1, 4))
                for (int q : alive)
                    if (sigs[std::size_t(q)].type == h.typed) s = q;
            // an entry of the very bus the handle denotes, given as a reference into that bus
            const bool inner = h.typed == 4 && !sigs[std::size_t(h.refs[0])].refs.empty() && c.chance(1, 3);
            std::size_t at   = 0;
            if (inner)
            {
                at = c.draw(sigs[std::size_t(h.refs[0])].refs.size());
                s  = sigs[std::size_t(h.refs[0])].refs[at];
            }
            const bool ok = h.typed == sigs[std::size_t(s)].type;
            NOTE(ctx, "  re-bind " << names[h.typed] << " handle of signal " << h.refs[0] << " to " << names[sigs[std::size_t(s)].type] << " signal " << s
                                   << (inner ? " (by reference into the bus)" : ""));
            bool threw = false;
            try
            {
                if (inner)
                {
                    auto& b = *std::get<std::shared_ptr<pooya::Bus>>(h.obj);
                    b.reset((b.begin() + long(at))->second);
                }
                else
                    with_typed(h, [&](auto& t) { t.reset(get(s)); });
            }
            catch (const std::runtime_error&)
            {
                threw = true;
            }
            CHECK(ctx, threw != ok, "re-binding a " << names[h.typed] << " handle to a " << names[sigs[std::size_t(s)].type] << " signal " << (threw ? "was refused" : "succeeded"));
            if (ok)
            {
                h.refs = {s};
                bound++;
            }
            else
                refused++;
            break;
        }
        case 3: // write or clear through a typed handle
        {
            std::vector<std::size_t> cand;
            for (std::size_t q = 0; q < holders.size(); q++)
                if (holders[q].typed >= 0 && holders[q].typed < 4) cand.push_back(q);
            if (cand.empty()) break;
            auto& h = holders[c.pick(cand)];
            auto& x = sigs[std::size_t(h.refs[0])];
            std::vector<double> v = ref::gen_values(c, ty_of(x.type), x.n);
            NOTE(ctx, "  write to signal " << h.refs[0]);
            get(h.refs[0]); // (alive)
            switch (h.typed)
            {
            case 0:
            {
                auto& t = *std::get<std::shared_ptr<pooya::ScalarSignal>>(h.obj);
                t->clear();
                t = v[0];
                break;
            }
            case 1:
            {
                auto& t = *std::get<std::shared_ptr<pooya::IntSignal>>(h.obj);
                t->clear();
                t = int(v[0]);
                break;
            }
            case 2:
            {
                auto& t = *std::get<std::shared_ptr<pooya::BoolSignal>>(h.obj);
                t->clear();
                t = v[0] != 0;
                break;
            }
            default:
            {
                auto& t = *std::get<std::shared_ptr<pooya::ArraySignal>>(h.obj);
                t->clear();
                t = lib::to_array(v);
            }
            }
            x.assigned = true;
            x.x        = v;
            break;
        }
        case 4: // destroy a holder
        {
            if (holders.empty()) break;
            std::size_t q = c.draw(holders.size());
            NOTE(ctx, "  destroy holder " << q);
            holders.erase(holders.begin() + long(q));
            destroyed++;
            break;
        }
        case 5: // copy a handle
        {
            std::vector<std::size_t> cand;
            for (std::size_t q = 0; q < holders.size(); q++)
                if (holders[q].typed >= 0) cand.push_back(q);
            if (cand.empty()) break;
            Holder h      = holders[c.pick(cand)];
            const int how = int(c.draw(2));
            NOTE(ctx, "  copy of a handle of signal " << h.refs[0]);
            with_typed(h, [&](auto& t)
                       {
                           using T = std::decay_t<decltype(t)>;
                           if (how == 0)
                               h.obj = std::make_shared<T>(t);
                           else
                           {
                               h.typed = -1;
                               h.obj   = std::make_shared<pooya::Signal>(t);
                           }
                       });
            holders.push_back(h);
            break;
        }
        case 6: // a connected block, perhaps with a simulator that has been initialised
        case 7:
        {
            std::vector<int> cand;
            for (int s : alive)
                if (sigs[std::size_t(s)].type < 4) cand.push_back(s);
            if (cand.empty()) break;
            int in     = c.pick(cand);
            auto& x    = sigs[std::size_t(in)];
            int type   = x.type;
            auto osig  = lib::make_signal(ty_of(type), x.n, "out");
            auto which = int(c.draw(3));
            std::shared_ptr<pooya::Block> b;
            if (which == 2 && (type == 0 || type == 3))
            {
                if (type == 0)
                    b = std::make_shared<pooya::Integrator>(0.0);
                else
                    b = std::make_shared<pooya::IntegratorA>(lib::to_array(std::vector<double>(std::size_t(x.n), 0.0)));
            }
            else
            {
                which = which ? 1 : 0;
                switch (type)
                {
                case 0: which ? b = std::make_shared<pooya::Memory>(0.0) : b = std::make_shared<pooya::Pipe>(); break;
                case 1: which ? b = std::make_shared<pooya::MemoryI>(0) : b = std::make_shared<pooya::PipeI>(); break;
                case 2: which ? b = std::make_shared<pooya::MemoryB>(false) : b = std::make_shared<pooya::PipeB>(); break;
                default: which ? b = std::make_shared<pooya::MemoryA>(lib::to_array(std::vector<double>(std::size_t(x.n), 0.0))) : b = std::make_shared<pooya::PipeA>();
                }
            }
            int out = add_sig(osig, type, x.n, {});
            NOTE(ctx, "  block from signal " << in << " to new signal " << out);
            {
                auto s_in = get(in);
                b->connect({s_in}, {osig});
            }
            Holder h;
            h.refs = {in, out};
            h.obj  = b;
            holders.push_back(h);
            others++;
            if (c.flip())
            {
                // a simulator of that block (which leaves its two signals assigned)
                std::vector<double> v(std::size_t(sigs[std::size_t(in)].n), 1.0);
                auto st = lib::make_stepper(ref::Method::Euler);
                NOTE(ctx, "  simulator of that block");
                auto sim = lib::make_sim(c.oneof({lib::SimKind::Plain, lib::SimKind::Fast}), *b,
                                         [&](pooya::Block& blk, double) { lib::write(blk.ibus().at(0), ty_of(type), v); }, st.get());
                sim->init(0);
                for (int s : {in, out})
                {
                    auto got                             = lib::read(get(s));
                    sigs[std::size_t(s)].assigned        = got.assigned;
                    sigs[std::size_t(s)].x               = got.x;
                    CHECK(ctx, got.assigned, "a signal of a simulated block has no value");
                }
                CHECK(ctx, sigs[std::size_t(in)].x == v, "the input of a simulated block holds another value");
                Holder g;
                g.refs = {in, out};
                g.obj  = sim;
                holders.push_back(g);
                others++;
            }
            break;
        }
        case 9: // a user-written block that links signals which need not be in its buses
        {
            auto b = std::make_shared<Linker>();
            Holder h;
            std::vector<pooya::Signal> io[2];
            for (auto& v : io)
                for (int q = c.size(0, 1, 4); q > 0; q--)
                {
                    h.refs.push_back(c.pick(alive));
                    v.push_back(get(h.refs.back()));
                }
            for (int q = c.size(0, 2, 6); q > 0; q--)
            {
                const int s  = c.pick(alive);
                const auto t = c.oneof({pooya::Block::Internal, pooya::Block::Required, pooya::Block::Input, pooya::Block::Output});
                b->more.push_back(sigs[std::size_t(s)].impl);
                b->types.push_back(t);
                if (sigs[std::size_t(s)].type < 4) h.refs.push_back(s); // buses are not linked
            }
            NOTE(ctx, "  user-written block that refers to " << h.refs.size() << " signals");
            b->connect(lib::make_bus(io[0]), lib::make_bus(io[1]));
            h.obj = std::static_pointer_cast<pooya::Block>(b);
            holders.push_back(h);
            others++;
            break;
        }
        default: // a history
        {
            auto hist = std::make_shared<pooya::History>(uint(c.range(1, 5)));
            Holder h;
            const int m = c.size(1, 3, 6);
            for (int q = 0; q < m; q++)
            {
                int s       = c.pick(alive);
                const bool ok = sigs[std::size_t(s)].type < 4 && std::find(h.refs.begin(), h.refs.end(), s) == h.refs.end();
                CHECK(ctx, hist->track(get(s)) == ok, "tracking a " << names[sigs[std::size_t(s)].type] << " signal " << (ok ? "was refused" : "was accepted"));
                if (ok) h.refs.push_back(s);
            }
            NOTE(ctx, "  history of " << h.refs.size() << " signals");
            if (c.flip()) hist->update(0, 0.5);
            h.obj = hist;
            holders.push_back(h);
            others++;
        }
        }
        check("after operation " + std::to_string(k));
    }
    // destroy the rest in random order
    while (!holders.empty())
    {
        holders.erase(holders.begin() + long(c.draw(holders.size())));
        destroyed++;
        check("at the end");
    }
    ctx.mix(bound);
    if (bound && refused && destroyed) ctx.nontrivial();
    ctx.label("bindings accepted", bound);
    ctx.label("bindings refused", refused);
    ctx.label("blocks, simulators and histories", others);
}
