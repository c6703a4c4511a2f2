#include <algorithm>
#include <cctype>
#include <map>

#include "lib.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/integrator.hpp"

// Bus-wide memories and pipes against one memory or pipe per entry, and against the values they should have.
using ref::Ty;
namespace
{
struct Entry
{
    std::vector<std::string> path;
    Ty ty{};
    int n{1};
    bool excluded{false}, has_ic{false};
    std::vector<double> ic;
    int in{-1}, out{-1}; // signal numbers
    std::string full() const
    {
        std::string r;
        for (auto& p : path) r += (r.empty() ? "" : ".") + p;
        return r;
    }
};
struct Stage
{
    bool memory{true};
    std::vector<Entry> entries;
    std::vector<std::string> excluded_labels; // as given to the block
    uint64_t in_order{0}, out_order{0};
    int level{0}; // nesting of the block
    bool shared{false}; // equal nested buses of the input bus are one bus
};
struct SigInfo
{
    Ty ty{};
    int n{1};
    bool ext{false};
    bool once{false}; // linked to no block: written before the simulation only
};

uint64_t mix64(uint64_t x)
{
    x ^= x >> 31;
    x *= 0x7fb5d329728ea185ULL;
    x ^= x >> 27;
    x *= 0x81dadef4bc2dd44dULL;
    return x ^ (x >> 33);
}

// the entries as a bus; the order of the labels of each level is shuffled by the seed
pooya::Bus make_tree(const std::vector<std::pair<std::vector<std::string>, pooya::Signal>>& leaves, std::size_t depth, uint64_t seed)
{
    std::vector<std::string> labels;
    for (auto& [p, s] : leaves)
        if (std::find(labels.begin(), labels.end(), p[depth]) == labels.end()) labels.push_back(p[depth]);
    for (std::size_t i = labels.size(); seed && i > 1; i--) std::swap(labels[i - 1], labels[mix64(seed + i) % i]);
    std::vector<std::pair<std::string, pooya::Signal>> v;
    for (auto& l : labels)
    {
        std::vector<std::pair<std::vector<std::string>, pooya::Signal>> sub;
        for (auto& x : leaves)
            if (x.first[depth] == l) sub.push_back(x);
        if (sub.size() == 1 && sub[0].first.size() == depth + 1)
            v.emplace_back(l, sub[0].second);
        else
            v.emplace_back(l, make_tree(sub, depth + 1, seed ? mix64(seed + l.size() + depth * 7) | 1 : 0));
    }
    return lib::make_bus(v);
}

// the same, with one nested bus in the place of those with equal contents
pooya::Bus make_shared_tree(const std::vector<std::pair<std::vector<std::string>, pooya::Signal>>& leaves, std::size_t depth,
                            std::map<std::vector<std::pair<std::string, const void*>>, pooya::Bus>& known)
{
    std::vector<std::pair<std::string, const void*>> key;
    for (auto& [p, s] : leaves)
    {
        std::string rest;
        for (std::size_t d = depth; d < p.size(); d++) rest += p[d] + ".";
        key.emplace_back(rest, &s.impl());
    }
    if (auto it = known.find(key); it != known.end()) return pooya::Bus(it->second);
    std::vector<std::string> labels;
    for (auto& [p, s] : leaves)
        if (std::find(labels.begin(), labels.end(), p[depth]) == labels.end()) labels.push_back(p[depth]);
    std::vector<std::pair<std::string, pooya::Signal>> v;
    for (auto& l : labels)
    {
        std::vector<std::pair<std::vector<std::string>, pooya::Signal>> sub;
        for (auto& x : leaves)
            if (x.first[depth] == l) sub.push_back(x);
        if (sub.size() == 1 && sub[0].first.size() == depth + 1)
            v.emplace_back(l, sub[0].second);
        else
            v.emplace_back(l, make_shared_tree(sub, depth + 1, known));
    }
    auto b = lib::make_bus(v);
    known.emplace(key, b);
    return b;
}

struct World
{
    std::vector<pooya::Signal> sigs;
    lib::RootModel root{nullptr, "root"};
    std::vector<std::unique_ptr<pooya::Submodel>> subs;
    std::vector<std::shared_ptr<pooya::Block>> blocks;
    std::shared_ptr<pooya::SimulatorBase> sim;
    std::shared_ptr<pooya::StepperBase> stepper;
    std::vector<std::vector<lib::LVal>> ends; // snapshots at the ends of accepted steps
    std::vector<double> end_times;
};

// memories of buses that get the wrong initial values
void wrong_initial_values(pbt::Choices& c, pbt::Ctx& ctx)
{
    const int n = c.size(1, 4, 12);
    std::vector<Entry> entries;
    std::vector<std::pair<std::vector<std::string>, pooya::Signal>> ins, outs;
    std::vector<pooya::BusMemory::LabelValue> iv;
    std::vector<std::string> unused, used, excluded;
    const bool wrong_type = c.flip();
    int wrong             = 0;
    for (int i = 0; i < n; i++)
    {
        Entry e;
        const int depth = int(c.draw(3));
        for (int d = 0; d < depth; d++) e.path.push_back(c.flip() ? "b" : "c");
        e.path.push_back("e" + std::to_string(i));
        e.ty = Ty(c.draw(4));
        e.n  = e.ty == Ty::A ? c.size(1, 3, 5) : 1;
        ins.emplace_back(e.path, lib::make_signal(e.ty, e.n, "i" + std::to_string(i)));
        outs.emplace_back(e.path, lib::make_signal(e.ty, e.n, "o" + std::to_string(i)));
        if (c.chance(1, 4))
        {
            e.excluded = true;
            excluded.push_back(e.full());
        }
        if (c.flip())
        {
            const Ty ty = wrong_type && !e.excluded && c.chance(1, 3) ? Ty((int(e.ty) + 1 + int(c.draw(3))) % 4) : e.ty;
            wrong += ty != e.ty;
            const auto v = ref::gen_values(c, ty, ty == Ty::A ? e.n : 1);
            switch (ty)
            {
            case Ty::S: iv.emplace_back(e.full(), v[0]); break;
            case Ty::I: iv.emplace_back(e.full(), int(v[0])); break;
            case Ty::B: iv.emplace_back(e.full(), v[0] != 0); break;
            default: iv.emplace_back(e.full(), lib::to_array(v));
            }
            (e.excluded ? unused : used).push_back(e.full());
        }
        if (c.chance(1, 4))
        {
            // no such entry
            auto l = e.full();
            switch (c.draw(4))
            {
            case 0: l += "x"; break;
            case 1: l = e.path.back() + ".no"; break;
            case 2: l = "q." + l; break;
            default: l = l.substr(0, l.size() - 1); break;
            }
            bool is = l.empty() || l.back() == '.' || l.back() == 'e';
            for (auto& x : unused) is |= x == l;
            for (auto& [p, s] : ins)
            {
                std::string f;
                for (auto& q : p) f += (f.empty() ? "" : ".") + q;
                is |= f == l;
            }
            if (!is)
            {
                iv.emplace_back(l, 1.0);
                unused.push_back(l);
            }
        }
        entries.push_back(e);
    }
    // a later entry may be what the label of an earlier one was meant to miss
    for (auto& u : unused)
        for (auto& e : entries)
            if (e.full() == u && !e.excluded) return ctx.label("(label of a later entry)");
    NOTE(ctx, "  " << n << " entries, " << excluded.size() << " excluded, " << used.size() << " initial values, " << unused.size() << " of no entry, " << wrong << " of another type");
    pooya::Submodel top(nullptr, "top");
    pooya::BusMemory block(top, lib::ilist(iv), lib::ilist(excluded));
    block.rename("the_memory");
    std::string threw;
    const auto depth = lib::trace_depth();
    try
    {
        block.connect(make_tree(ins, 0, 0), make_tree(outs, 0, 0));
    }
    catch (const std::exception& e)
    {
        threw = std::string("(exception) ") + e.what();
    }
    CHECK(ctx, lib::trace_depth() == depth, "the diagnostic trace is not balanced");
    const bool refused = wrong || (lib::checked_build && !unused.empty());
    CHECK(ctx, refused == !threw.empty(), (refused ? "initial values of another type or of no entry are accepted" : "correct initial values are refused: ") << threw);
    if (!wrong && refused)
    {
        // the report names exactly the unused ones
        auto named = [&](const std::string& l)
        {
            auto wordy = [](char ch) { return std::isalnum(static_cast<unsigned char>(ch)) || ch == '_' || ch == '.'; };
            for (std::size_t at = 0; (at = threw.find(l, at)) != std::string::npos; at++)
                if ((at == 0 || !wordy(threw[at - 1])) && (at + l.size() >= threw.size() || !wordy(threw[at + l.size()]))) return true;
            return false;
        };
        for (auto& l : unused) CHECK(ctx, named(l), "the initial value of '" << l << "', which is no entry, is not reported: " << threw);
        for (auto& l : used) CHECK(ctx, !named(l), "the initial value of '" << l << "' is reported as not used: " << threw);
    }
    if (refused && !used.empty()) ctx.nontrivial();
    ctx.label(refused ? "wrong initial values" : "right initial values");
}
} // namespace

PROPERTY("C15", "random nested buses of entries of all types with random subsets excluded and random initial values, entries of input and output "
                "buses in independent random orders, extra entries in the output bus, up to three stages of bus-wide memories and pipes fed "
                "one by another or back to themselves, all three simulators, with or without a solver: compared at every accepted step with "
                "the values each entry must have and, bit for bit, with separately built memories and pipes; non-trivial: at least two "
                "non-excluded entries, one of them nested, and at least two accepted steps")
{
    if (c.chance(1, 10)) return wrong_initial_values(c, ctx);
    std::vector<SigInfo> info;
    auto new_sig = [&](Ty ty, int n, bool ext)
    {
        info.push_back({ty, n, ext, false});
        return int(info.size()) - 1;
    };
    const uint64_t seed = c.draw(0);
    const bool special  = c.flip();
    std::vector<Stage> stages(std::size_t(c.size(1, 1, 3)));
    std::size_t live = 0, excluded_buses = 0;
    bool nested = false, any_memory = false;
    for (std::size_t k = 0; k < stages.size(); k++)
    {
        auto& S  = stages[k];
        S.memory = !c.chance(2, 5);
        any_memory |= S.memory;
        S.level     = int(c.draw(3));
        S.in_order  = c.flip() ? c.draw(0) | 1 : 0;
        S.out_order = c.flip() ? c.draw(0) | 1 : 0;
        if (k > 0 && c.chance(3, 4))
        {
            // from the outputs of the previous stage
            for (auto& e : stages[k - 1].entries)
                if (!e.excluded)
                {
                    Entry f = e;
                    f.in    = e.out;
                    f.has_ic = false;
                    S.entries.push_back(f);
                }
        }
        if (S.entries.empty())
        {
            const int n = c.big(1, 4, 24, 150, 48);
            std::vector<std::vector<std::string>> used;
            auto clash = [&](const std::vector<std::string>& p)
            {
                for (auto& q : used)
                {
                    auto l = std::min(p.size(), q.size());
                    if (std::equal(p.begin(), p.begin() + long(l), q.begin())) return true;
                }
                return false;
            };
            for (int i = 0; i < n; i++)
            {
                Entry e;
                const int depth = int(c.weighted({4, 3, 2, 1})) + 1;
                for (int d = 0; d < depth; d++) e.path.push_back(c.oneof<std::string>({"a", "b", "ab", "sig0", "x_1", "Z", "sig1"}));
                if (clash(e.path)) continue;
                used.push_back(e.path);
                e.ty = c.oneof({Ty::S, Ty::I, Ty::B, Ty::A});
                e.n  = e.ty == Ty::A ? c.size(1, 3, 20) : 1;
                // an external input, a signal that another entry has as its input, or the output of an entry (feedback)
                std::vector<int> same;
                for (auto& f : S.entries)
                    if (f.ty == e.ty && f.n == e.n)
                    {
                        same.push_back(f.in);
                        if (S.memory && f.out >= 0) same.push_back(f.out);
                    }
                e.in = !same.empty() && c.chance(1, 4) ? c.pick(same) : new_sig(e.ty, e.n, true);
                S.entries.push_back(e);
                S.entries.back().out = new_sig(e.ty, e.n, false);
            }
        }
        else
            for (auto& e : S.entries) e.out = new_sig(e.ty, e.n, false);
        // a nested bus once more under another label
        S.shared = c.flip();
        if (c.chance(1, 4))
        {
            std::vector<std::string> tops;
            for (auto& e : S.entries)
                if (e.path.size() > 1) tops.push_back(e.path[0]);
            if (!tops.empty())
            {
                const auto top = c.pick(tops);
                const auto num = S.entries.size();
                for (std::size_t i = 0; i < num; i++)
                {
                    if (S.entries[i].path[0] != top) continue;
                    Entry e   = S.entries[i];
                    e.path[0] = "again" + std::to_string(k); // (a label that no entry has yet)
                    e.out     = new_sig(e.ty, e.n, false);
                    S.entries.push_back(e);
                }
            }
        }
        // exclusions (of single entries, and of whole nested buses: with a dot at the end) and initial values
        std::vector<std::string> below;
        if (c.chance(1, 5))
        {
            auto& e = S.entries[c.draw(S.entries.size())];
            if (e.path.size() > 1) below.assign(e.path.begin(), e.path.begin() + 1 + long(c.draw(e.path.size() - 1)));
        }
        auto under = [&](const Entry& e) { return !below.empty() && e.path.size() > below.size() && std::equal(below.begin(), below.end(), e.path.begin()); };
        for (auto& e : S.entries)
            for (auto& f : S.entries)
                if (under(e) && f.in == e.out) below.clear();
        if (!below.empty())
        {
            std::string l;
            for (auto& b : below) l += b + ".";
            S.excluded_labels.push_back(l);
            excluded_buses++;
        }
        for (auto& e : S.entries)
        {
            e.excluded = under(e) || c.chance(1, 4);
            // (a feedback input must stay driven)
            for (auto& f : S.entries) e.excluded = e.excluded && f.in != e.out;
            if (e.excluded)
            {
                if (c.flip()) e.out = -1; // no such entry in the output bus
                if (!under(e) || c.chance(1, 8)) S.excluded_labels.push_back(e.full());
            }
            else
            {
                live++;
                nested |= e.path.size() > 1;
                if (S.memory && c.chance(1, 2))
                {
                    e.has_ic = true;
                    e.ic     = ref::gen_values(c, e.ty, e.n, special);
                }
                else
                    e.ic.assign(std::size_t(e.n), 0.0);
            }
        }
        // labels that match nothing
        if (c.chance(1, 4)) S.excluded_labels.push_back(c.oneof<std::string>({"q", "a", "sig0.q", "", "a.b.ab.Z.sig0"}));
        // (an excluded label that is a real entry excludes it)
        for (auto& l : S.excluded_labels)
            for (auto& e : S.entries)
                if (e.full() == l && !e.excluded) l = "nothing";
        if (std::find(S.excluded_labels.begin(), S.excluded_labels.end(), "") != S.excluded_labels.end())
            for (auto& l : S.excluded_labels)
                if (l.empty()) l = "nothing2"; // (the empty path denotes the whole bus)
        if (S.excluded_labels.size() > 1) std::rotate(S.excluded_labels.begin(), S.excluded_labels.begin() + long(c.draw(S.excluded_labels.size())), S.excluded_labels.end());
    }
    // excluded entries of the output bus that are written by the input callback
    std::vector<char> driven(info.size(), 0);
    for (auto& S : stages)
        for (auto& e : S.entries)
            if (!e.excluded) driven[std::size_t(e.out)] = 1;
    const bool with_states = c.flip();
    const auto kind        = c.oneof({lib::SimKind::Plain, lib::SimKind::Reuse, lib::SimKind::Fast});
    const auto method      = c.oneof({ref::Method::Euler, ref::Method::Rk4, ref::Method::Rkf45});
    std::vector<double> times{c.moderate(4)};
    const int steps = c.big(1, 5, 12, 100, 48);
    for (int i = 0; i < steps; i++) times.push_back(times.back() + (c.chance(1, 5) ? 0.0 : c.uniform(0.01, 2)));
    const bool explicit_init = c.flip();
    const int int_src        = with_states ? new_sig(Ty::S, 1, true) : -1;
    const int int_out        = with_states ? new_sig(Ty::S, 1, false) : -1;
    driven.resize(info.size(), 0);

    // signals that are linked to no block are never cleared, so they can be written only once
    std::vector<char> linked(info.size(), 0);
    if (with_states) linked[std::size_t(int_src)] = 1;
    for (auto& S : stages)
        for (auto& e : S.entries)
        {
            if (!e.excluded || e.path.size() == 1) linked[std::size_t(e.in)] = 1;
            if (e.excluded && e.path.size() == 1 && e.out >= 0) linked[std::size_t(e.out)] = 1;
        }
    std::vector<char> write_excluded(info.size(), 0);
    for (auto& S : stages)
        for (auto& e : S.entries)
            if (e.excluded && e.out >= 0 && !driven[std::size_t(e.out)]) write_excluded[std::size_t(e.out)] = c.chance(1, 2);
    if (ctx.verbose)
    {
        for (std::size_t k = 0; k < stages.size(); k++)
        {
            auto& S = stages[k];
            ctx.text << "  stage " << k << ": bus " << (S.memory ? "memory" : "pipe") << ", nesting " << S.level << (S.shared ? ", equal input buses are one" : S.in_order ? ", input bus shuffled" : "")
                     << (S.out_order ? ", output bus shuffled" : "") << "\n";
            for (auto& e : S.entries)
                ctx.text << "    " << e.full() << ": " << ref::ty_name(e.ty) << e.n << " s" << e.in << (info[std::size_t(e.in)].ext ? " (external)" : "") << " -> s" << e.out
                         << (e.excluded ? " excluded" : e.has_ic ? " with initial value" : "") << "\n";
            for (auto& l : S.excluded_labels) ctx.text << "    excluded: '" << l << "'\n";
        }
        ctx.text << "  " << lib::sim_name(kind) << (with_states ? " with an integrator, " : ", ") << ref::method_name(method) << ", times:";
        for (auto t : times) ctx.text << " " << t;
        ctx.text << (explicit_init ? " (init)" : " (run)") << "\n";
        ctx.flush_text();
    }

    const std::size_t depth = lib::trace_depth();
    uint64_t salt = 0;
    auto value    = [&](std::size_t s, double t) { return ref::table_values(seed + salt, int(s), info[s].ty, info[s].n, t, special && int(s) != int_src); };
    auto fill = [&](World& w, bool wide)
    {
        for (std::size_t s = 0; s < info.size(); s++) w.sigs.push_back(lib::make_signal(info[s].ty, info[s].n, "s" + std::to_string(s)));
        for (int i = 0; i < 2; i++) w.subs.push_back(std::make_unique<pooya::Submodel>(i ? w.subs[0].get() : &w.root, "sub" + std::to_string(i)));
        auto at = [&](int s) -> pooya::Signal& { return w.sigs[std::size_t(s)]; };
        for (auto& S : stages)
        {
            pooya::Submodel& parent = S.level == 0 ? static_cast<pooya::Submodel&>(w.root) : *w.subs[std::size_t(S.level) - 1];
            if (wide)
            {
                std::vector<std::pair<std::vector<std::string>, pooya::Signal>> ins, outs;
                for (auto& e : S.entries)
                {
                    ins.emplace_back(e.path, at(e.in));
                    if (e.out >= 0) outs.emplace_back(e.path, at(e.out));
                }
                // an entry that the input bus does not have
                outs.push_back({{"extra"}, lib::make_signal(Ty::S, 1, "extra")});
                if (S.memory)
                {
                    std::vector<pooya::BusMemory::LabelValue> iv;
                    for (auto& e : S.entries)
                        if (e.has_ic)
                        {
                            switch (e.ty)
                            {
                            case Ty::S: iv.emplace_back(e.full(), e.ic[0]); break;
                            case Ty::I: iv.emplace_back(e.full(), int(e.ic[0])); break;
                            case Ty::B: iv.emplace_back(e.full(), e.ic[0] != 0); break;
                            default: iv.emplace_back(e.full(), lib::to_array(e.ic));
                            }
                        }
                    w.blocks.push_back(std::make_shared<pooya::BusMemory>(parent, lib::ilist(iv), lib::ilist(S.excluded_labels)));
                }
                else
                    w.blocks.push_back(std::make_shared<pooya::BusPipe>(parent, lib::ilist(S.excluded_labels)));
                w.blocks.back()->rename("bus_block");
                std::map<std::vector<std::pair<std::string, const void*>>, pooya::Bus> known;
                w.blocks.back()->connect(S.shared ? make_shared_tree(ins, 0, known) : make_tree(ins, 0, S.in_order), make_tree(outs, 0, S.out_order));
            }
            else
                for (auto& e : S.entries)
                    if (!e.excluded)
                    {
                        std::shared_ptr<pooya::Block> b;
                        if (S.memory) switch (e.ty)
                            {
                            case Ty::S: b = std::make_shared<pooya::Memory>(e.ic[0]); break;
                            case Ty::I: b = std::make_shared<pooya::MemoryI>(int(e.ic[0])); break;
                            case Ty::B: b = std::make_shared<pooya::MemoryB>(e.ic[0] != 0); break;
                            default: b = std::make_shared<pooya::MemoryA>(lib::to_array(e.ic));
                            }
                        else
                            switch (e.ty)
                            {
                            case Ty::S: b = std::make_shared<pooya::Pipe>(); break;
                            case Ty::I: b = std::make_shared<pooya::PipeI>(); break;
                            case Ty::B: b = std::make_shared<pooya::PipeB>(); break;
                            default: b = std::make_shared<pooya::PipeA>();
                            }
                        w.blocks.push_back(b);
                        parent.add_block(*b, {at(e.in)}, {at(e.out)});
                    }
        }
        if (with_states)
        {
            w.blocks.push_back(std::make_shared<pooya::Integrator>(0.5));
            w.root.add_block(*w.blocks.back(), {at(int_src)}, {at(int_out)});
        }
        // in the separate world, nothing is linked to the excluded entries at all
        auto is_linked = [&, wide](std::size_t s)
        {
            if (wide) return linked[s] != 0;
            bool l = int(s) == int_src;
            for (auto& S : stages)
                for (auto& e : S.entries)
                    if (!e.excluded && e.in == int(s)) l = true;
            return l;
        };
        for (std::size_t s = 0; s < info.size(); s++)
            if ((info[s].ext || write_excluded[s]) && !is_linked(s)) lib::write(w.sigs[s], info[s].ty, value(s, 0));
        auto cb = [&, is_linked](pooya::Block&, double t)
        {
            for (std::size_t s = 0; s < info.size(); s++)
                if ((info[s].ext || write_excluded[s]) && is_linked(s)) lib::write(w.sigs[s], info[s].ty, value(s, t));
        };
        w.root.on_post = [&](double t)
        {
            std::vector<lib::LVal> v;
            for (auto& s : w.sigs) v.push_back(lib::read(s));
            w.ends.push_back(v);
            w.end_times.push_back(t);
        };
        if (with_states) w.stepper = lib::make_stepper(method);
        w.sim = lib::make_sim(kind, w.root, cb, w.stepper.get());
    };

    World A, B;
    fill(A, true);
    fill(B, false);
    for (std::size_t k = 0; k < times.size(); k++)
    {
        for (auto* w : {&A, &B})
            if (k == 0 && explicit_init)
                w->sim->init(times[0]);
            else
                w->sim->run(times[k], 0.05, 1);
        salt += 0x632be59bd9b4e019ULL;
    }
    CHECK(ctx, lib::trace_depth() == depth, "the diagnostic trace is left unbalanced");
    CHECK(ctx, A.ends.size() == B.ends.size(), "with bus-wide blocks there are " << A.ends.size() << " accepted steps, with separate ones " << B.ends.size());
    // the values they must have
    auto same = [](const lib::LVal& a, const lib::LVal& b)
    {
        if (!(a == b)) return false;
        for (std::size_t i = 0; i < a.x.size(); i++)
            if (a.x[i] == a.x[i] && std::signbit(a.x[i]) != std::signbit(b.x[i])) return false;
        return true;
    };
    for (std::size_t k = 0; k < A.ends.size(); k++)
    {
        CHECK(ctx, A.end_times[k] == B.end_times[k], "accepted steps end at different times");
        for (std::size_t q = 0; q < stages.size(); q++)
            for (auto& e : stages[q].entries)
            {
                if (e.excluded)
                {
                    if (e.out >= 0)
                    {
                        auto& g = A.ends[k][std::size_t(e.out)];
                        CHECK(ctx, g.assigned == bool(write_excluded[std::size_t(e.out)]),
                              "stage " << q << ": the excluded entry " << e.full() << " is " << lib::show(g) << " at t=" << A.end_times[k]);
                        continue;
                    }
                    continue;
                }
                lib::LVal want;
                want.assigned = true;
                if (!stages[q].memory)
                    want = A.ends[k][std::size_t(e.in)];
                else if (k == 0)
                    want.x = e.ic;
                else
                    want = A.ends[k - 1][std::size_t(e.in)];
                auto& got = A.ends[k][std::size_t(e.out)];
                CHECK(ctx, want.assigned && same(want, got), "stage " << q << ": entry " << e.full() << " is " << lib::show(got) << " at t=" << A.end_times[k] << " instead of "
                                                                      << lib::show(want));
                CHECK(ctx, same(got, B.ends[k][std::size_t(e.out)]), "stage " << q << ": entry " << e.full() << " is " << lib::show(got) << " at t=" << A.end_times[k]
                                                                              << " but a separate block gives " << lib::show(B.ends[k][std::size_t(e.out)]));
            }
    }
    // (the input callback's values of excluded outputs)
    for (std::size_t s = 0; s < info.size(); s++)
        if (write_excluded[s])
        {
            salt     = linked[s] ? 0x632be59bd9b4e019ULL * (times.size() - 1) : 0;
            auto got = A.ends.back()[s];
            lib::LVal want{true, value(s, linked[s] ? A.end_times.back() : 0)};
            CHECK(ctx, same(want, got), "an excluded entry of an output bus holds " << lib::show(got) << " instead of what the input callback wrote, " << lib::show(want));
        }
    if (live >= 2 && nested && A.ends.size() >= 2) ctx.nontrivial();
    if (nested) ctx.label("nested");
    if (any_memory) ctx.label("memory");
    if (with_states) ctx.label("with a solver");
    for (auto& S : stages)
        for (auto& e : S.entries)
            if (e.excluded) ctx.label("excluded entries");
    if (excluded_buses) ctx.label("excluded nested buses", excluded_buses);
    ctx.label("entry values compared", uint64_t(live * A.ends.size()));
}
