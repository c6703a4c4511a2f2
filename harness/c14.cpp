#include "lib.hpp"

// Buses against a list-of-entries model.
namespace
{
struct Model;
struct Item
{
    pooya::SignalImpl* impl;
    int bus{-1}; // index of the bus model when the signal is a bus
};
struct BusModel
{
    std::vector<std::pair<std::string, Item>> entries;
};

std::string sanitise(const std::string& s)
{
    std::string r;
    for (char ch : s)
    {
        const auto u  = static_cast<unsigned char>(ch);
        const bool ok = (u >= '0' && u <= '9') || (u >= 'A' && u <= 'Z') || (u >= 'a' && u <= 'z') || u == '_';
        r += ok ? ch : '_';
    }
    return r;
}

std::string quote(const std::string& s)
{
    std::string r = "\"";
    static const char hex[] = "0123456789abcdef";
    for (char ch : s)
    {
        const auto u = static_cast<unsigned char>(ch);
        if (u >= 32 && u < 127)
            r += ch;
        else
            (((r += "\\x") += hex[u >> 4]) += hex[u & 15]);
    }
    return r + "\"";
}
} // namespace

PROPERTY("C14", "random trees of buses (auto-labelled or labelled with arbitrary byte strings, repeated labels, shared and repeated signals, signals of "
                "all types, named and unnamed) against a list model; lookups by index, label and dotted path, valid or not, through at, [] "
                "and try_at, also after all other handles are gone; non-trivial: at least one nested or repeated label and at least one "
                "successful and one failing lookup")
{
    const std::size_t depth = lib::trace_depth();
    std::vector<BusModel> models;
    std::vector<std::unique_ptr<pooya::Bus>> buses;                // the handles
    std::vector<std::unique_ptr<pooya::Signal>> leaves;            // value signals
    std::map<pooya::SignalImpl*, std::string> names;               // expected names
    const bool wild = c.chance(1, 3);
    auto text       = [&] { return wild ? c.bytes_string(c.chance(1, 20) ? 300 : 8) : c.name(); };
    auto leaf       = [&]() -> pooya::Signal
    {
        if (!leaves.empty() && c.chance(1, 4)) return *c.pick(std::vector<pooya::Signal*>{leaves.back().get(), leaves[c.draw(leaves.size())].get()});
        std::string nm = c.flip() ? "" : text();
        auto s         = lib::make_signal(c.oneof({ref::Ty::S, ref::Ty::I, ref::Ty::B, ref::Ty::A}), 2, nm);
        names[&s.impl()] = sanitise(nm);
        leaves.push_back(std::make_unique<pooya::Signal>(s));
        return s;
    };
    const int nb  = c.big(1, 3, 12, 60, 256);
    bool repeated = false, nested = false;
    for (int b = 0; b < nb; b++)
    {
        const int n = c.big(0, 4, 20, 400, 512);
        BusModel bm;
        std::vector<pooya::Signal> sigs;
        std::vector<std::string> labels;
        const int how = int(c.draw(4)); // 0: auto labels; 1: labels; 2: labelled scalars; 3: labelled buses
        std::vector<std::pair<std::string, pooya::ScalarSignal>> scalars;
        std::vector<std::pair<std::string, pooya::Bus>> subs;
        for (int i = 0; i < n; i++)
        {
            Item it{};
            std::string label = how == 0 ? "sig" + std::to_string(i) : text();
            if (how == 1 && c.chance(1, 6)) label = "sig" + std::to_string(c.draw(4));
            if (how != 0 && !labels.empty() && c.chance(1, 6)) label = c.pick(labels);
            if (how == 2)
            {
                std::string nm = c.flip() ? "" : text();
                pooya::ScalarSignal s(nm);
                names[&s.impl()] = sanitise(nm);
                leaves.push_back(std::make_unique<pooya::Signal>(s));
                scalars.emplace_back(label, s);
                sigs.push_back(s);
                it.impl = &s.impl();
            }
            else if ((how == 3 || c.chance(1, 3)) && b > 0)
            {
                it.bus  = c.flip() ? b - 1 : int(c.draw(uint64_t(b)));
                it.impl = &static_cast<pooya::Signal*>(buses[std::size_t(it.bus)].get())->impl();
                sigs.push_back(*buses[std::size_t(it.bus)]);
                if (how == 3) subs.emplace_back(label, *buses[std::size_t(it.bus)]);
                nested = true;
            }
            else if (how == 3)
                break;
            else
            {
                auto s  = leaf();
                it.impl = &s.impl();
                sigs.push_back(s);
            }
            for (auto& l : labels) repeated |= sanitise(l) == sanitise(label);
            labels.push_back(label);
            bm.entries.emplace_back(sanitise(label), it);
        }
        // expected names of the signals afterwards
        std::string bus_name = c.flip() ? "" : text();
        for (auto& [l, it] : bm.entries)
            if (auto& nm = names[it.impl]; nm.empty()) nm = l;
        std::vector<std::pair<std::string, pooya::Signal>> pairs;
        for (std::size_t i = 0; i < sigs.size(); i++) pairs.emplace_back(labels[i], sigs[i]);
        switch (how)
        {
        case 0: buses.push_back(std::make_unique<pooya::Bus>(lib::ilist(sigs), bus_name)); break;
        case 1: buses.push_back(std::make_unique<pooya::Bus>(lib::ilist(pairs), bus_name)); break;
        case 2: buses.push_back(std::make_unique<pooya::Bus>(lib::ilist(scalars), bus_name)); break;
        default: buses.push_back(std::make_unique<pooya::Bus>(lib::ilist(subs), bus_name));
        }
        names[&static_cast<pooya::Signal*>(buses.back().get())->impl()] = sanitise(bus_name);
        models.push_back(bm);
        if (ctx.verbose)
        {
            ctx.text << "  bus " << b << " (style " << how << "):";
            for (std::size_t i = 0; i < bm.entries.size(); i++)
            {
                ctx.text << " " << quote(labels[i]);
                if (bm.entries[i].second.bus >= 0) ctx.text << "=bus" << bm.entries[i].second.bus;
            }
            ctx.text << "\n";
        }
    }
    // drop handles: the buses must keep everything alive
    const bool dropped = c.flip();
    std::vector<int> kept;
    if (dropped)
    {
        leaves.clear();
        int keep = int(c.draw(uint64_t(nb)));
        // everything reachable from the kept bus stays alive
        std::function<void(int)> mark = [&](int b)
        {
            kept.push_back(b);
            for (auto& [l, it] : models[std::size_t(b)].entries)
                if (it.bus >= 0 && std::find(kept.begin(), kept.end(), it.bus) == kept.end()) mark(it.bus);
        };
        mark(keep);
        for (int b = 0; b < nb; b++)
            if (b != keep) buses[std::size_t(b)].reset();
        kept = {keep};
    }
    else
        for (int b = 0; b < nb; b++) kept.push_back(b);

    // resolves a path; null: not found or not a bus on the way
    std::function<Item*(int, const std::string&)> resolve = [&](int b, const std::string& path) -> Item*
    {
        auto pos         = path.find('.');
        std::string head = path.substr(0, pos);
        for (auto& [l, it] : models[std::size_t(b)].entries)
            if (l == head)
            {
                if (pos == std::string::npos) return &it;
                return it.bus >= 0 ? resolve(it.bus, path.substr(pos + 1)) : nullptr;
            }
        return nullptr;
    };
    bool hit = false, miss = false;
    auto lookup = [&](int b, const pooya::Bus& bus, const std::string& path)
    {
        const Item* want = resolve(b, path);
        (want ? hit : miss) = true;
        // as a view into a larger buffer: nothing beyond the view may matter
        const std::string buffer = "x." + path + (c.flip() ? ".a" : "a");
        const std::string_view view(buffer.data() + 2, path.size());
        for (int how = 0; how < 5; how++)
        {
            pooya::SignalImpl* got = nullptr;
            bool threw             = false;
            try
            {
                switch (how)
                {
                case 0: got = &bus.at(view).impl(); break;
                case 1: got = &bus[view].impl(); break;
                case 2: got = &bus->at(view).impl(); break;
                case 3: got = &(*bus.operator->())[view].impl(); break;
                default:
                {
                    auto o = bus->try_at(view);
                    if (o) got = &o->impl();
                }
                }
            }
            catch (const std::exception& e)
            {
                threw = true;
                CHECK(ctx, std::string(e.what()).size() > 0, "exception without a message");
            }
            static const char* names[] = {"at", "[]", "impl at", "impl []", "try_at"};
            if (want)
            {
                CHECK(ctx, !threw, names[how] << "(" << quote(path) << ") on bus " << b << " threw although the entry exists");
                CHECK(ctx, got == want->impl, names[how] << "(" << quote(path) << ") on bus " << b << " returned " << (got ? "a wrong signal" : "nothing"));
            }
            else
            {
                CHECK(ctx, got == nullptr, names[how] << "(" << quote(path) << ") on bus " << b << " returned a signal although nothing matches");
                CHECK(ctx, threw == (how != 4), names[how] << "(" << quote(path) << ") on bus " << b << (threw ? " threw" : " did not throw") << " although nothing matches");
            }
            CHECK(ctx, lib::trace_depth() == depth, "the diagnostic trace is not balanced after " << names[how] << "(" << quote(path) << ")");
        }
    };
    for (int b : kept)
    {
        const pooya::Bus& bus = *buses[std::size_t(b)];
        auto& bm              = models[std::size_t(b)];
        CHECK(ctx, bus.size() == bm.entries.size() && bus->size() == bm.entries.size(), "bus " << b << " has size " << bus.size() << " instead of " << bm.entries.size());
        std::size_t k = 0;
        for (auto& [label, sig] : bus)
        {
            CHECK(ctx, k < bm.entries.size(), "too many entries");
            CHECK(ctx, label == bm.entries[k].first, "entry " << k << " of bus " << b << " is labelled " << quote(label) << " instead of " << quote(bm.entries[k].first));
            CHECK(ctx, &sig.impl() == bm.entries[k].second.impl, "entry " << k << " of bus " << b << " is a wrong signal");
            CHECK(ctx, sig->name().str() == names[&sig.impl()], "the signal at entry " << k << " of bus " << b << " is named " << quote(sig->name().str()) << " instead of " << quote(names[&sig.impl()]));
            k++;
        }
        CHECK(ctx, k == bm.entries.size(), "too few entries");
        for (std::size_t i = 0; i < bm.entries.size(); i++)
        {
            CHECK(ctx, &bus.at(i).impl() == bm.entries[i].second.impl, "at(" << i << ") of bus " << b << " is a wrong signal");
            CHECK(ctx, &bus[i].impl() == bm.entries[i].second.impl, "[" << i << "] of bus " << b << " is a wrong signal");
        }
        for (std::size_t i : {bm.entries.size(), bm.entries.size() + 1, bm.entries.size() + 1000, std::size_t(-1)})
        {
            bool threw = false;
            try
            {
                bus.at(i);
            }
            catch (const std::exception&)
            {
                threw = true;
            }
            CHECK(ctx, threw, "at(" << i << ") of a bus of size " << bm.entries.size() << " did not throw");
            if (lib::checked_build)
            {
                threw = false;
                try
                {
                    bus[i];
                }
                catch (const std::exception&)
                {
                    threw = true;
                }
                CHECK(ctx, threw, "[" << i << "] of a bus of size " << bm.entries.size() << " did not throw");
            }
        }
        CHECK(ctx, lib::trace_depth() == depth, "the diagnostic trace is not balanced");
        // all direct labels
        for (auto& e : bm.entries) lookup(b, bus, e.first);
        // random walks and their corruptions
        const int nl = int(c.range(3, 10));
        for (int q = 0; q < nl; q++)
        {
            std::string path;
            int at = b;
            for (int d = int(c.range(0, 4)); d >= 0 && at >= 0; d--)
            {
                auto& es = models[std::size_t(at)].entries;
                if (es.empty()) break;
                auto& e = es[c.draw(es.size())];
                path += (path.empty() ? "" : ".") + e.first;
                at = e.second.bus;
            }
            switch (c.draw(7))
            {
            case 0: break;
            case 1: path += "." + text(); break;
            case 2: path = text(); break;
            case 3: path = "." + path; break;
            case 4:
                if (!path.empty()) path.erase(c.draw(path.size()), 1);
                break;
            case 5: path.insert(c.draw(path.size() + 1), 1, c.oneof({'.', 'a', '_', ' '})); break;
            default: path += "."; break;
            }
            NOTE(ctx, "  lookup " << quote(path) << " in bus " << b << (dropped ? " (other handles dropped)" : ""));
            lookup(b, bus, path);
        }
        for (auto& s : {std::string(""), std::string("."), std::string("..")}) lookup(b, bus, s);
    }
    if ((nested || repeated) && hit && miss) ctx.nontrivial();
    if (nested) ctx.label("nested buses");
    if (repeated) ctx.label("repeated labels");
    if (dropped) ctx.label("all other handles dropped");
    if (wild) ctx.label("arbitrary bytes in labels and names");
}
