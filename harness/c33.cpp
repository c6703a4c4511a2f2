#include <algorithm>
#include <iostream>
#include <set>

#include "loops.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/subtract.hpp"
#include "src/helper/trace.hpp"

// What is printed and what exceptions say: it names what is wrong, and nothing is said when nothing is.
using ref::Kind;
using ref::Ty;

namespace
{
class Capture
{
public:
    Capture() : _old(std::cout.rdbuf(_os.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(_old); }
    std::string take()
    {
        auto s = _os.str();
        _os.str("");
        return s;
    }

private:
    std::ostringstream _os;
    std::streambuf* _old;
};

// names (with slashes and dots) and numbers in a text
std::vector<std::string> tokens(const std::string& s)
{
    std::vector<std::string> r;
    std::string cur;
    auto flush = [&]
    {
        while (!cur.empty() && (cur.back() == '.' || cur.back() == '/')) cur.pop_back();
        if (!cur.empty()) r.push_back(cur);
        cur.clear();
    };
    for (char ch : s)
        if (std::isalnum(static_cast<unsigned char>(ch)) || ch == '_' || ch == '.' || ch == '/')
            cur += ch;
        else
            flush();
    flush();
    return r;
}
// user code that says where it is, within within within ...
template<class F>
void descend(const std::string& name, int level, int depth, int updated, F&& f)
{
    if (level >= depth)
    {
        f();
        return;
    }
    pooya_trace(name + std::to_string(level));
    if (level == updated)
    {
        pooya_trace_update(name + std::to_string(level) + "_updated");
        pooya_trace_update0;
    }
    (void)name;
    descend(name, level + 1, depth, updated, f);
}
// all of them, the innermost first
std::string check_descent(const std::string& text, const std::string& name, int depth, int updated)
{
    std::vector<std::string> want, got;
    for (int k = depth; k-- > 0;) want.push_back(name + std::to_string(k) + (k == updated ? "_updated" : ""));
    for (auto& t : tokens(text))
        if (t.rfind(name, 0) == 0) got.push_back(t);
    if (got == want) return "";
    std::ostringstream o;
    o << depth << " nested parts of user code should be in the traceback, the innermost first, but there are " << got.size() << ":";
    for (auto& t : got) o << " " << t;
    return o.str();
}
bool has_token(const std::string& s, const std::string& t)
{
    auto v = tokens(s);
    return std::find(v.begin(), v.end(), t) != v.end();
}
bool has_number(const std::string& s, double x)
{
    for (std::size_t i = 0; i < s.size(); i++)
    {
        if (!std::isdigit(static_cast<unsigned char>(s[i])) && s[i] != '-' && s[i] != '.') continue;
        char* e{};
        const double v = std::strtod(s.c_str() + i, &e);
        if (e != s.c_str() + i && std::fabs(v - x) <= 1e-6 * (1 + std::fabs(x))) return true;
    }
    return false;
}
std::size_t count(const std::string& s, const std::string& what)
{
    std::size_t n = 0;
    for (std::size_t p = s.find(what); p != std::string::npos; p = s.find(what, p + 1)) n++;
    return n;
}
// does it say where it comes from (a file name and a line number)?
bool has_location(const std::string& s)
{
    for (std::size_t p = s.find(".hpp:"); p != std::string::npos; p = s.find(".hpp:", p + 1))
        if (p + 5 < s.size() && std::isdigit(static_cast<unsigned char>(s[p + 5]))) return true;
    for (std::size_t p = s.find(".cpp:"); p != std::string::npos; p = s.find(".cpp:", p + 1))
        if (p + 5 < s.size() && std::isdigit(static_cast<unsigned char>(s[p + 5]))) return true;
    return false;
}

struct Names
{
    const ref::Model& m;
    std::string sub(int k) const { return k < 0 ? around() + "/root" : sub(m.sub_parent[std::size_t(k)]) + "/" + m.sub_name[std::size_t(k)]; }
    std::string around() const
    {
        std::string r;
        for (int k = 0; k < m.outer; k++) r += "/around" + std::to_string(k);
        return r;
    }
    std::string node(std::size_t k) const { return m.bare ? around() + "/" + m.nodes[k].name : sub(m.nodes[k].parent) + "/" + m.nodes[k].name; }
};

// checks the reports of unprocessed blocks in the text; returns their number
std::size_t check_reports(pbt::Ctx& ctx, const ref::Model& m, const std::vector<char>& known, bool deep, const std::string& text)
{
    Names nm{m};
    std::map<std::string, std::size_t> by_name;
    std::set<std::string> subs_with, subs_without, sig_names;
    bool group_unprocessed = false;
    for (std::size_t k = 0; k < m.nodes.size(); k++)
    {
        if (m.nodes[k].group < 0)
            by_name[nm.node(k)] = k;
        else
            group_unprocessed |= !loops::node_known(m, known, k);
    }
    for (int k = -1; k < int(m.sub_parent.size()); k++) subs_without.insert(nm.sub(k));
    for (std::size_t k = 0; k < m.nodes.size(); k++)
        if (!loops::node_known(m, known, k))
            for (int s = m.nodes[k].parent;; s = m.sub_parent[std::size_t(s)])
            {
                subs_with.insert(nm.sub(s));
                if (s < 0) break;
            }
    for (auto& s : subs_with) subs_without.erase(s);
    for (auto& s : m.sigs) sig_names.insert(s.name);

    std::size_t reports = 0;
    std::map<std::string, std::set<std::string>> got;
    std::string block;
    auto finish = [&]
    {
        if (!reports) return;
        for (std::size_t k = 0; k < m.nodes.size(); k++)
        {
            if (m.nodes[k].group >= 0) continue;
            const bool unprocessed = !loops::node_known(m, known, k);
            auto it                = got.find(nm.node(k));
            CHECK(ctx, unprocessed == (it != got.end()),
                  "block " << nm.node(k) << (unprocessed ? " cannot be computed, but is not among the unprocessed blocks:\n" : " is computed, but is reported as unprocessed:\n") << text);
            if (!unprocessed) continue;
            std::set<std::string> want;
            for (std::size_t p = 0; p < m.nodes[k].in.size(); p++)
                if (const int s = m.nodes[k].in[p]; m.nodes[k].through(p) && !known[std::size_t(s)]) want.insert(m.sigs[std::size_t(s)].name);
            CHECK(ctx, it->second == want, "the report of block " << nm.node(k) << " does not name exactly its " << want.size() << " missing inputs:\n" << text);
        }
        for (auto& s : subs_without) CHECK(ctx, m.bare || !got.count(s), "submodel " << s << " is reported although all of its blocks are computed:\n" << text);
        if (deep)
            for (auto& s : subs_with) CHECK(ctx, m.bare || got.count(s), "submodel " << s << " is not reported although it has blocks that are not computed:\n" << text);
        got.clear();
        block.clear();
    };
    std::istringstream is(text);
    std::string line;
    while (std::getline(is, line))
    {
        if (line.find("unprocessed") != std::string::npos)
        {
            finish();
            reports++;
            continue;
        }
        auto t = tokens(line);
        if (t.empty() || !reports) continue;
        if (by_name.count(t[0]) || subs_with.count(t[0]) || subs_without.count(t[0]))
            got[block = t[0]];
        else if (sig_names.count(t[0]) && !block.empty())
            got[block].insert(t[0]);
        else
        {
            CHECK(ctx, group_unprocessed, "unexpected line in a report of unprocessed blocks: " << line);
            if (t[0].find('/') != std::string::npos) block.clear();
        }
    }
    finish();
    return reports;
}

// refused calls outside of simulations
void refusals(pbt::Choices& c, pbt::Ctx& ctx)
{
    Capture out;
    const auto depth = lib::trace_depth();
    pooya::Submodel a(nullptr, "anton"), b(nullptr, "berta"), inner(&b, "caesar");
    std::vector<pooya::Submodel*> subs{&a, &b, &inner};
    std::vector<std::string> names{"/anton", "/berta", "/berta/caesar"};
    struct B
    {
        std::shared_ptr<pooya::Block> block;
        int parent;
        std::string name;
        std::string full(const std::vector<std::string>& n) const { return parent < 0 ? "/" + name : n[std::size_t(parent)] + "/" + name; }
    };
    std::vector<B> blocks;
    std::size_t accepted = 0, refused = 0;
    const int ops = int(c.range(2, 16));
    std::map<pooya::Submodel*, std::vector<pooya::Block*>> children;
    for (int i = 0; i < ops; i++)
    {
        const std::size_t what = blocks.empty() ? 0 : c.weighted({3, 3, 2, 2, 3});
        if (what == 0)
        {
            B x;
            x.parent     = int(c.range(-1, 2));
            x.name       = "blk" + std::to_string(i) + c.oneof<std::string>({"", "_", "_x1"});
            auto* parent = x.parent < 0 ? nullptr : subs[std::size_t(x.parent)];
            switch (c.draw(4))
            {
            case 0: x.block = std::make_shared<pooya::Gain>(2.0, parent, x.name); break;
            case 1: x.block = std::make_shared<pooya::Subtract>(parent, x.name); break;
            case 2: x.block = std::make_shared<pooya::Memory>(1.0, parent, x.name); break;
            default: x.block = std::make_shared<pooya::Pipe>(parent, x.name);
            }
            CHECK(ctx, out.take().empty(), "creating a block prints something");
            if (parent) children[parent].push_back(x.block.get());
            blocks.push_back(x);
            NOTE(ctx, "  new block " << x.full(names));
            continue;
        }
        auto& x         = blocks[c.draw(blocks.size())];
        const int p     = int(c.draw(3));
        auto* parent    = subs[std::size_t(p)];
        const auto full = x.full(names);
        NOTE(ctx, "  " << (what == 1 ? "set_parent" : what == 2 ? "add_block" : what == 3 ? "link_block" : "connect wrongly") << " " << full << (what < 4 ? ", " + names[std::size_t(p)] : ""));
        bool ok = false, want = x.parent < 0 || x.parent == p;
        std::string threw;
        try
        {
            switch (what)
            {
            case 1: ok = x.block->set_parent(*parent); break;
            case 2:
                // connects as well: of no interest unless the parent is refused
                if (want) continue;
                ok = parent->add_block(*x.block);
                break;
            case 3:
                want = x.parent == p;
                ok   = parent->link_block(*x.block);
                break;
            default:
            {
                // the wrong number of signals
                const std::size_t need = dynamic_cast<pooya::Subtract*>(x.block.get()) ? 2 : 1;
                std::size_t ni = c.draw(4), no = c.draw(3);
                if (ni == need && no == 1) ni = 0;
                std::vector<pooya::Signal> is, os;
                for (std::size_t q = 0; q < ni; q++) is.push_back(pooya::ScalarSignal("i"));
                for (std::size_t q = 0; q < no; q++) os.push_back(pooya::ScalarSignal("o"));
                auto ib = lib::make_bus(is), ob = lib::make_bus(os);
                try
                {
                    x.block->connect(ib, ob);
                }
                catch (const std::exception& e)
                {
                    threw = e.what();
                }
                CHECK(ctx, !threw.empty(), "a wrong number of signals is accepted");
                CHECK(ctx, has_token(threw, full), "the refusal of a wrong number of signals does not name the block " << full << ":" << threw);
                CHECK(ctx, has_number(threw, double(ni != need ? need : 1)) && has_token(threw, ni != need ? "input" : "output"),
                      "the refusal of " << ni << " inputs and " << no << " outputs does not say that " << (ni != need ? need : 1) << (ni != need ? " input(s) are" : " output is") << " needed:" << threw);
                CHECK(ctx, has_location(threw), "the refusal of a wrong number of signals does not say where it comes from:" << threw);
                CHECK(ctx, out.take().empty(), "a refused connection prints something");
                CHECK(ctx, lib::trace_depth() == depth, "the diagnostic trace is not balanced");
                refused++;
                continue;
            }
            }
        }
        catch (const std::exception& e)
        {
            ctx.fail(std::string("unexpected exception: ") + e.what());
        }
        auto text = out.take();
        CHECK(ctx, ok == want, "setting the parent of " << full << " is " << (ok ? "accepted" : "refused"));
        if (want)
        {
            CHECK(ctx, text.empty(), "a correct call prints:" << text);
            if (std::find(children[parent].begin(), children[parent].end(), x.block.get()) == children[parent].end()) children[parent].push_back(x.block.get());
            x.parent = p;
            accepted++;
        }
        else
        {
            CHECK(ctx, count(text, "Warning") == 1 && has_token(text, full), "the warning of a refused parent does not name the block " << full << " (once):" << text);
            CHECK(ctx, has_location(text), "the warning of a refused parent does not say where it comes from:" << text);
            refused++;
        }
        CHECK(ctx, x.block->parent() == (x.parent < 0 ? nullptr : subs[std::size_t(x.parent)]), "the parent of " << full << " is wrong after a " << (want ? "successful" : "refused") << " call");
        CHECK(ctx, x.block->full_name().str() == x.full(names), "the full name of " << full << " is " << x.block->full_name().str());
        for (std::size_t s = 0; s < subs.size(); s++)
        {
            std::vector<pooya::Block*> seen;
            subs[s]->visit(
                [&](pooya::Block& blk, uint32_t level)
                {
                    if (level == 1 && &blk != &inner) seen.push_back(&blk);
                    return true;
                },
                0, 1);
            CHECK(ctx, seen == children[subs[s]], "the blocks of " << names[s] << " are wrong after a " << (want ? "successful" : "refused") << " call");
        }
    }
    ctx.label("parents accepted", accepted);
    ctx.label("calls refused", refused);
    if (accepted && refused) ctx.nontrivial();
}
} // namespace

PROPERTY("C33", "random diagrams, complete or with loops and inputs that are never written, run by any simulator with standard output captured, with repeated steps, superfluous solvers, "
                "runs back in time, and failing library calls within user functions; and random sequences of calls that set parents or connect, correctly or not; what is printed and "
                "the texts of exceptions are searched for the names and numbers expected; non-trivial: something has to be reported, and something else must not be")
{
    if (c.chance(1, 3)) return refusals(c, ctx);
    ref::GenOpts o;
    o.min_nodes     = 2;
    o.typical_nodes = 7;
    if (c.chance(1, 3)) o.states = false;
    auto m          = ref::gen_model(c, o);
    const bool want = c.chance(1, 2); // incomplete?
    if (want)
    {
        loops::rewire(c, m, int(c.weighted({1, 4, 2, 2})));
        if (c.flip() && !m.exts.empty()) m.exts.erase(m.exts.begin() + long(c.draw(m.exts.size())));
        loops::fix_holders(c, m);
    }
    auto known      = loops::known(m);
    bool incomplete = false;
    for (std::size_t k = 0; k < m.nodes.size(); k++) incomplete |= !loops::node_known(m, known, k);
    auto p            = lib::gen_plan(c, m, 4, !m.has(Kind::Delay));
    const bool states = m.num_states() > 0;
    const bool extra  = !states && c.flip(); // a solver that is of no use
    NOTE(ctx, m.describe() << p.describe() << (extra ? "  with a superfluous solver\n" : ""));
    lib::Diagram d(m);
    d.monitor = false;
    Names nm{m};
    auto st  = lib::make_stepper(p.method);
    auto sim = lib::make_sim(p.sim, d.model(), d.callback(), states || extra ? st.get() : nullptr);
    Capture out;
    const auto depth = lib::trace_depth();

    if (incomplete && p.sim == lib::SimKind::Fast)
    {
        std::string threw;
        try
        {
            p.explicit_init ? sim->init(p.t0) : sim->run(p.t0, p.min_step, p.max_step);
        }
        catch (const std::exception& e)
        {
            threw = e.what();
        }
        CHECK(ctx, !threw.empty(), "the fast simulator accepted a diagram that cannot be computed");
        CHECK(ctx, has_location(threw), "the refusal of a model by the fast simulator does not say where it comes from:" << threw);
        CHECK(ctx, count(out.take(), "Warning") == (extra ? 1u : 0u), "wrong warnings");
        ctx.label("refused by the fast simulator");
        return;
    }

    // a user function whose call of the library fails
    std::vector<std::size_t> users;
    for (std::size_t k = 0; k < m.nodes.size(); k++)
        switch (m.nodes[k].kind)
        {
        case Kind::Source:
        case Kind::Sources:
        case Kind::SisoFn:
        case Kind::SoFn:
        case Kind::Fn:
        case Kind::Keep:
            if (loops::node_known(m, known, k)) users.push_back(k);
            break;
        default: break;
        }
    const std::size_t n_runs = p.times.size();
    int fail_at = -1, fail_node = -1, fail_how = 0, fail_after = 0;
    if (!users.empty() && c.chance(1, 3))
    {
        fail_at    = int(c.range(0, int64_t(n_runs)));
        fail_node  = int(c.pick(users));
        fail_how   = int(c.draw(lib::checked_build ? 2 : 1));
        fail_after = int(c.draw(4));
    }
    const bool nest     = c.chance(1, 3);
    const int inner     = nest ? c.size(0, 3, 70) : 0;
    const int outer     = nest ? c.size(0, 3, 70) : 0;
    const int updated   = nest ? int(c.draw(8)) : -1;
    bool armed = false;
    int calls  = 0;
    pooya::Bus some_bus{std::pair<std::string, pooya::Signal>("a_label", pooya::ScalarSignal("a_signal"))};
    pooya::ScalarSignal unassigned("never_assigned");
    d.on_called = [&](int node, double)
    {
        if (!armed || node != fail_node || calls++ < fail_after) return;
        descend("userlevel", 0, inner, updated, [&]
        {
            if (fail_how == 0)
                some_bus.at("no_such_label");
            else
                (void)double(unassigned);
        });
    };

    double now = p.t0;
    bool said = false, silent = false;
    for (std::size_t i = 0; i <= n_runs; i++)
    {
        const double t = i ? p.times[i - 1] : p.t0;
        if (i && states && c.chance(1, 6))
        {
            // back in time
            const double back = now - c.uniform(0.1, 1);
            std::string threw;
            try
            {
                sim->run(back, p.min_step, p.max_step);
            }
            catch (const std::exception& e)
            {
                threw = e.what();
            }
            CHECK(ctx, !threw.empty(), "a run back in time is accepted");
            CHECK(ctx, has_number(threw, back) && has_number(threw, now), "the refusal of a run from " << now << " back to " << back << " does not give the two times:" << threw);
            CHECK(ctx, has_location(threw), "the refusal of a run back in time does not say where it comes from:" << threw);
            CHECK(ctx, out.take().empty(), "a refused run prints something");
            ctx.label("back in time");
        }
        armed = int(i) == fail_at;
        calls = 0;
        std::string threw;
        try
        {
            descend("callerlevel", 0, outer, updated, [&] { i || !p.explicit_init ? sim->run(t, p.min_step, p.max_step) : sim->init(t); });
        }
        catch (const std::exception& e)
        {
            threw = e.what();
        }
        armed = false;
        CHECK(ctx, lib::trace_depth() == depth, "the diagnostic trace is not balanced");
        const auto text = out.take();
        if (!threw.empty())
        {
            const bool ours = int(i) == fail_at && calls > fail_after;
            CHECK(ctx, ours, "unexpected exception: " << threw);
            if (fail_how == 0) CHECK(ctx, has_token(threw, "no_such_label"), "the exception does not name the label that was not found:" << threw);
            CHECK(ctx, has_location(threw), "the exception does not say where it comes from:" << threw);
            CHECK(ctx, !has_token(threw, "a_label"), "the exception names another label:" << threw);
            if (lib::checked_build)
            {
                for (std::size_t k = 0; k < m.nodes.size(); k++)
                {
                    if (m.nodes[k].group >= 0) continue;
                    CHECK(ctx, has_token(threw, nm.node(k)) == (int(k) == fail_node),
                          "block " << nm.node(k) << (int(k) == fail_node ? " failed, but is not in the traceback:" : " is in the traceback of another block's failure:") << threw);
                }
                std::string wrong = check_descent(threw, "userlevel", inner, updated);
                if (wrong.empty()) wrong = check_descent(threw, "callerlevel", outer, updated);
                CHECK(ctx, wrong.empty(), wrong << " in " << threw);
                if (inner + outer) ctx.label("nested user code");
                // the containing submodels may be named, others must not
                std::set<std::string> above;
                if (!m.bare)
                    for (int s = m.nodes[std::size_t(fail_node)].parent;; s = m.sub_parent[std::size_t(s)])
                    {
                        above.insert(nm.sub(s));
                        if (s < 0) break;
                    }
                for (int s = 0; s < int(m.sub_parent.size()); s++)
                    CHECK(ctx, above.count(nm.sub(s)) || !has_token(threw, nm.sub(s)), "submodel " << nm.sub(s) << " is in the traceback of another one's failure:" << threw);
                if (above.size() + 1 < m.nodes.size() + m.sub_parent.size()) ctx.nontrivial();
            }
            CHECK(ctx, count(text, "Warning") <= 1, "more than one warning in a failing call:" << text);
            ctx.label("failure inside a user function");
            return; // (what comes after a failure is the subject of other checks)
        }
        CHECK(ctx, calls <= fail_after, "an exception in a user function was swallowed");
        const bool repeated      = i && states && t == now;
        const std::size_t warned = repeated || (i == 0 && extra) ? 1 : 0;
        CHECK(ctx, count(text, "Warning") == warned, "run " << i << " to t=" << t << (repeated ? " (a repetition)" : "") << " prints " << count(text, "Warning") << " warnings instead of " << warned << ":" << text);
        if (warned) CHECK(ctx, has_location(text), "a warning does not say where it comes from:" << text);
        if (repeated) CHECK(ctx, has_number(text, t), "the warning of a repeated step does not give its time:" << text);
        if (lib::checked_build)
        {
            const auto reports = check_reports(ctx, m, known, p.sim == lib::SimKind::Plain, text);
            CHECK(ctx, (reports > 0) == incomplete, (incomplete ? "the blocks that cannot be computed are not reported" : "unprocessed blocks are reported though there are none") << " at t=" << t << ":" << text);
            if (reports) ctx.label("reports of unprocessed blocks", reports);
        }
        if (!warned && (!lib::checked_build || !incomplete)) CHECK(ctx, text.empty(), "run " << i << " to t=" << t << " prints, with nothing to report:" << text);
        now = t;
        said |= warned || (incomplete && lib::checked_build);
        silent |= !warned;
    }
    if (extra) ctx.label("superfluous solver");
    if (said && (silent || incomplete)) ctx.nontrivial();
    ctx.label(incomplete ? "incomplete diagram" : "complete diagram");
}
