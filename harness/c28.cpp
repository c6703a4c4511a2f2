#include <dlfcn.h>
#include <unistd.h>

#include <cstdio>
#include <fstream>
#include <sstream>

#include "lib.hpp"

#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/helper/util.hpp"
#include "src/solver/history.hpp"

// The same valid use in the checked build (this program) and in the unchecked one (a shared object made from the same sources).
using ref::Kind;
using ref::Ty;

extern "C"
{
    typedef void (*Sink)(void* user, const char* what, int index, double value);
    typedef int (*Peer)(const uint64_t* choices, std::size_t n, Sink sink, void* user);
}

namespace
{
struct Out
{
    Sink sink;
    void* user;
    void operator()(const char* what, int index, double v) const { sink(user, what, index, v); }
    void text(const char* what, int index, const std::string& s) const
    {
        (*this)(what, index, double(s.size()));
        for (std::size_t k = 0; k < s.size(); k++) (*this)(what, index, double(static_cast<unsigned char>(s[k])));
    }
    void snap(const lib::LSnap& s) const
    {
        for (std::size_t k = 0; k < s.size(); k++)
        {
            (*this)("signal assigned", int(k), s[k].assigned);
            for (double x : s[k].x) (*this)("signal", int(k), x);
        }
    }
};

// the choices must not depend on what the library does
void simulate(pbt::Choices& c, pbt::Ctx& ctx, const Out& out)
{
    ref::GenOpts o;
    o.typical_nodes = 8;
    auto m          = ref::gen_model(c, o);
    const bool delays = m.has(Kind::Delay);
    auto p            = lib::gen_plan(c, m, 6, !delays);
    const uint64_t seed = c.draw(0);
    // arbitrary inputs, or the generated functions of time
    const bool table   = !delays && c.flip();
    const bool special = table && p.method != ref::Method::Rkf45 && c.chance(1, 3);
    const bool trim    = c.flip(), csv = c.chance(1, 8);
    const uint grow    = uint(c.range(1, 8));
    std::vector<char> tracked;
    for (std::size_t k = 0; k < m.sigs.size(); k++) tracked.push_back(c.chance(2, 3));
    NOTE(ctx, m.describe() << p.describe() << (table ? special ? "  inputs: table with special values\n" : "  inputs: table\n" : ""));
    lib::Diagram d(m);
    d.monitor = false;
    if (table) d.ext_override = [&](const ref::Ext& e, double t)
    {
        auto& sp = m.sigs[std::size_t(e.sig)];
        return ref::table_values(seed, e.sig, sp.ty, sp.n, t, special && (sp.ty == Ty::S || sp.ty == Ty::A));
    };
    if (d.root) d.root->on_post = [&](double t)
    {
        out("step end", 0, t);
        out.snap(d.snap());
    };
    pooya::History h(grow);
    // only signals that get a value at every step can be recorded
    std::vector<int> rec;
    for (std::size_t k = 0; k < m.sigs.size(); k++)
    {
        bool written = false;
        for (auto& n : m.nodes)
            for (int s : n.out) written |= s == int(k);
        for (auto& e : m.exts) written |= e.sig == int(k);
        if (tracked[k] && written && h.track(d.sigs[k])) rec.push_back(int(k));
    }
    auto st = lib::make_stepper(p.method);
    lib::SpyStepper spy(*st);
    auto sim  = lib::make_sim(p.sim, d.model(), d.callback(), m.num_states() ? &spy : nullptr);
    uint row  = 0;
    auto done = [&](double t)
    {
        out("time", 0, t);
        out.snap(d.snap());
        for (auto& a : spy.log)
        {
            out("attempt from", 0, a.t0);
            out("attempt to", 0, a.t1);
            out("proposed length", 0, a.new_h);
            for (double e : a.eval_t) out("evaluation", 0, e);
        }
        spy.log.clear();
        h.update(row++, t);
    };
    if (p.explicit_init)
        sim->init(p.t0);
    else
        sim->run(p.t0, p.min_step, p.max_step);
    done(p.t0);
    for (double t : p.times)
    {
        sim->run(t, p.min_step, p.max_step);
        done(t);
    }
    if (trim) h.shrink_to_fit();
    if (!rec.empty())
    {
        out("rows", 0, h.nrows());
        for (uint r = 0; r < h.nrows(); r++)
        {
            out("recorded time", int(r), h.time()[r]);
            for (int k : rec)
            {
                auto& mat = h[d.sigs[std::size_t(k)]];
                out("recorded columns", k, double(mat.cols()));
                for (Eigen::Index q = 0; q < mat.cols(); q++) out("recorded value", k, mat(r, q));
            }
            if (trim) out("recorded rows", int(r), double(h.time().size()));
        }
        if (csv)
        {
            const char* base       = getenv("PBT_WORKER_TMP");
            const std::string path = std::string(base ? base : "/tmp/pbt") + "." + std::to_string(getpid()) + ".c28.csv";
            h.export_csv(path);
            std::ifstream f(path, std::ios::binary);
            // the order of the columns is unspecified
            std::vector<std::string> cols;
            for (std::string line, cell; std::getline(f, line);)
            {
                std::istringstream l(line);
                for (std::size_t k = 0; std::getline(l, cell, ','); k++)
                {
                    if (k >= cols.size()) cols.resize(k + 1);
                    if (auto at = cell.find("-nan"); at != std::string::npos) cell.erase(at, 1); // the sign of a NaN is arbitrary
                    cols[k] += cell + "|";
                }
            }
            std::sort(cols.begin(), cols.end());
            for (std::size_t k = 0; k < std::min<std::size_t>(cols.size(), 40); k++) out.text("csv column", int(k), cols[k].substr(0, 200));
            ::unlink(path.c_str());
        }
    }
    d.model().visit(
        [&](pooya::Block& b, uint32_t level) -> bool
        {
            out("level", 0, level);
            out.text("full name", 0, b.full_name().str());
            out("ports", 0, double(b.ibus().size() * 1000 + b.obus().size()));
            out("linked signals", 0, double(b.linked_signals().size()));
            return true;
        },
        0);
    ctx.label(std::string("simulations with ") + lib::sim_name(p.sim));
    if (special) ctx.label("special values");
    if (m.nodes.size() >= 2) ctx.nontrivial();
}

void objects(pbt::Choices& c, pbt::Ctx& ctx, const Out& out)
{
    // names, handles, buses
    const int n = int(c.range(1, 8));
    std::vector<pooya::Signal> sigs;
    std::vector<Ty> ty;
    std::vector<int> sz;
    std::vector<std::pair<std::string, pooya::Signal>> l;
    for (int i = 0; i < n; i++)
    {
        ty.push_back(Ty(c.draw(4)));
        sz.push_back(ty.back() == Ty::A ? int(c.range(1, 6)) : 1);
        const auto name  = c.name(8);
        const auto label = c.name(4) + std::to_string(i);
        NOTE(ctx, "  signal " << i << ": " << ref::ty_name(ty.back()) << sz.back() << " named '" << name << "' label '" << label << "'");
        sigs.push_back(lib::make_signal(ty.back(), sz.back(), name));
        l.emplace_back(label, sigs.back());
    }
    const bool nested = c.flip();
    // one choice per statement: both builds have to make them in the same order
    const auto inner_n  = nested ? 1 + std::ptrdiff_t(c.draw(uint64_t(n))) : 0;
    const auto inner    = nested ? c.name(3) : std::string();
    const auto bus_name = c.name(5);
    if (nested) l.emplace_back("inner", lib::make_bus(std::vector<pooya::Signal>(sigs.begin(), sigs.begin() + inner_n), inner));
    auto bus = lib::make_bus(l, bus_name);
    out("size", 0, double(bus.size()));
    int k = 0;
    for (auto& [label, s] : bus)
    {
        out.text("label", k, label);
        out.text("name", k, s->name().str());
        out("found", k, double(&bus.at(label).impl() == &s.impl()) + 2 * double(&bus[std::size_t(k)].impl() == &s.impl()) + 4 * double(bus->try_at(label).has_value()));
        k++;
    }
    out("missing", 0, bus->try_at("no such").has_value() + 2 * bus->try_at("inner.zz").has_value() + 4 * bus->try_at("inner.0.1").has_value());
    // also recorded while they have no value
    pooya::History h(uint(c.range(1, 8)));
    for (auto& s : sigs) h.track(s);
    uint row      = 0;
    const int ops = c.chance(1, 64) ? int(c.range(20, 300)) : int(c.range(1, 20));
    for (int i = 0; i < ops; i++)
    {
        const std::size_t q = c.draw(uint64_t(n));
        auto v              = ref::gen_values(c, ty[q], sz[q]);
        const int op        = int(c.draw(3));
        const bool gone     = c.chance(1, 3);
        const bool record   = c.flip();
        auto cur            = lib::read(sigs[q]);
        if (op == 0 || cur.assigned) dynamic_cast<pooya::ValueSignalImpl&>(sigs[q].impl()).clear();
        lib::write(sigs[q], ty[q], v);
        if (op == 1) sigs[q]->rename(c.name(4));
        auto now = lib::read(sigs[q]);
        out("assigned", int(q), now.assigned);
        for (double x : now.x) out("value", int(q), x);
        out.text("renamed", int(q), sigs[q]->name().str());
        if (gone) dynamic_cast<pooya::ValueSignalImpl&>(sigs[q].impl()).clear();
        if (record) h.update(row++, 0.5 * i);
    }
    if (row)
    {
        h.shrink_to_fit();
        for (int q = 0; q < n; q++)
        {
            auto& mat = h[sigs[std::size_t(q)]];
            out("recorded rows", q, double(mat.rows()));
            for (Eigen::Index a = 0; a < mat.rows(); a++)
                for (Eigen::Index b = 0; b < mat.cols(); b++) out("recorded value", q, mat(a, b));
        }
        ctx.label("rows of signals with and without values", row);
    }
    if (n >= 2) ctx.nontrivial();
    ctx.label("signals and buses");
}

void scenario(pbt::Choices& c, pbt::Ctx& ctx, const Out& out)
{
    const bool obj = c.chance(1, 6);
    try
    {
        if (obj)
            objects(c, ctx, out);
        else
            simulate(c, ctx, out);
    }
    catch (const pbt::Failure&)
    {
        out("failure", 0, 0);
    }
    catch (const std::exception&)
    {
        out("exception", 0, 0);
    }
}

struct Record
{
    std::vector<const char*> what;
    std::vector<int> index;
    std::vector<double> value;
};

Peer peer()
{
    static const Peer p = []
    {
        const char* path = getenv("PBT_PEER");
        void* h          = path ? dlopen(path, RTLD_NOW | RTLD_LOCAL) : nullptr;
        Peer q           = h ? reinterpret_cast<Peer>(dlsym(h, "pooya_peer_run")) : nullptr;
        if (!q)
        {
            std::fprintf(stderr, "the unchecked build (PBT_PEER) cannot be loaded: %s\n", path ? dlerror() : "not given");
            _exit(3);
        }
        return q;
    }();
    return p;
}
} // namespace

extern "C" __attribute__((visibility("default"))) int pooya_peer_run(const uint64_t* choices, std::size_t n, Sink sink, void* user)
{
    auto c = pbt::Choices::replay(std::vector<uint64_t>(choices, choices + n));
    pbt::Ctx ctx;
    scenario(c, ctx, {sink, user});
    return lib::checked_build;
}

PROPERTY("C28", "random diagrams (arbitrary inputs, also with special values), run by a random simulator and recorded in a history, and random signals and buses; every signal "
                "value at every step end and return, every attempted sub-step, the recorded table, the exported file, the block tree and the names are compared bit for bit "
                "between the checked build and the unchecked one (a shared object loaded into the same process and given the same choices); non-trivial: two blocks or more, "
                "or two signals")
{
    Record r;
    scenario(c, ctx,
             {[](void* u, const char* what, int index, double v)
              {
                  auto& rec = *static_cast<Record*>(u);
                  rec.what.push_back(what);
                  rec.index.push_back(index);
                  rec.value.push_back(v);
              },
              &r});
    struct Cmp
    {
        const Record& r;
        std::size_t pos{0};
        std::string bad;
    } cmp{r, 0, ""};
    const auto choices = c.log();
    const int checked  = peer()(choices.data(), choices.size(),
                               [](void* u, const char* what, int index, double v)
                               {
                                   auto& k = *static_cast<Cmp*>(u);
                                   if (!k.bad.empty()) return;
                                   std::ostringstream o;
                                   o.precision(17);
                                   if (k.pos >= k.r.value.size())
                                       o << "the unchecked build goes on with '" << what << "' " << index << " = " << v << " where the checked one ends";
                                   else
                                   {
                                       const double w = k.r.value[k.pos];
                                       if (std::strcmp(k.r.what[k.pos], what) || k.r.index[k.pos] != index || !((w != w && v != v) || (w == v && std::signbit(w) == std::signbit(v))))
                                           o << "'" << k.r.what[k.pos] << "' " << k.r.index[k.pos] << " is " << w << " in the checked build; the unchecked one has '" << what << "' " << index << " = "
                                             << v;
                                   }
                                   k.bad = o.str();
                                   k.pos++;
                               },
                               &cmp);
    CHECK(ctx, checked != int(lib::checked_build), "both builds are of the same kind");
    CHECK(ctx, cmp.bad.empty(), cmp.bad);
    CHECK(ctx, cmp.pos == r.value.size(), "the unchecked build ends after " << cmp.pos << " of " << r.value.size() << " observations; next: '" << r.what[cmp.pos] << "'");
    for (double v : r.value) ctx.mix(v);
    for (auto* w : r.what)
        CHECK(ctx, std::strcmp(w, "exception") && std::strcmp(w, "failure"), "an exception was raised in both builds although nothing is wrong");
    ctx.label("observations compared", r.value.size());
}
