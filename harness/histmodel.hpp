// A model of a recorded history, driven together with a real one.
#pragma once
#include <algorithm>
#include <map>

#include "lib.hpp"
#include "src/solver/history.hpp"

namespace hist
{
using ref::Ty;

struct Sig
{
    Ty ty{};
    int n{1};
    pooya::Signal s;
    bool tracked{false};
};
struct Row
{
    double t{};
    std::vector<std::vector<double>> x; // by signal
};

inline bool same(double a, double b) { return (a != a && b != b) || a == b; }

class World
{
public:
    World(pbt::Choices& c, pbt::Ctx& ctx, uint grow) : c(c), ctx(ctx), h(grow), depth(lib::trace_depth()) {}
    pbt::Choices& c;
    pbt::Ctx& ctx;
    pooya::History h;
    std::size_t depth;
    std::vector<Sig> sigs;
    std::map<uint, Row> rows;
    bool started{false}; // something has been recorded
    uint64_t records{0}, overwritten{0}, trims{0}, unassigned{0};

    uint highest() const { return rows.rbegin()->first; }
    uint nrows() const { return rows.empty() ? 0 : highest() + 1; }

    void add_signal(const std::string& name)
    {
        const Ty ty = c.oneof({Ty::S, Ty::I, Ty::B, Ty::A});
        const int n = ty == Ty::A ? c.big(1, 3, 12, 150, 100) : 1;
        sigs.push_back({ty, n, lib::make_signal(ty, n, name), false});
    }
    void track(std::size_t k)
    {
        auto& s = sigs[k];
        NOTE(ctx, "  track signal " << k << " (" << ref::ty_name(s.ty) << s.n << ")" << (s.tracked ? " again" : ""));
        CHECK(ctx, h.track(s.s) == !s.tracked, "tracking signal " << k << (s.tracked ? " a second time was accepted" : " was refused"));
        s.tracked = true;
    }
    void untrack(std::size_t k)
    {
        NOTE(ctx, "  untrack signal " << k << (sigs[k].tracked ? "" : " (not tracked)"));
        h.untrack(sigs[k].s);
        sigs[k].tracked = false;
    }
    // assigns, clears or keeps the value of a signal
    void touch(std::size_t k)
    {
        auto& s  = sigs[k];
        auto* vi = dynamic_cast<pooya::ValueSignalImpl*>(&s.s.impl());
        switch (c.draw(4))
        {
        case 0: break;
        case 1: vi->clear(); break;
        default:
            vi->clear();
            lib::write(s.s, s.ty, ref::gen_values(c, s.ty, s.n, c.chance(1, 3)));
        }
    }
    void record(uint k)
    {
        Row r;
        r.t = c.chance(1, 10) ? c.oneof({0.0, -1.5, 1e300, 1.0 / 3}) : c.moderate(10);
        for (std::size_t q = 0; q < sigs.size(); q++)
        {
            touch(q);
            auto v = lib::read(sigs[q].s);
            r.x.push_back(v.assigned ? v.x : std::vector<double>(std::size_t(sigs[q].n), 0.0));
            if (!v.assigned && sigs[q].tracked) unassigned++;
        }
        if (ctx.verbose)
        {
            ctx.text << "  record row " << k << ": t=" << r.t;
            for (std::size_t q = 0; q < sigs.size(); q++)
                if (sigs[q].tracked) ctx.text << " " << lib::show(lib::read(sigs[q].s));
            ctx.text << "\n";
            ctx.flush_text();
        }
        h.update(k, r.t);
        if (std::any_of(sigs.begin(), sigs.end(), [](auto& s) { return s.tracked; }))
        {
            if (rows.count(k)) overwritten++;
            rows[k] = r;
            started = true;
            records++;
        }
        // recording leaves the signals alone
        for (std::size_t q = 0; q < sigs.size(); q++)
        {
            auto v = lib::read(sigs[q].s);
            bool eq = !v.assigned || v.x.size() == r.x[q].size();
            for (std::size_t i = 0; eq && v.assigned && i < v.x.size(); i++) eq = same(v.x[i], r.x[q][i]);
            CHECK(ctx, eq, "recording changed the value of signal " << q);
        }
    }
    void trim()
    {
        NOTE(ctx, "  trim");
        h.shrink_to_fit();
        trims++;
        if (started)
        {
            CHECK(ctx, h.time().rows() == Eigen::Index(nrows()), "after trimming there are " << h.time().rows() << " times instead of " << nrows());
            for (auto& s : sigs)
                if (s.tracked)
                    CHECK(ctx, h[s.s].rows() == Eigen::Index(nrows()) && h[s.s].cols() == s.n,
                          "after trimming a signal has " << h[s.s].rows() << "x" << h[s.s].cols() << " values instead of " << nrows() << "x" << s.n);
        }
    }
    void check(const std::string& what)
    {
        CHECK(ctx, lib::trace_depth() == depth, what << ": the diagnostic trace is left unbalanced");
        CHECK(ctx, h.nrows() == nrows(), what << ": the history has " << h.nrows() << " rows instead of " << nrows());
        if (!started) return;
        CHECK(ctx, h.time().rows() >= Eigen::Index(nrows()), what << ": there are times for " << h.time().rows() << " rows only");
        for (std::size_t q = 0; q < sigs.size(); q++)
        {
            auto& s = sigs[q];
            if (!s.tracked)
            {
                bool threw = false;
                try
                {
                    (void)h[s.s];
                }
                catch (const std::exception&)
                {
                    threw = true;
                }
                CHECK(ctx, threw, what << ": there are records of signal " << q << ", which is not tracked");
                continue;
            }
            const auto& m = h[s.s];
            CHECK(ctx, m.rows() >= Eigen::Index(nrows()) && m.cols() == s.n, what << ": signal " << q << " has " << m.rows() << "x" << m.cols() << " values");
            for (auto& [k, r] : rows)
                for (int j = 0; j < s.n; j++)
                    CHECK(ctx, same(m(k, j), r.x[q][std::size_t(j)]),
                          what << ": row " << k << " of signal " << q << "[" << j << "] is " << m(k, j) << " instead of " << r.x[q][std::size_t(j)]);
        }
        for (auto& [k, r] : rows) CHECK(ctx, h.time()(k) == r.t, what << ": row " << k << " has the time " << h.time()(k) << " instead of " << r.t);
    }
};
} // namespace hist
