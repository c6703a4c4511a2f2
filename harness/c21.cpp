#include "histmodel.hpp"

// Histories against a map from rows to recorded values.
PROPERTY("C21", "random histories: signals of all types and array sizes, tracked, tracked again and untracked in any order (buses as well), growth increments from 1 to 1000, "
                "rows recorded in order, out of order, repeatedly, with gaps and far beyond the storage, with assigned and unassigned signals and special values, trimming "
                "and recording further; all recorded rows are compared with a model after each operation; non-trivial: at least 3 records of at least 2 "
                "signals, with storage growth, overwriting or trimming")
{
    const uint grow = uint(c.chance(1, 6) ? c.range(1, 1000) : c.range(1, 6));
    hist::World w(c, ctx, grow);
    NOTE(ctx, "  growth increment " << grow);
    const int n = c.big(1, 4, 12, 60, 256);
    for (int k = 0; k < n; k++) w.add_signal(c.chance(1, 4) ? "" : "s" + std::to_string(c.draw(6)));
    pooya::Bus bus({w.sigs[0].s}, "bus");
    const int pre = c.size(1, 6, 24);
    for (int k = 0; k < pre; k++)
    {
        const auto q = std::size_t(c.draw(w.sigs.size()));
        switch (c.weighted({8, 3, 1, 1, 1}))
        {
        case 0: w.track(q); break;
        case 1: w.untrack(q); break;
        case 2: CHECK(ctx, !w.h.track(bus), "a bus was tracked"); break;
        case 3: w.h.untrack(bus); break;
        default: w.trim();
        }
        w.check("before the first record");
    }
    const int ops = c.big(1, 12, 60, 1200, 600);
    std::size_t tracked = 0;
    for (auto& s : w.sigs) tracked += s.tracked;
    uint next = 0;
    bool grew = false;
    for (int k = 0; k < ops; k++)
    {
        std::string what = "operation " + std::to_string(k);
        switch (c.weighted({8, 3, 2, 2, 1}))
        {
        case 0: w.record(next); break; // the next one
        case 1: w.record(w.rows.empty() ? uint(c.draw(4)) : uint(c.draw(w.highest() + 1))); break;
        case 2: w.record(next + uint(c.draw(c.chance(1, 10) ? 3000 : 3 * grow + 2))); break;
        case 3: w.trim(); break;
        default:
            if (!lib::checked_build || !w.started) break;
            // too late
            bool threw = false;
            const auto q = std::size_t(c.draw(w.sigs.size()));
            try
            {
                if (c.flip())
                    w.h.track(w.sigs[q].s);
                else
                    w.h.untrack(w.sigs[q].s);
            }
            catch (const std::runtime_error&)
            {
                threw = true;
            }
            CHECK(ctx, threw, "tracking or untracking after the first record was accepted");
        }
        next = w.nrows();
        grew = grew || next > grow;
        if (ops <= 60 || k % 40 == 0 || k + 1 == ops) w.check(what);
    }
    for (auto& [k, r] : w.rows)
    {
        ctx.mix(r.t);
        for (std::size_t q = 0; q < w.sigs.size(); q++)
            if (w.sigs[q].tracked)
                for (auto x : r.x[q]) ctx.mix(x);
    }
    if (w.records >= 3 && tracked >= 2 && (grew || w.overwritten || w.trims)) ctx.nontrivial();
    ctx.label("records", w.records);
    ctx.label("overwritten", w.overwritten);
    ctx.label("trimmed", w.trims);
    ctx.label("records of unassigned signals", w.unassigned);
    if (grew) ctx.label("grown");
}
