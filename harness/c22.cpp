#include <cstdlib>
#include <fstream>
#include <unistd.h>

#include "histmodel.hpp"

// Exported CSV files against the table that was recorded.
namespace
{
std::string slurp(const std::string& p, bool& exists)
{
    std::ifstream f(p, std::ios::binary);
    exists = bool(f);
    std::ostringstream os;
    os << f.rdbuf();
    return os.str();
}
std::vector<std::string> split(const std::string& s, char sep)
{
    std::vector<std::string> r(1);
    for (char ch : s)
        if (ch == sep)
            r.emplace_back();
        else
            r.back() += ch;
    return r;
}
std::string num(double x)
{
    std::ostringstream os;
    os << x;
    return os.str();
}
} // namespace

PROPERTY("C22", "random histories of signals of all types with distinct names, recorded in order, out of order, repeatedly and beyond the storage, mostly without "
                "gaps, exported several times between further records and trims, into new and existing files; the file is parsed and compared with the model; "
                "non-trivial: an export of at least 2 rows and 3 columns")
{
    const char* tmp = std::getenv("PBT_WORKER_TMP");
    const std::string file = std::string(tmp ? tmp : "/tmp/pbt_c22") + "." + std::to_string(getpid()) + ".csv";
    struct Remove
    {
        const std::string& f;
        ~Remove() { ::unlink(f.c_str()); }
    } remove{file};
    ::unlink(file.c_str());

    const uint grow = uint(c.chance(1, 6) ? c.range(1, 1000) : c.range(1, 6));
    hist::World w(c, ctx, grow);
    NOTE(ctx, "  growth increment " << grow);
    const int n = c.big(1, 4, 12, 60, 256);
    std::vector<std::string> used;
    for (int k = 0; k < n; k++)
    {
        // distinct after sanitising
        std::string nm = c.chance(1, 8) && std::find(used.begin(), used.end(), "") == used.end() ? "" : "n" + std::to_string(k) + c.oneof<std::string>({"", "_x", " y", ",z", "\n", "[0]"});
        used.push_back(nm);
        w.add_signal(nm);
    }
    for (std::size_t k = 0; k < w.sigs.size(); k++)
        if (!c.chance(1, 5)) w.track(k);
    for (std::size_t k = 0; k < w.sigs.size(); k++)
        if (c.chance(1, 8)) w.untrack(k);
    std::size_t columns = 1;
    for (auto& s : w.sigs)
        if (s.tracked) columns += std::size_t(s.n);
    const bool gaps = c.chance(1, 4);
    bool nontrivial = false;
    uint64_t exports = 0;

    auto do_export = [&]
    {
        bool exists;
        const bool old = c.flip();
        if (old)
        {
            std::ofstream f(file);
            f << "an old file\n" << std::string(5000, 'x') << "\n";
        }
        else
            ::unlink(file.c_str());
        const int times = c.chance(1, 4) ? 2 : 1;
        for (int k = 0; k < times; k++)
        {
            NOTE(ctx, "  export");
            w.h.export_csv(file);
        }
        exports++;
        auto text = slurp(file, exists);
        if (!w.started)
        {
            CHECK(ctx, exists == old && (!old || text.substr(0, 11) == "an old file"), "a history that has recorded nothing wrote a file");
            return;
        }
        CHECK(ctx, exists, "no file was written");
        CHECK(ctx, !text.empty() && text.back() == '\n', "the file does not end with the end of a line");
        text.pop_back();
        auto lines = split(text, '\n');
        // (rows that were skipped have a line of unspecified values)
        CHECK(ctx, lines.size() == w.nrows() + 1, "the file has " << lines.size() << " lines for " << w.nrows() << " rows");
        auto head = split(lines[0], ',');
        CHECK(ctx, head.size() == columns, "the header has " << head.size() << " columns instead of " << columns << ": " << lines[0]);
        CHECK(ctx, head[0] == "time", "the header starts with '" << head[0] << "'");
        // which column is which
        std::vector<std::pair<std::size_t, int>> col(head.size(), {0, -1});
        for (std::size_t q = 0; q < w.sigs.size(); q++)
        {
            auto& s = w.sigs[q];
            if (!s.tracked) continue;
            for (int j = 0; j < s.n; j++)
            {
                std::string want = s.s->name().str();
                if (s.ty == ref::Ty::A) want += "[" + std::to_string(j) + "]";
                auto it = std::find(head.begin() + 1, head.end(), want);
                CHECK(ctx, it != head.end(), "there is no column called '" << want << "' in " << lines[0]);
                auto& x = col[std::size_t(it - head.begin())];
                CHECK(ctx, x.second < 0, "two signals share the column '" << want << "'");
                x = {q, j};
            }
        }
        for (auto& [k, r] : w.rows)
        {
            const std::size_t i = k + 1;
            auto cells          = split(lines[i], ',');
            CHECK(ctx, cells.size() == head.size(), "line " << i << " has " << cells.size() << " columns instead of " << head.size() << ": " << lines[i]);
            CHECK(ctx, cells[0] == num(r.t), "line " << i << " has the time " << cells[0] << " instead of " << num(r.t));
            for (std::size_t q = 1; q < cells.size(); q++)
            {
                const double want = r.x[col[q].first][std::size_t(col[q].second)];
                // (the sign of a NaN is unspecified)
                const bool nan = want != want && (cells[q] == "nan" || cells[q] == "-nan");
                CHECK(ctx, nan || cells[q] == num(want), "line " << i << " has " << cells[q] << " under " << head[q] << " instead of " << num(want));
            }
        }
        if (w.rows.size() >= 2 && columns >= 3) nontrivial = true;
        w.check("after an export");
    };

    const int ops = c.big(1, 10, 50, 600, 300);
    for (int k = 0; k < ops; k++)
    {
        switch (c.weighted({8, 3, 2, 2, 3, gaps ? 1U : 0U}))
        {
        case 0: w.record(w.nrows()); break;
        case 1: w.record(w.rows.empty() ? 0 : uint(c.draw(w.highest() + 1))); break;
        case 2:
        {
            // several rows in any order, so that there is no gap in the end
            const uint base = w.nrows();
            auto p          = c.permutation(int(c.range(2, 5)));
            for (int q : p) w.record(base + uint(q));
            break;
        }
        case 3: w.trim(); break;
        case 4:
            if (ops <= 50 || c.chance(1, 20)) do_export();
            break;
        default: w.record(w.nrows() + uint(c.draw(2 * grow + 3)));
        }
    }
    do_export();
    if (nontrivial) ctx.nontrivial();
    ctx.label("exports", exports);
    ctx.label("records", w.records);
    ctx.label("trimmed", w.trims);
    if (!w.started) ctx.label("nothing recorded");
}
