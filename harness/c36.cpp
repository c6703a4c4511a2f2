#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include <unistd.h>

#include "lib.hpp"
#include "src/misc/gp-ios.hpp"
#include "src/solver/history.hpp"

// What is handed to gnuplot: the values, all of them, in order, and exactly.
using ref::Ty;

std::string plot_elsewhere(Gnuplot& gp, const Eigen::MatrixXd& m, const std::string& file);

namespace
{
struct File
{
    std::string path;
    explicit File(const char* what)
    {
        const char* tmp = std::getenv("PBT_WORKER_TMP");
        path            = std::string(tmp ? tmp : "/tmp/pbt_c36") + "." + std::to_string(getpid()) + "." + what;
        ::unlink(path.c_str());
    }
    ~File() { ::unlink(path.c_str()); }
    std::string slurp(const std::string& p = "") const
    {
        std::ifstream f(p.empty() ? path : p, std::ios::binary);
        std::ostringstream os;
        os << f.rdbuf();
        return os.str();
    }
};
bool same(double a, double b) { return a == b ? std::signbit(a) == std::signbit(b) : a != a && b != b; }

// the table in a text: rows of numbers; false if it is none
bool parse(const std::string& text, std::vector<std::vector<double>>& rows, bool inlined, std::string& why)
{
    std::istringstream is(text);
    bool ended = false;
    for (std::string line; std::getline(is, line);)
    {
        if (ended)
        {
            why = "there is something after the end of the data: " + line;
            return false;
        }
        if (inlined && line == "e")
        {
            ended = true;
            continue;
        }
        std::istringstream l(line);
        rows.emplace_back();
        for (std::string w; l >> w;)
        {
            char* end = nullptr;
            rows.back().push_back(std::strtod(w.c_str(), &end));
            if (*end)
            {
                why = "not a number: " + w;
                return false;
            }
        }
    }
    if (inlined && !ended) why = "no end of the data";
    return !inlined || ended;
}
std::string compare(const std::string& text, const std::vector<std::vector<double>>& columns, bool inlined)
{
    std::vector<std::vector<double>> rows;
    std::string why;
    if (!parse(text, rows, inlined, why)) return why;
    std::ostringstream o;
    o.precision(17);
    if (rows.size() != columns[0].size())
        o << rows.size() << " rows instead of " << columns[0].size();
    else
        for (std::size_t r = 0; r < rows.size() && o.str().empty(); r++)
        {
            if (rows[r].size() != columns.size())
                o << "row " << r << " has " << rows[r].size() << " numbers instead of " << columns.size();
            else
                for (std::size_t k = 0; k < columns.size(); k++)
                    if (!same(rows[r][k], columns[k][r])) o << "row " << r << ", column " << k << " is " << rows[r][k] << " instead of " << columns[k][r];
        }
    return o.str();
}
std::string compare_binary(const std::string& bytes, const std::vector<double>& v)
{
    if (bytes.size() != v.size() * sizeof(double)) return std::to_string(bytes.size()) + " bytes for " + std::to_string(v.size()) + " values";
    for (std::size_t k = 0; k < v.size(); k++)
    {
        double x;
        std::memcpy(&x, bytes.data() + k * sizeof x, sizeof x);
        if (!same(x, v[k])) return "value " + std::to_string(k) + " is " + std::to_string(x) + " instead of " + std::to_string(v[k]);
    }
    return "";
}
std::vector<double> to_vec(const pooya::Array& a) { return std::vector<double>(a.data(), a.data() + a.size()); }
} // namespace

PROPERTY("C36", "random arrays (also with special values), pairs and tuples of arrays, and recorded columns of histories of scalar, integer, Boolean and array signals, sent to gnuplot's text files, "
                "inline data and binary files from two translation units; what was written is parsed back and compared number by number; non-trivial: at least 3 rows")
{
    File script("gp"), data("dat"), other("dat2");
    int n = c.big(1, 6, 40, 3000, 200);
    std::vector<double> v[3];
    for (auto& x : v) x = ref::gen_values(c, Ty::A, n, c.flip());
    if (c.chance(1, 1200))
    {
        // very many
        const int m = n;
        n           = c.range(4000, 70000);
        for (auto& x : v)
            for (int k = m; k < n; k++) x.push_back(k % 7 ? k : x[std::size_t(k % m)]);
        ctx.label("more than 4000 values");
    }
    const int how = int(c.draw(8));
    NOTE(ctx, "  " << n << " values, way " << how);
    std::vector<std::vector<double>> want_inline;
    {
        auto gp      = std::make_unique<Gnuplot>(">" + script.path);
        auto named   = [&](const std::string& s) { return s.find(data.path) != std::string::npos; };
        const auto a = lib::to_array(v[0]), b = lib::to_array(v[1]), d = lib::to_array(v[2]);
        std::string msg;
        switch (how)
        {
        case 0:
        {
            CHECK(ctx, named(gp->file1d(a, data.path)), "the command does not name the file");
            msg = compare(data.slurp(), {v[0]}, false);
            break;
        }
        case 1:
            gp->send1d(a);
            want_inline = {v[0]};
            break;
        case 2:
            CHECK(ctx, named(gp->binFile1d(a, "record", data.path)), "the command does not name the file");
            msg = compare_binary(data.slurp(), v[0]);
            break;
        case 3:
            CHECK(ctx, named(gp->file1d(std::make_pair(a, b), data.path)), "the command does not name the file");
            msg = compare(data.slurp(), {v[0], v[1]}, false);
            break;
        case 4:
            gp->send1d(std::make_tuple(a, b, d));
            want_inline = {v[0], v[1], v[2]};
            break;
        case 5:
            // two arrays of different lengths, one after the other
            gp->file1d(a, data.path);
            gp->file1d(b.head(1 + n / 2).eval(), other.path);
            msg = compare(data.slurp(), {v[0]}, false);
            if (msg.empty()) msg = compare(other.slurp(), {std::vector<double>(v[1].begin(), v[1].begin() + 1 + n / 2)}, false);
            break;
        case 6:
        {
            // a temporary file, which lives as long as the plot
            const auto cmd = gp->file1d(a);
            const auto l = cmd.find('\''), r = cmd.rfind('\'');
            CHECK(ctx, l != std::string::npos && r > l, "no file is named in " << cmd);
            const auto path = cmd.substr(l + 1, r - l - 1);
            msg             = compare(data.slurp(path), {v[0]}, false);
            gp.reset();
            CHECK(ctx, ::access(path.c_str(), F_OK) != 0, "a temporary file is left behind");
            break;
        }
        default:
        {
            // a recording: as many rows as were recorded, and columns one after the other
            const int rows = c.size(1, 4, 60);
            const Ty ty    = Ty(c.draw(4));
            const int cols = ty == Ty::A ? c.size(1, 3, 6) : 1;
            auto sig       = lib::make_signal(ty, cols, "s");
            pooya::History h(uint(c.range(1, 12)));
            h.track(sig);
            std::vector<double> t, all(std::size_t(rows * cols));
            for (int r = 0; r < rows; r++)
            {
                auto x = ref::gen_values(c, ty, cols, false);
                lib::write(sig, ty, x);
                t.push_back(0.1 * r);
                h.update(uint(r), t.back());
                dynamic_cast<pooya::ValueSignalImpl&>(sig.impl()).clear();
                for (int k = 0; k < cols; k++) all[std::size_t(k * rows + r)] = x[std::size_t(k)];
            }
            h.shrink_to_fit();
            const bool elsewhere = c.flip();
            CHECK(ctx, named(elsewhere ? plot_elsewhere(*gp, h[sig], data.path) : gp->file1d(h[sig], data.path)), "the command does not name the file");
            msg = compare(data.slurp(), {all}, false);
            if (msg.empty() && cols == 1)
            {
                // against time
                gp->file1d(std::make_pair(h.time(), pooya::Array{h[sig].col(0)}), other.path);
                msg = compare(other.slurp(), {to_vec(h.time()), all}, false);
                if (msg.empty() && !(to_vec(h.time()) == t)) msg = "other times";
            }
            ctx.label("recordings");
            if (rows >= 3) ctx.nontrivial();
        }
        }
        CHECK(ctx, msg.empty(), "plotted data: " << msg);
    }
    const auto text = script.slurp();
    if (!want_inline.empty())
    {
        auto msg = compare(text, want_inline, true);
        CHECK(ctx, msg.empty(), "inline data: " << msg);
    }
    for (auto& col : v) ctx.mix(col[0]);
    ctx.mix(double(n));
    ctx.mix(double(how));
    if (how < 7 && n >= 3) ctx.nontrivial();
    ctx.label("values compared", uint64_t(n));
}
