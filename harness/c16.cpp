#include <limits>

#include "lib.hpp"

// Value signals against a model of one assignable cell shared by any number of handles.
using ref::Ty;
namespace
{
struct Cell
{
    Ty ty{};
    int n{1};
    bool assigned{false};
    std::vector<double> x;
};

// one handle of a signal; exactly one of the pointers is set
struct Handle
{
    int cell{};
    std::shared_ptr<pooya::ScalarSignal> s;
    std::shared_ptr<pooya::IntSignal> i;
    std::shared_ptr<pooya::BoolSignal> b;
    std::shared_ptr<pooya::ArraySignal> a;
    pooya::Signal generic() const
    {
        if (s) return *s;
        if (i) return *i;
        if (b) return *b;
        return *a;
    }
    pooya::ValueSignalImpl& value_impl() const
    {
        if (s) return s->impl();
        if (i) return i->impl();
        if (b) return b->impl();
        return a->impl();
    }
};

std::vector<double> gen(pbt::Choices& c, Ty ty, int n)
{
    std::vector<double> v;
    for (int k = 0; k < n; k++)
        switch (ty)
        {
        case Ty::S:
        case Ty::A:
            switch (c.draw(6))
            {
            case 0: v.push_back(c.moderate(100)); break;
            case 1: v.push_back(c.oneof({0.0, -0.0, 1e308, -1e308, 5e-324, 1.0 / 3})); break;
            case 2: v.push_back(c.oneof({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()})); break;
            default:
            {
                uint64_t b = c.draw(0);
                double d;
                std::memcpy(&d, &b, 8);
                v.push_back(d);
            }
            }
            break;
        case Ty::I: v.push_back(double(c.oneof({int(c.range(-3, 3)), std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), int(c.range(-2000000000, 2000000000))}))); break;
        default: v.push_back(c.flip() ? 1 : 0);
        }
    return v;
}

bool same(double a, double b)
{
    return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b));
}
bool same(const std::vector<double>& a, const std::vector<double>& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t k = 0; k < a.size(); k++)
        if (!same(a[k], b[k])) return false;
    return true;
}
std::string show(const std::vector<double>& v)
{
    std::ostringstream os;
    os.precision(17);
    os << "[";
    for (auto x : v) os << " " << x;
    os << " ]";
    return os.str();
}
} // namespace

PROPERTY("C16", "random sequences of reads, writes, clears, signal-to-signal assignments (to itself, to other handles of the same signal, to signals of other "
                "sizes), wrong-size writes, and creation and destruction of handles, on signals of all four types with arbitrary bit patterns as "
                "values; after each operation all handles are compared with a model; non-trivial: at least one successful write, one successful "
                "read and (checked build) one violation")
{
    const std::size_t depth = lib::trace_depth();
    std::vector<Cell> cells;
    std::vector<Handle> handles;
    const int nc = c.size(1, 3, 8);
    for (int k = 0; k < nc; k++)
    {
        Cell x;
        x.ty = c.oneof({Ty::S, Ty::I, Ty::B, Ty::A, Ty::A});
        x.n  = x.ty == Ty::A ? c.big(1, 3, 30, 300, 256) : 1;
        if (x.ty == Ty::A && !cells.empty() && cells.back().ty == Ty::A && c.flip()) x.n = cells.back().n;
        Handle h;
        h.cell = k;
        std::string name = "s" + std::to_string(k);
        switch (x.ty)
        {
        case Ty::S: h.s = std::make_shared<pooya::ScalarSignal>(name); break;
        case Ty::I: h.i = std::make_shared<pooya::IntSignal>(name); break;
        case Ty::B: h.b = std::make_shared<pooya::BoolSignal>(name); break;
        default: h.a = std::make_shared<pooya::ArraySignal>(std::size_t(x.n), name);
        }
        cells.push_back(x);
        handles.push_back(h);
    }
    uint64_t writes = 0, reads = 0, refused = 0;

    auto check_all = [&](const std::string& what)
    {
        CHECK(ctx, lib::trace_depth() == depth, what << ": the diagnostic trace is left unbalanced");
        for (auto& h : handles)
        {
            auto& x = cells[std::size_t(h.cell)];
            CHECK(ctx, h.value_impl().assigned() == x.assigned, what << ": signal " << h.cell << " should be " << (x.assigned ? "assigned" : "unassigned") << " but is not");
            if (!x.assigned) continue;
            std::vector<double> got;
            if (h.s)
                got.push_back(*h.s);
            else if (h.i)
                got.push_back(int(*h.i));
            else if (h.b)
                got.push_back(bool(*h.b) ? 1 : 0);
            else
                got = lib::to_vec(*h.a);
            CHECK(ctx, same(got, x.x), what << ": signal " << h.cell << " holds " << show(got) << " instead of " << show(x.x));
        }
    };
    // runs an operation that must succeed or be refused
    auto attempt = [&](bool valid, const std::string& what, const std::function<void()>& op)
    {
        NOTE(ctx, "  " << what << (valid ? "" : " (must be refused)"));
        if (!valid && !lib::checked_build) return; // undefined there
        bool threw = false;
        std::string msg;
        try
        {
            op();
        }
        catch (const std::runtime_error& e)
        {
            threw = true;
            msg   = e.what();
        }
        CHECK(ctx, threw != valid, what << (valid ? " was refused: " + msg : " was not refused"));
        if (!valid) refused++;
        check_all(what);
    };

    const int ops = c.big(2, 18, 80, 800, 512);
    for (int k = 0; k < ops; k++)
    {
        auto& h = handles[c.draw(handles.size())];
        auto& x = cells[std::size_t(h.cell)];
        const std::string sg = std::string(ref::ty_name(x.ty)) + " signal " + std::to_string(h.cell);
        switch (c.weighted({5, 5, 3, 3, 2, 1, 1, 1}))
        {
        case 0: // write
        {
            auto v          = gen(c, x.ty, x.n);
            const bool impl = c.flip();
            attempt(!x.assigned, "write to " + sg + show(v), [&]
                    {
                        if (h.s)
                            impl ? (*h.s)->set_value(v[0]) : h.s->operator=(v[0]);
                        else if (h.i)
                            impl ? (*h.i)->set_value(int(v[0])) : h.i->operator=(int(v[0]));
                        else if (h.b)
                            impl ? (*h.b)->set_value(v[0] != 0) : h.b->operator=(v[0] != 0);
                        else
                            impl ? (*h.a)->set_value(lib::to_array(v)) : h.a->operator=(lib::to_array(v));
                        x.assigned = true;
                        x.x        = v;
                        writes++;
                    });
            break;
        }
        case 1: // read
        {
            const int how = int(c.draw(4));
            const auto idx = c.draw(uint64_t(x.n));
            attempt(x.assigned, "read of " + sg, [&]
                    {
                        std::vector<double> got;
                        if (how == 3) // through a fresh handle
                            switch (x.ty)
                            {
                            case Ty::S: got.push_back(pooya::ScalarSignal(h.generic())); break;
                            case Ty::I: got.push_back(static_cast<double>(pooya::IntSignal(h.generic()))); break;
                            case Ty::B: got.push_back(bool(pooya::BoolSignal(h.generic())) ? 1 : 0); break;
                            default: got = lib::to_vec(pooya::ArraySignal(h.generic()));
                            }
                        else if (h.s)
                            got.push_back(how ? (*h.s)->get_value() : double(*h.s));
                        else if (h.i)
                            got.push_back(how == 2 ? double(static_cast<long>(*h.i)) : how ? (*h.i)->get_value() : int(*h.i));
                        else if (h.b)
                            got.push_back((how ? (*h.b)->get_value() : bool(*h.b)) ? 1 : 0);
                        else if (how == 2)
                        {
                            double e = c.flip() ? (*h.a)[idx] : (*h.a)->get_value(idx);
                            CHECK(ctx, same(e, x.x[idx]), "element " << idx << " of " << sg << " is " << e << " instead of " << x.x[idx]);
                            reads++;
                            return;
                        }
                        else
                            got = lib::to_vec(how ? (*h.a)->get_value() : static_cast<const pooya::Array&>(*h.a));
                        CHECK(ctx, same(got, x.x), "read of " << sg << " gives " << show(got) << " instead of " << show(x.x));
                        reads++;
                    });
            break;
        }
        case 2:
            attempt(true, "clear " + sg, [&]
                    {
                        h.value_impl().clear();
                        x.assigned = false;
                    });
            break;
        case 3: // h = other
        {
            std::vector<std::size_t> cand;
            for (std::size_t q = 0; q < handles.size(); q++)
                if (cells[std::size_t(handles[q].cell)].ty == x.ty) cand.push_back(q);
            auto& o = handles[c.pick(cand)];
            auto& y = cells[std::size_t(o.cell)];
            attempt(!x.assigned && y.assigned && x.n == y.n, "assignment of signal " + std::to_string(o.cell) + " to " + sg, [&]
                    {
                        const auto* before = &h.generic().impl();
                        // (whatever the outcome, the handle keeps denoting its own signal)
                        auto v = y.x;
                        try
                        {
                            if (h.s)
                                *h.s = *o.s;
                            else if (h.i)
                                *h.i = *o.i;
                            else if (h.b)
                                *h.b = *o.b;
                            else
                                *h.a = *o.a;
                        }
                        catch (...)
                        {
                            CHECK(ctx, &h.generic().impl() == before, "a refused assignment re-bound the handle");
                            throw;
                        }
                        CHECK(ctx, &h.generic().impl() == before, "assigning a signal re-bound the handle");
                        x.assigned = true;
                        x.x        = v;
                        writes++;
                    });
            break;
        }
        case 4: // another handle
        {
            if (handles.size() > 30) break;
            Handle g;
            g.cell        = h.cell;
            const int how = int(c.draw(3));
            NOTE(ctx, "  another handle of " << sg);
            if (h.s)
                g.s = how == 0 ? std::make_shared<pooya::ScalarSignal>(*h.s) : how == 1 ? std::make_shared<pooya::ScalarSignal>(h.generic()) : std::make_shared<pooya::ScalarSignal>(h.generic().impl());
            else if (h.i)
                g.i = how == 0 ? std::make_shared<pooya::IntSignal>(*h.i) : how == 1 ? std::make_shared<pooya::IntSignal>(h.generic()) : std::make_shared<pooya::IntSignal>(h.generic().impl());
            else if (h.b)
                g.b = how == 0 ? std::make_shared<pooya::BoolSignal>(*h.b) : how == 1 ? std::make_shared<pooya::BoolSignal>(h.generic()) : std::make_shared<pooya::BoolSignal>(h.generic().impl());
            else
                g.a = how == 0 ? std::make_shared<pooya::ArraySignal>(*h.a) : how == 1 ? std::make_shared<pooya::ArraySignal>(h.generic()) : std::make_shared<pooya::ArraySignal>(h.generic().impl());
            CHECK(ctx, &g.generic().impl() == &h.generic().impl(), "a copied handle denotes another signal");
            handles.push_back(g);
            check_all("new handle");
            break;
        }
        case 5: // drop a handle
        {
            std::size_t q = c.draw(handles.size());
            int others    = 0;
            for (auto& o : handles) others += o.cell == handles[q].cell;
            if (others < 2) break;
            NOTE(ctx, "  drop a handle of signal " << handles[q].cell);
            handles.erase(handles.begin() + long(q));
            check_all("dropped handle");
            break;
        }
        case 6: // wrong size
        {
            if (!h.a) break;
            int n2 = c.flip() ? x.n + 1 : c.size(0, 2, 40);
            if (n2 == x.n) break;
            auto v = gen(c, Ty::A, n2);
            attempt(false, "write of " + std::to_string(n2) + " elements to " + sg + " of size " + std::to_string(x.n), [&]
                    {
                        if (c.flip())
                            *h.a = lib::to_array(v);
                        else
                            (*h.a)->set_value(lib::to_array(v));
                    });
            break;
        }
        default:
            NOTE(ctx, "  rename " << sg);
            h.generic()->rename("r" + std::to_string(c.draw(100)));
            check_all("rename");
        }
    }
    for (auto& x : cells)
        if (x.assigned)
            for (auto v : x.x) ctx.mix(v);
    if (writes && reads && (refused || !lib::checked_build)) ctx.nontrivial();
    ctx.label("writes", writes);
    ctx.label("reads", reads);
    ctx.label("refused", refused);
}
