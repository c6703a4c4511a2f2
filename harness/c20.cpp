#include "lib.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/pipe.hpp"

// Names of everything that has a name, over arbitrary byte strings.
namespace
{
std::string sanitise(const std::string& s)
{
    static const std::string ok = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz";
    std::string r(s.size(), '_');
    for (std::size_t k = 0; k < s.size(); k++)
        if (ok.find(s[k]) != std::string::npos) r[k] = s[k];
    return r;
}
std::string quote(const std::string& s)
{
    std::string r = "\"";
    static const char hex[] = "0123456789abcdef";
    for (char ch : s)
    {
        const auto u = static_cast<unsigned char>(ch);
        if (u >= 32 && u < 127)
            r += ch;
        else
            (((r += "\\x") += hex[u >> 4]) += hex[u & 15]);
    }
    return r + "\"";
}
} // namespace

PROPERTY("C20", "arbitrary byte strings (all 256 values, embedded zeros, empty, long, UTF-8 fragments) given as names to blocks, signals of all types, buses and bus labels, at "
                "construction, on renaming and on assignment, and joined by both operators in chains of raw and composed names; compared with the sanitised text; "
                "non-trivial: a string with at least one replaced and one kept character")
{
    const std::size_t depth = lib::trace_depth();
    auto text               = [&]() -> std::string
    {
        switch (c.draw(4))
        {
        case 0: return c.name(8);
        case 1:
        {
            // around the edges of the permitted ranges
            std::string r;
            int n = c.big(0, 5, 30, 400, 256);
            for (int k = 0; k < n; k++) r += c.oneof({'/', '0', '9', ':', '@', 'A', 'Z', '[', '^', '_', '`', 'a', 'z', '{', '\0', '\x7f', '\x80', '\xff', '.', ' '});
            return r;
        }
        case 2:
        {
            // every character once, rotated
            std::string r;
            int o = int(c.draw(256));
            for (int k = 0; k < 256; k++) r += char(o + k);
            return r;
        }
        default: return c.bytes_string(c.chance(1, 20) ? 2000 : 12);
        }
    };
    bool kept = false, replaced = false;
    auto want = [&](const std::string& s)
    {
        auto r = sanitise(s);
        for (std::size_t k = 0; k < s.size(); k++) (r[k] == s[k] ? kept : replaced) = true;
        return r;
    };
    auto expect = [&](const std::string& got, const std::string& w, const std::string& what)
    {
        CHECK(ctx, got == w, what << " is " << quote(got) << " instead of " << quote(w));
        CHECK(ctx, lib::trace_depth() == depth, "the diagnostic trace is left unbalanced");
        for (char ch : got) ctx.mix(uint64_t(static_cast<unsigned char>(ch)));
    };
    using pooya::ValidName;

    const int n = c.big(1, 4, 12, 150, 256);
    for (int k = 0; k < n; k++)
    {
        const std::string s = text(), w = want(s);
        NOTE(ctx, "  name " << quote(s));
        expect(ValidName::emend(std::string_view(s)), w, "the sanitised form of " + quote(s));
        expect(ValidName::emend(std::string_view(ValidName::emend(std::string_view(s)))), w, "the sanitised form of the sanitised form of " + quote(s));
        expect(ValidName(s).str(), w, "the name " + quote(s));
        {
            ValidName v(text());
            v = std::string_view(s);
            expect(v.str(), w, "the name assigned from " + quote(s));
            ValidName u(v);
            expect(u.str(), w, "a copy of the name " + quote(s));
            ValidName x;
            x = v;
            expect(x.str(), w, "a copy of the name " + quote(s));
            expect(ValidName::emend(v), w, "the sanitised form of a valid name");
        }
        if (s.find('\0') == std::string::npos)
        {
            expect(ValidName(s.c_str()).str(), w, "the name (as a C string) " + quote(s));
            pooya::Submodel b(nullptr, s.c_str());
            expect(b.name().str(), w, "the name (as a C string) " + quote(s));
        }
        // everything that has a name
        const std::string s2 = text(), w2 = want(s2);
        auto both = [&](pooya::NamedObject& o, const char* what)
        {
            expect(o.name().str(), w, std::string("the name of a ") + what + " called " + quote(s));
            o.rename(s2);
            expect(o.name().str(), w2, std::string("the name of a ") + what + " renamed to " + quote(s2));
            o.rename(o.name().str());
            expect(o.name().str(), w2, std::string("the name of a ") + what + " renamed to its own name");
        };
        switch (c.draw(8))
        {
        case 0:
        {
            pooya::ScalarSignal x(s);
            both(*x, "scalar signal");
            break;
        }
        case 1:
        {
            pooya::IntSignal x(s);
            both(*x, "int signal");
            break;
        }
        case 2:
        {
            pooya::BoolSignal x(s);
            both(*x, "bool signal");
            break;
        }
        case 3:
        {
            pooya::ArraySignal x(3, s);
            both(*x, "array signal");
            break;
        }
        case 4:
        {
            pooya::Bus x({}, s);
            both(*x, "bus");
            break;
        }
        case 5:
        {
            // labels, and the names unnamed signals take from them
            pooya::ScalarSignal x, y(s2);
            std::vector<std::pair<std::string, pooya::Signal>> e{{s, x}, {s, y}};
            auto b = lib::make_bus(e);
            expect(b.begin()->first, w, "the label " + quote(s));
            expect((b.begin() + 1)->first, w, "the label " + quote(s));
            expect(x->name().str(), w, "the name of an unnamed signal labelled " + quote(s));
            expect(y->name().str(), w2.empty() ? w : w2, "the name of a signal called " + quote(s2) + " labelled " + quote(s));
            break;
        }
        case 6:
        {
            pooya::Pipe x(nullptr, s);
            both(x, "block");
            break;
        }
        default:
        {
            pooya::Submodel p(nullptr, s2);
            pooya::Submodel q(&p, s);
            pooya::Const x(1.0, &q, s2);
            expect(p.full_name().str(), "/" + w2, "the full name of a model called " + quote(s2));
            expect(q.full_name().str(), "/" + w2 + "/" + w, "the full name of a submodel called " + quote(s));
            expect(x.full_name().str(), "/" + w2 + "/" + w + "/" + w2, "the full name of a block");
            both(q, "submodel");
            expect(x.full_name().str(), "/" + w2 + "/" + w2 + "/" + w2, "the full name of a block in a renamed submodel");
        }
        }
    }
    // joined names
    ValidName a(text());
    std::string wa = a.str();
    const int m    = c.size(1, 3, 10);
    for (int k = 0; k < m; k++)
    {
        const std::string s = text(), w = want(s);
        const bool slash    = c.flip();
        const std::string before = wa;
        ValidName r;
        std::string wr;
        switch (c.draw(4))
        {
        case 0: // raw text on the right
            r  = slash ? a / s : a | s;
            wr = wa + (slash ? "/" : ".") + w;
            break;
        case 1: // as a view
            r  = slash ? a / std::string_view(s) : a | std::string_view(s);
            wr = wa + (slash ? "/" : ".") + w;
            break;
        case 2: // a composed name on the right
        {
            ValidName b = c.flip() ? ValidName(s) | std::string("x y") : ValidName(s) / ValidName("z");
            std::string wb = b.str();
            CHECK(ctx, wb == w + ".x_y" || wb == w + "/z", "a composed name is " << quote(wb));
            r  = slash ? a / b : a | b;
            wr = wa + (slash ? "/" : ".") + wb;
            expect(b.str(), wb, "a name after being appended to another");
            break;
        }
        default: // itself
            r  = slash ? a / a : a | a;
            wr = wa + (slash ? "/" : ".") + wa;
        }
        NOTE(ctx, "  joined " << quote(r.str()));
        expect(r.str(), wr, "a joined name");
        expect(a.str(), before, "a name after another was appended to a copy of it");
        if (r.str().size() < 4000)
        {
            a  = r;
            wa = wr;
        }
    }
    if (kept && replaced) ctx.nontrivial();
    ctx.label("names", uint64_t(n + m));
}
