#include "ref.hpp"

#include <algorithm>

namespace ref
{

bool close(Num want, double got)
{
    if (!usable(want)) return true; // not decidable
    if (!std::isfinite(want.v)) return want.v == got || (want.v != want.v && got != got);
    return std::fabs(want.v - got) <= tol_of(want) + 1e-300;
}

const char* ty_name(Ty t)
{
    static const char* n[] = {"scalar", "int", "bool", "array"};
    return n[int(t)];
}
const char* kind_name(Kind k)
{
    static const char* n[] = {"Add", "Subtract", "Multiply", "Divide", "Gain", "Const", "Source", "Sources", "Pipe", "SISOFunction",
                              "SOFunction", "Function", "Memory", "Delay", "Derivative", "InitialValue", "Integrator",
                              "TriggeredIntegrator", "UserState", "UserStateA", "Keep"};
    return n[int(k)];
}
const char* method_name(Method m)
{
    static const char* n[] = {"Euler", "Rk4", "Rkf45"};
    return n[int(m)];
}

int Model::add_sig(Ty ty, int n, const std::string& name)
{
    SigSpec s;
    s.ty   = ty;
    s.n    = ty == Ty::A ? n : 1;
    s.name = name.empty() ? "s" + std::to_string(sigs.size()) : name;
    sigs.push_back(s);
    return int(sigs.size()) - 1;
}
int Model::producer(int sig) const
{
    for (std::size_t k = 0; k < nodes.size(); k++)
        for (int o : nodes[k].out)
            if (o == sig) return int(k);
    return -1;
}
bool Model::has(Kind k) const
{
    for (auto& n : nodes)
        if (n.kind == k) return true;
    return false;
}
int Model::weight() const
{
    // (every submodel makes its name from those around it)
    int w = int(nodes.size());
    for (std::size_t s = 0; s < sub_parent.size(); s++)
        for (int k = sub_parent[s]; k >= 0; k = sub_parent[std::size_t(k)]) w++;
    return w;
}

int Model::num_states() const
{
    int r = 0;
    for (auto& n : nodes)
    {
        if (n.kind == Kind::Integ || n.kind == Kind::TrigInt || n.kind == Kind::UserStateA) r += n.n;
        if (n.kind == Kind::UserState) r += 2;
    }
    return r;
}

std::string Model::describe() const
{
    std::ostringstream o;
    o.precision(17);
    auto sg = [&](int s) { return sigs[std::size_t(s)].name + ":" + ty_name(sigs[std::size_t(s)].ty) + (sigs[std::size_t(s)].ty == Ty::A ? "[" + std::to_string(sigs[std::size_t(s)].n) + "]" : ""); };
    for (auto& e : exts)
        o << "  input " << sg(e.sig) << (e.hook ? " (model hook)" : "") << " form=" << e.fn.form << " a=" << e.fn.a << " b=" << e.fn.b
          << " w=" << e.fn.w << " p=" << e.fn.p << " q=" << e.fn.q << "\n";
    for (std::size_t s = 0; s < sub_parent.size(); s++) o << "  submodel " << s << " parent=" << sub_parent[s] << "\n";
    for (std::size_t k = 0; k < nodes.size(); k++)
    {
        auto& n = nodes[k];
        o << "  node " << k << " " << kind_name(n.kind) << "(" << ty_name(n.ty) << (n.ty == Ty::A ? "[" + std::to_string(n.n) + "]" : "") << ") parent=" << n.parent;
        if (n.group >= 0) o << " group=" << n.group;
        o << " in={";
        for (auto i : n.in) o << sg(i) << " ";
        o << "} out={";
        for (auto i : n.out) o << sg(i) << " ";
        if (n.spare.size()) o << "+" << n.spare.size() << " unused ";
        if (n.late.size())
        {
            o << "} late={";
            for (auto l : n.late) o << int(l) << " ";
        }
        o << "} ic={";
        for (auto v : n.ic) o << v << " ";
        o << "} par=" << n.par1 << "," << n.par2;
        for (auto& f : n.fn) o << " fn(form=" << f.form << " a=" << f.a << " b=" << f.b << " w=" << f.w << " p=" << f.p << " q=" << f.q << ")";
        o << "\n";
    }
    for (std::size_t g = 0; g < groups.size(); g++)
    {
        o << "  " << (groups[g].memory ? "BusMemory " : "BusPipe ") << g << " parent=" << groups[g].parent << " entries:";
        for (auto& e : groups[g].entries)
        {
            o << " ";
            for (std::size_t i = 0; i < e.path.size(); i++) o << (i ? "." : "") << e.path[i];
            if (e.excluded) o << "(excluded)";
        }
        o << "\n";
    }
    o << "  declared:";
    for (auto& [t, i] : order) o << " " << (t == 0 ? "n" : t == 1 ? "g" : "sub") << i;
    if (bare) o << " (bare block as model)";
    if (ctor_parent) o << " (parents by constructor)";
    if (no_callback) o << " (no input callback)";
    if (outer) o << " (" << outer << " submodels around the model)";
    if (derived) o << " (derived signal classes)";
    o << "\n";
    return o.str();
}

// ---- generation ------------------------------------------------------------------------------------------------

FnPar gen_fn(pbt::Choices& c, std::size_t n_inputs)
{
    FnPar f;
    f.form = int(c.draw(4));
    f.a    = c.moderate(2);
    f.b    = c.moderate(2);
    f.w    = c.uniform(0.1, 3.7);
    f.p    = c.uniform(-2, 2);
    f.q    = c.moderate(1);
    f.k1   = int(c.range(-9, 9));
    f.k2   = int(c.range(-9, 9));
    for (std::size_t i = 0; i < n_inputs; i++) f.weights.push_back(c.uniform(-1.5, 1.5));
    return f;
}

namespace
{

struct Gen
{
    pbt::Choices& c;
    const GenOpts& o;
    Model m;
    struct Deferred
    {
        int node;
        int port;
        int n{0}; // keep: size and type of the port
        Ty ty{Ty::S};
    };
    std::vector<Deferred> deferred;
    bool deep{false}; // long chains

    Ty any_type()
    {
        if (!o.ints && !o.arrays) return Ty::S;
        if (!o.ints) return c.weighted({3, 2}) ? Ty::A : Ty::S;
        if (!o.arrays) return c.oneof({Ty::S, Ty::S, Ty::I, Ty::B});
        return c.oneof({Ty::S, Ty::S, Ty::A, Ty::A, Ty::I, Ty::B});
    }
    Ty sa() { return o.arrays && (deep ? c.chance(1, 16) : c.chance(2, 5)) ? Ty::A : Ty::S; }
    int any_size(Ty t)
    {
        if (t != Ty::A) return 1;
        // prefer sizes already in use so that signals can be combined
        std::vector<int> sizes;
        for (auto& s : m.sigs)
            if (s.ty == Ty::A) sizes.push_back(s.n);
        if (!sizes.empty() && c.chance(3, 4)) return c.pick(sizes);
        return c.big(1, 3, o.max_array, 16 * o.max_array, 32);
    }
    std::vector<int> candidates(Ty ty, int n, int before = -1)
    {
        std::vector<int> r;
        for (int i = 0; i < (before < 0 ? int(m.sigs.size()) : before); i++)
            if (auto& s = m.sigs[std::size_t(i)]; s.ty == ty && s.n == n && s.bound >= 0) r.push_back(i);
        return r;
    }
    std::vector<double> values(Ty ty, int n)
    {
        std::vector<double> r;
        for (int i = 0; i < n; i++)
            r.push_back(ty == Ty::I ? double(c.range(-20, 20)) : ty == Ty::B ? double(c.draw(2)) : c.moderate(3));
        return r;
    }
    int new_node(Kind k, Ty ty, int n)
    {
        Node nd;
        nd.kind = k;
        nd.ty   = ty;
        nd.n    = n;
        nd.name = "n" + std::to_string(m.nodes.size());
        m.nodes.push_back(nd);
        return int(m.nodes.size()) - 1;
    }
    int out_sig(int node, Ty ty, int n, double bound = 0)
    {
        int s                       = m.add_sig(ty, n);
        m.sigs[std::size_t(s)].bound = bound;
        m.nodes[std::size_t(node)].out.push_back(s);
        return s;
    }
    // a signal of the given type that is known when a new node is added
    int need(Ty ty, int n)
    {
        auto cand = candidates(ty, n);
        if (!cand.empty() && (deep || !c.chance(1, 8)))
        {
            // prefer recent signals: deeper diagrams
            if (deep && !c.chance(1, 16)) return cand.back();
            if (c.flip()) return cand[cand.size() - 1 - c.draw(std::min<uint64_t>(cand.size(), 3))];
            return c.pick(cand);
        }
        if (o.externals && c.chance(1, 3)) return add_ext(ty, n);
        if (ty == Ty::B || (ty != Ty::I && c.flip()))
        {
            int k  = new_node(Kind::Sources, ty, n);
            auto f = gen_fn(c, 0);
            m.nodes[std::size_t(k)].fn.push_back(f);
            return out_sig(k, ty, n, 10);
        }
        if (ty == Ty::I || c.flip())
        {
            int k = new_node(Kind::Source, ty, n);
            m.nodes[std::size_t(k)].fn.push_back(gen_fn(c, 0));
            return out_sig(k, ty, n, 10);
        }
        int k                        = new_node(Kind::Const, ty, n);
        m.nodes[std::size_t(k)].ic = values(ty, n);
        return out_sig(k, ty, n);
    }
    int add_ext(Ty ty, int n)
    {
        Ext e;
        e.sig                            = m.add_sig(ty, n);
        m.sigs[std::size_t(e.sig)].bound = 10;
        e.fn                             = gen_fn(c, 0);
        e.hook                           = c.chance(1, 4);
        m.exts.push_back(e);
        return e.sig;
    }
    void spare(int node)
    {
        if (!c.chance(1, 6)) return;
        int num = int(c.range(1, 2));
        for (int i = 0; i < num; i++)
        {
            Ty ty = any_type();
            int s = m.add_sig(ty, any_size(ty));
            m.sigs[std::size_t(s)].bound = -1; // never assigned
            m.nodes[std::size_t(node)].spare.push_back(s);
        }
    }
    void maybe_defer(int node, Ty ty, int n)
    {
        auto& in = m.nodes[std::size_t(node)].in;
        if (c.flip())
        {
            deferred.push_back({node, int(in.size())});
            in.push_back(-1);
        }
        else
        {
            int s = need(ty, n); // may add nodes: `in` is invalid afterwards
            m.nodes[std::size_t(node)].in.push_back(s);
        }
    }
    void add_node()
    {
        const Kind k = Kind(c.weighted({
            8, 6, 6, 4, 6, 2, 3, 3, 4, 6, 6, 10,                       // add .. fn
            unsigned(o.memories ? 10 : 0), unsigned(o.delays ? 6 : 0), // memory, delay
            unsigned(o.derivs ? 4 : 0), unsigned(o.initvals ? 3 : 0),  // deriv, initval
            unsigned(o.states ? 14 : 0), unsigned(o.states && o.triggers && o.ints ? 5 : 0),
            unsigned(o.states && o.user_states ? 3 : 0), unsigned(o.states && o.user_states && o.arrays ? 2 : 0),
            unsigned(o.memories ? 5 : 0)}));
        auto N = [&](int i) -> Node& { return m.nodes[std::size_t(i)]; };
        switch (k)
        {
        case Kind::Add:
        case Kind::Mul:
        {
            Ty ty = sa();
            int n = any_size(ty), num = k == Kind::Mul ? int(c.range(1, 3)) : c.size(1, 3, 12);
            std::vector<int> in;
            for (int i = 0; i < num; i++) in.push_back(need(ty, n));
            int x   = new_node(k, ty, n);
            N(x).in = in;
            if (c.flip())
                N(x).ic = values(ty, n);
            else
                N(x).ic.assign(std::size_t(n), k == Kind::Add ? 0.0 : 1.0);
            out_sig(x, ty, n);
            break;
        }
        case Kind::Sub:
        case Kind::Div:
        {
            Ty ty = sa();
            int n = any_size(ty);
            int a = need(ty, n), b = need(ty, n);
            if (k == Kind::Div && !c.chance(1, 8))
            {
                // a divisor away from zero
                int d = new_node(Kind::Const, ty, n);
                for (int i = 0; i < n; i++)
                {
                    const bool pos = c.flip();
                    N(d).ic.push_back((pos ? 1 : -1) * c.uniform(0.5, 3));
                }
                b = out_sig(d, ty, n);
                if (c.flip())
                {
                    int f = new_node(Kind::SisoFn, ty, n);
                    auto p = gen_fn(c, 1);
                    p.a = 0.25;
                    p.b = 1;
                    N(f).fn.push_back(p);
                    N(f).in = {b};
                    b       = out_sig(f, ty, n);
                }
            }
            int x   = new_node(k, ty, n);
            N(x).in = {a, b};
            out_sig(x, ty, n);
            break;
        }
        case Kind::Gain:
        {
            Ty ty = o.ints && c.chance(1, 4) ? Ty::I : sa();
            int n = any_size(ty), a = need(ty, n);
            double g = ty == Ty::I ? double(c.range(-3, 3)) : c.moderate(2), bound = m.sigs[std::size_t(a)].bound;
            if (ty == Ty::I && bound * 3 > 1e6) g = 1;
            int x     = new_node(k, ty, n);
            N(x).in   = {a};
            N(x).par1 = g;
            out_sig(x, ty, n, bound * std::fabs(g));
            break;
        }
        case Kind::Const:
        {
            Ty ty   = sa();
            int n   = any_size(ty);
            int x   = new_node(k, ty, n);
            N(x).ic = values(ty, n);
            out_sig(x, ty, n);
            break;
        }
        case Kind::Source:
        {
            Ty ty = o.ints && c.chance(1, 4) ? Ty::I : sa();
            int n = any_size(ty), x = new_node(k, ty, n);
            N(x).fn.push_back(gen_fn(c, 0));
            out_sig(x, ty, n, 10);
            break;
        }
        case Kind::Sources:
        {
            int x = new_node(k, Ty::S, 1), num = int(c.range(0, 4));
            for (int i = 0; i < num; i++)
            {
                Ty ty = any_type();
                int n = any_size(ty);
                N(x).fn.push_back(gen_fn(c, 0));
                out_sig(x, ty, n, 10);
            }
            spare(x);
            break;
        }
        case Kind::Pipe:
        {
            Ty ty = any_type();
            int n = any_size(ty), a = need(ty, n), x = new_node(k, ty, n);
            N(x).in = {a};
            out_sig(x, ty, n, m.sigs[std::size_t(a)].bound);
            break;
        }
        case Kind::SisoFn:
        {
            Ty ty = sa();
            int n = any_size(ty), a = need(ty, n), x = new_node(k, ty, n);
            N(x).in = {a};
            N(x).fn.push_back(gen_fn(c, 1));
            out_sig(x, ty, n);
            break;
        }
        case Kind::SoFn:
        case Kind::Fn:
        {
            int ni = c.size(k == Kind::SoFn ? 1 : 0, 3, 8), no = k == Kind::SoFn ? 1 : c.size(0, 2, 5);
            std::vector<int> in;
            for (int i = 0; i < ni; i++)
            {
                Ty ty = any_type();
                in.push_back(need(ty, any_size(ty)));
            }
            Ty oty = sa();
            int on = any_size(oty);
            int x   = new_node(k, oty, on);
            N(x).in = in;
            for (int i = 0; i < no; i++)
            {
                if (k == Kind::Fn)
                {
                    oty = any_type();
                    on  = any_size(oty);
                }
                N(x).fn.push_back(gen_fn(c, in.size()));
                out_sig(x, oty, on, 10);
            }
            if (k == Kind::Fn) spare(x);
            break;
        }
        case Kind::Memory:
        {
            Ty ty = any_type();
            int n = any_size(ty), x;
            bool defer = c.flip();
            int a      = defer ? -1 : need(ty, n);
            x          = new_node(k, ty, n);
            N(x).in    = {a};
            if (defer) deferred.push_back({x, 0});
            N(x).ic = values(ty, n);
            out_sig(x, ty, n, ty == Ty::I ? std::max(1000.0, a >= 0 ? m.sigs[std::size_t(a)].bound : 0) : 0);
            break;
        }
        case Kind::Delay:
        {
            Ty ty = sa();
            int n = any_size(ty), a = need(ty, n), init = need(ty, n);
            double L = c.oneof({0.5, 1.0, 0.3, 2.0});
            if (c.flip()) L = c.uniform(0.05, 3);
            int d;
            switch (c.draw(3))
            {
            case 0:
            {
                int q   = new_node(Kind::Const, Ty::S, 1);
                N(q).ic = {c.flip() ? L : L * c.unit()};
                d       = out_sig(q, Ty::S, 1);
                break;
            }
            default:
            {
                // L/2 + a sin(...), |a| <= L/2
                int q = new_node(Kind::Source, Ty::S, 1);
                FnPar f;
                f.form = 0;
                f.a    = L * 0.5 * c.unit();
                f.p    = L * 0.5;
                f.b    = c.uniform(-2, 2);
                f.w    = c.uniform(0.1, 6);
                N(q).fn.push_back(f);
                d = out_sig(q, Ty::S, 1);
            }
            }
            int x           = new_node(k, ty, n);
            N(x).in         = {a, d, init};
            N(x).par1       = L;
            N(x).port_order = c.permutation(3);
            out_sig(x, ty, n);
            break;
        }
        case Kind::Deriv:
        {
            Ty ty = sa();
            int n = any_size(ty), a = need(ty, n), x = new_node(k, ty, n);
            N(x).in = {a};
            N(x).ic = values(ty, n);
            out_sig(x, ty, n);
            break;
        }
        case Kind::InitVal:
        {
            Ty ty = sa();
            int n = any_size(ty), a = need(ty, n), x = new_node(k, ty, n);
            N(x).in = {a};
            out_sig(x, ty, n);
            break;
        }
        case Kind::Integ:
        {
            Ty ty = sa();
            int n = any_size(ty);
            bool defer = c.flip();
            int a      = defer ? -1 : need(ty, n);
            int x      = new_node(k, ty, n);
            N(x).in    = {a};
            if (defer) deferred.push_back({x, 0});
            N(x).ic = values(ty, n);
            out_sig(x, ty, n);
            break;
        }
        case Kind::TrigInt:
        {
            Ty ty = sa();
            int n = any_size(ty);
            bool d1 = c.flip(), d2 = c.flip();
            int a = d1 ? -1 : need(ty, n), b = d2 ? -1 : need(Ty::B, 1);
            int x   = new_node(k, ty, n);
            N(x).in = {a, b};
            if (d1) deferred.push_back({x, 0});
            if (d2) deferred.push_back({x, 1});
            N(x).ic = values(ty, n);
            out_sig(x, ty, n);
            break;
        }
        case Kind::UserState:
        {
            int a   = need(Ty::S, 1);
            int x   = new_node(k, Ty::S, 1);
            N(x).in = {a};
            N(x).ic = {c.moderate(1), c.moderate(1)};
            N(x).par1 = c.uniform(0, 1.5);
            N(x).par2 = c.uniform(0, 3);
            out_sig(x, Ty::S, 1);
            out_sig(x, Ty::S, 1);
            out_sig(x, Ty::S, 1);
            break;
        }
        case Kind::UserStateA:
        {
            int n = any_size(Ty::A), a = need(Ty::A, n), x = new_node(k, Ty::A, n);
            N(x).in   = {a};
            N(x).ic   = values(Ty::A, n);
            N(x).par1 = c.uniform(-0.5, 2);
            out_sig(x, Ty::A, n);
            out_sig(x, Ty::A, n);
            break;
        }
        case Kind::Keep:
        {
            const int ni = c.size(1, 3, 8), no = c.size(0, 1, 4);
            std::vector<int> in;
            std::vector<char> late;
            std::vector<Deferred> def;
            for (int i = 0; i < ni; i++)
            {
                Ty ty = any_type();
                int s = any_size(ty);
                late.push_back(c.flip());
                if (late.back() && c.flip())
                {
                    def.push_back({-1, i, s, ty});
                    in.push_back(-1);
                }
                else
                    in.push_back(need(ty, s));
            }
            int x     = new_node(k, Ty::S, 1);
            N(x).in   = in;
            N(x).late = late;
            for (auto& d : def)
            {
                d.node = x;
                deferred.push_back(d);
            }
            for (int i = 0; i < no; i++)
            {
                Ty ty = any_type();
                int s = any_size(ty);
                N(x).fn.push_back(gen_fn(c, in.size()));
                out_sig(x, ty, s, 10);
            }
            break;
        }
        }
    }
    void add_group()
    {
        Group g;
        g.memory = o.memories && c.flip();
        int ne   = c.size(0, 3, 8);
        static const char* lab[] = {"a", "b", "c", "x1", "Z", "y_2"};
        std::vector<std::vector<std::string>> used;
        for (int i = 0; i < ne; i++)
        {
            GroupEntry e;
            int depth = 1 + int(c.weighted({4, 2, 1}));
            for (int tries = 0;; tries++)
            {
                e.path.clear();
                for (int d = 0; d < depth; d++) e.path.push_back(lab[c.draw(6)]);
                bool bad = false;
                for (auto& u : used) // no path may be a prefix of another
                {
                    std::size_t l = std::min(u.size(), e.path.size());
                    bad |= std::equal(u.begin(), u.begin() + long(l), e.path.begin());
                }
                if (!bad) break;
                if (tries > 3)
                {
                    e.path.clear();
                    break;
                }
            }
            if (e.path.empty()) continue;
            used.push_back(e.path);
            Ty ty      = any_type();
            int n      = any_size(ty);
            e.excluded = c.chance(1, 5);
            if (e.excluded)
            {
                e.in  = need(ty, n);
                e.out = m.add_sig(ty, n); // never written
                m.sigs.back().bound = -1;
                g.entries.push_back(e);
                continue;
            }
            bool defer = g.memory && c.flip();
            e.in       = defer ? -1 : need(ty, n);
            e.node     = new_node(g.memory ? Kind::Memory : Kind::Pipe, ty, n);
            auto& nd   = m.nodes[std::size_t(e.node)];
            nd.in      = {e.in};
            nd.group   = int(m.groups.size());
            if (defer) deferred.push_back({e.node, 0});
            if (g.memory)
            {
                e.has_ic = c.flip();
                if (e.has_ic)
                    nd.ic = values(ty, n);
                else
                    nd.ic.assign(std::size_t(n), 0.0);
            }
            double bd = g.memory ? 1000.0 : 0;
            if (e.in >= 0) bd = std::max(bd, m.sigs[std::size_t(e.in)].bound);
            e.out = out_sig(e.node, ty, n, bd);
            g.entries.push_back(e);
        }
        g.in_order  = c.permutation(int(g.entries.size()));
        g.out_order = c.permutation(int(g.entries.size()));
        m.groups.push_back(g);
    }
    void resolve()
    {
        for (auto& d : deferred)
        {
            auto& nd = m.nodes[std::size_t(d.node)];
            Ty ty    = nd.kind == Kind::TrigInt && d.port == 1 ? Ty::B : nd.ty;
            if (nd.kind == Kind::Keep) ty = d.ty;
            int n = ty == Ty::A ? (nd.kind == Kind::Keep ? d.n : nd.n) : 1;
            std::vector<int> cand;
            for (int i = 0; i < int(m.sigs.size()); i++)
            {
                auto& s = m.sigs[std::size_t(i)];
                if (s.ty != ty || s.n != n || s.bound < 0) continue;
                if (ty == Ty::I && s.bound > 1000) continue;
                cand.push_back(i);
            }
            int s;
            if (cand.empty()) // a trigger without any Boolean signal around
            {
                Ext e;
                e.sig = m.add_sig(ty, n);
                e.fn  = gen_fn(c, 0);
                m.exts.push_back(e);
                s = e.sig;
            }
            else
                s = c.pick(cand);
            m.nodes[std::size_t(d.node)].in[std::size_t(d.port)] = s;
            if (nd.group >= 0)
                for (auto& e : m.groups[std::size_t(nd.group)].entries)
                    if (e.node == d.node) e.in = s;
        }
    }
};

} // namespace

void gen_structure(pbt::Choices& c, Model& m, const GenOpts& o)
{
    m.sub_parent.clear();
    m.sub_name.clear();
    m.order.clear();
    int ns = o.subs ? int(c.weighted({4, 3, 2, 1, 1})) : 0;
    const bool chain = ns == 4 && m.nodes.size() <= 16 && !o.long_run && c.chance(1, 3); // nested deeply
    if (ns == 4) ns = int(chain ? c.range(8, 48) : c.range(4, 12));
    for (int i = 0; i < ns; i++)
    {
        if (chain)
            m.sub_parent.push_back(c.chance(1, 24) ? int(c.range(-1, i - 1)) : i - 1);
        else
            m.sub_parent.push_back(c.chance(1, 3) ? -1 : int(c.range(-1, i - 1)));
        m.sub_name.push_back("sub" + std::to_string(i));
    }
    for (auto& n : m.nodes)
        if (n.group < 0) n.parent = ns ? int(c.range(-1, ns - 1)) : -1;
    for (auto& g : m.groups) g.parent = ns ? int(c.range(-1, ns - 1)) : -1;
    std::vector<std::pair<int, int>> items;
    for (std::size_t k = 0; k < m.nodes.size(); k++)
    {
        if (m.nodes[k].group < 0)
            items.push_back({0, int(k)});
        else
            m.nodes[k].parent = m.groups[std::size_t(m.nodes[k].group)].parent;
    }
    for (std::size_t k = 0; k < m.groups.size(); k++) items.push_back({1, int(k)});
    for (int k = 0; k < ns; k++) items.push_back({2, k});
    switch (c.draw(3))
    {
    case 0: // as generated: feed-through order
        m.order = items;
        break;
    case 1: // worst case: reverse
        m.order.assign(items.rbegin(), items.rend());
        break;
    default:
        for (int i : c.permutation(int(items.size()))) m.order.push_back(items[std::size_t(i)]);
    }
    m.ctor_parent = c.flip();
    m.bare        = o.allow_bare && items.size() == 1 && m.groups.empty() && c.flip();
    if (m.bare)
        for (auto& e : m.exts) e.hook = false;
    const bool no_callback = c.chance(1, 8);
    m.no_callback          = no_callback && !m.bare;
    const bool derived     = c.chance(1, 12);
    m.derived              = derived ? c.draw(0) | 1 : 0;
    const bool outer       = c.chance(1, 8);
    m.outer                = outer ? int(c.range(1, 3)) : 0;
}

void append(Model& a, const Model& b)
{
    const int ds = int(a.sigs.size()), dn = int(a.nodes.size()), dg = int(a.groups.size());
    auto shift = [](std::vector<int>& v, int d)
    {
        for (int& i : v)
            if (i >= 0) i += d;
    };
    a.sigs.insert(a.sigs.end(), b.sigs.begin(), b.sigs.end());
    for (auto n : b.nodes)
    {
        shift(n.in, ds);
        shift(n.out, ds);
        shift(n.spare, ds);
        if (n.group >= 0) n.group += dg;
        n.parent = -1;
        a.nodes.push_back(n);
    }
    for (auto g : b.groups)
    {
        for (auto& e : g.entries)
        {
            if (e.node >= 0) e.node += dn;
            if (e.in >= 0) e.in += ds;
            if (e.out >= 0) e.out += ds;
        }
        g.parent = -1;
        a.groups.push_back(g);
    }
    for (auto e : b.exts)
    {
        e.sig += ds;
        a.exts.push_back(e);
    }
}

void prune_exts(Model& m)
{
    // the model takes no notice of a signal that no block is connected to: nothing clears it between evaluations
    std::vector<Ext> used;
    for (auto& e : m.exts)
    {
        bool u = false;
        for (auto& n : m.nodes)
            for (int i : n.in) u |= i == e.sig;
        if (u) used.push_back(e);
    }
    m.exts = used;
}

int add_node(Model& m, Kind k, Ty ty, int n, const std::vector<int>& in, const std::vector<double>& ic)
{
    Node nd;
    nd.kind = k;
    nd.ty   = ty;
    nd.n    = n;
    nd.name = "n" + std::to_string(m.nodes.size());
    nd.in   = in;
    nd.ic   = ic;
    nd.out  = {m.add_sig(ty, n)};
    m.nodes.push_back(nd);
    return nd.out[0];
}

int add_ext(Model& m, Ty ty, int n)
{
    Ext e;
    e.sig = m.add_sig(ty, n);
    m.exts.push_back(e);
    return e.sig;
}

static const double special_values[] = {0.0, -0.0, 1.0, -1.0, INFINITY, -INFINITY, NAN, 5e-324, -5e-324, 2.2250738585072014e-308,
                                        1.7976931348623157e308, -1.7976931348623157e308, 1e-300, 1e300, 0.1, 3.0, 1.0000000000000002};

std::vector<double> gen_values(pbt::Choices& c, Ty ty, int n, bool special)
{
    std::vector<double> r;
    for (int i = 0; i < n; i++)
        switch (ty)
        {
        case Ty::I:
            r.push_back(special && c.chance(1, 3) ? double(c.oneof({INT32_MIN, INT32_MAX, -1, 0, 1 << 30})) : double(c.range(-20, 20)));
            break;
        case Ty::B: r.push_back(double(c.draw(2))); break;
        default:
            r.push_back(special && c.chance(1, 3) ? special_values[c.draw(sizeof(special_values) / sizeof(double))] : c.moderate(3));
        }
    return r;
}

std::vector<double> table_values(uint64_t seed, int sig, Ty ty, int n, double t, bool special)
{
    std::vector<double> r;
    // times that differ by rounding only must give the same values
    uint64_t tb;
    const double cell = std::fabs(t) < 1e9 ? std::floor(t * 1048576.2360679775 + 0.3819660113) : t;
    std::memcpy(&tb, &cell, 8);
    for (int i = 0; i < n; i++)
    {
        uint64_t h = seed + 0x9e3779b97f4a7c15ULL * uint64_t(sig + 1) + 0xd1342543de82ef95ULL * uint64_t(i + 1);
        for (uint64_t x : {tb, uint64_t(0x1234567)})
        {
            h ^= x;
            h ^= h >> 31;
            h *= 0x7fb5d329728ea185ULL;
            h ^= h >> 27;
            h *= 0x81dadef4bc2dd44dULL;
            h ^= h >> 33;
        }
        const uint64_t sel = h >> 61, v = h & ((uint64_t(1) << 53) - 1);
        switch (ty)
        {
        case Ty::I: r.push_back(special ? double(int32_t(uint32_t(v))) : double(int(v % 41) - 20)); break;
        case Ty::B: r.push_back(double(v >> 20 & 1)); break;
        default:
            if (special && sel < 3)
                r.push_back(special_values[v % (sizeof(special_values) / sizeof(double))]);
            else if (sel == 3)
                r.push_back(double(int(v % 9) - 4));
            else
                r.push_back(double(v) * 0x1p-50 - 4);
        }
    }
    return r;
}

Model gen_model(pbt::Choices& c, const GenOpts& o)
{
    Gen g{c, o, {}, {}};
    g.deep = c.chance(1, 8);
    if (o.externals)
    {
        int ne = int(c.weighted({3, 3, 2, 1}));
        for (int i = 0; i < ne; i++)
        {
            Ty ty = g.any_type();
            g.add_ext(ty, g.any_size(ty));
        }
    }
    int nn = c.big(o.min_nodes, o.typical_nodes, o.max_nodes, 4 * o.max_nodes, 100);
    for (int i = 0; i < nn; i++)
    {
        if (o.groups && c.chance(1, 14))
            g.add_group();
        else
            g.add_node();
    }
    g.resolve();
    prune_exts(g.m);
    gen_structure(c, g.m, o);
    return g.m;
}

// ---- interpreter -----------------------------------------------------------------------------------------------

static std::vector<Num> nums(const std::vector<double>& v) { return std::vector<Num>(v.begin(), v.end()); }

Interp::Interp(const Model& mm) : m(mm), sig(mm.sigs.size()), _st(mm.nodes.size())
{
    for (std::size_t k = 0; k < m.nodes.size(); k++)
    {
        auto& n = m.nodes[k];
        auto& s = _st[k];
        switch (n.kind)
        {
        case Kind::Memory: s.mem = nums(n.ic); break;
        case Kind::Keep:
            for (int q : n.in) s.hx.push_back(std::vector<Num>(std::size_t(m.sigs[std::size_t(q)].n), Num(0)));
            break;
        case Kind::Deriv: s.y = nums(n.ic); break;
        case Kind::Integ:
        case Kind::TrigInt:
        case Kind::UserStateA: s.integ = nums(n.ic); break;
        case Kind::UserState:
            s.integ  = {Num(n.ic[0])};
            s.integ2 = {Num(n.ic[1])};
            break;
        default: break;
        }
    }
}

void Interp::pre()
{
    for (std::size_t k = 0; k < m.nodes.size(); k++)
        if (m.nodes[k].kind == Kind::TrigInt && _st[k].trig)
        {
            for (auto& x : _st[k].integ) x = Num(0);
            _st[k].trig = false;
        }
}

std::vector<Num> Interp::states() const
{
    std::vector<Num> r;
    for (std::size_t k = 0; k < m.nodes.size(); k++)
    {
        r.insert(r.end(), _st[k].integ.begin(), _st[k].integ.end());
        r.insert(r.end(), _st[k].integ2.begin(), _st[k].integ2.end());
    }
    return r;
}

std::vector<Num> Interp::derivs() const
{
    std::vector<Num> r;
    auto add = [&](int s)
    {
        auto& v = sig[std::size_t(s)];
        r.insert(r.end(), v.x.begin(), v.x.end());
    };
    for (auto& n : m.nodes)
        switch (n.kind)
        {
        case Kind::Integ:
        case Kind::TrigInt: add(n.in[0]); break;
        case Kind::UserState:
            add(n.out[1]);
            add(n.out[2]);
            break;
        case Kind::UserStateA: add(n.out[1]); break;
        default: break;
        }
    return r;
}

void Interp::eval(Num t, const std::vector<Num>& x)
{
    for (auto& s : sig)
    {
        s.assigned = false;
        s.x.clear();
    }
    for (auto& e : m.exts)
    {
        auto& s    = sig[std::size_t(e.sig)];
        auto& sp   = m.sigs[std::size_t(e.sig)];
        s.x        = ext_override ? ext_override(e, t) : fn_eval<Num>(e.fn, sp.ty, sp.n, t, {}, {});
        s.assigned = true;
    }
    std::size_t o = 0;
    auto take     = [&](int s, int n)
    {
        auto& v    = sig[std::size_t(s)];
        v.x        = std::vector<Num>(x.begin() + long(o), x.begin() + long(o) + n);
        v.assigned = true;
        o += std::size_t(n);
    };
    for (auto& n : m.nodes)
        switch (n.kind)
        {
        case Kind::Integ:
        case Kind::TrigInt:
        case Kind::UserStateA: take(n.out[0], n.n); break;
        case Kind::UserState:
            take(n.out[0], 1);
            take(n.out[1], 1);
            break;
        default: break;
        }
    std::vector<char> done(m.nodes.size(), 0);
    for (bool progress = true; progress;)
    {
        progress = false;
        for (std::size_t k = 0; k < m.nodes.size(); k++)
            if (!done[k] && eval_node(k, t))
            {
                done[k]  = 1;
                progress = true;
            }
    }
}

bool Interp::all_assigned() const
{
    for (auto& n : m.nodes)
        for (int s : n.out)
            if (!sig[std::size_t(s)].assigned) return false;
    return true;
}

bool Interp::eval_node(std::size_t k, Num t)
{
    auto& n = m.nodes[k];
    auto& s = _st[k];
    auto S  = [&](int i) -> Val& { return sig[std::size_t(i)]; };
    if (!(n.kind == Kind::InitVal && !s.first))
        for (std::size_t p = 0; p < n.in.size(); p++)
            if (n.through(p) && !S(n.in[p]).assigned) return false;
    auto set = [&](std::size_t port, std::vector<Num> v)
    {
        auto& o    = S(n.out[port]);
        o.x        = std::move(v);
        o.assigned = true;
    };
    std::vector<Num> r(std::size_t(n.n), Num(0));
    const std::size_t sz = std::size_t(n.n);
    switch (n.kind)
    {
    case Kind::Add:
    case Kind::Mul:
        for (std::size_t i = 0; i < sz; i++)
        {
            r[i] = Num(n.ic[i]);
            for (int q : n.in) r[i] = n.kind == Kind::Add ? r[i] + S(q).x[i] : r[i] * S(q).x[i];
        }
        // the order of summation is not specified: bound the rounding of any order
        if (n.kind == Kind::Add)
            for (std::size_t i = 0; i < sz; i++)
            {
                double mag = std::fabs(n.ic[i]);
                for (int q : n.in) mag += std::fabs(S(q).x[i].v);
                r[i].e += U * mag;
            }
        set(0, r);
        break;
    case Kind::Sub:
        for (std::size_t i = 0; i < sz; i++) r[i] = S(n.in[0]).x[i] - S(n.in[1]).x[i];
        set(0, r);
        break;
    case Kind::Div:
        for (std::size_t i = 0; i < sz; i++) r[i] = S(n.in[0]).x[i] / S(n.in[1]).x[i];
        set(0, r);
        break;
    case Kind::Gain:
        for (std::size_t i = 0; i < sz; i++) r[i] = Num(n.par1) * S(n.in[0]).x[i];
        if (n.ty == Ty::I) r[0].e = 0;
        set(0, r);
        break;
    case Kind::Const: set(0, nums(n.ic)); break;
    case Kind::Source:
    case Kind::Sources:
    case Kind::SoFn:
    case Kind::Fn:
    case Kind::Keep:
    {
        std::vector<Ty> ity;
        std::vector<std::vector<Num>> in;
        for (std::size_t p = 0; p < n.in.size(); p++)
        {
            const int q = n.in[p];
            ity.push_back(m.sigs[std::size_t(q)].ty);
            in.push_back(n.through(p) ? S(q).x : s.hx[p]);
        }
        for (std::size_t p = 0; p < n.out.size(); p++)
        {
            auto& sp = m.sigs[std::size_t(n.out[p])];
            set(p, fn_eval<Num>(n.fn[p], sp.ty, sp.n, t, ity, in));
        }
        break;
    }
    case Kind::SisoFn: set(0, siso_eval<Num>(n.fn[0], t, S(n.in[0]).x)); break;
    case Kind::Pipe: set(0, S(n.in[0]).x); break;
    case Kind::Memory: set(0, s.mem); break;
    case Kind::Delay:
    {
        if (s.ht.empty())
        {
            set(0, S(n.in[2]).x);
            break;
        }
        Num tq = t - S(n.in[1]).x[0];
        auto init = S(n.in[2]).x;
        // value at tq of the piecewise-linear interpolant
        const double slack = 1e3 * tq.e;
        if (tq.v < s.ht.front() - slack)
            r = init;
        else
        {
            std::size_t j = 0;
            while (j < s.ht.size() && s.ht[j] < tq.v) j++;
            for (std::size_t i = 0; i < sz; i++)
            {
                if (j == s.ht.size())
                    r[i] = s.hx.back()[i];
                else if (j == 0)
                    r[i] = s.hx.front()[i];
                else
                {
                    Num x0 = s.hx[j - 1][i], x1 = s.hx[j][i];
                    Num dt = Num(s.ht[j]) - Num(s.ht[j - 1]);
                    r[i]   = x0 + (x1 - x0) * ((tq - Num(s.ht[j - 1])) / dt);
                    double slope = 0; // of the neighbouring segments, in case tq is within rounding of a sample
                    for (std::size_t q = j >= 2 ? j - 2 : 0; q < j + 1 && q + 1 < s.ht.size(); q++)
                        slope = std::max(slope, std::fabs((s.hx[q + 1][i].v - s.hx[q][i].v) / (s.ht[q + 1] - s.ht[q])));
                    r[i].e += U * (std::fabs(x0.v) + std::fabs(x1.v)) + x0.e + x1.e + slope * tq.e;
                }
                // exactly at the first sample, either value is acceptable
                if (tq.v <= s.ht.front() + slack) r[i].e += std::fabs(r[i].v - init[i].v) + init[i].e;
            }
        }
        set(0, r);
        break;
    }
    case Kind::Deriv:
        if (s.first)
            set(0, s.y);
        else if (t.v == s.tp)
            set(0, s.y);
        else
        {
            for (std::size_t i = 0; i < sz; i++) r[i] = (S(n.in[0]).x[i] - s.xp[i]) / (t - Num(s.tp));
            set(0, r);
        }
        break;
    case Kind::InitVal:
        if (s.first)
        {
            s.y     = S(n.in[0]).x;
            s.first = false;
        }
        set(0, s.y);
        break;
    case Kind::Integ:
    case Kind::TrigInt: break;
    case Kind::UserState:
        set(2, {S(n.in[0]).x[0] - Num(n.par1) * S(n.out[1]).x[0] - Num(n.par2) * sin(S(n.out[0]).x[0])});
        break;
    case Kind::UserStateA:
        for (std::size_t i = 0; i < sz; i++) r[i] = S(n.in[0]).x[i] - Num(n.par1) * S(n.out[0]).x[i];
        set(1, r);
        break;
    }
    return true;
}

void Interp::post(double t)
{
    for (std::size_t k = 0; k < m.nodes.size(); k++)
    {
        auto& n = m.nodes[k];
        auto& s = _st[k];
        auto S  = [&](int i) -> Val& { return sig[std::size_t(i)]; };
        switch (n.kind)
        {
        case Kind::Memory:
            if (S(n.in[0]).assigned) s.mem = S(n.in[0]).x;
            break;
        case Kind::Keep:
            for (std::size_t p = 0; p < n.in.size(); p++)
                if (n.late[p] && S(n.in[p]).assigned) s.hx[p] = S(n.in[p]).x;
            break;
        case Kind::Delay:
            if (S(n.in[0]).assigned)
            {
                s.ht.push_back(t);
                s.hx.push_back(S(n.in[0]).x);
            }
            break;
        case Kind::Deriv:
            if (S(n.in[0]).assigned)
            {
                s.tp    = t;
                s.xp    = S(n.in[0]).x;
                s.y     = S(n.out[0]).x;
                s.first = false;
            }
            break;
        case Kind::TrigInt:
            s.integ = S(n.out[0]).x;
            if (S(n.in[1]).assigned) s.trig = S(n.in[1]).x[0].v != 0;
            break;
        case Kind::Integ:
        case Kind::UserStateA: s.integ = S(n.out[0]).x; break;
        case Kind::UserState:
            s.integ  = S(n.out[0]).x;
            s.integ2 = S(n.out[1]).x;
            break;
        default: break;
        }
    }
}

// ---- one-step methods --------------------------------------------------------------------------------------------

using Vec = std::vector<Num>;
static Vec axpy(const Vec& v, std::initializer_list<std::pair<Num, const Vec*>> terms)
{
    Vec r = v;
    for (std::size_t i = 0; i < r.size(); i++)
    {
        double mag = std::fabs(v[i].v);
        for (auto& [c, k] : terms)
        {
            r[i] = r[i] + c * (*k)[i];
            mag += std::fabs(c.v * (*k)[i].v);
        }
        r[i].e += U * mag; // any order of summation
    }
    return r;
}

std::vector<double> proposals(Method m, const StepOut& so, double h)
{
    if (m != Method::Rkf45 || so.ratio_exact_one) return {h};
    if (!std::isfinite(so.err_max) || !std::isfinite(so.err_rounding)) return {h / 2, h, 2 * h};
    const double slack = 1e3 * so.err_rounding, mn = so.err_max - slack;
    const double lo = 0.001 * h / (2 * (so.err_max + slack)) * (1 - 1e-12), hi = mn > 0 ? 0.001 * h / (2 * mn) * (1 + 1e-12) : INFINITY;
    std::vector<double> res;
    if (lo < 0.31640625) res.push_back(h / 2);
    if (hi >= 0.31640625 && lo <= 5.0625) res.push_back(h);
    if (hi > 5.0625) res.push_back(2 * h);
    if (mn <= 0 && std::find(res.begin(), res.end(), h) == res.end()) res.push_back(h); // the difference may come out as exactly zero
    return res;
}

StepOut method_step(Method m, const Deriv& f, double t0, const Vec& v0, double t1)
{
    StepOut o;
    const Num h = Num(t1) - Num(t0);
    auto F      = [&](Num t, const Vec& v)
    {
        o.points.push_back({t, v});
        return f(t, v);
    };
    auto Q = [](double a, double b) { return Num(a) / Num(b); };
    switch (m)
    {
    case Method::Euler:
    {
        Vec k = F(Num(t0), v0);
        o.v1  = axpy(v0, {{h, &k}});
        break;
    }
    case Method::Rk4:
    {
        Num th = Num(t0) + h * Num(0.5), te(t1, U * (std::fabs(t0) + std::fabs(t1)));
        Vec k1 = F(Num(t0), v0);
        Vec k2 = F(th, axpy(v0, {{h * Num(0.5), &k1}}));
        Vec k3 = F(th, axpy(v0, {{h * Num(0.5), &k2}}));
        Vec k4 = F(te, axpy(v0, {{h, &k3}}));
        o.v1   = axpy(v0, {{h * Q(1, 6), &k1}, {h * Q(1, 3), &k2}, {h * Q(1, 3), &k3}, {h * Q(1, 6), &k4}});
        break;
    }
    case Method::Rkf45:
    {
        // Fehlberg's classical tableau
        auto T = [&](double a, double b) { Num r = Num(t0) + Q(a, b) * h; r.e += U * (std::fabs(t0) + std::fabs(t1)); return r; };
        Vec k1 = F(Num(t0), v0);
        Vec k2 = F(T(1, 4), axpy(v0, {{h * Q(1, 4), &k1}}));
        Vec k3 = F(T(3, 8), axpy(v0, {{h * Q(3, 32), &k1}, {h * Q(9, 32), &k2}}));
        Vec k4 = F(T(12, 13), axpy(v0, {{h * Q(1932, 2197), &k1}, {h * Q(-7200, 2197), &k2}, {h * Q(7296, 2197), &k3}}));
        Vec k5 = F(T(1, 1), axpy(v0, {{h * Q(439, 216), &k1}, {h * Num(-8), &k2}, {h * Q(3680, 513), &k3}, {h * Q(-845, 4104), &k4}}));
        Vec k6 = F(T(1, 2), axpy(v0, {{h * Q(-8, 27), &k1}, {h * Num(2), &k2}, {h * Q(-3544, 2565), &k3}, {h * Q(1859, 4104), &k4}, {h * Q(-11, 40), &k5}}));
        o.v1   = axpy(v0, {{h * Q(25, 216), &k1}, {h * Q(1408, 2565), &k3}, {h * Q(2197, 4104), &k4}, {h * Q(-1, 5), &k5}});
        Vec z  = axpy(v0, {{h * Q(16, 135), &k1}, {h * Q(6656, 12825), &k3}, {h * Q(28561, 56430), &k4}, {h * Q(-9, 50), &k5}, {h * Q(2, 55), &k6}});
        Num mx(0);
        for (std::size_t i = 0; i < z.size(); i++)
        {
            Num d = o.v1[i] - z[i];
            if (std::fabs(d.v) > mx.v) mx.v = std::fabs(d.v);
            if (!std::isfinite(d.v) || !std::isfinite(d.e))
                mx.e = INFINITY;
            else
                mx.e = std::max(mx.e, d.e);
        }
        bool all_zero = true;
        for (auto* k : {&k1, &k2, &k3, &k4, &k5, &k6})
            for (auto& x : *k) all_zero &= x.v == 0 && x.e == 0;
        if (all_zero)
        {
            o.ratio_exact_one = true;
        }
        else
        {
            o.err_max      = mx.v;
            o.err_rounding = mx.e;
        }
        break;
    }
    }
    return o;
}

} // namespace ref
