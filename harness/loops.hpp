// Diagrams with algebraic loops and inputs that never get a value.
#pragma once
#include "lib.hpp"

namespace loops
{
using ref::Kind;
inline bool feeds_through(Kind k)
{
    switch (k)
    {
    case Kind::Memory:
    case Kind::Integ:
    case Kind::TrigInt: return false;
    default: return true;
    }
}
// which signals get a value
inline std::vector<char> known(const ref::Model& m)
{
    std::vector<char> k(m.sigs.size(), 0), done(m.nodes.size(), 0);
    for (auto& e : m.exts) k[std::size_t(e.sig)] = 1;
    for (auto& n : m.nodes)
        switch (n.kind)
        {
        case Kind::Integ:
        case Kind::TrigInt:
        case Kind::UserStateA: k[std::size_t(n.out[0])] = 1; break;
        case Kind::UserState: k[std::size_t(n.out[0])] = k[std::size_t(n.out[1])] = 1; break;
        default: break;
        }
    for (bool progress = true; progress;)
    {
        progress = false;
        for (std::size_t i = 0; i < m.nodes.size(); i++)
        {
            auto& n    = m.nodes[i];
            bool ready = !done[i];
            for (std::size_t p = 0; p < n.in.size(); p++)
                if (n.through(p)) ready &= k[std::size_t(n.in[p])] != 0;
            if (!ready) continue;
            done[i]  = 1;
            progress = true;
            for (int s : n.out) k[std::size_t(s)] = 1;
        }
    }
    return k;
}
inline bool node_known(const ref::Model& m, const std::vector<char>& k, std::size_t i)
{
    auto& n = m.nodes[i];
    for (std::size_t p = 0; p < n.in.size(); p++)
        if (n.through(p) && !k[std::size_t(n.in[p])]) return false;
    return true;
}
inline void set_input(ref::Model& m, int node, std::size_t port, int sig)
{
    auto& n = m.nodes[std::size_t(node)];
    n.in[port] = sig;
    if (n.group >= 0)
        for (auto& e : m.groups[std::size_t(n.group)].entries)
            if (e.node == node) e.in = sig;
}
// rewires inputs of feed-through blocks to signals of the same or later blocks, so that loops may appear
inline void rewire(pbt::Choices& c, ref::Model& m, int rewires)
{
    for (int r = 0; r < rewires; r++)
    {
        std::vector<std::pair<int, std::size_t>> ports;
        for (std::size_t i = 0; i < m.nodes.size(); i++)
        {
            auto k = m.nodes[i].kind;
            if (!feeds_through(k) || k == Kind::UserState || k == Kind::UserStateA) continue;
            for (std::size_t p = 0; p < m.nodes[i].in.size(); p++)
                if (m.nodes[i].through(p) && (k != Kind::Delay || p != 1)) ports.push_back({int(i), p});
        }
        if (ports.empty()) break;
        auto [node, port] = c.pick(ports);
        auto& sp          = m.sigs[std::size_t(m.nodes[std::size_t(node)].in[port])];
        std::vector<int> cand;
        for (std::size_t i = std::size_t(node); i < m.nodes.size(); i++)
            for (int s : m.nodes[i].out)
                if (m.sigs[std::size_t(s)].ty == sp.ty && m.sigs[std::size_t(s)].n == sp.n) cand.push_back(s);
        if (cand.empty()) continue;
        set_input(m, node, port, c.pick(cand));
    }
    // integer gains on a cycle would overflow
    for (auto& n : m.nodes)
        if (n.kind == Kind::Gain && n.ty == ref::Ty::I) n.par1 = 1;
    ref::prune_exts(m);
}
// Blocks that sample their input at the end of a step must not read from a loop when the plain simulators run: they are
// connected to signals that get a value (true if any had to be).
inline bool fix_holders(pbt::Choices& c, ref::Model& m)
{
    std::vector<char> k;
    int fixed = 0;
    for (bool again = true; again;)
    {
        again = false;
        k     = known(m);
        for (std::size_t i = 0; i < m.nodes.size(); i++)
        {
            auto kind = m.nodes[i].kind;
            if (kind != Kind::Memory && kind != Kind::Delay && kind != Kind::Deriv && kind != Kind::Integ && kind != Kind::TrigInt &&
                kind != Kind::UserState && kind != Kind::UserStateA)
                continue;
            for (std::size_t port = 0; port < m.nodes[i].in.size(); port++)
            {
                int s = m.nodes[i].in[port];
                if (k[std::size_t(s)]) continue;
                auto sp = m.sigs[std::size_t(s)];
                std::vector<int> cand;
                for (std::size_t q = 0; q < m.sigs.size(); q++)
                    if (k[q] && m.sigs[q].ty == sp.ty && m.sigs[q].n == sp.n) cand.push_back(int(q));
                if (cand.empty())
                {
                    ref::Ext e;
                    e.sig = m.add_sig(sp.ty, sp.n);
                    e.fn  = ref::gen_fn(c, 0);
                    m.exts.push_back(e);
                    cand.push_back(e.sig);
                }
                set_input(m, int(i), port, c.pick(cand));
                fixed++;
                again = true;
                break;
            }
            if (again) break;
        }
    }
    ref::prune_exts(m);
    return fixed > 0;
}
} // namespace loops
