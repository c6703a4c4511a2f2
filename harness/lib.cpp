#include "lib.hpp"

#include <algorithm>
#include <cmath>
#include <map>

#include "src/block/extra/add.hpp"
#include "src/block/extra/bus_memory.hpp"
#include "src/block/extra/bus_pipe.hpp"
#include "src/block/extra/const.hpp"
#include "src/block/extra/delay.hpp"
#include "src/block/extra/derivative.hpp"
#include "src/block/extra/divide.hpp"
#include "src/block/extra/function.hpp"
#include "src/block/extra/gain.hpp"
#include "src/block/extra/initial_value.hpp"
#include "src/block/extra/memory.hpp"
#include "src/block/extra/multiply.hpp"
#include "src/block/extra/pipe.hpp"
#include "src/block/extra/siso_function.hpp"
#include "src/block/extra/so_function.hpp"
#include "src/block/extra/source.hpp"
#include "src/block/extra/sources.hpp"
#include "src/block/extra/subtract.hpp"
#include "src/block/extra/triggered_integrator.hpp"
#include "src/block/integrator.hpp"
#include "src/block/leaf.hpp"
#include "src/helper/trace.hpp"
#include "src/solver/euler.hpp"
#include "src/solver/fast_simulator.hpp"
#include "src/solver/rk4.hpp"
#include "src/solver/rkf45.hpp"
#include "src/solver/simulator.hpp"

namespace lib
{
using ref::Kind;
using ref::Num;
using ref::Ty;

#if !defined(NDEBUG)
std::size_t trace_depth() { return pooya::helper::pooya_trace_info.size(); }
#endif

pooya::Bus make_bus(const std::vector<pooya::Signal>& v, const std::string& name) { return pooya::Bus(ilist(v), name); }
pooya::Bus make_bus(const std::vector<std::pair<std::string, pooya::Signal>>& v, const std::string& name)
{
    return pooya::Bus(ilist(v), name);
}

namespace
{
// signal classes of a user's own, with something to lose when they are destroyed as another class
template<class Base>
class UserSignal : public Base
{
public:
    template<class... A>
    explicit UserSignal(A... a) : Base(typename Base::Protected(), a...)
    {
    }
    std::string unit{"a unit of measurement that does not fit into the string itself"};
};
} // namespace

pooya::Signal make_signal(Ty ty, int n, const std::string& name, bool derived)
{
    const std::string_view nm(name);
    if (derived) switch (ty)
        {
        case Ty::S: return pooya::ScalarSignal(*std::make_shared<UserSignal<pooya::ScalarSignalImpl>>(nm));
        case Ty::I: return pooya::IntSignal(*std::make_shared<UserSignal<pooya::IntSignalImpl>>(nm));
        case Ty::B: return pooya::BoolSignal(*std::make_shared<UserSignal<pooya::BoolSignalImpl>>(nm));
        default: return pooya::ArraySignal(*std::make_shared<UserSignal<pooya::ArraySignalImpl>>(std::size_t(n), nm));
        }
    switch (ty)
    {
    case Ty::S: return pooya::ScalarSignal(name);
    case Ty::I: return pooya::IntSignal(name);
    case Ty::B: return pooya::BoolSignal(name);
    default: return pooya::ArraySignal(std::size_t(n), name);
    }
}

bool LVal::operator==(const LVal& o) const
{
    if (assigned != o.assigned || x.size() != o.x.size()) return false;
    for (std::size_t i = 0; i < x.size(); i++)
        if (!(x[i] == o.x[i]) && !(x[i] != x[i] && o.x[i] != o.x[i])) return false;
    return true;
}

std::string show(const LVal& v)
{
    if (!v.assigned) return "unassigned";
    std::ostringstream o;
    o.precision(17);
    for (std::size_t i = 0; i < v.x.size(); i++) o << (i ? ", " : "") << v.x[i];
    return o.str();
}

LVal read(const pooya::Signal& s)
{
    LVal r;
    auto* v = dynamic_cast<pooya::ValueSignalImpl*>(&s.impl());
    if (!v || !v->assigned()) return r;
    r.assigned = true;
    if (auto* p = dynamic_cast<pooya::ScalarSignalImpl*>(v))
        r.x = {p->get_value()};
    else if (auto* p = dynamic_cast<pooya::IntSignalImpl*>(v))
        r.x = {double(p->get_value())};
    else if (auto* p = dynamic_cast<pooya::BoolSignalImpl*>(v))
        r.x = {p->get_value() ? 1.0 : 0.0};
    else if (auto* p = dynamic_cast<pooya::ArraySignalImpl*>(v))
        r.x = to_vec(p->get_value());
    return r;
}

void write(const pooya::Signal& s, Ty ty, const std::vector<double>& x)
{
    switch (ty)
    {
    case Ty::S: pooya::ScalarSignal{s} = x[0]; break;
    case Ty::I: pooya::IntSignal{s} = int(x[0]); break;
    case Ty::B: pooya::BoolSignal{s} = x[0] != 0; break;
    default: pooya::ArraySignal{s} = to_array(x);
    }
}

const char* sim_name(SimKind k)
{
    static const char* n[] = {"Simulator", "Simulator(reuse_order)", "FastSimulator"};
    return n[int(k)];
}
std::shared_ptr<pooya::SimulatorBase> make_sim(SimKind k, pooya::Block& model, pooya::SimulatorBase::InputCallback cb,
                                               pooya::StepperBase* st)
{
    switch (k)
    {
    case SimKind::Plain: return std::make_shared<pooya::Simulator>(model, cb, st);
    case SimKind::Reuse: return std::make_shared<pooya::Simulator>(model, cb, st, true);
    default: return std::make_shared<pooya::FastSimulator>(model, cb, st);
    }
}
std::shared_ptr<pooya::StepperBase> make_stepper(ref::Method m)
{
    switch (m)
    {
    case ref::Method::Euler: return std::make_shared<pooya::Euler>();
    case ref::Method::Rk4: return std::make_shared<pooya::Rk4>();
    default: return std::make_shared<pooya::Rkf45>();
    }
}

// ---- user-written blocks ------------------------------------------------------------------------------------------
namespace
{

// in the manner of the library's own sample: a leaf that declares its state variables itself
class UserState : public pooya::Leaf
{
    double _x, _xd, _c, _k;
    pooya::ScalarSignal _tau, _sx, _sxd, _sxdd;

public:
    UserState(double x, double xd, double c, double k, const pooya::Signal& sx, const pooya::Signal& sxd, const pooya::Signal& sxdd,
              pooya::Submodel* parent, const std::string& name)
        : pooya::Leaf(parent, name, 1, 0), _x(x), _xd(xd), _c(c), _k(k), _sx(sx), _sxd(sxd), _sxdd(sxdd)
    {
    }
    bool connect(const pooya::Bus& ibus, const pooya::Bus& obus) override
    {
        if (!pooya::Leaf::connect(ibus, obus)) return false;
        _tau.reset(ibus.at(std::size_t(0)));
        _sx->set_deriv_signal(_sxd);
        _sxd->set_deriv_signal(_sxdd);
        link_signal(_sx, SignalLinkType::Required);
        link_signal(_sxd, SignalLinkType::Required);
        link_signal(_sxdd, SignalLinkType::Internal);
        return true;
    }
    void activation_function(double) override { _sxdd = double(_tau) - _c * double(_sxd) - _k * std::sin(double(_sx)); }
    void pre_step(double) override
    {
        _sx  = _x;
        _sxd = _xd;
    }
    void post_step(double) override
    {
        _x  = _sx;
        _xd = _sxd;
    }
};

class UserStateA : public pooya::Leaf
{
    pooya::Array _x;
    double _k;
    pooya::ArraySignal _tau, _sx, _sxd;

public:
    UserStateA(const pooya::Array& x, double k, const pooya::Signal& sx, const pooya::Signal& sxd, pooya::Submodel* parent,
               const std::string& name)
        : pooya::Leaf(parent, name, 1, 0), _x(x), _k(k), _sx(sx), _sxd(sxd)
    {
    }
    bool connect(const pooya::Bus& ibus, const pooya::Bus& obus) override
    {
        if (!pooya::Leaf::connect(ibus, obus)) return false;
        _tau.reset(ibus.at(std::size_t(0)));
        _sx->set_deriv_signal(_sxd);
        link_signal(_sx, SignalLinkType::Required);
        link_signal(_sxd, SignalLinkType::Internal);
        return true;
    }
    void activation_function(double) override { _sxd = pooya::Array(_tau->get_value() - _k * _sx->get_value()); }
    void pre_step(double) override { _sx = _x; }
    void post_step(double) override { _x = _sx->get_value(); }
};

// a leaf with any inputs and outputs that requires only some of the inputs to compute its outputs; of the others it uses
// the values they had, if any, at the end of the last step
class Keep : public pooya::Leaf
{
public:
    using Values = std::vector<std::vector<double>>;

private:
    Diagram& _d;
    const int _node;
    Values _kept;

    const ref::Node& node() const { return _d.m.nodes[std::size_t(_node)]; }
    const ref::SigSpec& spec(int s) const { return _d.m.sigs[std::size_t(s)]; }

public:
    Keep(Diagram& d, int node_, pooya::Submodel* parent, const std::string& name)
        : pooya::Leaf(parent, name, uint16_t(d.m.nodes[std::size_t(node_)].in.size()), uint16_t(d.m.nodes[std::size_t(node_)].out.size())), _d(d),
          _node(node_)
    {
        for (int s : node().in) _kept.emplace_back(std::size_t(spec(s).n), 0.0);
    }
    bool connect(const pooya::Bus& ibus, const pooya::Bus& obus) override
    {
        if (!pooya::Leaf::connect(ibus, obus)) return false;
        auto& n = node();
        for (std::size_t p = 0; p < n.in.size(); p++)
        {
            bool required = false;
            for (std::size_t q = 0; q < n.in.size(); q++) required |= n.in[q] == n.in[p] && !n.late[q];
            if (!required)
                if (auto* ptr = find_linked_signal(ibus.at(p).impl())) ptr->second = ptr->second & ~SignalLinkType::Required;
        }
        return true;
    }
    void activation_function(double t) override;
    void post_step(double) override;
};

} // namespace

// ---- diagram ----------------------------------------------------------------------------------------------------------

Diagram::Diagram(const ref::Model& mm, pooya::Submodel* host) : m(mm), calls(mm.nodes.size(), 0), _host(host) { build(); }
Diagram::~Diagram() = default;

void Diagram::write_exts(double t, bool hook)
{
    for (auto& e : m.exts)
    {
        if (e.hook != hook) continue;
        auto& sp = m.sigs[std::size_t(e.sig)];
        write(sigs[std::size_t(e.sig)], sp.ty, ext_override ? ext_override(e, t) : ref::fn_eval<double>(e.fn, sp.ty, sp.n, t - shift, {}, {}));
    }
}

void Diagram::inputs_cb(pooya::Block& b, double t)
{
    if (&b != &model() && problem.empty()) problem = "the input callback was given a block that is not the model";
    if (on_inputs) on_inputs(t);
    epoch++;
    std::fill(calls.begin(), calls.end(), 0);
    write_exts(t, false);
}

void Diagram::called(int node, double t, const pooya::Bus* ibus)
{
    if (on_called) on_called(node, t);
    if (!monitor) return;
    if (++calls[std::size_t(node)] > 1 && problem.empty())
        problem = "user function of node " + std::to_string(node) + " was called more than once in one evaluation";
    if (ibus)
        for (auto& [label, s] : *ibus)
            if (auto* v = dynamic_cast<pooya::ValueSignalImpl*>(&s.impl()); v && !v->assigned() && problem.empty())
                problem = "user function of node " + std::to_string(node) + " was called before its input " + label + " was known";
}

void Diagram::evaluation_complete(const char* where)
{
    if (!monitor) return;
    for (std::size_t k = 0; k < m.nodes.size(); k++)
        switch (m.nodes[k].kind)
        {
        case Kind::Source:
        case Kind::Sources:
        case Kind::SisoFn:
        case Kind::SoFn:
        case Kind::Fn:
        case Kind::Keep:
        {
            if (!expect_called.empty() && !expect_called[k])
            {
                if (calls[k] && problem.empty())
                    problem = "user function of node " + std::to_string(k) + " was called although its inputs cannot be known";
                break;
            }
            if (calls[k] != 1 && problem.empty())
                problem = "user function of node " + std::to_string(k) + " was called " + std::to_string(calls[k]) +
                          " times in one evaluation (" + where + ")";
            break;
        }
        default: break;
        }
}

namespace
{
// a block outside the simulated part of a model: nothing of it may be called
class Bystander : public pooya::Leaf
{
public:
    Bystander(pooya::Submodel* parent, std::string_view name) : pooya::Leaf(parent, name, NoIOLimit, NoIOLimit) {}
    void input_cb(double) override { touched("input_cb"); }
    void pre_step(double) override { touched("pre_step"); }
    void post_step(double) override { touched("post_step"); }
    void activation_function(double) override { touched("activation_function"); }

private:
    void touched(const char* what) { throw pbt::Failure("the " + std::string(what) + " of a block outside the simulated part of the model was called: " + full_name().str()); }
};
} // namespace

void Diagram::bystander(pooya::Submodel& parent)
{
    const auto k = bystanders.size();
    std::vector<pooya::Signal> in;
    if (!sigs.empty()) in.push_back(sigs[(k * 7 + sigs.size() / 2) % sigs.size()]);
    pooya::ScalarSignal a("out1_" + std::to_string(k)), b("out2_" + std::to_string(k)), x("out3_" + std::to_string(k));
    a = 1.25;
    x = 3.5;
    auto y = std::make_shared<Bystander>(&parent, "bystander" + std::to_string(k));
    y->connect(make_bus(in), {a, b});
    bystanders.push_back(y);
    auto i = std::make_shared<pooya::Integrator>(-1.0, &parent, "bystander_integrator" + std::to_string(k));
    i->connect({a}, {x});
    bystanders.push_back(i);
    outside.insert(outside.end(), {a, b, x});
}

void Diagram::check_outside() const
{
    for (std::size_t k = 0; k < outside.size(); k++)
    {
        const auto& v = static_cast<pooya::ScalarSignalImpl&>(outside[k].impl());
        if (v.assigned() != (k % 3 != 1) || (v.assigned() && v.get_value() != (k % 3 ? 3.5 : 1.25)))
            throw pbt::Failure("a signal outside the simulated part of the model was changed: " + v.name().str());
    }
}

LSnap Diagram::snap() const
{
    check_outside();
    LSnap r;
    for (auto& s : sigs) r.push_back(read(s));
    return r;
}

void Diagram::buses(int node, std::optional<pooya::Bus>& ib, std::optional<pooya::Bus>& ob)
{
    auto& n = m.nodes[std::size_t(node)];
    auto S  = [&](int i) { return sigs[std::size_t(i)]; };
    if (n.kind == Kind::Delay)
    {
        static const char* lab[] = {"in", "delay", "initial"};
        std::vector<std::pair<std::string, pooya::Signal>> v;
        for (int k : n.port_order) v.emplace_back(lab[k], S(n.in[std::size_t(k)]));
        ib.emplace(make_bus(v));
    }
    else if (n.kind == Kind::TrigInt)
    {
        std::vector<std::pair<std::string, pooya::Signal>> v;
        v.emplace_back("in", S(n.in[0]));
        v.emplace_back("trigger", S(n.in[1]));
        ib.emplace(make_bus(v));
    }
    else
    {
        std::vector<pooya::Signal> v;
        for (int i : n.in) v.push_back(S(i));
        ib.emplace(make_bus(v));
    }
    std::vector<pooya::Signal> v;
    if (n.kind != Kind::UserState && n.kind != Kind::UserStateA)
        for (int i : n.out) v.push_back(S(i));
    for (int i : n.spare) v.push_back(S(i));
    ob.emplace(make_bus(v));
}

static std::vector<double> value_at(const pooya::Bus& b, std::size_t k, Ty ty)
{
    switch (ty)
    {
    case Ty::S: return {double(pooya::ScalarSignal(b.at(k)))};
    case Ty::I: return {double(int(pooya::IntSignal(b.at(k))))};
    case Ty::B: return {bool(pooya::BoolSignal(b.at(k))) ? 1.0 : 0.0};
    default: return to_vec(pooya::ArraySignal(b.at(k)));
    }
}

void Keep::activation_function(double t)
{
    pooya_trace("block: " + full_name().str());
    auto& n = node();
    std::vector<Ty> ity;
    Values in;
    std::vector<std::pair<std::string, pooya::Signal>> direct;
    for (std::size_t p = 0; p < n.in.size(); p++)
        if (!n.late[p]) direct.emplace_back("d" + std::to_string(p), _ibus.at(p));
    const auto b = make_bus(direct);
    _d.called(_node, t, &b);
    for (std::size_t p = 0; p < n.in.size(); p++)
    {
        ity.push_back(spec(n.in[p]).ty);
        in.push_back(n.late[p] ? _kept[p] : value_at(_ibus, p, ity.back()));
    }
    for (std::size_t k = 0; k < n.out.size(); k++)
    {
        auto& sp = spec(n.out[k]);
        write(_obus.at(k), sp.ty, ref::fn_eval<double>(n.fn[k], sp.ty, sp.n, t - _d.shift, ity, in));
    }
}
void Keep::post_step(double)
{
    pooya_trace("block: " + full_name().str());
    auto& n = node();
    for (std::size_t p = 0; p < n.in.size(); p++)
        if (n.late[p] && dynamic_cast<pooya::ValueSignalImpl&>(_ibus.at(p).impl()).assigned()) _kept[p] = value_at(_ibus, p, spec(n.in[p]).ty);
}

std::shared_ptr<pooya::Block> Diagram::make_block(int node, pooya::Submodel* parent)
{
    auto& n       = m.nodes[std::size_t(node)];
    const bool A  = n.ty == Ty::A;
    auto S        = [&](int i) { return sigs[std::size_t(i)]; };
    auto ic       = [&] { return to_array(n.ic); };
    auto& nm      = n.name;
    auto in_types = [&]
    {
        std::vector<Ty> r;
        for (int i : n.in) r.push_back(m.sigs[std::size_t(i)].ty);
        return r;
    };
    auto inputs = [](const pooya::Bus& b, const std::vector<Ty>& ty)
    {
        std::vector<std::vector<double>> r;
        for (std::size_t k = 0; k < ty.size(); k++) r.push_back(value_at(b, k, ty[k]));
        return r;
    };
    using std::make_shared;
    switch (n.kind)
    {
    case Kind::Add:
        if (A) return make_shared<pooya::AddA>(ic(), parent, nm);
        return make_shared<pooya::Add>(n.ic[0], parent, nm);
    case Kind::Mul:
        if (A) return make_shared<pooya::MultiplyA>(ic(), parent, nm);
        return make_shared<pooya::Multiply>(n.ic[0], parent, nm);
    case Kind::Sub:
        if (A) return make_shared<pooya::SubtractA>(parent, nm);
        return make_shared<pooya::Subtract>(parent, nm);
    case Kind::Div:
        if (A) return make_shared<pooya::DivideA>(parent, nm);
        return make_shared<pooya::Divide>(parent, nm);
    case Kind::Gain:
        if (A) return make_shared<pooya::GainA>(n.par1, parent, nm);
        if (n.ty == Ty::I) return make_shared<pooya::GainI>(int(n.par1), parent, nm);
        return make_shared<pooya::Gain>(n.par1, parent, nm);
    case Kind::Const:
        if (A) return make_shared<pooya::ConstA>(ic(), parent, nm);
        return make_shared<pooya::Const>(n.ic[0], parent, nm);
    case Kind::Source:
    {
        auto f  = n.fn[0];
        int sz  = n.n;
        if (A)
            return make_shared<pooya::SourceA>(
                [this, node, f, sz](double t) -> pooya::Array
                {
                    called(node, t, nullptr);
                    return to_array(ref::fn_eval<double>(f, Ty::A, sz, t - shift, {}, {}));
                },
                parent, nm);
        if (n.ty == Ty::I)
            return make_shared<pooya::SourceI>(
                [this, node, f](double t) -> int
                {
                    called(node, t, nullptr);
                    return int(ref::fn_eval<double>(f, Ty::I, 1, t - shift, {}, {})[0]);
                },
                parent, nm);
        return make_shared<pooya::Source>(
            [this, node, f](double t) -> double
            {
                called(node, t, nullptr);
                return ref::fn_eval<double>(f, Ty::S, 1, t - shift, {}, {})[0];
            },
            parent, nm);
    }
    case Kind::Sources:
        return make_shared<pooya::Sources>(
            [this, node](const pooya::Bus& ob, double t)
            {
                called(node, t, nullptr);
                auto& n = m.nodes[std::size_t(node)];
                for (std::size_t k = 0; k < n.out.size(); k++)
                {
                    auto& sp = m.sigs[std::size_t(n.out[k])];
                    write(ob.at(k), sp.ty, ref::fn_eval<double>(n.fn[k], sp.ty, sp.n, t - shift, {}, {}));
                }
            },
            parent, nm);
    case Kind::Pipe:
        switch (n.ty)
        {
        case Ty::S: return make_shared<pooya::Pipe>(parent, nm);
        case Ty::I: return make_shared<pooya::PipeI>(parent, nm);
        case Ty::B: return make_shared<pooya::PipeB>(parent, nm);
        default: return make_shared<pooya::PipeA>(parent, nm);
        }
    case Kind::SisoFn:
    {
        auto f = n.fn[0];
        if (A)
            return make_shared<pooya::SISOFunctionA>(
                [this, node, f](double t, const pooya::Array& x) -> pooya::Array
                {
                    called(node, t, nullptr);
                    return to_array(ref::siso_eval<double>(f, t - shift, to_vec(x)));
                },
                parent, nm);
        return make_shared<pooya::SISOFunction>(
            [this, node, f](double t, double x) -> double
            {
                called(node, t, nullptr);
                return ref::siso_eval<double>(f, t - shift, {x})[0];
            },
            parent, nm);
    }
    case Kind::SoFn:
    {
        auto f   = n.fn[0];
        auto ity = in_types();
        int sz   = n.n;
        if (A)
            return make_shared<pooya::SOFunctionA>(
                [=](double t, const pooya::Bus& b) -> pooya::Array
                {
                    called(node, t, &b);
                    return to_array(ref::fn_eval<double>(f, Ty::A, sz, t - shift, ity, inputs(b, ity)));
                },
                parent, nm, uint16_t(n.in.size()));
        return make_shared<pooya::SOFunction>(
            [=](double t, const pooya::Bus& b) -> double
            {
                called(node, t, &b);
                return ref::fn_eval<double>(f, Ty::S, 1, t - shift, ity, inputs(b, ity))[0];
            },
            parent, nm);
    }
    case Kind::Fn:
    {
        auto ity = in_types();
        return make_shared<pooya::Function>(
            [=](double t, const pooya::Bus& ib, const pooya::Bus& ob)
            {
                called(node, t, &ib);
                auto& n  = m.nodes[std::size_t(node)];
                auto in = inputs(ib, ity);
                for (std::size_t k = 0; k < n.out.size(); k++)
                {
                    auto& sp = m.sigs[std::size_t(n.out[k])];
                    write(ob.at(k), sp.ty, ref::fn_eval<double>(n.fn[k], sp.ty, sp.n, t - shift, ity, in));
                }
            },
            parent, nm);
    }
    case Kind::Memory:
        switch (n.ty)
        {
        case Ty::S: return make_shared<pooya::Memory>(n.ic[0], parent, nm);
        case Ty::I: return make_shared<pooya::MemoryI>(int(n.ic[0]), parent, nm);
        case Ty::B: return make_shared<pooya::MemoryB>(n.ic[0] != 0, parent, nm);
        default: return make_shared<pooya::MemoryA>(ic(), parent, nm);
        }
    case Kind::Delay:
        if (A) return make_shared<pooya::DelayA>(n.par1, parent, nm);
        return make_shared<pooya::Delay>(n.par1, parent, nm);
    case Kind::Deriv:
        if (A) return make_shared<pooya::DerivativeA>(ic(), parent, nm);
        return make_shared<pooya::Derivative>(n.ic[0], parent, nm);
    case Kind::InitVal:
        if (A) return make_shared<pooya::InitialValueA>(parent, nm);
        return make_shared<pooya::InitialValue>(parent, nm);
    case Kind::Integ:
        if (A) return make_shared<pooya::IntegratorA>(ic(), parent, nm);
        return make_shared<pooya::Integrator>(n.ic[0], parent, nm);
    case Kind::TrigInt:
        if (A) return make_shared<pooya::TriggeredIntegratorA>(ic(), parent, nm);
        return make_shared<pooya::TriggeredIntegrator>(n.ic[0], parent, nm);
    case Kind::UserState:
        return make_shared<UserState>(n.ic[0], n.ic[1], n.par1, n.par2, S(n.out[0]), S(n.out[1]), S(n.out[2]), parent, nm);
    case Kind::UserStateA: return make_shared<UserStateA>(ic(), n.par1, S(n.out[0]), S(n.out[1]), parent, nm);
    case Kind::Keep: return make_shared<Keep>(*this, node, parent, nm);
    }
    return nullptr;
}

namespace
{
struct Tree
{
    std::vector<std::pair<std::string, int>> kids; // label, index of a subtree (>= 0) or ~signal
    static pooya::Bus build(const std::vector<std::vector<std::string>>& paths, const std::vector<pooya::Signal>& sig,
                            const std::vector<std::size_t>& idx, std::size_t depth)
    {
        std::vector<std::pair<std::string, pooya::Signal>> v;
        std::vector<std::string> seen;
        for (auto i : idx)
        {
            auto& lab = paths[i][depth];
            if (std::find(seen.begin(), seen.end(), lab) != seen.end()) continue;
            seen.push_back(lab);
            if (paths[i].size() == depth + 1)
                v.emplace_back(lab, sig[i]);
            else
            {
                std::vector<std::size_t> sub;
                for (auto j : idx)
                    if (paths[j].size() > depth + 1 && paths[j][depth] == lab) sub.push_back(j);
                v.emplace_back(lab, build(paths, sig, sub, depth + 1));
            }
        }
        return make_bus(v);
    }
};
} // namespace

void Diagram::build()
{
    for (auto& s : m.sigs)
    {
        const uint64_t h = (m.derived + sigs.size()) * 0x9e3779b97f4a7c15ULL;
        sigs.push_back(make_signal(s.ty, s.n, s.name, m.derived && (h >> 40) % 2));
    }
    blocks.resize(m.nodes.size());
    group_blocks.resize(m.groups.size());
    subs.resize(m.sub_parent.size());

    for (int k = 0; k < m.outer; k++) around.push_back(std::make_shared<pooya::Submodel>(k ? around.back().get() : _host, "around" + std::to_string(k)));
    if (m.outer) bystander(*around.back());
    if (m.outer > 1) bystander(*around.front());
    build_model();
    if (m.outer) bystander(*around.back());
}

void Diagram::build_model()
{
    pooya::Submodel* host = m.outer ? around.back().get() : _host;
    if (m.bare)
    {
        std::optional<pooya::Bus> ib, ob;
        buses(0, ib, ob);
        blocks[0] = make_block(0, m.ctor_parent ? host : nullptr);
        if (host && !m.ctor_parent)
            host->add_block(*blocks[0], *ib, *ob);
        else
            blocks[0]->connect(*ib, *ob);
        return;
    }

    root = std::make_shared<RootModel>(m.ctor_parent ? host : nullptr, "root");
    if (host && !m.ctor_parent) host->add_block(*root);
    root->on_input = [this](double t)
    {
        if (m.no_callback) inputs_cb(*root, t);
        write_exts(t, true);
    };

    if (m.ctor_parent)
        for (std::size_t s = 0; s < subs.size(); s++)
            subs[s] = std::make_shared<pooya::Submodel>(parent_of(m.sub_parent[s]), m.sub_name[s]);
    else
        for (std::size_t s = 0; s < subs.size(); s++) subs[s] = std::make_shared<pooya::Submodel>(nullptr, m.sub_name[s]);

    for (auto& [what, k] : m.order)
    {
        if (what == 2)
        {
            if (!m.ctor_parent) parent_of(m.sub_parent[std::size_t(k)])->add_block(*subs[std::size_t(k)]);
        }
        else if (what == 0)
        {
            auto& n = m.nodes[std::size_t(k)];
            std::optional<pooya::Bus> ib, ob;
            buses(k, ib, ob);
            auto* parent = parent_of(n.parent);
            auto& b      = blocks[std::size_t(k)];
            b            = make_block(k, m.ctor_parent ? parent : nullptr);
            if (m.ctor_parent)
                b->connect(*ib, *ob);
            else
                parent->add_block(*b, *ib, *ob);
        }
        else
        {
            auto& g      = m.groups[std::size_t(k)];
            auto* parent = parent_of(g.parent);
            std::vector<std::vector<std::string>> ip, op;
            std::vector<pooya::Signal> is, os;
            std::vector<std::size_t> idx;
            for (std::size_t i = 0; i < g.entries.size(); i++)
            {
                auto& ei = g.entries[std::size_t(g.in_order[i])];
                auto& eo = g.entries[std::size_t(g.out_order[i])];
                ip.push_back(ei.path);
                is.push_back(sigs[std::size_t(ei.in)]);
                op.push_back(eo.path);
                os.push_back(sigs[std::size_t(eo.out)]);
                idx.push_back(i);
            }
            auto ib = Tree::build(ip, is, idx, 0), ob = Tree::build(op, os, idx, 0);
            std::vector<std::string> excl;
            std::vector<pooya::BusMemory::LabelValue> iv;
            for (auto& e : g.entries)
            {
                std::string l;
                for (auto& p : e.path) l += (l.empty() ? "" : ".") + p;
                if (e.excluded) excl.push_back(l);
                if (e.has_ic)
                {
                    auto& n = m.nodes[std::size_t(e.node)];
                    switch (n.ty)
                    {
                    case Ty::S: iv.emplace_back(l, n.ic[0]); break;
                    case Ty::I: iv.emplace_back(l, int(n.ic[0])); break;
                    case Ty::B: iv.emplace_back(l, n.ic[0] != 0); break;
                    default: iv.emplace_back(l, to_array(n.ic));
                    }
                }
            }
            std::shared_ptr<pooya::Block> b;
            if (g.memory)
                b = std::make_shared<pooya::BusMemory>(*parent, ilist(iv), ilist(excl));
            else
                b = std::make_shared<pooya::BusPipe>(*parent, ilist(excl));
            if (m.ctor_parent)
                b->connect(ib, ob);
            else
                parent->add_block(*b, ib, ob);
            group_blocks[std::size_t(k)] = b;
        }
    }
}

// ---- steppers -------------------------------------------------------------------------------------------------------

void SpyStepper::step(StepperCallback callback, double t0, const pooya::Array& v0, double t1, pooya::Array& v1, double& new_h)
{
    if (log.size() >= max_attempts) throw pbt::Failure("the solver was asked for more than " + std::to_string(max_attempts) + " sub-steps");
    if (on_attempt) on_attempt(t0, t1);
    Attempt a{t0, t1, 0, 0, {}};
    _inner.step(
        [&](double t, const pooya::Array& v) -> const pooya::Array&
        {
            a.evals++;
            a.eval_t.push_back(t);
            const pooya::Array& r = callback(t, v);
            if (on_eval_done) on_eval_done(t);
            return r;
        },
        t0, v0, t1, v1, new_h);
    a.new_h = new_h;
    log.push_back(a);
}

void ScriptedStepper::step(StepperCallback callback, double t0, const pooya::Array& v0, double t1, pooya::Array& v1, double& new_h)
{
    if (count >= max_attempts) throw pbt::Failure("the solver was asked for more than " + std::to_string(max_attempts) + " sub-steps");
    const double h = t1 - t0;
    auto trial     = [&](double t, double scale, double shift)
    {
        const pooya::Array v = v0 * scale + shift;
        callback(t, v);
    };
    if (extra) extra(count, t0, h, trial);
    pooya::Array k = callback(t0, v0);
    if (midpoint)
    {
        if (extra) extra(count + 1000003, t0, h, trial);
        k = callback(t0 + h / 2, v0 + (h / 2) * k);
    }
    v1 = v0 + h * k;
    if (extra) extra(count + 2000003, t0, h, trial);
    new_h = proposal ? proposal(count, t0, h) : h;
    count++;
}

// ---- comparison with the reference ------------------------------------------------------------------------------------

std::string RunPlan::describe() const
{
    std::ostringstream o;
    o.precision(17);
    o << "  " << sim_name(sim) << " with " << ref::method_name(method) << (explicit_init ? ", init(" : ", first run(") << t0 << "), steps in ["
      << min_step << ", " << max_step << "], run at";
    for (auto t : times) o << " " << t;
    return o.str();
}

RunPlan gen_plan(pbt::Choices& c, const ref::Model& m, int max_steps, bool repeats)
{
    RunPlan p;
    p.sim    = SimKind(c.draw(3));
    p.method = ref::Method(c.draw(3));
    p.t0     = c.weighted({6, 1, 1, 1}) == 0 ? 0.0 : c.moderate(20);
    int n    = max_steps > 3 && c.chance(1, 64) ? int(c.range(max_steps, 150)) : int(c.range(1, max_steps));
    const int weight = m.weight();
    n        = std::min(n, std::max(max_steps, 4000 / (weight + 20)));
    double t = p.t0, longest = 0;
    double dt = c.oneof({0.1, 0.25, 0.5, 0.0, 0.0});
    for (int i = 0; i < n; i++)
    {
        double d = dt > 0 ? dt : c.flip() ? c.uniform(0.002, 1.2) : double(c.range(1, 16)) / 16;
        double t2 = t + d;
        if (repeats && c.chance(1, 5)) t2 = t;
        longest  = std::max(longest, t2 - t);
        t        = t2;
        p.times.push_back(t);
    }
    if (m.num_states() > 0)
    {
        if (longest == 0) longest = 1;
        p.min_step = longest / double(c.range(2, n * weight > 1500 ? 6 : 24));
        p.max_step = p.min_step * c.uniform(1.1, 30);
    }
    p.explicit_init = c.flip();
    return p;
}

std::string compare(const ref::Model& m, const ref::Snap& want, const LSnap& got, RunStats& st)
{
    for (std::size_t s = 0; s < m.sigs.size(); s++)
    {
        auto& w = want[s];
        auto& g = got[s];
        std::ostringstream o;
        o.precision(17);
        if (w.assigned != g.assigned)
        {
            o << "signal " << m.sigs[s].name << " is " << (g.assigned ? "assigned" : "unassigned") << " but should be "
              << (w.assigned ? "assigned" : "unassigned");
            return o.str();
        }
        if (!w.assigned) continue;
        if (w.x.size() != g.x.size())
        {
            o << "signal " << m.sigs[s].name << " has " << g.x.size() << " elements instead of " << w.x.size();
            return o.str();
        }
        for (std::size_t i = 0; i < w.x.size(); i++)
        {
            if (!ref::usable(w.x[i]))
            {
                st.undecidable++;
                continue;
            }
            st.compared++;
            st.max_abs = std::max(st.max_abs, std::fabs(w.x[i].v));
            if (!ref::close(w.x[i], g.x[i]))
            {
                o << "signal " << m.sigs[s].name << "[" << i << "] is " << g.x[i] << " but should be " << w.x[i].v << " (+-"
                  << ref::tol_of(w.x[i]) << ")";
                return o.str();
            }
        }
    }
    return "";
}

RefRun::RefRun(const ref::Model& m, ref::Method meth, bool stateless) : in(m), _meth(meth), _stateless(stateless) {}

void RefRun::init(double t0)
{
    in.pre();
    in.eval(Num(t0), in.states());
    ends.push_back({t0, in.sig});
    in.post(t0);
    t_prev = t0;
}

static void expect_time(double want, double got, const char* what)
{
    // the chain of sub-step ends is computed from the same doubles; allow for a different order of additions only
    if (!(std::fabs(want - got) <= 1e-12 * (1 + std::fabs(want))))
    {
        std::ostringstream o;
        o.precision(17);
        o << "sub-step " << what << " is " << got << " but should be " << want;
        throw pbt::Failure(o.str());
    }
}

void RefRun::run(double t, double min_step, double max_step, const std::vector<Attempt>& log, std::size_t& pos, RunStats& st,
                 bool custom_proposals)
{
    if (_stateless)
    {
        in.pre();
        in.eval(Num(t), {});
        ends.push_back({t, in.sig});
        in.post(t);
        t_prev = t;
        return;
    }
    if (t == t_prev)
    {
        in.pre();
        in.eval(Num(t), in.states());
        ends.push_back({t, in.sig});
        in.post(t);
        return;
    }
    double t1 = t_prev, len = std::min(max_step, t - t1);
    bool forced = false;
    bool last   = t1 + len >= t || len == t - t1; // this attempt reaches t
    while (true)
    {
        if (pos >= log.size()) throw pbt::Failure("the solver was not asked for a sub-step from " + std::to_string(t1));
        const Attempt& a = log[pos++];
        st.attempts++;
        st.evals += a.evals;
        expect_time(t1, a.t0, "start");
        double want_end = last ? t : t1 + len;
        expect_time(want_end, a.t1, "end");
        last = a.t1 == t;
        in.pre();
        auto x0    = in.states();
        auto deriv = [&](Num tt, const std::vector<Num>& x)
        {
            in.eval(tt, x);
            return in.derivs();
        };
        auto so = step_override ? step_override(deriv, a.t0, x0, a.t1) : ref::method_step(_meth, deriv, a.t0, x0, a.t1);
        double h = a.t1 - a.t0;
        if (!custom_proposals)
        {
            // the proposed length must follow the method's rule (which may hinge on rounding)
            bool ok = false;
            std::ostringstream o;
            o.precision(17);
            o << "the solver proposed the step length " << a.new_h << " after a step of " << h << " instead of";
            for (double q : ref::proposals(_meth, so, h))
            {
                ok |= std::fabs(a.new_h - q) <= 1e-12 * std::fabs(q);
                o << " " << q;
            }
            if (!ok) throw pbt::Failure(o.str());
        }
        const double clamped = std::max(min_step, std::min(a.new_h, max_step));
        if (forced || a.new_h >= h || h <= min_step)
        {
            forced = false;
            t1     = a.t1;
            if (t1 == t)
            {
                // accepted: the end of the run
                in.eval(Num(t), so.v1);
                ends.push_back({t, in.sig});
                in.post(t);
                break;
            }
            st.substeps++;
            in.eval(Num(t1), so.v1);
            ends.push_back({t1, in.sig});
            in.post(t1);
            last = t1 + clamped >= t;
            len  = clamped;
        }
        else
        {
            st.rejected++;
            forced = a.new_h <= min_step;
            len    = clamped;
            last   = t1 + clamped >= t;
        }
    }
    t_prev = t;
}

LibTrace run_library(const ref::Model& m, const RunPlan& p, pooya::StepperBase* stepper, const std::function<void(Diagram&)>& prepare)
{
    LibTrace tr;
    Diagram d(m);
    if (prepare) prepare(d);
    std::shared_ptr<pooya::StepperBase> own;
    if (!stepper)
    {
        own     = make_stepper(p.method);
        stepper = own.get();
    }
    SpyStepper spy(*stepper);
    if (d.root) d.root->on_post = [&](double t) { tr.at_ends.emplace_back(t, d.snap()); };
    auto sim = make_sim(p.sim, d.model(), d.callback(), m.num_states() ? &spy : nullptr);
    if (p.explicit_init)
        sim->init(p.t0);
    else
        sim->run(p.t0, p.min_step, p.max_step);
    tr.at_requests.emplace_back(p.t0, d.snap());
    for (double t : p.times)
    {
        p.default_limits ? sim->run(t) : sim->run(t, p.min_step, p.max_step);
        tr.at_requests.emplace_back(t, d.snap());
    }
    tr.attempts = spy.log;
    return tr;
}

std::string diff(const ref::Model& m, const std::vector<std::pair<double, LSnap>>& a, const std::vector<std::pair<double, LSnap>>& b)
{
    std::ostringstream o;
    o.precision(17);
    for (std::size_t i = 0; i < std::min(a.size(), b.size()); i++)
    {
        if (a[i].first != b[i].first)
        {
            o << "times differ: " << a[i].first << " vs " << b[i].first;
            return o.str();
        }
        for (std::size_t s = 0; s < m.sigs.size(); s++)
            if (!(a[i].second[s] == b[i].second[s]))
            {
                o << "signal " << m.sigs[s].name << " at t=" << a[i].first << ": " << show(a[i].second[s]) << " vs " << show(b[i].second[s]);
                return o.str();
            }
    }
    if (a.size() != b.size())
    {
        o << "numbers of snapshots differ: " << a.size() << " vs " << b.size();
        return o.str();
    }
    return "";
}

RunStats run_against_reference(pbt::Ctx& ctx, const ref::Model& m, const RunPlan& p, const RunOpts& o)
{
    RunStats st;
    const std::size_t depth = trace_depth();
    Diagram d(m);
    auto own = make_stepper(p.method);
    SpyStepper spy(o.stepper ? *o.stepper : *own);
    d.expect_called = o.expect_called;
    if (o.ext) d.ext_override = o.ext;
    if (o.prepare) o.prepare(d);
    std::vector<std::pair<double, LSnap>> ends;
    if (d.root)
        d.root->on_post = [&](double t)
        {
            d.evaluation_complete("step end");
            ends.emplace_back(t, d.snap());
            if (o.on_end) o.on_end(d, t);
        };
    spy.on_eval_done = [&](double t)
    {
        d.evaluation_complete("derivative evaluation");
        if (o.on_eval) o.on_eval(d, t);
    };
    auto sim = make_sim(p.sim, d.model(), d.callback(), m.num_states() ? &spy : nullptr);
    RefRun rr(m, p.method, m.num_states() == 0);
    rr.step_override = o.step_override;
    if (o.ext)
        rr.in.ext_override = [&](const ref::Ext& e, Num t)
        {
            auto v = o.ext(e, t.v);
            return std::vector<Num>(v.begin(), v.end());
        };

    auto check_call = [&](double t, bool is_init)
    {
        if (!d.problem.empty()) ctx.fail(d.problem);
        CHECK(ctx, trace_depth() == depth, "diagnostic trace is not balanced after the call for t=" << t);
        auto now = d.snap();
        for (auto& v : now)
            for (double x : v.x) ctx.mix(x);
        if (st.ambiguous) return;
        try
        {
            rr.ends.clear();
            if (is_init)
                rr.init(t);
            else
            {
                std::size_t pos = 0;
                rr.run(t, p.min_step, p.max_step, spy.log, pos, st, o.custom_proposals);
                CHECK(ctx, pos == spy.log.size(), "the solver was asked for " << spy.log.size() << " sub-steps instead of " << pos << " up to t=" << t);
            }
        }
        catch (const ref::Ambiguous&)
        {
            st.ambiguous = true;
            return;
        }
        CHECK(ctx, !rr.ends.empty(), "no step end");
        auto msg = compare(m, rr.ends.back().second, now, st);
        CHECK(ctx, msg.empty(), "at t=" << t << ": " << msg);
        if (d.root)
        {
            CHECK(ctx, ends.size() == rr.ends.size(),
                  "the model was notified of " << ends.size() << " step ends instead of " << rr.ends.size() << " up to t=" << t);
            for (std::size_t i = 0; i < ends.size(); i++)
            {
                CHECK(ctx, std::fabs(ends[i].first - rr.ends[i].first) <= 1e-12 * (1 + std::fabs(ends[i].first)),
                      "step end notified at " << ends[i].first << " instead of " << rr.ends[i].first);
                msg = compare(m, rr.ends[i].second, ends[i].second, st);
                CHECK(ctx, msg.empty(), "at the step end t=" << ends[i].first << ": " << msg);
            }
        }
        if (o.after)
        {
            std::vector<double> e;
            for (auto& x : rr.ends) e.push_back(x.first);
            o.after(d, t, e, spy.log);
        }
    };

    if (p.explicit_init)
        sim->init(p.t0);
    else
        sim->run(p.t0, p.min_step, p.max_step);
    check_call(p.t0, true);
    for (double t : p.times)
    {
        ends.clear();
        spy.log.clear();
        p.default_limits ? sim->run(t) : sim->run(t, p.min_step, p.max_step);
        check_call(t, false);
    }
    return st;
}

} // namespace lib
