// Reference semantics of block diagrams: random diagram specifications and an independent interpreter for them.
// Nothing in here uses the library under test.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

#include "engine.hpp"

namespace ref
{

// ---- a floating-point number with a running bound of its rounding error -------------------------------------------
struct Num
{
    double v{0};
    double e{0};
    Num() = default;
    Num(double x) : v(x), e(0) {}
    Num(double x, double err) : v(x), e(err) {}
};
constexpr double U = 4 * 0x1p-53;
inline Num operator+(Num a, Num b)
{
    double r = a.v + b.v;
    return {r, a.e + b.e + U * std::fabs(r)};
}
inline Num operator-(Num a, Num b)
{
    double r = a.v - b.v;
    return {r, a.e + b.e + U * std::fabs(r)};
}
inline Num operator*(Num a, Num b)
{
    double r = a.v * b.v;
    return {r, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e + U * std::fabs(r)};
}
inline Num operator/(Num a, Num b)
{
    double r = a.v / b.v, d = std::fabs(b.v) - b.e;
    double e = d > 0 ? (a.e + std::fabs(r) * b.e) / d : INFINITY;
    return {r, e + U * std::fabs(r)};
}
inline Num operator-(Num a) { return {-a.v, a.e}; }
inline Num sin(Num a) { return {std::sin(a.v), a.e + U * (1 + std::fabs(a.v) * 0)}; }
inline Num tanh(Num a) { return {std::tanh(a.v), a.e + U}; }
inline double tol_of(Num a) { return 1e3 * a.e; }
// can a value produced by a correct implementation be distinguished from a wrong one?
inline bool usable(Num a) { return a.e == 0 || (std::isfinite(a.v) && a.e <= 1e-5 * (1 + std::fabs(a.v))); }
bool close(Num want, double got);

// a comparison whose outcome depends on rounding: the remainder of the case is not decidable
struct Ambiguous
{
};
inline bool gt(double a, double c) { return a > c; }
inline bool gt(Num a, double c)
{
    if (!(std::fabs(a.v - c) > 1e3 * a.e)) throw Ambiguous();
    return a.v > c;
}
inline double val_of(double x) { return x; }
inline double val_of(Num x) { return x.v; }

// ---- specification -------------------------------------------------------------------------------------------------
enum class Ty { S, I, B, A };
const char* ty_name(Ty);

struct SigSpec
{
    Ty ty{Ty::S};
    int n{1};
    std::string name;
    double bound{0}; // static bound of integer signals
};

enum class Kind
{
    Add, Sub, Mul, Div, Gain, Const, Source, Sources, Pipe, SisoFn, SoFn, Fn, Memory, Delay, Deriv, InitVal, Integ, TrigInt,
    UserState, // user leaf: states x, xd with xd' = tau - c xd - k sin(x) (scalar)
    UserStateA, // user leaf: array state x with x' = tau - k x
    Keep        // user leaf: functions of inputs it requires and of what others, which it does not require, were at the last step
};
const char* kind_name(Kind);

// parameters of the user functions handed to the library; `out[j]` of the function is out_fn(j, ...)
struct FnPar
{
    double a{1}, b{0}, w{1}, p{0}, q{0};
    int form{0};
    int k1{0}, k2{1};
    std::vector<double> weights; // one per input
};

struct Node
{
    Kind kind{};
    Ty ty{Ty::S};
    int n{1};
    std::vector<int> in, out;
    std::vector<int> spare; // further outputs, which a user function never writes
    std::vector<FnPar> fn; // one per output
    std::vector<double> ic; // initial value/constant/gain...
    double par1{0}, par2{0};
    int parent{-1}; // submodel (-1: root)
    int group{-1};  // built as part of a bus-wide block
    std::string name;
    std::vector<int> port_order; // delay: order in which the labelled inputs are given
    std::vector<char> late;      // keep: the inputs that are not required
    // does the output depend on this input at once?
    bool through(std::size_t port) const { return kind != Kind::Memory && kind != Kind::Integ && kind != Kind::TrigInt && !(kind == Kind::Keep && late[port]); }
};

struct GroupEntry
{
    int node{-1};              // -1: excluded
    int in{-1}, out{-1};       // signals
    std::vector<std::string> path;
    bool excluded{false}, has_ic{false};
};
struct Group
{
    bool memory{true}; // bus memory or bus pipe
    int parent{-1};
    std::vector<GroupEntry> entries;
    std::vector<int> in_order, out_order; // order in which the entries are put into the buses
};

struct Ext
{
    int sig{-1};
    FnPar fn;
    bool hook{false}; // written by the model's own input hook instead of the callback
};

struct Model
{
    std::vector<SigSpec> sigs;
    std::vector<Node> nodes; // in feed-through order
    std::vector<Group> groups;
    std::vector<Ext> exts;
    std::vector<int> sub_parent; // submodels
    std::vector<std::string> sub_name;
    // declaration order: items are (0,node) (1,group) (2,submodel)
    std::vector<std::pair<int, int>> order;
    bool bare{false};        // the only block is the model
    bool ctor_parent{false}; // parents given to constructors where possible
    bool no_callback{false}; // the simulator is given no input callback: the model's own hook does its work
    int outer{0};            // the model is a part of a larger one: number of submodels around it
    uint64_t derived{0};     // not 0: signals s of which mix(derived + s) is odd are of classes derived from the library's

    int add_sig(Ty ty, int n, const std::string& name = "");
    int producer(int sig) const;
    bool has(Kind k) const;
    int num_states() const;
    int weight() const; // what an evaluation costs
    std::string describe() const;
};

struct GenOpts
{
    int typical_nodes{7}, max_nodes{40};
    int min_nodes{1};
    bool states{true};     // integrators and the like
    bool long_run{false};  // for very many evaluations: no deep nests
    bool memories{true};   // memory
    bool delays{true}, derivs{true}, initvals{true}, triggers{true};
    bool groups{true};
    bool user_states{true};
    bool ints{true}, arrays{true};
    bool subs{true};
    bool externals{true};
    bool allow_bare{true};
    int max_array{5};
};
Model gen_model(pbt::Choices& c, const GenOpts& o);
void gen_structure(pbt::Choices& c, Model& m, const GenOpts& o); // submodels, parents, declaration order
void append(Model& a, const Model& b); // adds the blocks of b (its structure has to be generated again)
void prune_exts(Model& m); // drops the inputs that no block is connected to
FnPar gen_fn(pbt::Choices& c, std::size_t n_inputs);
// building blocks of hand-made specifications: adds a node with one output and returns its signal
int add_node(Model& m, Kind k, Ty ty, int n, const std::vector<int>& in, const std::vector<double>& ic = {});
int add_ext(Model& m, Ty ty, int n);
std::vector<double> gen_values(pbt::Choices& c, Ty ty, int n, bool special = false);
// a fixed pseudo-random function of (seed, signal, time)
std::vector<double> table_values(uint64_t seed, int sig, Ty ty, int n, double t, bool special);

// ---- user functions --------------------------------------------------------------------------------------------------
template<class T>
T reduce(Ty ty, const std::vector<T>& x)
{
    using std::sin;
    using std::tanh;
    switch (ty)
    {
    case Ty::S: return tanh(x[0] * T(0.25)) * T(4);
    case Ty::I: return T(0.125) * x[0];
    case Ty::B: return x[0];
    default:
    {
        T s(0);
        for (std::size_t i = 0; i < x.size(); i++) s = s + sin(x[i]) * T(1.0 + double(i % 7));
        return s;
    }
    }
}

template<class T>
std::vector<T> fn_eval(const FnPar& f, Ty oty, int on, T t, const std::vector<Ty>& ity, const std::vector<std::vector<T>>& in)
{
    using std::sin;
    using std::tanh;
    T s(f.b);
    for (std::size_t k = 0; k < in.size(); k++) s = s + T(f.weights.at(k)) * reduce(ity[k], in[k]);
    switch (oty)
    {
    case Ty::S:
        switch (f.form)
        {
        case 0: return {T(f.a) * sin(T(f.w) * t + s) + T(f.p)};
        case 1: return {s + T(f.q) * t};
        case 2: return {T(f.a) * tanh(s) + T(f.q) * sin(t)};
        default: return {T(f.a) * s + T(f.p)};
        }
    case Ty::I: return {T(gt(sin(T(f.w) * t + s), f.p * 0.4) ? f.k1 : f.k2)};
    case Ty::B: return {T(gt(sin(T(f.w) * t + s), f.p * 0.4) ? 1 : 0)};
    default:
    {
        std::vector<T> r;
        for (int i = 0; i < on; i++)
        {
            // element-wise where an input has the same size
            T x = s;
            for (std::size_t k = 0; k < in.size(); k++)
                if (ity[k] == Ty::A && int(in[k].size()) == on) x = x + T(0.5) * tanh(in[k][std::size_t(i)]);
            r.push_back(T(f.a) * sin(T(f.w) * t + x + T(0.75 * i)) + T(f.p + i * f.q));
        }
        return r;
    }
    }
}
// element-wise single-input function
template<class T>
std::vector<T> siso_eval(const FnPar& f, T t, const std::vector<T>& x)
{
    using std::sin;
    std::vector<T> r;
    for (auto& e : x) r.push_back(T(f.a) * sin(T(f.weights.at(0)) * e + T(f.w) * t) + T(f.b) * e);
    return r;
}

// ---- interpreter -------------------------------------------------------------------------------------------------
struct Val
{
    bool assigned{false};
    std::vector<Num> x;
};
using Snap = std::vector<Val>;

class Interp
{
public:
    explicit Interp(const Model& m);

    const Model& m;
    Snap sig;

    // the external inputs (signal values written before each evaluation), from the model's exts by default
    std::function<std::vector<Num>(const Ext&, Num t)> ext_override;

    void pre();
    void eval(Num t, const std::vector<Num>& x);
    void post(double t);
    std::vector<Num> states() const; // as set by the last pre()
    std::vector<Num> derivs() const; // after eval
    bool all_assigned() const;

private:
    struct St
    {
        std::vector<Num> mem;
        std::vector<double> ht;
        std::vector<std::vector<Num>> hx;
        bool first{true}, trig{false};
        double tp{0};
        std::vector<Num> xp, y;
        std::vector<Num> integ, integ2;
    };
    std::vector<St> _st;
    bool eval_node(std::size_t k, Num t);
};

using Deriv = std::function<std::vector<Num>(Num, const std::vector<Num>&)>;
enum class Method { Euler, Rk4, Rkf45 };
const char* method_name(Method);
struct StepOut
{
    std::vector<Num> v1;
    bool ratio_exact_one{false}; // rkf45: the error is exactly zero
    double err_max{0}, err_rounding{0}; // largest error component and its uncertainty
    std::vector<std::pair<Num, std::vector<Num>>> points; // evaluation points
};
// the step lengths a correct implementation may propose after a step of length h (several when rounding decides)
std::vector<double> proposals(Method m, const StepOut& so, double h);
StepOut method_step(Method m, const Deriv& f, double t0, const std::vector<Num>& v0, double t1);

} // namespace ref
