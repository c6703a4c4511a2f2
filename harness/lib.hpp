// Bridges diagram specifications (ref.hpp) to real objects of the library under test.
#pragma once
#include <cstring>
#include <functional>
#include <initializer_list>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "ref.hpp"

#include "src/block/block.hpp"
#include "src/block/submodel.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"
#include "src/solver/simulator_base.hpp"
#include "src/solver/stepper_base.hpp"

namespace lib
{

// an initializer_list (over v's elements: v must outlive it) whose size is only known at run time (the library's constructors take nothing else)
template<class T>
std::initializer_list<T> ilist(const std::vector<T>& v)
{
    struct Raw
    {
        const T* p;
        std::size_t n;
    } raw{v.data(), v.size()};
    std::initializer_list<T> l;
    static_assert(sizeof(l) == sizeof(raw), "unexpected layout");
    std::memcpy(static_cast<void*>(&l), &raw, sizeof(raw));
    return l;
}

pooya::Bus make_bus(const std::vector<pooya::Signal>& v, const std::string& name = "");
pooya::Bus make_bus(const std::vector<std::pair<std::string, pooya::Signal>>& v, const std::string& name = "");

#if !defined(NDEBUG)
constexpr bool checked_build = true;
std::size_t trace_depth();
#else
constexpr bool checked_build = false;
inline std::size_t trace_depth() { return 0; }
#endif

// derived: of a class derived from the library's
pooya::Signal make_signal(ref::Ty ty, int n, const std::string& name, bool derived = false);

struct LVal
{
    bool assigned{false};
    std::vector<double> x;
    bool operator==(const LVal& o) const;
};
using LSnap = std::vector<LVal>;
LVal read(const pooya::Signal& s);
void write(const pooya::Signal& s, ref::Ty ty, const std::vector<double>& x);
std::string show(const LVal& v);

inline pooya::Array to_array(const std::vector<double>& v)
{
    pooya::Array a(Eigen::Index(v.size()));
    for (std::size_t i = 0; i < v.size(); i++) a[Eigen::Index(i)] = v[i];
    return a;
}
inline std::vector<double> to_vec(const pooya::Array& a)
{
    std::vector<double> v(std::size_t(a.size()));
    for (std::size_t i = 0; i < v.size(); i++) v[i] = a[Eigen::Index(i)];
    return v;
}

struct Attempt
{
    double t0, t1, new_h;
    uint64_t evals;
    std::vector<double> eval_t;
};

enum class SimKind { Plain, Reuse, Fast };
const char* sim_name(SimKind);
std::shared_ptr<pooya::SimulatorBase> make_sim(SimKind k, pooya::Block& model, pooya::SimulatorBase::InputCallback cb,
                                               pooya::StepperBase* st);
// (shared pointers: neither class has a virtual destructor)
std::shared_ptr<pooya::StepperBase> make_stepper(ref::Method m);

// root submodel with observable hooks
class RootModel : public pooya::Submodel
{
public:
    using pooya::Submodel::Submodel;
    std::function<void(double)> on_input, on_pre, on_post;
    void input_cb(double t) override
    {
        if (on_input) on_input(t);
    }
    void pre_step(double t) override
    {
        if (on_pre) on_pre(t);
        pooya::Submodel::pre_step(t);
    }
    void post_step(double t) override
    {
        if (on_post) on_post(t);
        pooya::Submodel::post_step(t);
    }
};

class Diagram
{
public:
    // host: the model is made within this one
    explicit Diagram(const ref::Model& m, pooya::Submodel* host = nullptr);
    Diagram(const Diagram&) = delete;
    ~Diagram();

    const ref::Model& m;
    std::vector<pooya::Signal> sigs;
    std::vector<std::shared_ptr<pooya::Block>> blocks; // by node; null for members of groups
    std::vector<std::shared_ptr<pooya::Block>> group_blocks;
    std::vector<std::shared_ptr<pooya::Submodel>> subs;
    std::shared_ptr<RootModel> root; // null when bare
    // the larger model around the one that is simulated
    std::vector<std::shared_ptr<pooya::Submodel>> around;
    std::vector<std::shared_ptr<pooya::Block>> bystanders;
    std::vector<pooya::Signal> outside;
    void check_outside() const;

    pooya::Block& model() { return root ? static_cast<pooya::Block&>(*root) : *blocks.at(0); }
    LSnap snap() const;

    // the input callback to be given to a simulator
    void inputs_cb(pooya::Block& b, double t);
    pooya::SimulatorBase::InputCallback callback()
    {
        if (m.no_callback) return nullptr;
        return [this](pooya::Block& b, double t) { inputs_cb(b, t); };
    }
    // the user functions and inputs are functions of (time - shift)
    double shift{0};
    // optional replacement of the value of an external input
    std::function<std::vector<double>(const ref::Ext&, double)> ext_override;
    std::function<void(double)> on_inputs; // observer of the input callback (called first)
    std::function<void(int, double)> on_called; // called first by each user function, with its node
    void called(int node, double t, const pooya::Bus* ibus);

    // monitoring of user functions: number of calls since the last input callback
    uint64_t epoch{0};
    std::vector<uint64_t> calls; // per node, in the current epoch
    std::string problem;         // first problem noticed by the monitors
    void evaluation_complete(const char* where);
    bool monitor{true};
    std::vector<char> expect_called; // by node; empty: all

private:
    void write_exts(double t, bool hook);
    void build();
    void build_model();
    std::shared_ptr<pooya::Block> make_block(int node, pooya::Submodel* parent);
    void buses(int node, std::optional<pooya::Bus>& ib, std::optional<pooya::Bus>& ob);
    pooya::Submodel* _host{nullptr};
    void bystander(pooya::Submodel& parent);
    pooya::Submodel* parent_of(int p) { return p < 0 ? root.get() : subs[std::size_t(p)].get(); }
};

// ---- steppers --------------------------------------------------------------------------------------------------------
class SpyStepper : public pooya::StepperBase
{
public:
    explicit SpyStepper(pooya::StepperBase& inner) : _inner(inner) {}
    std::vector<Attempt> log;
    std::function<void(double)> on_eval_done; // after each derivative evaluation
    std::function<void(double, double)> on_attempt;
    uint64_t max_attempts{20000};
    void step(StepperCallback callback, double t0, const pooya::Array& v0, double t1, pooya::Array& v1, double& new_h) override;

private:
    pooya::StepperBase& _inner;
};

// an Euler or Heun-like stepper whose proposals follow a script and which may make extra trial evaluations
class ScriptedStepper : public pooya::StepperBase
{
public:
    bool midpoint{false};
    // proposal for the next step length, given (attempt number, t0, h); default: keep
    std::function<double(uint64_t, double, double)> proposal;
    // extra evaluations: called with the attempt number and a function that evaluates at (t, scale, shift)
    std::function<void(uint64_t, double, double, const std::function<void(double, double, double)>&)> extra;
    uint64_t count{0};
    uint64_t max_attempts{20000};
    void step(StepperCallback callback, double t0, const pooya::Array& v0, double t1, pooya::Array& v1, double& new_h) override;
};

// ---- running the library against the reference --------------------------------------------------------------------
struct RunPlan
{
    SimKind sim{};
    ref::Method method{};
    double t0{0};
    std::vector<double> times; // increasing, after t0
    double min_step{1e-3}, max_step{1};
    bool explicit_init{true};
    bool default_limits{false}; // the runs are called without limits (which are those of the defaults)
    std::string describe() const;
};
RunPlan gen_plan(pbt::Choices& c, const ref::Model& m, int max_steps = 8, bool repeats = false);

struct RunStats
{
    uint64_t compared{0}, undecidable{0}, attempts{0}, rejected{0}, substeps{0}, evals{0};
    bool ambiguous{false};
    double max_abs{0};
};
struct RunOpts
{
    pooya::StepperBase* stepper{nullptr}; // instead of the plan's method
    std::function<ref::StepOut(const ref::Deriv&, double, const std::vector<ref::Num>&, double)> step_override;
    bool custom_proposals{false};
    // values of the external inputs (exact numbers)
    std::function<std::vector<double>(const ref::Ext&, double)> ext;
    std::vector<char> expect_called;
    std::function<void(Diagram&, double)> on_eval; // after each derivative evaluation
    std::function<void(Diagram&, double)> on_end;  // at each end-of-step notification of the root
    std::function<void(Diagram&)> prepare; // before the simulator is created
    // after each init/run: the time, the accepted step ends and the attempted sub-steps of this call
    std::function<void(Diagram&, double, const std::vector<double>&, const std::vector<Attempt>&)> after;
};
// Builds the diagram, runs it by the plan and by the interpreter, and compares every signal at every accepted step end.
// Throws pbt::Failure on a disagreement.
RunStats run_against_reference(pbt::Ctx& ctx, const ref::Model& m, const RunPlan& p, const RunOpts& o = {});

// Runs the library only; one snapshot per init/run call
struct LibTrace
{
    std::vector<std::pair<double, LSnap>> at_requests; // after each init/run
    std::vector<std::pair<double, LSnap>> at_ends;     // at each end-of-step notification
    std::vector<Attempt> attempts;
};
LibTrace run_library(const ref::Model& m, const RunPlan& p, pooya::StepperBase* stepper = nullptr,
                     const std::function<void(Diagram&)>& prepare = nullptr);
std::string diff(const ref::Model& m, const std::vector<std::pair<double, LSnap>>& a,
                 const std::vector<std::pair<double, LSnap>>& b);

// compares a snapshot with the reference's values; returns an empty string or a description of the first difference
std::string compare(const ref::Model& m, const ref::Snap& want, const LSnap& got, RunStats& st);

// Follows the library's step control: consumes the logged attempts of one run() call
class RefRun
{
public:
    RefRun(const ref::Model& m, ref::Method meth, bool stateless);
    ref::Interp in;
    double t_prev{0};
    std::vector<std::pair<double, ref::Snap>> ends; // accepted step ends (cleared by the caller)
    void init(double t0);
    void run(double t, double min_step, double max_step, const std::vector<Attempt>& log, std::size_t& pos, RunStats& st,
             bool custom_proposals = false);
    // replaces the built-in one-step method (scripted steppers)
    std::function<ref::StepOut(const ref::Deriv&, double, const std::vector<ref::Num>&, double)> step_override;

private:
    ref::Method _meth;
    bool _stateless;
};

} // namespace lib
