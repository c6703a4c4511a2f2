#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Every signal equals its block's function at each evaluation",
  "For any diagram without algebraic loops, after the simulation is initialised at or advanced to a time t, every signal driven by a block holds the value that the block's function gives for its current input values at t, whatever the order in which the blocks were declared and however they are nested in submodels. In each evaluation of the diagram every block is evaluated exactly once, and only after all the inputs it depends on are known. This holds for user-written function blocks with any number of inputs and outputs as for the built-in ones.",
  ["programs", "inputs", "histories"], "all loop-free diagrams (wiring, declaration order, nesting), all external inputs, all sequences of run times",
  "The tests evaluate single blocks once; no test wires two blocks together, nests a submodel or permutes declaration order.",
  ["src/block/leaf.cpp", "src/block/submodel.cpp", "src/block/block.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp"],
  [("readiness test and process-until-no-progress", "src/block/leaf.cpp Leaf::process/ready_to_process, src/block/submodel.cpp Submodel::process"),
   ("evaluation pass", "src/solver/simulator.cpp Simulator::process_model, src/solver/fast_simulator.cpp")],
  ["signal values after init()/run()", "order and count of user callback invocations"])

p("C02", "The simulator variants are interchangeable",
  "For any diagram without algebraic loops, the plain simulator, the plain simulator that reuses its processing order, and the fast simulator produce identical values of every signal at every requested time, given the same diagram, inputs and solver. This includes diagrams with no integrator and no solver, a single bare block used as the diagram, bus-wide blocks with excluded or unconnected entries, and diagrams that another simulator has evaluated before.",
  ["programs", "inputs", "histories", "configurations"], "all loop-free diagrams x all run-time sequences x the three simulator variants x solvers",
  "Only the plain variant without order reuse is ever constructed by a test; the fast and order-reusing variants have no test at all.",
  ["src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/solver/simulator_base.cpp"],
  [("order recording and reuse", "src/solver/simulator.cpp Simulator::init/process_model"),
   ("static processing order", "src/solver/fast_simulator.cpp FastSimulator::init/process_model")],
  ["signal values after init()/run()"])

p("C03", "Algebraic loops are refused or isolated, never resolved wrongly",
  "For a diagram that contains an algebraic loop, initialising the fast simulator fails with an exception, while the plain simulator (with or without order reuse) terminates, gives every signal that does not depend on the loop its correct value, and leaves every signal on or downstream of the loop unassigned (provided that no state-holding block reads from the loop). A diagram whose cycles all pass through a memory or an integrator is not an algebraic loop and must be accepted and computed by every variant.",
  ["programs", "inputs", "configurations"], "all diagrams with zero or more cycles, with and without state-holding blocks on the cycles",
  "No test builds a cycle of any kind.",
  ["src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/block/leaf.cpp", "src/block/extra/memory.hpp", "src/block/integrator_base.hpp"],
  [("completeness check", "src/solver/fast_simulator.cpp FastSimulator::init"), ("no-progress termination", "src/solver/simulator.cpp"),
   ("non-required inputs", "src/block/extra/memory.hpp connect, src/block/integrator_base.hpp connect")],
  ["exception from init()", "assigned() and values of signals"])

p("C04", "One solver step is the textbook step",
  "A single step of the Euler, RK4 and RKF45 solvers over any first-order system (any dimension, start time, start state and step length) yields the forward-Euler, classical fourth-order Runge-Kutta, or fourth-order Runge-Kutta-Fehlberg update respectively, evaluates the derivative only at that method's stage times and stage states, and leaves the start state untouched. Euler and RK4 propose to keep the step length; RKF45 proposes to halve it when tolerance/error falls below 0.75^4, to double it above 1.5^4 and to keep it otherwise, where the ratio is (0.001 x step) / (2 x the largest component of the difference between its fourth- and fifth-order results), taken as 1 when that difference is exactly zero; a component whose difference is not a number has no part in it, so it neither affects the other components nor the proposal.",
  ["inputs"], "all ODE right-hand sides, dimensions, start states, start times and step lengths; any sequence of steps on one solver object",
  "No test uses any solver.",
  ["src/solver/euler.cpp", "src/solver/rk4.cpp", "src/solver/rkf45.cpp", "src/solver/stepper_base.hpp"],
  [("stage formulas", "Euler::step, Rk4::step, Rkf45::step")], ["v1 and new_h out-parameters", "(t, v) arguments of the derivative callback"])

p("C05", "Integrators follow the solver applied to the diagram's ODE",
  "For any diagram with integrators - scalar or array, chained, in feedback, nested in submodels, or state variables declared by user-written blocks - each integrator output starts at its initial condition and, at every requested time, equals the result of applying the selected solver step by step to the first-order system the diagram defines. For smooth linear systems the outputs converge to the exact solution at the order of the method as the step shrinks.",
  ["programs", "inputs", "histories"], "all loop-free diagrams with integrators, all initial conditions, inputs, step sequences and solvers",
  "No test contains an integrator or a solver.",
  ["src/block/integrator_base.hpp", "src/block/integrator.hpp", "src/solver/simulator_base.cpp", "src/signal/float_signal.hpp"],
  [("state gathering/scattering", "src/solver/simulator_base.cpp reset_with_state_variables/get_state_variables/run"),
   ("state restore and capture", "src/block/integrator_base.hpp pre_step/post_step")], ["integrator output signals at requested times"])

p("C06", "Sub-steps tile the requested interval within the step limits",
  "When a diagram with integrators is advanced from t0 to t, the solver is asked for a chain of accepted sub-steps that starts at t0, is gap-free and ends exactly at t, with no attempted sub-step longer than the maximum step (1 unless given) and none shorter than the minimum step (0.001 unless given) except one that reaches t. A sub-step whose solver proposes a smaller length is retried from the same time and state with the proposed length clamped to the limits, unless it already is at the minimum length or was itself forced by the minimum, in which case it is accepted; after an accepted sub-step the next length is the proposed one clamped to the limits and to the remaining interval. Every block receives exactly one end-of-step notification per accepted sub-step, at its end time and with the end-of-step signal values, and a start-of-step notification before each attempt at the attempt's start time.",
  ["histories", "inputs", "configurations"], "all sequences of requested times, step limits and solver proposals",
  "No test runs a diagram with integrators or passes step limits.",
  ["src/solver/simulator_base.cpp", "src/block/submodel.hpp"],
  [("accept/reject loop", "src/solver/simulator_base.cpp SimulatorBase::run"), ("notification fan-out", "src/block/submodel.hpp pre_step/post_step")],
  ["calls received by a user-defined solver", "pre_step/post_step of user-defined blocks"])

p("C07", "Trial evaluations leave no trace",
  "The values at accepted step ends depend only on the accepted steps: derivative evaluations that a solver makes at trial times and trial states, including those of rejected sub-steps, change neither the continuous states nor the contents of memories, delays, derivatives, triggered integrators or any later signal value. Making additional derivative evaluations at arbitrary times and states within a step, or first attempting and rejecting a longer sub-step, leaves every signal at the accepted times bit-for-bit unchanged.",
  ["programs", "histories", "inputs"], "all diagrams of built-in blocks, all sets of extra trial evaluations and rejected attempts",
  "No test drives a solver; a leak needs a rejected or extra evaluation between two accepted steps.",
  ["src/solver/simulator_base.cpp", "src/block/extra/memory.hpp", "src/block/extra/delay.hpp", "src/block/extra/derivative.hpp", "src/block/extra/triggered_integrator.hpp", "src/block/integrator_base.hpp"],
  [("state captured only at step end", "post_step of the stateful blocks"), ("signal reset before each evaluation", "src/solver/simulator_base.cpp reset_with_state_variables")],
  ["signal values at accepted step ends of two runs that differ only in trial evaluations"])

p("C08", "A memory block outputs its input of the previous accepted step",
  "At every accepted step a memory block outputs exactly the value its input had at the end of the previous accepted step (its initial condition at the first), for scalar, integer, Boolean and array signals, and keeps that output constant throughout all evaluations within the step. Chains of n memories delay by n steps, and a memory's input may depend on its own output.",
  ["inputs", "histories", "programs"], "all input sequences, types, sizes, initial conditions, chains and feedback wirings, with and without integrators",
  "The tests look at the output of one memory after initialisation only: a second step, feedback, chains, int and bool are untested.",
  ["src/block/extra/memory.hpp"], [("value captured at step end", "src/block/extra/memory.hpp post_step/activation_function")], ["output signal per step"])

p("C09", "A delay block outputs its input interpolated at the delayed time",
  "With delay d(t) between zero and the block's lifespan, the output at t is the piecewise-linear interpolation, at t - d(t), of the samples of the input at all earlier accepted steps; it is the 'initial' input while t - d(t) lies before the first sample, and the latest earlier sample when t - d(t) lies after it. This holds for any spacing of the steps, for time-varying delays, for scalars and arrays, and irrespective of how many old samples have been discarded and of the order in which the three inputs are listed.",
  ["inputs", "histories"], "all input signals, delay signals within the lifespan, lifespans and (irregular) step sequences",
  "The tests use one straight line, one constant delay far below the lifespan and one uniform step.",
  ["src/block/extra/delay.hpp"], [("sample buffer pruning and interpolation", "src/block/extra/delay.hpp post_step/activation_function")], ["output signal per step"])

p("C10", "A derivative block outputs the backward difference of its input",
  "The output of a derivative block is its initial value at the first step and afterwards (x(t) - x(t_prev)) / (t - t_prev), where t_prev is the previous accepted step; evaluated again at the time of the last accepted step, it repeats the derivative it had there. Scalars and arrays behave alike, also when the block feeds an integrator.",
  ["inputs", "histories"], "all input sequences, initial values and step sequences",
  "The derivative block has no test, and its array variant is never compiled.",
  ["src/block/extra/derivative.hpp"], [("previous time/value/derivative", "src/block/extra/derivative.hpp post_step/activation_function")], ["output signal per step"])

p("C11", "A triggered integrator restarts from zero after a triggered step",
  "A triggered integrator integrates exactly like an integrator, except that when its trigger is true at the end of an accepted step (initialisation included) its state is zero at the start of the following step; each triggered step restarts it exactly once, an untriggered step never does, and trigger values seen only by trial evaluations have no effect. The value recorded at the triggered step itself is the one before the restart.",
  ["inputs", "histories"], "all trigger and input sequences, initial conditions, solvers and simulator variants, scalar and array",
  "The triggered integrator has no test.",
  ["src/block/extra/triggered_integrator.hpp"], [("trigger latch and reset", "src/block/extra/triggered_integrator.hpp pre_step/post_step")], ["output signal per step"])

p("C12", "Arithmetic and function blocks compute their function for every signal type",
  "Add, multiply, subtract, divide, gain, constant, source, pipe and the single-output, multi-output, single-input-single-output and general function blocks set their outputs to the stated function of their inputs and time - initial value plus the sum, initial value times the product, first minus second, first over second, gain times input, and the user function applied to time and inputs - element-wise for arrays and with IEEE semantics for special values. Every signal type for which the library names a variant of the block (scalar, int, bool, array) is usable, for any number of inputs and any array size.",
  ["inputs", "programs"], "all input values (special values included), arities, array sizes, repeated and aliased inputs",
  "The tests evaluate one gain at one value per type; most array and int variants are never even compiled.",
  ["src/block/extra/add.hpp", "src/block/extra/multiply.hpp", "src/block/extra/subtract.hpp", "src/block/extra/divide.hpp", "src/block/extra/gain.hpp", "src/block/extra/const.hpp", "src/block/extra/source.hpp", "src/block/extra/sources.hpp", "src/block/extra/pipe.hpp", "src/block/extra/function.hpp", "src/block/extra/siso_function.hpp", "src/block/extra/so_function.hpp"],
  [("activation functions", "src/block/extra/*.hpp activation_function")], ["output signals"])

p("C13", "An initial-value block holds the first value of its input forever",
  "An initial-value block outputs, from the first evaluation on and at all later times, exactly the value its input had at the first evaluation, for scalars and arrays, however the input changes and whichever simulator and solver drive it.",
  ["inputs", "histories"], "all input histories, types, sizes, simulators and solvers",
  "The block has no test and is never compiled.",
  ["src/block/extra/initial_value.hpp"], [("one-time capture", "src/block/extra/initial_value.hpp activation_function")], ["output signal per step"])

p("C14", "A bus finds exactly the signals put into it",
  "A bus lists its entries in the order given, each under its label (automatic labels sig0, sig1, ... when none are given; characters outside [A-Za-z0-9_] replaced by underscores), and returns by index, by label and by dotted path through nested buses exactly the signal object that was put there - the first one when labels repeat. A lookup that matches nothing, or whose path leads through something that is not a bus, fails with an exception, or with an empty result for the optional form of lookup, and never returns a wrong signal or corrupts memory. Putting an unnamed signal into a bus names it after its label, and a signal that already has a name keeps it.",
  ["inputs", "programs"], "all bus trees (labels, nesting, sizes, duplicate labels) and all lookup strings and indices",
  "One test covers one-entry buses looked up by index.",
  ["src/signal/bus.hpp", "src/signal/signal.hpp"], [("label lookup and path descent", "src/signal/bus.hpp BusImpl::at/try_at/operator[]"), ("label sanitising and auto labels", "src/signal/bus.hpp BusImpl constructor")],
  ["returned signal identity", "exceptions", "signal names"])

p("C15", "Bus-wide memory and pipe act on every value entry of the bus",
  "A bus-wide memory (pipe) behaves exactly as if a separate memory (pipe) connected each non-excluded value entry of the input bus, at any nesting depth and of any type, to the entry of the same label path in the output bus, regardless of the order of entries; excluded entries are left untouched. Each memory starts from the initial value given for its full label path, or from zero/false/zeros of the right size when none is given.",
  ["programs", "inputs", "histories"], "all bus trees, orders of the output bus, exclusion sets and initial-value maps; all input histories and simulators",
  "No test uses bus-wide blocks.",
  ["src/block/extra/bus_block_builder.cpp", "src/block/extra/bus_memory.cpp", "src/block/extra/bus_pipe.cpp"],
  [("recursive traversal", "BusBlockBuilder::visit_bus"), ("per-entry block creation", "BusMemory::block_builder, BusPipe::block_builder")], ["output bus signals per step"])

p("C16", "A value signal is written once and read only while assigned",
  "In the checked (default) build a scalar, int, bool or array signal can be read only after a value has been assigned and until it is cleared, can be assigned only while unassigned, and an array accepts only values of its own size; every violation raises an exception that leaves value and status unchanged. A successful read returns exactly the last assigned value through every handle of the same signal; copying a handle shares the signal, whereas assigning one signal to another copies the value.",
  ["histories", "inputs"], "all sequences of assign, read, clear, copy, rebind and mismatching operations on any number of handles and all value types",
  "One test performs one fixed sequence on a scalar signal; int, bool and array signals and sharing are untested.",
  ["src/signal/scalar_signal.hpp", "src/signal/int_signal.hpp", "src/signal/bool_signal.hpp", "src/signal/array_signal.hpp", "src/signal/value_signal.hpp"],
  [("assigned flag checks", "get_value/set_value/clear of the signal classes")], ["values, assigned(), exceptions"])

p("C17", "Typed signal handles never refer to a signal of another type",
  "Creating or re-binding a typed handle (scalar, int, bool, array, bus) from an arbitrary signal succeeds exactly when that signal is of the handle's type, after which the handle denotes that very signal; otherwise it raises an exception and the handle keeps denoting, and remains fully usable with, the signal it denoted before. A signal lives as long as any handle, bus, block, simulator or history refers to it, in whatever order these are destroyed.",
  ["histories", "programs"], "all sequences of handle creation, re-binding, bus building, block connection and destruction over all signal types",
  "No test re-binds a handle, mismatches types or outlives a scope.",
  ["src/signal/signal.hpp", "src/signal/bus.hpp", "src/signal/float_signal.hpp", "src/block/block.cpp"],
  [("dynamic type check", "src/signal/signal.hpp fail_if_invalid_signal_type/SignalT::reset"), ("shared ownership", "src/signal/signal.hpp Signal")], ["identity, values, exceptions, sanitizer reports"])

p("C18", "Connecting a block enforces its port counts and happens once",
  "Connecting a block succeeds if and only if it is not connected yet and the numbers of input and output signals, and for typed blocks their types, sizes and labels, match what the block requires; a refused connection raises an exception and leaves a not-yet-connected block unconnected and connectable later, and an already connected block connected to its original signals. After a successful connection the block reports exactly the given input and output buses, in order, and every given value signal among its linked signals exactly once.",
  ["inputs", "histories", "programs"], "all block kinds, all numbers of inputs and outputs, all sequences of connection attempts",
  "No test attempts a wrong or repeated connection or looks at what a connected block reports.",
  ["src/block/block.cpp", "src/block/block.hpp", "src/block/singlei.hpp", "src/block/singleo.hpp"],
  [("port-count and reconnect checks", "src/block/block.cpp Block::connect"), ("link registration", "src/block/block.cpp Block::link_signal")], ["exceptions, connected(), ibus(), obus(), linked_signals()"])

p("C19", "The block hierarchy is a tree with stable parents, traversal and names",
  "A block has at most one parent: giving it a second, different parent is refused with its parent and connections unchanged, and giving it the same parent again has no effect. Traversing a model visits every block of the tree exactly once, each submodel before its children and children in the order they were added, with their depth, no deeper than the requested level, stopping as soon as the visitor says so, and identically for the read-only traversal; a block's full name is the path of names from the root, each preceded by '/'.",
  ["histories", "programs"], "all trees of submodels and blocks built by any sequence of construction, parenting and add operations",
  "No test builds a submodel.",
  ["src/block/submodel.cpp", "src/block/block.cpp", "src/block/block.hpp"],
  [("parenting", "Block::set_parent, Submodel::link_block/add_block"), ("traversal", "Submodel::visit/const_visit"), ("naming", "Block::full_name")], ["return values, visitor call sequences, names"])

p("C20", "Names are sanitised consistently",
  "Every name given to a block, signal, bus or label is stored with each character outside [A-Za-z0-9_] replaced by one underscore and everything else unchanged, so length is preserved and sanitising twice changes nothing; this holds for any byte string, at construction, on renaming and on assignment. Joining names inserts exactly one '/' or '.' between them, sanitises a raw right-hand name and leaves an already composed name unchanged.",
  ["inputs"], "all byte strings and all sequences of construct/rename/join operations",
  "No test checks a name.",
  ["src/shared/named_object.cpp", "src/shared/named_object.hpp"], [("character filter", "ValidName::emend"), ("joining", "ValidName::append")], ["name().str()"])

p("C21", "A history records exactly the tracked values",
  "Each recording stores, in the row given, the time and the current value of every tracked signal - all elements of an array, booleans as 0/1, and zero for a signal that has no value - and leaves all other recorded rows unchanged, however far the storage has grown, whatever its (positive) growth increment, and also when rows are overwritten or recorded out of order. Trimming keeps exactly the rows up to the highest recorded one and recording may continue afterwards; tracking accepts each value signal once and rejects buses, and untracking any signal, tracked or not, is safe and removes only that signal.",
  ["histories", "inputs"], "all sequences of track, untrack, record (any row order), trim and read, over all signal types and growth increments",
  "History has no test.",
  ["src/solver/history.cpp", "src/solver/history.hpp"], [("row storage and growth", "History::update/shrink_to_fit"), ("tracking set", "History::track/untrack")], ["time(), operator[], nrows()"])

p("C22", "The exported CSV file is the recorded table",
  "Exporting a history writes a header with 'time' and the name of each recorded signal (name[k] for element k of an array) and then one line per row up to the highest recorded one, with the time and, under each header, the value recorded for that signal in that row, to the stream's default precision; nothing else is written, whether or not the history was trimmed before and however often it is exported. A history that has recorded nothing writes no file.",
  ["histories", "inputs"], "all recorded histories (signals, types, rows, growth increments), trimmed or not",
  "History export has no test.",
  ["src/solver/history.cpp"], [("header and row output", "History::export_csv")], ["file contents"])

p("C23", "Time only moves forward, and the first run initialises",
  "The first run on a fresh simulator only initialises it at the given time, exactly like an explicit initialisation. For a diagram with integrators, running to an earlier time raises an exception and leaves states, signals and all later results unchanged; running again to the current time leaves continuous states unchanged while re-sampling the external inputs; running to a later time ends with the signals and states at exactly that time. Initialising a simulator again starts a new simulation at the given time with what the blocks hold, exactly as a new simulator on the same diagram would.",
  ["histories", "inputs"], "all sequences of requested times, including repeated and decreasing ones, for all simulator variants",
  "The tests call run() with increasing times on diagrams without integrators only.",
  ["src/solver/simulator_base.cpp"], [("implicit initialisation and time checks", "SimulatorBase::run")], ["signal values, exceptions"])

p("C24", "Simulations do not influence one another",
  "Several simulations alive in one process, stepped in any interleaving and even sharing one solver object, each produce exactly the values they produce when run alone; running the same diagram twice from fresh objects gives bit-identical values.",
  ["schedules", "programs", "histories"], "all interleavings of init/run calls of several independent diagrams and simulators",
  "No test has two simulations alive at once.",
  ["src/solver/rk4.cpp", "src/solver/rkf45.cpp", "src/solver/euler.cpp", "src/solver/stepper_base.hpp", "src/solver/simulator_base.cpp"],
  [("no shared mutable state between objects", "class members of solvers, simulators and blocks")], ["signal values"])

p("C25", "An array diagram equals its element-wise scalar diagrams",
  "A diagram built from array blocks behaves, element by element, exactly like the corresponding diagram of scalar blocks fed with the elements, up to rounding, for every array size of one or more and every block that exists in both variants, including integrators, memories, delays, derivatives and triggered integrators.",
  ["programs", "inputs", "histories"], "all diagrams of blocks available for both types, all array sizes, inputs and fixed-step solvers",
  "Tests cover three array blocks in isolation at one size each.",
  ["src/signal/array_signal.hpp", "src/solver/simulator_base.cpp", "src/block/integrator_base.hpp", "src/block/extra/delay.hpp"],
  [("type-generic blocks", "src/block/extra/*.hpp templates"), ("array state packing", "src/solver/simulator_base.cpp")], ["signal values of paired runs"])

p("C26", "External inputs are sampled at the time of every evaluation",
  "Before each evaluation of the diagram - initialisation, every solver stage, every sub-step end and the final one - and before each solver attempt, the user's input callback is called with the diagram and exactly the time being evaluated, followed by the diagram's own input hook with the same time, while all signals of the diagram other than its continuous states are unassigned. Input signals written there hold exactly those values throughout that evaluation, so a time-driven input and a source block computing the same function of time are indistinguishable.",
  ["inputs", "programs", "histories"], "all time-driven inputs, diagrams, solvers, sub-step sequences and simulator variants",
  "The tests use the callback only without integrators, where it is called once per run.",
  ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp"],
  [("callback before evaluation", "process_model of both simulators, SimulatorBase::run")], ["arguments and order of callback invocations", "signal values"])

p("C27", "Errors surface as exceptions and leave diagnostics balanced",
  "Every misuse the library checks for - reading or assigning a signal at the wrong time, wrong sizes, types, ports, labels, parents, times - raises a standard exception whose message names the cause, at the offending call and nowhere else, and never terminates the process; an exception thrown by user code during an evaluation passes through unchanged. After any library call, whether it returned or raised, the diagnostic call trace is exactly as deep as before the call, and a later valid use of the same objects works as if the failed call had not been made: a run that fails leaves the simulation at its last accepted sub-step, from which later runs continue, and a failed initialisation can be repeated.",
  ["histories", "fault_sequences", "inputs"], "all sequences of valid and invalid calls, including exceptions thrown by user callbacks at any evaluation",
  "One test expects exceptions from three calls on one signal; the trace, recovery and every other check are untested.",
  ["src/helper/trace.hpp", "src/helper/trace.cpp", "src/helper/util.cpp", "src/helper/verify.hpp"],
  [("scoped trace entries", "src/helper/trace.hpp PooyaTracer"), ("verification macros", "src/helper/verify.hpp")], ["exception type and text, trace depth"])

p("C28", "Checked and unchecked builds compute the same values",
  "For every valid use, a build with the internal checks enabled (the default) and one with them disabled produce identical signal values, histories and results.",
  ["programs", "configurations", "histories"], "all valid diagrams, inputs, run sequences and simulator variants, in both build configurations",
  "The test suite is only ever built in one configuration.",
  ["src/helper/defs.hpp", "src/helper/verify.hpp", "src/solver/simulator.cpp", "src/signal/array_signal.hpp", "src/block/extra/add.hpp"],
  [("check-only macros", "src/helper/verify.hpp, src/helper/defs.hpp")], ["digests of all signal values from two builds"])

p("C29", "Only the wiring of a diagram matters",
  "The values a diagram computes depend only on its blocks, their parameters and which signals connect them. Names, nesting in submodels, order of declaration, the way parents are given, and other blocks in the same model that do not feed it change no signal at any step, bit for bit, as long as the sub-steps are the same.",
  ["programs", "configurations"], "all diagrams, all ways of structuring, naming and ordering them, all additional blocks, all simulators and solvers",
  "Each test has one structure of one block.",
  ["src/block/submodel.cpp", "src/block/block.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/solver/simulator_base.cpp"],
  [("traversal of the hierarchy", "src/block/submodel.cpp"), ("processing order", "src/solver/simulator.cpp, src/solver/fast_simulator.cpp")], ["signal values of paired runs"])

p("C30", "Shifting time changes nothing but time",
  "When a simulation is carried out with its initial time, its requested times and the time argument of all its user functions and inputs shifted by the same amount, every signal at every step is the same, and so are the sub-steps, shifted by that amount (on time grids where the shift is exact in floating point).",
  ["inputs", "histories", "programs"], "all diagrams, runs and shifts, across zero and of both signs",
  "The tests start at time 0 only.",
  ["src/solver/simulator_base.cpp", "src/block/extra/delay.hpp", "src/block/extra/derivative.hpp", "src/solver/euler.cpp", "src/solver/rk4.cpp"],
  [("time arithmetic", "src/solver/simulator_base.cpp run; src/block/extra/delay.hpp; src/block/extra/derivative.hpp")], ["signal values and sub-steps of paired runs"])

p("C31", "Linear and homogeneous diagrams scale with their inputs",
  "In a diagram of integrators, gains, adders, subtractors, delays, memories, derivatives, products and quotients, multiplying all inputs, constants and initial values of degree d by the power of two 2^(k d) multiplies every signal of degree d by exactly that factor at every step of a fixed-step simulation.",
  ["inputs", "programs"], "all such diagrams, degrees, factors and runs",
  "The tests use one input magnitude.",
  ["src/block/extra/delay.hpp", "src/block/extra/derivative.hpp", "src/block/integrator_base.hpp", "src/solver/rk4.cpp", "src/block/extra/gain.hpp"],
  [("absence of absolute thresholds in blocks and fixed-step solvers", "src/block/extra/*.hpp, src/solver/euler.cpp, src/solver/rk4.cpp")], ["signal values of paired runs"])

p("C32", "A simulation holds bounded memory and gives all of it back",
  "However long a simulation runs, and however often it is initialised again, interrupted by exceptions or misused, the memory it holds does not grow, apart from the samples within the lifespan of delay blocks and newly recorded history rows. When all objects of a simulation have been destroyed, in whatever way their signals were wired, all memory has been released.",
  ["histories", "fault_sequences", "programs"], "all diagrams (also with states that are derivatives of each other), run lengths, sequences of re-initialisation, failure and recording",
  "The tests run at most a few hundred steps and do not look at memory.",
  ["src/signal/float_signal.hpp", "src/signal/signal.hpp", "src/block/extra/delay.hpp", "src/solver/history.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp"],
  [("pruning of samples", "src/block/extra/delay.hpp post_step"), ("shared ownership without cycles", "src/signal/*.hpp")], ["live heap blocks and bytes"])

p("C33", "Diagnostics name what is wrong, and only what is wrong",
  "In a checked build, each evaluation by a plain simulator reports exactly the blocks it could not compute, by full name, each with exactly its required signals that have no value, and nothing if all were computed. A warning is printed for each repeated step, each initialisation with a solver that has nothing to integrate, and each refused parent (naming the block), and nothing else is ever printed; the exception of a failing library call names its location and the offending label, times, port number or block, and in a checked build traces back through exactly the blocks being evaluated and all enclosing trace scopes of user code, the innermost first.",
  ["programs", "histories", "fault_sequences"], "all diagrams, complete or not, all sequences of valid and refused calls",
  "No test looks at any output or message.",
  ["src/solver/simulator.cpp", "src/solver/simulator_base.cpp", "src/helper/util.cpp", "src/helper/trace.hpp", "src/block/block.cpp", "src/block/submodel.cpp"],
  [("report of unprocessed blocks", "src/solver/simulator.cpp process_model"), ("warnings and exceptions", "src/helper/util.cpp"), ("traceback", "src/helper/trace.hpp")], ["standard output", "exception texts"])

p("C34", "Solutions converge to the exact ones at the order of the method",
  "For every system of linear differential equations with constant coefficients and sine, ramp and constant inputs, however it is drawn as a diagram, the simulated states approximate the exact solution with an error that goes to zero with the step limit at least as fast as the order of the method allows (one for Euler, four for Runge-Kutta).",
  ["inputs", "programs"], "all such systems, ways to draw them, step limits, requests and simulators",
  "No test has an integrator.",
  ["src/solver/euler.cpp", "src/solver/rk4.cpp", "src/solver/rkf45.cpp", "src/solver/simulator_base.cpp", "src/block/integrator_base.hpp"],
  [("one-step methods", "src/solver/*.cpp"), ("stage evaluation", "src/solver/simulator_base.cpp minor_solver_step_cb")], ["state values against the matrix exponential"])

p("C35", "How a run is cut into requests does not matter",
  "When two simulations of one diagram take the same sub-steps, all signals at their common step ends are the same bit for bit, whichever of these times are requested explicitly and whichever are passed on the way to a later request.",
  ["histories", "programs"], "all diagrams with continuous states, grids of sub-steps, and sets of requested times",
  "The tests have no continuous states, so that every step is requested.",
  ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp"],
  [("sub-step ends against final evaluation", "src/solver/simulator_base.cpp run")], ["signal values of paired runs"])

p("C36", "What is plotted is what was recorded",
  "Arrays, histories and matrices handed to gnuplot, alone or as columns next to each other or inside other containers, inline or by file, as text or binary, in any translation unit of a program, arrive as exactly their values, all of them, in order (a matrix as its columns one after the other), in as many rows as there are elements.",
  ["inputs", "programs"], "all values (including special ones, to the precision of the format), sizes and combinations of containers",
  "No test plots anything.",
  ["src/misc/gp-ios.hpp", "src/solver/history.hpp"],
  [("range of an array", "src/misc/gp-ios.hpp ArrayTraits"), ("matrix by file", "src/misc/gp-ios.hpp file1d")], ["commands and data sent to gnuplot"])

p("C37", "Python models compute what their diagram says",
  "For every diagram of the Python blocks without algebraic loops - scalars and arrays of any shape, nested submodels, buses, blocks and submodels of the user's own, however it is declared, named and ordered - with any inputs and parameters (which may differ from run to run) and either method or one of the user's own, the history that helper.run returns holds, for exactly the visible signals and for every requested time, the values that the block definitions (sums, products, functions, integrators by Euler or fourth-order Runge-Kutta, memories, interpolating delays, backward differences, latched initial values) give, inputs are requested once per time with the state at that time, and a model can be run on from where it stopped.",
  ["programs", "inputs", "histories"], "all such diagrams, parameters, inputs held between times, time grids and sequences of runs",
  "No test runs the Python part.",
  ["misc/py_ss/blocks.py", "misc/py_ss/helper.py", "misc/py_ss/solver.py"],
  [("activation functions and steps of the blocks", "misc/py_ss/blocks.py"), ("packing of states, evaluation and recording", "misc/py_ss/helper.py run"), ("methods", "misc/py_ss/solver.py")], ["histories returned by helper.run", "arguments of the input callback"])

p("C38", "Python models are built as they are written",
  "Whatever the order in which submodels are opened, left, opened again and nested, blocks and their signals get the names of the scope they are declared in (signals marked global keep theirs, hidden ones stay hidden, automatic ones connect a block to the one declared before), each signal is made by one block only, a block that is refused leaves the model as it was, errors raised while a model is built reach the caller and close the submodels they leave, traversal visits each block once in the order of declaration and stops when told to, and running an incomplete diagram computes all that can be computed and reports exactly the blocks that cannot, with exactly the signals they lack.",
  ["programs", "histories", "fault_sequences"], "all sequences of declarations, valid and refused, errors in any nesting, all incomplete diagrams",
  "No test runs the Python part.",
  ["misc/py_ss/blocks.py", "misc/py_ss/helper.py"],
  [("names, ports and refusal", "misc/py_ss/blocks.py Base, Submodel"), ("open submodels", "misc/py_ss/blocks.py Submodel.__enter__, __exit__"), ("report of unprocessed blocks", "misc/py_ss/helper.py run")], ["names, ports, traversals, current submodel, printed report, histories"])

p("C39", "Tables loaded for a Python model are what the files hold",
  "For every set of .mat files with a common prefix, the bus loaded from them has exactly the levels and names that the file names spell, and its value at any time is, for every table, the linear interpolation between its rows, continued beyond its ends by the first and last pair of rows, or its only row; other files are ignored, and a model that selects from the bus gets these values.",
  ["inputs"], "all sets of files and tables with increasing times, all times",
  "No test runs the Python part.",
  ["misc/py_ss/helper.py", "misc/py_ss/blocks.py"],
  [("loading", "misc/py_ss/helper.py load_mat_files_as_bus"), ("interpolation", "misc/py_ss/helper.py interp_bus"), ("selection", "misc/py_ss/blocks.py BusSelector")], ["names and values of the bus"])

p("C40", "A simulator simulates exactly the model it is given",
  "The model given to a simulator may be any block, also a submodel or a leaf inside a larger model: its signals take exactly the values they take when it is a model of its own, no block outside it is evaluated or notified and no signal outside it is assigned, cleared or changed, simulations of different parts of one model can go on next to each other, and when the whole is simulated later its parts continue from the states they have reached.",
  ["programs", "inputs", "histories", "schedules"], "all larger models, parts of them, simulators and interleavings of their runs",
  "The tests simulate one root model each.",
  ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/block/submodel.cpp"],
  [("collection of signals and states", "src/solver/simulator_base.cpp SimulatorBase::init"), ("evaluation", "src/solver/simulator.cpp, src/solver/fast_simulator.cpp process_model"), ("traversal and notification", "src/block/submodel.hpp, src/block/submodel.cpp")], ["signal values", "calls of user-written blocks inside and outside the model"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
