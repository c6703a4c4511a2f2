# Numbers of cases per property, tier and build; see DESIGN.md
TRUST = ("Random search, not proof. Trusted: gcc and its sanitizers, the reference semantics in harness/ref.cpp, the comparison "
         "tolerance (1000 times a running bound of the reference's own rounding error).")
EXACT = "Random search, not proof. Trusted: gcc and its sanitizers and the model in the harness; the comparison is exact."


def P(q_dbg, q_rel, technique, note, k=25, **kw):
    """k: how many times more cases the thorough tier runs"""
    return dict(quick=dict(dbg=q_dbg, rel=q_rel), thorough=dict(dbg=q_dbg * k, rel=q_rel * k), technique="property-based testing and fuzzing: " + technique, note=note, **kw)


def Y(n, technique, note, k=25):
    """a property of the Python part"""
    return dict(quick=dict(py=n), thorough=dict(py=n * k), technique="property-based testing and fuzzing: " + technique, note=note, python=True)


PLAN = {
    "C01": P(12000, 400000, "random diagrams against a reference interpreter",
             "Every signal of random loop-free diagrams is compared with an independent interpreter at every accepted step; calls of user functions are counted and their inputs checked. " + TRUST),
    "C02": P(5000, 150000, "differential: plain, order-reusing and fast simulator on the same random diagram",
             "The same random diagram, inputs and solver run by all three simulators (also one after another on the same objects); identical step ends, and signals equal to the reference. " + TRUST),
    "C03": P(6000, 150000, "random diagrams with constructed algebraic loops against a reachability model",
             "Which signals lie on or downstream of a loop is computed from the specification; refusal by the fast simulator, termination, unassigned and correct values by the plain ones. " + TRUST),
    "C04": P(100000, 4000000, "random first-order systems against textbook one-step methods",
             "Updates, stage times and states, proposals and untouched inputs compared with independently written Euler, RK4 and RKF45 (Fehlberg) steps; exact Taylor checks on polynomials. " + TRUST),
    "C05": P(6000, 150000, "random diagrams with states against a reference integration; convergence orders on linear systems",
             "Every accepted step compared with the reference method applied to the interpreter's derivative; orders of convergence measured on random linear systems with exact solutions. " + TRUST),
    "C06": P(6000, 150000, "random scripted solvers against a model of the step control",
             "All attempts, acceptances, retries and notifications of a run with scripted step-length proposals are compared with a model of the step control. " + EXACT),
    "C07": P(6000, 200000, "metamorphic: additional trial evaluations and rejected attempts must not change anything",
             "The same diagram and accepted steps with and without extra derivative evaluations at arbitrary times and states, and with rejected longer attempts; bit-identical traces. " + EXACT),
    "C08": P(5000, 200000, "random networks of memories against the previous-step model",
             "Memory outputs compared bit for bit with the input at the previous step end, and observed constant within each step. " + EXACT),
    "C09": P(10000, 300000, "random delays against piecewise-linear interpolation of the full sample history",
             "The reference keeps all samples for ever; the library discards them. " + TRUST),
    "C10": P(8000, 300000, "random derivative blocks against backward differences of recorded inputs",
             "Including repeated evaluations at the last accepted time, arrays, and feeding integrators. " + TRUST),
    "C11": P(5000, 150000, "random triggered integrators against a reference with restart bookkeeping",
             "Trigger patterns at accepted steps and different ones at trial evaluations. " + TRUST),
    "C12": P(200000, 4000000, "random blocks of every variant against their formulas, including special values",
             "Each named variant is instantiated, so a variant that stops compiling is reported as well. " + TRUST),
    "C13": P(12000, 300000, "random initial-value blocks against the recorded first input", "All simulators and solvers; exact comparison. " + EXACT),
    "C14": P(25000, 400000, "random bus trees and lookups against a list model", "Lookups by index, label and path, valid and invalid, under AddressSanitizer. " + EXACT),
    "C15": P(4000, 150000, "random buses: bus-wide blocks against separate blocks and the values they must have",
             "Bit-for-bit comparison of a diagram with bus-wide blocks, one with separate blocks, and a model. " + EXACT),
    "C16": P(80000, 3000000, "stateful testing of value signals against a model of one assignable cell", "Sequences of operations through many handles, valid and invalid. " + EXACT),
    "C17": P(60000, 1000000, "stateful testing of typed handles and lifetimes against a reachability model", "Under AddressSanitizer; objects destroyed in random order. " + EXACT),
    "C18": P(150000, 3000000, "stateful testing of connection attempts against a table of requirements", "Every block of the library. One known finding (KF1) is stepped around. " + EXACT),
    "C19": P(70000, 1500000, "stateful testing of the block tree against a forest model", "Parents, order of children, both traversals, full names. " + EXACT),
    "C20": P(150000, 2000000, "random byte strings against an independent sanitiser", "Every kind of named object, construction, renaming, assignment and joining. " + EXACT),
    "C21": P(70000, 1500000, "stateful testing of histories against a map of rows", "Tracking, recording in any order, growth, trimming. " + EXACT),
    "C22": P(50000, 500000, "random histories exported to CSV files that are parsed and compared", "Files are written to a scratch directory of the worker. " + EXACT),
    "C23": P(4000, 150000, "random sequences of run requests against a simulation that sees the legal ones only", "Later, equal and earlier times, implicit and repeated initialisation; bit-identical twins, and the reference. " + EXACT),
    "C24": P(6000, 200000, "random interleavings of simulations against the same ones alone", "Interleaved and nested, also sharing a solver object; bit-for-bit comparison. " + EXACT),
    "C25": P(9000, 300000, "differential: array diagrams against scalar diagrams of their elements", "Every element at every step end. " + TRUST),
    "C26": P(8000, 250000, "recorded sequence of input requests against the evaluations seen by the solver", "Order, times, state of all signals and values; and against the diagram with source blocks instead. " + EXACT),
    "C27": P(12000, 400000, "fault injection: exceptions at random calls of user code and misuse, against a twin that never failed", "Exceptions, trace depth, recovery. " + EXACT),
    "C28": P(18000, 0, "differential: checked build against unchecked build on the same random use", "Both builds in one process, the unchecked one as a shared object. " + EXACT, configs=["dbg"], peer=True),
    "C29": P(6000, 200000, "metamorphic: another declaration order, nesting, naming and additional blocks must not change any signal",
             "Every signal at every step end, bit for bit. " + EXACT),
    "C30": P(6000, 200000, "metamorphic: the same run with all times shifted", "On a dyadic time grid, so that the comparison is bit for bit. " + EXACT),
    "C31": P(6000, 200000, "metamorphic: inputs and initial values scaled by powers of two", "Degrees of homogeneity are tracked per signal; bit for bit. " + EXACT),
    "C32": P(1200, 16000, "invariant over the history: live heap blocks and bytes",
             "Live allocations counted by interposed malloc (release) or sanitizer hooks (checked); bound from the delays' lifespans."),
    "C33": P(16000, 400000, "reference model of what has to be reported, on captured output and exception texts",
             "Only names, numbers and their presence or absence are judged, not wording or layout."),
    "C34": P(1500, 24000, "analytic oracle: exact solutions of linear systems by the matrix exponential",
             "Three step limits per case; the bound is that of a method of the given order, with a factor of 20 to spare."),
    "C35": P(6000, 200000, "metamorphic: the same grid of sub-steps, cut into requests in two ways", "On a dyadic time grid, bit for bit. " + EXACT),
    "C36": P(20000, 300000, "round trip: data handed to gnuplot, parsed back", "Files and inline data, text and binary. " + EXACT, k=10,
             sources=["c36.cpp", "c36b.cpp"], link=["-lboost_iostreams", "-lboost_system", "-lboost_filesystem"]),
    "C40": P(6000, 200000, "differential: parts of a larger model against the same diagrams as models of their own",
             "Interleaved simulations of parts, then of the whole; bystanders between them; bit for bit. " + EXACT),
    "C37": Y(60000, "random diagrams of the Python blocks against an independent interpreter",
             "Values compared within the amplification of rounding errors, measured with a nudged twin of the reference. Random search, not proof. Trusted: Python, numpy and the interpreter in py/c37.py."),
    "C38": Y(150000, "stateful testing of the construction of Python models against a model of names and scopes; incomplete diagrams against a least fixed point",
             "Random search, not proof. Trusted: Python and the model in py/c38.py; names and structure are compared exactly."),
    "C39": Y(25000, "random sets of .mat files against a linear interpolation of the tables written",
             "Files are written to a scratch directory of the case. Random search, not proof. Trusted: Python, scipy's reader and writer and the model in py/c39.py."),
}
