"""Construction of Python models (names, scopes, refusals, exceptions), and incomplete diagrams."""
import math
import re

from engine import Discard, Failure

RULE = ("random histories of construction with the Python blocks: submodels entered, left, entered again and nested, ports spelled as local, global, hidden, numbered and automatic signals, refused "
        "duplicates, errors of the user's that leave any number of open submodels; the names, ports, order of traversal, states and open submodels are compared with a model after each; then "
        "the diagram, complete or not, is run with a random part of what it lacks, and the values and the reported blocks are compared with a least fixed point; non-trivial: at least 4 blocks, and a "
        "refusal, an error or an incomplete diagram")


class Mine(Exception):
    pass


class Rec:
    """what a block is expected to be"""

    def __init__(self, kind, name, ins, outs, parent, **par):
        self.kind, self.name, self.ins, self.outs, self.parent, self.par = kind, name, ins, outs, parent, par
        self.parts, self.obj, self.auto, self.entered = [], None, None, 0


def scoped(parent, s, node):
    if isinstance(s, node):
        return str(s)
    s = str(s)
    p = parent.name if parent else ""
    if not p:
        return s
    return "-" + p + "." + s[1:] if s[0] == "-" else p + "." + s


def case(c, ctx, m, out):
    B = m.blocks
    node = B.Node
    taken = set()   # output signals
    known = []      # scalar signals that something makes or lacks
    buses = {}      # signal -> labels
    records, subs, open_ = [], [], []
    budget = [c.small(3, 14, 40)]
    count = dict(refused=0, errors=0)
    structural = c.chance(1, 3)   # also blocks with memory, the diagram is not run

    def observe():
        cur = B.Submodel.current()
        want = open_[-1].obj if open_ else None
        ctx.check(cur is want, lambda: "the current submodel is %s but the open ones are %s" % (cur and cur._name, [s.name for s in open_]))

    def spell(scalar=True):
        """a way to write a signal"""
        k = c.draw(10)
        if not scalar:
            return c.pick(["bus1", "bus2", "-bus3", node("bus1"), node("gbus")])
        if k < 4:
            return c.pick(["a", "b", "c", "d", "longer name"])
        if k < 5:
            return c.pick([1, 2, 3])
        if k < 6:
            return c.pick(["-a", "-b", -1, -2])
        if k < 8:
            return node(c.pick(["a", "g", "h", "x.a"]))
        if open_ and k < 9:
            return node(scoped(c.pick(subs), c.pick(["a", "b", "-a"]), node))
        return "n%d" % c.draw(40)

    def readable(parent, scalar=True):
        """mostly a signal that exists"""
        if scalar and known and c.chance(4, 5):
            s = c.pick(known)
            if parent is None or not parent.name:
                return node(s) if c.flip() else s
            # the local way to write it
            for pre, h in ((parent.name + ".", ""), ("-" + parent.name + ".", "-")):
                if s.startswith(pre) and len(s) > len(pre) and not s[len(pre):].startswith("-") and c.flip():
                    return h + s[len(pre):]
            return node(s)
        if not scalar:
            return node(c.pick(sorted(buses)))
        return spell()

    def refused(make, why):
        before = [(id(s.obj), list(s.obj._components)) for s in subs]
        try:
            make()
        except AssertionError:
            count["refused"] += 1
            ctx.label("refused: " + why)
            for (_, l), s in zip(before, subs):
                ctx.check(s.obj._components == l, lambda: "a refused block (%s) is left in %s" % (why, s.name))
            return
        raise Failure("not refused: " + why)

    def add():
        parent = open_[-1] if open_ else None
        kinds = ["Const", "Gain", "Function", "AddSub", "MulDiv", "MIMO", "Signal", "InitialValue", "Bus"]
        if buses:
            kinds.append("BusSelector")
        if structural:
            kinds += ["Integrator", "Memory", "Delay", "Derivative"]
        kind = c.pick(kinds)
        nin = dict(Const=0, Gain=1, Function=1, AddSub=c.range(1, 3), MulDiv=c.range(1, 3), MIMO=c.range(1, 3), Signal=1, InitialValue=1, Bus=c.range(1, 4), BusSelector=1, Integrator=1, Memory=1, Delay=3, Derivative=1)[kind]
        nout = 2 if kind == "MIMO" else 1
        par = {}
        can_auto = parent is not None and parent.auto is not None
        if kind == "BusSelector":
            ins = [readable(parent, False)]
        else:
            ins = ["-" if can_auto and c.chance(1, 4) else readable(parent) for _ in range(nin)]
        if kind == "Bus":
            if len(set(map(str, ins))) != len(ins):
                return
            outs = [spell(False)]
        elif kind == "BusSelector":
            labels = buses[scoped(parent, ins[0], node)]
            par["labels"] = [c.pick(labels) for _ in range(c.range(1, 3))]
            par["way"] = c.draw(3)
            if any(l == "-" for l in par["labels"]) and par["way"] != 0:
                par["way"] = 0
            outs = par["labels"] if par["way"] else [spell() for _ in par["labels"]]
        else:
            if parent is not None and not can_auto and ins and c.chance(1, 6):
                ins[c.draw(len(ins))] = "-"
            outs = ["-" if parent is not None and c.chance(1, 4) else spell() for _ in range(nout)]
            if outs.count("-") > 1:
                outs = ["-", spell()]
        name = c.pick(["blk", "x", "", "q%d" % len(records)])
        a, b = round(c.real(-2, 2), 3), round(c.real(-1, 1), 3)
        par.update(a=a, b=b, ops="".join(c.pick("+-" if kind == "AddSub" else "*/") for _ in ins))
        one = (lambda l: l[0] if len(l) == 1 and c.flip() else tuple(l) if c.flip() else list(l))

        def make():
            if kind == "Const":
                return B.Const(name, a, **({} if outs == ["-"] and parent is not None else dict(oport=one(outs))))
            if kind == "Gain":
                return B.Gain(name, a, one(ins), one(outs))
            if kind == "Function":
                return B.Function(name, lambda t, x: a * x + b * t, one(ins), one(outs))
            if kind == "AddSub":
                return B.AddSub(name, par["ops"], ins, one(outs), a)
            if kind == "MulDiv":
                return B.MulDiv(name, par["ops"], ins, one(outs), initial=a)
            if kind == "MIMO":
                return B.MIMOFunction(name, lambda t, x: (sum(x) * a, b * t), ins, outs)
            if kind == "Signal":
                return B.Signal(name, one(ins), one(outs))
            if kind == "InitialValue":
                return B.InitialValue(name, one(ins), one(outs))
            if kind == "Bus":
                return B.Bus(name, one(ins), one(outs))
            if kind == "BusSelector":
                if par["way"] == 0:
                    return B.BusSelector(name, one(ins), par["labels"], outs)
                if par["way"] == 1:
                    return B.BusSelector(name, one(ins), oports=one(outs))
                return B.BusSelector(name, one(ins), signals=one(outs))
            if kind == "Integrator":
                return B.Integrator(name, one(ins), one(outs), x0=a)
            if kind == "Memory":
                return B.Memory(name, one(ins), one(outs), ic=a)
            if kind == "Delay":
                return B.Delay(name, ins, one(outs))
            return B.Derivative(name, one(ins), one(outs), y0=a)
        if "-" in ins and parent is not None and not can_auto:
            ctx.note("%s '%s' %s -> %s: refused" % (kind, name, ins, outs))
            refused(make, "an automatic signal that nothing makes")
            return
        fi = [parent.auto if s == "-" and parent else scoped(parent, s, node) for s in ins]
        fo = [None if s == "-" and parent else scoped(parent, s, node) for s in outs]
        dup = next((s for k, s in enumerate(fo) if s is not None and (s in taken or s in fo[:k])), None)
        if dup is not None:
            if None in fo:
                return
            ctx.note("%s '%s' %s -> %s: refused" % (kind, name, ins, outs))
            refused(make, "an output signal that another block makes")
            return
        obj = make()
        full = (parent.name + "." if parent and parent.name else "") + name
        r = Rec(kind, full, fi, fo, parent, **par)
        r.obj = obj
        if None in fo:
            got = obj.get_ports()[1][fo.index(None)]
            ctx.check(re.match(r"^-[^.]+$", got) and got not in taken, lambda: "%s is not a new automatic name" % got)
            fo[fo.index(None)] = got
            parent.auto = got
        taken.update(fo)
        if kind == "Bus":
            par["labels"] = r.par["labels"] = list(ins)
            buses[fo[0]] = list(ins)
        else:
            known.extend(s for s in fo if s not in known)
        known.extend(s for s in fi if s not in known and kind != "BusSelector")
        records.append(r)
        if parent:
            parent.parts.append(r)
        ctx.note("%s%s '%s' %s -> %s (%s)" % ("  " * len(open_), kind, name, ins, outs, fo))

    def enter(r):
        """the body of a with statement; what leaves it by an error arrives outside"""
        leave = c.draw(8)
        raised = []
        try:
            with r.obj as got:
                open_.append(r)
                ctx.check(got is r.obj, "with gives something else than the submodel")
                observe()
                try:
                    body()
                    if leave == 7 and len(open_) > 1:
                        up = c.range(1, len(open_) - 1) if len(open_) > 2 else 1
                        ctx.note("  " * len(open_) + "error, to be caught %d levels up" % up)
                        e = [Mine(up), KeyError("k"), AssertionError("mine"), ValueError()][c.draw(4)]
                        e.up = up
                        raise e
                except Exception as e:
                    raised.append(e)
                    raise
                finally:
                    open_.pop()
        except Exception as e:
            if not hasattr(e, "up"):
                raise
            ctx.check(raised == [e], "another error arrives")
            observe()
            e.up -= 1
            if e.up > 0 and open_:
                raise
            count["errors"] += 1
            ctx.label("errors in with")
            return
        if raised:
            raise Failure("an error in the body of a with statement is lost: %r" % raised)
        observe()

    def body():
        while budget[0] > 0:
            budget[0] -= 1
            k = c.draw(10)
            if k < 7:
                add()
            elif k == 7 and len(open_) < 5:
                parent = open_[-1] if open_ else None
                name = c.pick(["sub%d" % len(subs), "x", "sub"])
                ni, no = c.draw(3), c.draw(2)
                ins = [readable(parent) for _ in range(ni)]
                outs = [spell() for _ in range(no)]
                r = Rec("Submodel", (parent.name + "." if parent and parent.name else "") + name, [scoped(parent, s, node) for s in ins], [scoped(parent, s, node) for s in outs], parent)
                ctx.note("  " * len(open_) + "Submodel '%s' %s -> %s" % (name, ins, outs))
                r.obj = B.Submodel(name, ins, outs)
                subs.append(r)
                if parent:
                    parent.parts.append(r)
                enter(r)
            elif k == 8 and subs and len(open_) < 6 and c.chance(1, 2):
                r = c.pick(subs)
                if r not in open_:
                    ctx.note("  " * len(open_) + "again %s" % r.name)
                    enter(r)
            elif len(open_) > 1 and c.flip():
                return
            observe()
    top = Rec("Submodel", c.pick(["", "", "top"]), [], [], None)
    top.obj = B.Submodel(top.name)
    subs.append(top)
    ctx.note("model '%s'" % top.name)
    enter(top)
    if c.chance(1, 4):
        # an error in the body of the outermost one
        for e in (Mine(), AssertionError()):
            try:
                with top.obj:
                    raise e
            except (Mine, AssertionError) as f:
                ctx.check(f is e, "another error arrives")
            else:
                raise Failure("an error in the body of a with statement is lost")
            observe()
    # what was built
    ctx.check(not B.Submodel._current_submodels, "submodels are left open")
    order = []

    def walk(r):
        for p in r.parts:
            walk(p)
        order.append(r)
    walk(top)
    seen = []
    res = top.obj.traverse(lambda b: seen.append(b) or True)
    ctx.check(res and [id(b) for b in seen] == [id(r.obj) for r in order], lambda: "traversed %s instead of %s" % ([b._name for b in seen], [r.name for r in order]))
    for r in order:
        ctx.check(r.obj._name == r.name, lambda: "a block is named %s instead of %s" % (r.obj._name, r.name))
        i, o = r.obj.get_ports()
        ctx.check([list(map(str, i)), list(map(str, o))] == [r.ins, r.outs], lambda: "%s %s has the ports %s %s instead of %s %s" % (r.kind, r.name, i, o, r.ins, r.outs))
        ctx.label(r.kind)
    stop = c.draw(len(order) + 1)
    seen = []

    def cb(b):
        seen.append(b)
        return len(seen) <= stop
    res = top.obj.traverse(cb)
    ctx.check(len(seen) == min(stop + 1, len(order)) and bool(res) == (stop >= len(order)) and [id(b) for b in seen] == [id(r.obj) for r in order[:len(seen)]],
              lambda: "a traversal to be stopped after %d of %d blocks visits %d and returns %s" % (stop + 1, len(order), len(seen), res))
    states = []
    top.obj.get_states(states)
    want = [(r.outs[0], r.ins[0], r.par["a"]) for r in order if r.kind == "Integrator"]
    ctx.check([(s._state, s._deriv, s._value) for s in states] == want, lambda: "states %s instead of %s" % (states, want))
    incomplete = False
    if not structural:
        incomplete = execute(c, ctx, m, out, top, order, taken)
    if len(order) >= 5 and (count["refused"] or count["errors"] or incomplete):
        ctx.nontrivial = True


def execute(c, ctx, m, out, top, order, taken):
    blocks = [r for r in order if r.kind != "Submodel"]
    lacking = sorted({s for r in blocks for s in r.ins} - set(taken))
    given = [s for s in lacking if c.chance(2, 3)]
    inputs, params = [], []
    for s in given:
        (params if c.chance(1, 3) else inputs).append((s, round(c.real(-2, 2), 3)))
    clash = None
    if taken and c.chance(1, 12):
        clash = c.pick(sorted(taken - {r.outs[0] for r in blocks if r.kind == "Bus"}) or [None])
    if clash:
        inputs.append((clash, 0.5))
    first = {}

    def evaluate(t):
        """least fixed point"""
        x = {s: v + 0.25 * t for s, v in inputs}
        x.update({s: v for s, v in params})
        done, progress = set(), True
        while progress:
            progress = False
            for r in blocks:
                if r in done:
                    continue
                if r.kind == "InitialValue" and r in first:
                    v = [first[r]]
                elif all(s in x for s in r.ins):
                    i, p, k = [x[s] for s in r.ins], r.par, r.kind
                    if k == "Const":
                        v = [p["a"]]
                    elif k == "Gain":
                        v = [p["a"] * i[0]]
                    elif k == "Function":
                        v = [p["a"] * i[0] + p["b"] * t]
                    elif k == "AddSub":
                        v = [p["a"] + sum(w if o == "+" else -w for o, w in zip(p["ops"], i))]
                    elif k == "MulDiv":
                        w = p["a"]
                        for o, q in zip(p["ops"], i):
                            if o == "/" and abs(q) < 1e-3:
                                raise Discard()
                            w = w * q if o == "*" else w / q
                        v = [w]
                    elif k == "MIMO":
                        v = [sum(i) * p["a"], p["b"] * t]
                    elif k in ("Signal", "InitialValue"):
                        v = [i[0]]
                    elif k == "Bus":
                        v = [dict(zip(map(str, p["labels"]), i))]
                    else:
                        v = [i[0][str(l)] for l in p["labels"]]
                else:
                    continue
                done.add(r)
                progress = True
                if any(o in x for o in r.outs):
                    return None, None  # made twice: to be refused
                if r.kind == "InitialValue":
                    first[r] = v[0]
                for o, w in zip(r.outs, v):
                    x[o] = w
                    if not isinstance(w, dict) and not abs(w) < 1e9:
                        raise Discard()
        return x, done
    grid, t = [], 0.0
    for _ in range(c.range(1, 4)):
        grid.append(t)
        t += round(c.real(0.1, 1), 2)
    ctx.note("given %s, parameters %s, times %s" % (inputs, params, grid))
    want = [evaluate(t) for t in grid]
    if want[0][0] is not None and any(w[0] is None for w in want):
        raise Discard()
    out.seek(0)
    out.truncate()
    args = dict(inputs_cb=lambda t, x: {s: v + 0.25 * t for s, v in inputs}, parameters=dict(params))
    if want[0][0] is None:
        ctx.label("signals also given from outside")
        try:
            m.helper.run(top.obj, grid, **args)
        except AssertionError:
            return True
        raise Failure("%s is given from outside and made by a block, and the run goes on" % clash)
    hist = m.helper.run(top.obj, grid, **args)
    names = {s for s, v in want[0][0].items() if not isinstance(v, dict) and s[0] != "-" and s not in dict(params)}
    ctx.check(set(hist) == names | {"t"}, lambda: "recorded: %s; expected: %s" % (sorted(hist), sorted(names) + ["t"]))
    for s in names:
        for n, t in enumerate(grid):
            w = want[n][0][s]
            ctx.check(len(hist[s]) == len(grid) and abs(hist[s][n] - w) <= 1e-9 * (1 + abs(w)), lambda: "%s is %s but should be %s at t=%g" % (s, hist[s], w, t))
            ctx.label("values compared")
    # the blocks that could not be computed are reported, in the order of traversal, each time
    missing = [r for r in blocks if r not in want[0][1]]
    text = out.getvalue()

    def complete(r):
        return all(complete(p) for p in r.parts) if r.kind == "Submodel" else r in want[0][1]
    report = [r for r in order if not complete(r)]
    ctx.check(("unprocessed blocks detected" in text) == bool(report), lambda: "incomplete: %s; printed: %s" % ([r.name for r in report], text[-500:]))
    if report:
        ctx.label("incomplete diagrams")
        for part in text.split("-- unprocessed blocks detected:")[1:]:
            got, cur = [], None
            for l in part.splitlines():
                q = re.match(r"^  - ([io]):  (.) (.*)$", l)
                if q:
                    cur[1 if q.group(1) == "i" else 2].append((q.group(3), q.group(2) == "*"))
                elif l.startswith("- "):
                    cur = (l[2:], [], [])
                    got.append(cur)
            x = want[0][0]
            exp = [(r.name, [(s, s not in x) for s in r.ins], [(s, s not in x) for s in r.outs]) for r in report]
            ctx.check(got == exp, lambda: "reported: %s; expected: %s" % (got, exp))
    return bool(missing)
