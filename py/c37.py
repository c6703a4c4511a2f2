"""Diagrams of the Python blocks against an independent interpreter."""
import math

import numpy as np

from engine import Discard, Failure

RULE = ("random diagrams of the Python blocks (all kinds, scalars and arrays, nested submodels, buses, shuffled declaration, local, global, hidden and automatic signal names), "
        "with parameters and held inputs, run over one or two random time grids by either solver; every recorded signal at every time, the times and states that the input callback sees, and the set of "
        "recorded names are compared with an independent interpreter; non-trivial: at least 3 blocks and 3 times")


class Sig:
    def __init__(self, sid, shape, bus=None):
        self.id, self.shape, self.bus = sid, shape, bus  # bus: list of (label, signal)
        self.home, self.name, self.spelled, self.hidden, self.auto = None, None, None, False, False


class Blk:
    def __init__(self, kind, ins, outs, **par):
        self.kind, self.ins, self.outs, self.par, self.home = kind, ins, outs, par, 0


def value(c, shape):
    if c.chance(1, 6):
        # whole numbers
        if shape == ():
            v = c.range(-3, 3)
            return c.pick([v, np.int64(v), np.float64(v)])
        return np.array([c.range(-3, 3) for _ in range(int(np.prod(shape)))]).reshape(shape)
    if shape == ():
        return round(c.real(-2, 2), 3)
    return np.round(np.array([c.real(-2, 2) for _ in range(int(np.prod(shape)))]), 3).reshape(shape)


def fn(k):
    return [lambda t, x: 0.5 * x, lambda t, x: np.sin(x) + 0.1 * t, lambda t, x: np.tanh(x) * math.cos(t), lambda t, x: x * x / (1 + x * x), lambda t, x: x - 0.25 * t, lambda t, x: 1.5 + np.sin(x), None, lambda t, x: np.int64(np.floor(2 * x + 0.12345678)), lambda t, x: (0.5 * x.T).copy().T if isinstance(x, np.ndarray) else x / 4][k]


def mimo(k):
    return [lambda t, x: [x[0] + 0.5 * x[-1], np.cos(x[0])], lambda t, x: [0.3 * x[-1] - 0.1 * t, x[0] * 0.5]][k]


def heun(callback, t0, t1, x0):
    """a stepper of the user's own"""
    k = callback(t0, x0)
    return x0 + (t1 - t0) / 2 * (k + callback(t1, x0 + (t1 - t0) * k))


def own_blocks(B):
    """blocks written by a user"""
    class Affine(B.Base):
        def __init__(self, name, par, iport='-', oport='-'):
            super().__init__(name, iport, oport)
            self.par = par

        def activation_function(self, t, x):
            return [0.5 * x[0] + self._known_values[self.par] * math.cos(t)]

    class Accum(B.Base):
        def __init__(self, name, iport='-', oport='-', start=0.0):
            super().__init__(name, iport, oport)
            self.total = start

        def step(self, t, states):
            self.total = self.total + 0.25 * states[self._iports[0]]

        def activation_function(self, t, x):
            return [np.tanh(self.total)]

    class Oscillator(B.Base):
        def __init__(self, name, m, iport='-', oports=(), p0=0.0, v0=0.0):
            super().__init__(name, iport, oports)
            self.m, self.p0, self.v0 = m, p0, v0

        def get_states(self, states):
            p, v = self._oports
            states.append(self.m.blocks.State(p, v, self.p0))
            states.append(self.m.blocks.State(v, self._iports[0], self.v0))

        def step(self, t, states):
            self.p0, self.v0 = (states[o] for o in self._oports)

        def _process(self, t, x, reset):
            if reset:
                self._processed = False
            if self._processed or self._iports[0] not in x:
                return 0
            self._processed = True
            return 1

    class Unit(B.Submodel):
        """a submodel with ports: out = in * k + 0.5 (of a hidden chain)"""
        def __init__(self, name, k, iport, oport):
            super().__init__(name, [iport], [oport])
            i, = B.N(self._iports)
            o, = B.N(self._oports)
            with self:
                B.Gain('', k, iport=i, oport=-1)
                B.Const('', 0.5)
                B.AddSub('', '++', [-1, '-'], oport=o)
    return Affine, Accum, Oscillator, Unit


def generate(c):
    sigs, blocks, inputs, params = [], [], [], []
    inbus = []

    def new(shape, bus=None):
        sigs.append(Sig(len(sigs), shape, bus))
        return sigs[-1]
    chain = c.chance(1, 10)  # long paths
    shapes = [(), (c.range(1, 4),), (2, c.range(1, 3))]
    pool = []

    def source(shape):
        k = c.draw(4)
        if k == 0:
            s = new(shape)
            inputs.append((s, value(c, shape), value(c, shape), round(c.real(0.3, 3), 3)))
        elif k == 1:
            s = new(shape)
            params.append((s, value(c, shape)))
        else:
            s = new(shape)
            blocks.append(Blk("Const", [], [s], value=value(c, shape)))
        pool.append(s)
        return s

    def any_of(shape):
        l = [s for s in pool if s.shape == shape and s.bus is None]
        if chain and l and c.chance(9, 10):
            return l[-1]
        return c.pick(l[::-1]) if l and not c.chance(1, 5) else source(shape)
    states = c.draw(4) != 0
    later = []
    n = c.range(25, 60) if c.chance(1, 8 if chain else 80) else c.small(1, 8, 24)
    for _ in range(n):
        shape = c.pick(shapes) if c.chance(1, 20 if chain else 3) else ()
        k = c.draw(14 + 5)
        if chain and not c.chance(1, 20):
            k = c.pick([0, 1, 2, 3, 5, 12])
        if k == 0:
            i, o = any_of(shape), new(shape)
            blocks.append(Blk("Gain", [i], [o], k=round(c.real(-1.5, 1.5), 3)))
        elif k == 1:
            i, o = any_of(shape), new(shape)
            blocks.append(Blk("Function", [i], [o], f=c.pick([0, 1, 2, 3, 4, 7, 8])))
        elif k == 2:
            ins = [any_of(shape) for _ in range(c.range(1, 3))]
            o, o2 = new(shape), new(shape)
            blocks.append(Blk("MIMO", ins, [o, o2], f=c.draw(2)))
            pool.append(o2)
        elif k in (3, 4):
            ins = [any_of(shape) for _ in range(c.range(1, 4))]
            o = new(shape)
            ops = "".join(c.pick("+-") for _ in ins)
            ini = value(c, shape) if c.chance(1, 2) else None
            blocks.append(Blk("AddSub", ins, [o], ops=ops, ini=ini))
        elif k == 5:
            # divisors are kept away from zero
            ins = [any_of(shape)]
            ops = "*"
            for _ in range(c.draw(3)):
                if c.flip():
                    d, e = any_of(shape), new(shape)
                    blocks.append(Blk("Function", [d], [e], f=5))
                    pool.append(e)
                    ins.append(e)
                    ops += "/"
                else:
                    ins.append(any_of(shape))
                    ops += "*"
            o = new(shape)
            perm = c.shuffle(range(len(ins)))
            ins, ops = [ins[p] for p in perm], "".join(ops[p] for p in perm)
            blocks.append(Blk("MulDiv", ins, [o], ops=ops, ini=value(c, shape) if c.chance(1, 2) else None))
        elif k in (6, 7):
            o = new(shape)
            if states:
                blocks.append(Blk("Integrator", [None], [o], x0=value(c, shape)))
            else:
                blocks.append(Blk("Memory", [None], [o], ic=value(c, shape)))
            later.append(blocks[-1])
        elif k == 8:
            o = new(shape)
            blocks.append(Blk("Memory", [None], [o], ic=value(c, shape)))
            later.append(blocks[-1])
        elif k == 9:
            i, o = any_of(()), new(())
            life = c.pick([0.05, 0.5, 2.0, 10.0, 100.0])
            d, ini = new(()), any_of(())
            if c.flip():
                blocks.append(Blk("Const", [], [d], value=round(c.real(0, life), 3)))
            else:
                blocks.append(Blk("Function", [any_of(())], [d], f=6, life=life))
            pool.append(d)
            blocks.append(Blk("Delay", [i, d, ini], [o], life=life))
        elif k == 10:
            i, o = any_of(shape), new(shape)
            blocks.append(Blk("Derivative", [i], [o], y0=value(c, shape) if shape != () or c.flip() else 0))
        elif k == 11:
            i, o = any_of(shape), new(shape)
            blocks.append(Blk("InitialValue", [i], [o]))
        elif k == 12:
            i, o = any_of(shape), new(shape)
            blocks.append(Blk("Signal", [i], [o]))
        elif k == 14:
            i, o = any_of(shape), new(shape)
            same = [s for s, _ in params if s.shape == ()] + [s for s, *_ in inputs if s.shape == ()]
            if not same:
                params.append((new(()), value(c, ())))
                same = [params[-1][0]]
            blocks.append(Blk("Affine", [i], [o], param=c.pick(same)))
        elif k == 15:
            i, o = any_of(shape), new(shape)
            blocks.append(Blk("Accum", [i], [o], start=value(c, shape)))
        elif k == 16 and states:
            o, o2 = new(shape), new(shape)
            blocks.append(Blk("Oscillator", [None], [o, o2], p0=value(c, shape), v0=value(c, shape)))
            pool.append(o2)
            later.append(blocks[-1])
        elif k == 17:
            i, o = any_of(shape), new(shape)
            blocks.append(Blk("Unit", [i], [o], k=round(c.real(-1.5, 1.5), 3)))
        elif k == 18:
            # a bus from the input callback
            if not inbus or c.flip():
                def tree(depth):
                    members = []
                    for j in range(c.range(1, 3)):
                        if depth < 2 and c.chance(1, 3):
                            members.append(("n%d" % j, tree(depth + 1), None))
                        else:
                            sh = c.pick(shapes)
                            m = new(sh)
                            m.name = "(in a bus)"
                            members.append(("m%d" % j, m, (value(c, sh), value(c, sh), round(c.real(0.3, 3), 3))))
                    b = new(None, [x for _, x, _ in members])
                    b.inbus = members
                    b.name = "(in a bus)"
                    return b
                b = tree(0)
                b.name = "bus%d" % b.id
                inbus.append(b)
            b = c.pick(inbus)
            while True:
                picked = [c.pick(b.inbus) for _ in range(c.range(1, 2))]
                outs = [new(x.shape, x.bus) for _, x, _ in picked]
                for o, (_, x, _) in zip(outs, picked):
                    if x.bus is not None:
                        o.inbus = x.inbus
                blocks.append(Blk("BusSelector", [b], outs, picked=[x for _, x, _ in picked], labels=[l for l, _, _ in picked]))
                nested = [o for o in outs if o.bus is not None]
                pool.extend(o for o in outs if o.bus is None)
                if not nested:
                    break
                b = nested[0]
            continue
        else:
            members = []
            for _ in range(c.range(1, 4)):
                s = c.pick(pool) if pool and c.chance(3, 4) else source(c.pick(shapes))
                if s not in members:
                    members.append(s)
            b = new(None, members)
            blocks.append(Blk("Bus", members, [b]))
            picked = [c.pick(members) for _ in range(c.range(1, 3))]
            outs = [new(m.shape, m.bus) for m in picked]
            blocks.append(Blk("BusSelector", [b], outs, picked=picked))
            pool.append(b)
            pool.extend(outs[1:])
            o = outs[0]
        pool.append(o)
    for b in later:
        b.ins[0] = any_of(b.outs[0].shape)
    return sigs, blocks, inputs, params, inbus


def structure(c, sigs, blocks, inputs, params):
    """submodels, names, order of declaration"""
    subs = [(None, "")]  # parent, full name
    if c.chance(1, 6):
        subs[0] = (None, "top")
    for k in range(c.draw(4)):
        p = c.draw(len(subs))
        subs.append((p, (subs[p][1] + "." if subs[p][1] else "") + "sub%d" % (k + 1)))
    for b in blocks:
        b.home = c.draw(len(subs))
    order = list(range(len(blocks)))
    k = c.draw(6)
    if k == 5:
        order.reverse()
    elif k:
        order = c.shuffle(order)
    made = set()
    for b in blocks:
        for o in b.outs:
            made.add(o.id)
            pre = subs[b.home][1] + "." if subs[b.home][1] else ""
            k = c.draw(6)
            o.home = b.home
            if k < 3:
                o.name = "s%d" % o.id
                o.spelled = None  # global
            elif k < 5:
                o.name = pre + "s%d" % o.id
                o.spelled = "s%d" % o.id
            else:
                o.name = "-" + pre + "s%d" % o.id
                o.spelled = "-s%d" % o.id
                if c.flip():
                    o.name, o.spelled = "-" + pre + "%d" % o.id, -o.id  # numbers are names too
                    if o.id == 0:
                        o.name, o.spelled, o.hidden = pre + "0", 0, False
                        continue
                o.hidden = True
    for s in sigs:
        if s.id not in made and s.name is None:
            s.name = "s%d" % s.id
    # automatic names: the output of a block declared just before the only one that reads it
    for x, y in zip(order, order[1:]):
        p, q = blocks[x], blocks[y]
        if p.home != q.home or len(p.outs) != 1 or not c.chance(1, 3):
            continue
        o = p.outs[0]
        if o in q.ins and q.ins.count(o) == 1 and sum(b.ins.count(o) for b in blocks) == 1 and q.kind != "Bus" and p.kind != "BusSelector":
            o.auto = o.hidden = True
    return subs, order


def build(c, m, subs, order, blocks):
    B = m.blocks
    N = B.N
    Affine, Accum, Oscillator, Unit = own_blocks(B)
    made = [None] * len(subs)

    def enter(k, f):
        if subs[k][0] is None:
            with made[0]:
                return f()
        return enter(subs[k][0], lambda: within(k, f))

    def within(k, f):
        if made[k] is None:
            made[k] = B.Submodel(subs[k][1].split(".")[-1])
        with made[k]:
            return f()
    made[0] = B.Submodel(subs[0][1])

    def port(b, s):
        if s.auto:
            return "-"
        if s.spelled is not None and s.home == b.home and c.flip():
            return s.spelled
        return N(s.name)
    for k in order:
        b = blocks[k]

        def make():
            ins = [port(b, s) for s in b.ins]
            outs = ["-" if o.auto else (N(o.name) if o.spelled is None else o.spelled) for o in b.outs]
            nm = "b%d" % k if c.chance(3, 4) else ""
            if b.kind == "Unit":
                nm = "unit%d" % k
            one = (lambda l: l[0] if len(l) == 1 and c.flip() else l)
            p = b.par
            kind = b.kind
            if kind == "Const":
                B.Const(nm, p["value"].copy() if isinstance(p["value"], np.ndarray) else p["value"], oport=one(outs))
            elif kind == "Gain":
                B.Gain(nm, p["k"], iport=one(ins), oport=one(outs))
            elif kind == "Function":
                f = fn(p["f"]) if p["f"] != 6 else (lambda t, x, L=p["life"]: L * (0.5 + 0.5 * np.sin(x)))
                B.Function(nm, f, iport=one(ins), oport=one(outs))
            elif kind == "MIMO":
                B.MIMOFunction(nm, mimo(p["f"]), ins, outs)
            elif kind in ("AddSub", "MulDiv"):
                cls = B.AddSub if kind == "AddSub" else B.MulDiv
                kw = {} if p["ini"] is None else dict(initial=p["ini"].copy() if isinstance(p["ini"], np.ndarray) else p["ini"])
                cls(nm, p["ops"], ins, one(outs), **kw)
            elif kind == "Integrator":
                x0 = p["x0"]
                B.Integrator(nm, one(ins), one(outs), x0=x0.copy() if isinstance(x0, np.ndarray) else x0)
            elif kind == "Memory":
                B.Memory(nm, one(ins), one(outs), ic=p["ic"])
            elif kind == "Delay":
                B.Delay(nm, ins, one(outs), lifespan=p["life"])
            elif kind == "Derivative":
                B.Derivative(nm, one(ins), one(outs), y0=p["y0"])
            elif kind == "InitialValue":
                B.InitialValue(nm, one(ins), one(outs))
            elif kind == "Signal":
                B.Signal(nm, ins, outs)
            elif kind == "Bus":
                b.labels = list(ins)
                B.Bus(nm, ins, one(outs))
            elif kind == "Affine":
                Affine(nm, p["param"].name, one(ins), one(outs))
            elif kind == "Accum":
                Accum(nm, one(ins), one(outs), start=p["start"])
            elif kind == "Oscillator":
                Oscillator(nm, m, one(ins), outs, **{q: w.copy() if isinstance(w, np.ndarray) else w for q, w in (("p0", p["p0"]), ("v0", p["v0"]))})
            elif kind == "Unit":
                Unit(nm, p["k"], ins[0], outs[0])
            elif "labels" in p:
                B.BusSelector(nm, one(ins), p["labels"], outs)
            else:
                src = next(x for x in blocks if x.kind == "Bus" and x.outs[0] is b.ins[0])
                labels = [src.ins.index(s) for s in b.par["picked"]]
                b.late = labels  # the labels are those that the bus was given
                B.BusSelector(nm, one(ins), [src.labels[i] for i in labels], outs)
        enter(b.home, make)
    return made[0]


class Ref:
    """the interpreter"""

    def __init__(self, sigs, blocks, inputs, params, method, nudge=0.0, inbus=()):
        self.inbus = inbus
        self.nudge, self.steps = nudge, 0
        self.sigs, self.blocks, self.inputs, self.params, self.method = sigs, blocks, inputs, params, method
        # state -> its value; state -> its derivative
        self.x, self.dot = {}, {}
        for b in blocks:
            if b.kind == "Integrator":
                self.x[b.outs[0].id], self.dot[b.outs[0].id] = b.par["x0"] * (1 + nudge) + nudge, b.ins[0].id
            elif b.kind == "Oscillator":
                p, v = (o.id for o in b.outs)
                self.x[p], self.dot[p] = b.par["p0"] * (1 + nudge) + nudge, v
                self.x[v], self.dot[v] = b.par["v0"] * (1 + nudge) + nudge, b.ins[0].id
        self.acc = {b: b.par["start"] * (1 + nudge) for b in blocks if b.kind == "Accum"}
        self.mem = {b: b.par["ic"] * (1 + nudge) for b in blocks if b.kind == "Memory"}
        self.buf = {b: [] for b in blocks if b.kind == "Delay"}
        self.der = {b: None for b in blocks if b.kind == "Derivative"}
        self.ini = {}
        self.src = {}
        self.big = 0.0
        for b in blocks:
            for i, o in enumerate(b.outs):
                self.src[o.id] = (b, i)

    def input_values(self, t, bus=None):
        r = {s.name: a + b * math.sin(w * t) for s, a, b, w in self.inputs}

        def fill(b):
            for _, x, f in b.inbus:
                if f is None:
                    fill(x)
                else:
                    r[x.id] = f[0] + f[1] * math.sin(f[2] * t)
        for b in self.inbus:
            fill(b)
        return r

    def callback_values(self, t, m):
        """what the input callback returns"""
        r = {s.name: a + b * math.sin(w * t) for s, a, b, w in self.inputs}

        def make(b):
            bus = m.blocks.Bus.BusValues([l for l, _, _ in b.inbus])
            for _, x, f in b.inbus:
                bus.append(make(x) if f is None else f[0] + f[1] * math.sin(f[2] * t))
            return bus
        for b in self.inbus:
            r[b.name] = make(b)
        return r

    def evaluate(self, t, x, held):
        val = {}
        for s, _, _, _ in self.inputs:
            val[s.id] = held[s.name]
        for s, v in self.params:
            val[s.id] = v

        def values(b):
            return {x.id: values(x) if f is None else held[x.id] for _, x, f in b.inbus}
        for b in self.inbus:
            val[b.id] = values(b)

        def get(s):
            if s.id not in val:
                b, _ = self.src[s.id]
                for o, v in zip(b.outs, compute(b)):
                    val[o.id] = v
            return val[s.id]

        def compute(b):
            k, p = b.kind, b.par
            if k in ("Integrator", "Oscillator"):
                return [x[o.id] for o in b.outs]
            if k == "Memory":
                return [self.mem[b]]
            if k == "InitialValue" and b in self.ini:
                return [self.ini[b]]
            v = [get(s) for s in b.ins]
            if k == "Const":
                return [p["value"]]
            if k == "Gain":
                return [p["k"] * v[0]]
            if k == "Function":
                f = p["f"]
                return [fn(f)(t, v[0]) if f != 6 else p["life"] * (0.5 + 0.5 * np.sin(v[0]))]
            if k == "MIMO":
                return mimo(p["f"])(t, v)
            if k == "AddSub":
                r = 0.0 if p["ini"] is None else p["ini"]
                for o, w in zip(p["ops"], v):
                    r = r + w if o == "+" else r - w
                return [r]
            if k == "MulDiv":
                r = 1.0 if p["ini"] is None else p["ini"]
                for o, w in zip(p["ops"], v):
                    r = r * w if o == "*" else r / w
                return [r]
            if k == "Delay":
                h = self.buf[b]
                if not h:
                    return [v[2]]
                q = t - v[1]
                if q <= h[0][0]:
                    return [h[0][1]]
                if q >= h[-1][0]:
                    return [h[-1][1]]
                for (ta, xa), (tb, xb) in zip(h, h[1:]):
                    if ta <= q <= tb:
                        return [xa + (xb - xa) * (q - ta) / (tb - ta)]
            if k == "Derivative":
                d = self.der[b]
                if d is None:
                    y = p["y0"]
                    self.der[b] = (t, v[0], y)
                    return [y]
                if d[0] == t:
                    return [d[2]]
                return [(v[0] - d[1]) / (t - d[0])]
            if k == "InitialValue":
                self.ini[b] = v[0]
                return [v[0]]
            if k == "Affine":
                return [0.5 * v[0] + val[p["param"].id] * math.cos(t)]
            if k == "Accum":
                return [np.tanh(self.acc[b])]
            if k == "Unit":
                return [v[0] * p["k"] + 0.5]
            if k == "Signal":
                return [v[0]]
            if k == "Bus":
                return [dict((s.id, w) for s, w in zip(b.ins, v))]
            return [v[0][s.id] for s in p["picked"]]
        for b in self.blocks:
            for o in b.outs:
                get(o)
            if b.kind in ("Integrator", "Memory", "Oscillator"):
                get(b.ins[0])
        for v in val.values():
            if not isinstance(v, dict):
                self.big = max(self.big, float(np.max(np.abs(v))))
        if not self.big < 1e5:
            raise Discard()
        return val

    def deriv(self, t, x, held):
        val = self.evaluate(t, x, held)
        return {k: val[self.dot[k]] for k in x}

    def accept(self, t, val):
        for b in self.mem:
            self.mem[b] = val[b.ins[0].id]
        for b in self.acc:
            self.acc[b] = self.acc[b] + 0.25 * val[b.ins[0].id]
        for b in self.buf:
            self.buf[b].append((t, val[b.ins[0].id]))
        for b in self.der:
            self.der[b] = (t, val[b.ins[0].id], val[b.outs[0].id])

    def step(self, t0, t1, held):
        h, x = t1 - t0, self.x
        add = lambda k, a: {b: x[b] + a * k[b] for b in x}
        k1 = self.deriv(t0, x, held)
        self.steps += 1
        nudge = self.nudge * (-1) ** (self.steps // 2)
        if self.method == "simple":
            self.x = {b: x[b] + h * k1[b] + nudge for b in x}
            return
        if self.method == "heun":
            k2 = self.deriv(t1, add(k1, h), held)
            self.x = {b: x[b] + h / 2 * (k1[b] + k2[b]) + nudge for b in x}
            return
        k2 = self.deriv(t0 + h / 2, add(k1, h / 2), held)
        k3 = self.deriv(t0 + h / 2, add(k2, h / 2), held)
        k4 = self.deriv(t1, add(k3, h), held)
        self.x = {b: x[b] + h / 6 * (k1[b] + 2 * k2[b] + 2 * k3[b] + k4[b]) + nudge for b in x}


def order_buses_first(blocks, order):
    """a selector can only be declared after its bus: its labels are those of the bus"""
    pos = {blocks[k].outs[0].id: n for n, k in enumerate(order) if blocks[k].kind == "Bus"}
    out, done = [], set()
    for k in order:
        if k in done:
            continue
        b = blocks[k]
        if b.kind == "BusSelector" and "labels" not in b.par:
            j = order[pos[b.ins[0].id]]
            if j not in done:
                out.append(j)
                done.add(j)
        out.append(k)
        done.add(k)
    return out


def case(c, ctx, m, out):
    sigs, blocks, inputs, params, inbus = generate(c)
    # selectors of selected buses: the labels come from the bus that was selected
    for b in blocks:
        if b.kind == "BusSelector" and "labels" not in b.par and not any(x.kind == "Bus" and x.outs[0] is b.ins[0] for x in blocks):
            raise Discard()
    subs, order = structure(c, sigs, blocks, inputs, params)
    fixed = order_buses_first(blocks, order)
    if fixed != order:
        # automatic names depend on the order
        order = fixed
        for s in sigs:
            if s.auto:
                s.auto, s.hidden = False, s.name.startswith('-')
    method = c.pick(["rk4", "rk4", "rk4", "rk4", "simple", "simple", "heun"])
    grids, t = [], round(c.real(-1, 1), 2)
    for _ in range(2 if c.chance(1, 3) else 1):
        g = []
        for _ in range(c.range(90, 230) if c.chance(1, 60) else c.small(1, 6, 40)):
            g.append(t)
            t += 0.25 if c.flip() else round(c.real(0.02, 1.2), 3)
        grids.append(g)
    for k in order:
        b = blocks[k]
        ctx.note("b%d %s(%s) -> %s in '%s' %s" % (k, b.kind, ", ".join(s.name for s in b.ins), ", ".join(o.name + ("(auto)" if o.auto else "") for o in b.outs), subs[b.home][1], {a: v for a, v in b.par.items() if a not in ("picked", "param")}))
    ctx.note("inputs %s parameters %s" % ([s.name for s, *_ in inputs] + [b.name for b in inbus], [s.name for s, *_ in params]))
    ctx.note("%s, times %s" % (method, grids))
    model = build(c, m, subs, order, blocks)
    ref = Ref(sigs, blocks, inputs, params, method, 0.0, inbus)
    # how much rounding may be amplified: the same with every state nudged by 1e-11 at every step
    nudged = Ref(sigs, blocks, inputs, params, method, 1e-11, inbus)
    par = {s.name: (v.copy() if isinstance(v, np.ndarray) else v) for s, v in params}
    states = list(ref.x)
    visible = {o.name: o for b in blocks for o in b.outs if not o.hidden and o.bus is None}
    for s, *_ in inputs:
        visible[s.name] = s
    for number, g in enumerate(grids):
        seen = []
        if number and c.flip():
            # other parameters
            params = [(s, value(c, s.shape)) for s, _ in params]
            ref.params = nudged.params = params
            par = {s.name: (v.copy() if isinstance(v, np.ndarray) else v) for s, v in params}
            ctx.note("now with the parameters %s" % par)

        def cb(t, x):
            seen.append((t, np.array(x, dtype=float)))
            return ref.callback_values(t, m)
        kw = dict(stepper=heun) if method == "heun" else dict(stepper=m.solver.simple) if method == "simple" else dict() if c.flip() else dict(stepper=m.solver.rk4)
        T = np.array(g) if c.flip() else list(g)
        # the reference first: it tells whether the numbers stay within bounds
        want, xs, amp = [], [], []
        for n, t in enumerate(g):
            held = ref.input_values(t)
            xs.append(sorted(float(v) for b in states for v in np.ravel(ref.x[b])))
            val = ref.evaluate(t, ref.x, held)
            want.append(val)
            ref.accept(t, val)
            near = nudged.evaluate(t, nudged.x, held)
            nudged.accept(t, near)
            amp.append(max([0.0] + [float(np.max(np.abs(val[k] - near[k]))) for k in val if not isinstance(val[k], dict)]))
            if not amp[-1] < 1e-6 * (1 + ref.big):
                raise Discard()
            if n + 1 < len(g) and states:
                ref.step(t, g[n + 1], held)
                nudged.step(t, g[n + 1], held)
        hist = m.helper.run(model, T, inputs_cb=cb, parameters=par, **kw)
        ctx.check([a for a, _ in seen] == list(g), lambda: "the inputs are asked for at %s instead of %s" % ([a for a, _ in seen], g))
        tol = np.maximum.accumulate([1e-9 * (1 + ref.big) + 10 * a for a in amp])
        if states:
            for n, (_, x) in enumerate(seen):
                ctx.check(len(x) == len(xs[n]) and np.all(np.abs(np.sort(x) - np.array(xs[n])) <= tol[n]), lambda: "the input callback is given the state %s instead of %s (sorted) at t=%g" % (np.sort(x), xs[n], g[n]))
        ctx.check(set(hist) == set(visible) | {"t"}, lambda: "recorded: %s; expected: %s" % (sorted(hist), sorted(visible) + ["t"]))
        ctx.check(np.array_equal(hist["t"], np.array(g)), lambda: "recorded times %s instead of %s" % (hist["t"], g))
        for name, s in visible.items():
            ctx.check(hist[name].shape == (len(g),) + s.shape, lambda: "%s is recorded with the shape %s instead of %s" % (name, hist[name].shape, (len(g),) + s.shape))
            for n in range(len(g)):
                d = np.max(np.abs(hist[name][n] - want[n][s.id]))
                ctx.check(d <= tol[n], lambda: "%s is %s at t=%g but should be %s" % (name, hist[name][n], g[n], want[n][s.id]))
                ctx.label("values compared")
        for b in blocks:
            ctx.label(b.kind)
        if states:
            ctx.label("runs with states")
        ctx.check("unprocessed" not in out.getvalue(), lambda: "blocks are reported as unprocessed: " + out.getvalue())
    if len(blocks) >= 3 and sum(map(len, grids)) >= 3:
        ctx.nontrivial = True
