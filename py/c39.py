"""Tables read from .mat files as a bus."""
import os
import tempfile

import numpy as np
import scipy.io as spio

from engine import Discard, Failure

RULE = ("random sets of .mat files (names of 0 to 4 parts, one or many rows, one or many columns, whole numbers, next to files of other prefixes, other kinds and in folders below) are loaded as a bus; the "
        "names, at every level, and the interpolated and extrapolated values at random times are compared with a linear interpolation of the tables written; then a model reads them by nested bus selectors; "
        "non-trivial: at least 2 tables, at least one of several rows")


def case(c, ctx, m, out):
    prefix = c.pick(["p", "info", "long_prefix", "Kin 2"])
    tree, tables = {}, []

    def table():
        rows = 1 if c.chance(1, 4) else c.small(2, 6, 30)
        cols = c.range(1, 3) if c.flip() else 1
        t0 = c.real(-3, 3)
        ts = [t0]
        for _ in range(rows - 1):
            ts.append(ts[-1] + c.pick([0.5, 0.01, 1.0, 3.25]) * c.range(1, 3))
        if c.chance(1, 5):
            ts = [float(k) for k in range(-1, rows - 1)]
            return np.array([[int(t)] + [c.range(-9, 9) for _ in range(cols)] for t in ts])
        return np.array([[t] + [c.real(-10, 10) for _ in range(cols)] for t in ts])
    with tempfile.TemporaryDirectory(prefix="pbt.py.") as d:
        for _ in range(c.small(1, 4, 12)):
            depth = c.small(1, 2, 4)
            parts = [c.pick(["x", "y", "vehicle", "a1", "Fz"]) for _ in range(depth)]
            if c.chance(1, 10):
                parts = []
            cur, ok = tree, True
            key = parts or [prefix]
            for p in key[:-1]:
                cur = cur.setdefault(p, {})
                if not isinstance(cur, dict):
                    ok = False
                    break
            if not ok or key[-1] in cur:
                continue  # (a name is either a table or a bus)
            cur[key[-1]] = table()
            tables.append(key)
            spio.savemat(os.path.join(d, ".".join([prefix] + parts) + ".mat"), {"data": cur[key[-1]], "other": np.array([[1.0, 2.0]])})

        def prune(t):
            for k in list(t):
                if isinstance(t[k], dict):
                    prune(t[k])
                    if not t[k]:
                        del t[k]
        prune(tree)
        for _ in range(c.draw(4)):
            k = c.draw(5)
            if k == 0:
                spio.savemat(os.path.join(d, c.pick([prefix + "x", "x" + prefix, prefix.upper() + "_"]) + ".x.mat"), {"data": np.zeros((2, 2))})
            elif k == 1:
                open(os.path.join(d, prefix + ".note.txt"), "w").write("nothing")
            elif k == 2:
                open(os.path.join(d, prefix + ".x.mat.bak"), "w").write("nothing")
            elif k == 3:
                os.makedirs(os.path.join(d, "below"), exist_ok=True)
                spio.savemat(os.path.join(d, "below", prefix + ".deep.mat"), {"data": np.zeros((2, 2))})
            else:
                os.makedirs(os.path.join(d, prefix + ".folder.mat"), exist_ok=True)
        ctx.note("prefix %s, files %s" % (prefix, sorted(os.listdir(d))))
        bus = m.helper.load_mat_files_as_bus(d, prefix)
    # (the files are gone)
    nt = [t for t in tables]
    ctx.label("tables", len(nt))

    def at(tab, t):
        v = tab[:, 1:].astype(float)
        if len(tab) == 1:
            r = v[0]
        else:
            x = tab[:, 0].astype(float)
            k = min(max(int(np.searchsorted(x, t)) - 1, 0), len(x) - 2)
            r = v[k] + (v[k + 1] - v[k]) * ((t - x[k]) / (x[k + 1] - x[k]))
        return r

    def names(t):
        return {k: names(v) for k, v in t.items()} if isinstance(t, dict) else None
    ctx.check(names(bus) == names(tree), lambda: "loaded: %s; expected: %s" % (names(bus), names(tree)))

    def get(root, key):
        for k in key:
            root = root[k]
        return root
    knots = [float(x) for key in nt for x in get(tree, key)[:, 0]]
    times = []
    for _ in range(c.range(1, 6)):
        times.append(c.pick(knots) if knots and c.chance(1, 3) else c.real(-8, 25))

    def same(got, want):
        for a, b in zip(np.ravel(got), np.ravel(want)):
            if not abs(a - b) <= 1e-8 * (1 + abs(b)) + 1e-7 * np.max(np.abs(want)):
                return False
        return np.size(got) == np.size(want)

    def compare(vals, t, root, path):
        ctx.check(list(vals._names) == list(dict.fromkeys(vals._names)) and set(vals._names) == set(root) and len(vals) == len(vals._names), lambda: "the bus%s has the names %s (%d values) instead of %s" % (path, vals._names, len(vals), sorted(root)))
        for n, v in zip(vals._names, vals):
            if isinstance(root[n], dict):
                ctx.check(isinstance(v, m.blocks.Bus.BusValues), lambda: "%s.%s is not a bus" % (path, n))
                compare(v, t, root[n], path + "." + n)
                continue
            want = at(root[n], t)
            ctx.check((type(v) is float and len(want) == 1) or (isinstance(v, np.ndarray) and v.shape == want.shape and len(want) > 1), lambda: "%s.%s is a %s" % (path, n, type(v)))
            ctx.check(same(v, want), lambda: "%s.%s is %s at t=%g but should be %s; table: %s" % (path, n, v, t, want, root[n].tolist()))
            ctx.label("values compared")
            if len(root[n]) > 1:
                ctx.label("outside the table" if not root[n][0][0] <= t <= root[n][-1][0] else "within the table")
    for t in times:
        compare(m.helper.interp_bus(bus, t), t, tree, "")
    # a model that reads them
    B = m.blocks
    top = B.Submodel("")
    made = {(): "root"}
    outs = []
    with top:
        for key in c.shuffle(nt):
            for k in range(len(key)):
                p = tuple(key[:k + 1])
                if p not in made:
                    made[p] = "sig." + ".".join(p)
                    B.BusSelector("", B.N(made[p[:-1]]), [p[-1]], [B.N(made[p])])
            o = "out%d" % len(outs)
            B.Gain("", 2.0, B.N(made[tuple(key)]), B.N(o))
            outs.append((o, key))
    if not outs:
        raise Discard()
    grid = sorted(set(times))
    hist = m.helper.run(top, grid, inputs_cb=lambda t, x: {"root": m.helper.interp_bus(bus, t)})
    for o, key in outs:
        for n, t in enumerate(grid):
            ctx.check(same(hist[o][n], 2 * at(get(tree, key), t)), lambda: "%s read by a model is %s instead of %s at t=%g" % (key, hist[o][n] / 2, at(get(tree, key), t), t))
    if len(nt) >= 2 and any(len(get(tree, k)) > 1 for k in nt):
        ctx.nontrivial = True
