"""Property-based testing of the Python part: choice sequences, worker processes, shrinking, replay.

  engine.py <c37|c38> --repo R --seed S --cases N --wall SECONDS --out FILE --replay-dir D
  engine.py --replay FILE --repo R
"""
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import random
import signal
import struct
import sys
import time
import traceback
import types
from contextlib import redirect_stdout

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class Failure(Exception):
    """the property does not hold"""


class Discard(Exception):
    """not a case"""


class Hang(BaseException):
    pass


class Choices:
    """A recorded (or replayed) sequence of choices; zero is the simplest one."""

    def __init__(self, rnd=None, seq=None):
        self.rnd, self.seq, self.pos, self.log = rnd, seq, 0, []

    def draw(self, n):
        if n <= 1:
            return 0
        if self.seq is not None:
            v = self.seq[self.pos] % n if self.pos < len(self.seq) else 0
            self.pos += 1
        else:
            v = self.rnd.randrange(n)
        self.log.append(v)
        return v

    def range(self, a, b):
        return a + self.draw(b - a + 1)

    def flip(self):
        return self.draw(2) == 1

    def chance(self, a, b):
        return self.draw(b) >= b - a

    def pick(self, l):
        return l[self.draw(len(l))]

    def small(self, lo, typical, hi):
        """mostly up to typical, sometimes up to hi"""
        return self.range(lo, hi) if self.chance(1, 8) else self.range(lo, typical)

    def real(self, a, b):
        return a + (b - a) * self.draw(1 << 16) / float(1 << 16)

    def shuffle(self, l):
        l = list(l)
        for i in range(len(l) - 1, 0, -1):
            k = i - self.draw(i + 1)
            l[i], l[k] = l[k], l[i]
        return l


class Ctx:
    def __init__(self):
        self.labels, self.nontrivial, self.notes, self.hash = {}, False, [], hashlib.blake2b(digest_size=8)

    def label(self, k, n=1):
        self.labels[k] = self.labels.get(k, 0) + n

    def note(self, s):
        self.notes.append(s)

    def check(self, cond, msg):
        if not cond:
            raise Failure(msg() if callable(msg) else msg)


REPO = "/repo"
CODE = {}


def load():
    """fresh copies of the modules: nothing is left over from the case before"""
    d = os.path.join(REPO, "misc", "py_ss")
    if not CODE:
        for m in ("blocks", "solver", "helper"):
            p = os.path.join(d, m + ".py")
            CODE[m] = compile(open(p).read(), p, "exec")
    mods = {}
    for m in ("blocks", "solver", "helper"):
        mods[m] = sys.modules[m] = types.ModuleType(m)
        mods[m].__file__ = os.path.join(d, m + ".py")
        exec(CODE[m], mods[m].__dict__)
    return types.SimpleNamespace(**mods)


def on_alarm(*_):
    raise Hang()


def run_case(prop, choices):
    """-> (status, message, ctx)"""
    ctx = Ctx()
    out = io.StringIO()
    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, 30)
    try:
        with redirect_stdout(out):
            prop.case(choices, ctx, load(), out)
        return "pass", "", ctx
    except Discard:
        return "discard", "", ctx
    except Failure as e:
        return "fail", str(e), ctx
    except Hang:
        return "fail", "no answer within 30 s of computing", ctx
    except Exception:
        return "fail", "unexpected exception:\n" + traceback.format_exc()[-3000:], ctx
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def case_seed(seed, name, i):
    return int.from_bytes(hashlib.blake2b(("%d %s %d" % (seed, name, i)).encode(), digest_size=8).digest(), "little")


def shrink(prop, seq, budget):
    end = time.time() + budget
    def bad(s):
        c = Choices(seq=s)
        st, _, _ = run_case(prop, c)
        return c.log if st == "fail" else None
    best = list(seq)
    progress = True
    while progress and time.time() < end:
        progress = False
        for size in (32, 16, 8, 4, 2, 1):
            i = 0
            while i < len(best) and time.time() < end:
                r = bad(best[:i] + best[i + size:])
                if r is not None and (len(r), r) < (len(best), best):
                    best, progress = r, True
                else:
                    i += size
        for i in range(len(best)):
            for v in (0, best[i] // 2, best[i] - 1) if i < len(best) and best[i] else ():
                if time.time() > end or i >= len(best) or v >= best[i]:
                    break
                r = bad(best[:i] + [v] + best[i + 1:])
                if r is not None and (len(r), r) < (len(best), best):
                    best, progress = r, True
                    break
    return best


def worker(prop, name, seed, cases, w, W, deadline, q):
    res = dict(evaluations=0, discarded=0, nontrivial=0, labels={}, samples=[], hashes=[], fail=None)
    for i in range(w, cases, W):
        if time.time() > deadline:
            break
        c = Choices(rnd=random.Random(case_seed(seed, name, i)))
        st, msg, ctx = run_case(prop, c)
        res["evaluations"] += 1
        if st == "discard":
            res["discarded"] += 1
            continue
        for k, v in ctx.labels.items():
            res["labels"][k] = res["labels"].get(k, 0) + v
        if st == "fail":
            res["fail"] = (i, c.log, msg)
            break
        if ctx.nontrivial:
            res["nontrivial"] += 1
            res["hashes"].append(hashlib.blake2b(repr(c.log).encode(), digest_size=8).hexdigest())
            if len(res["samples"]) < 3:
                res["samples"].append(dict(case=i, text="\n".join(ctx.notes)[:1500]))
    q.put(res)


def main():
    global REPO
    a = sys.argv[1:]
    opt = dict(zip(a[1::2], a[2::2])) if a[0] != "--replay" else dict(zip(a[0::2], a[1::2]))
    REPO = opt.get("--repo", "/repo")
    if a[0] == "--replay":
        d = json.load(open(opt["--replay"]))
        prop = importlib.import_module(d["property"].lower())
        st, msg, ctx = run_case(prop, Choices(seq=d["choices"]))
        print("\n".join(ctx.notes))
        print(st, msg)
        return 1 if st == "fail" else 0
    name = a[0]
    prop = importlib.import_module(name)
    seed, cases, W = int(opt["--seed"]), int(opt["--cases"]), int(opt.get("--workers", 8))
    deadline = time.time() + float(opt["--wall"])
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=worker, args=(prop, name, seed, cases, w, W, deadline, q)) for w in range(W)]
    for p in ps:
        p.start()
    rs = [q.get() for _ in ps]
    for p in ps:
        p.join()
    start = time.time()
    res = dict(evaluations=0, discarded=0, nontrivial=0, labels={}, samples=[], rule=prop.RULE, violation=None, message="", unreproduced=0, killed=0)
    hashes, fails = set(), []
    for r in rs:
        for k in ("evaluations", "discarded", "nontrivial"):
            res[k] += r[k]
        for k, v in r["labels"].items():
            res["labels"][k] = res["labels"].get(k, 0) + v
        hashes |= set(r["hashes"])
        res["samples"] += r["samples"]
        if r["fail"]:
            fails.append(r["fail"])
    res["samples"] = sorted(res["samples"], key=lambda s: s["case"])[:4]
    res["hashes"] = sorted(hashes)
    for i, log, msg in sorted(fails):
        if not all(run_case(prop, Choices(seq=log))[0] == "fail" for _ in range(3)):
            res["unreproduced"] += 1
            continue
        best = shrink(prop, log, float(opt.get("--shrink", 20)))
        st, m, ctx = run_case(prop, Choices(seq=best))
        path = os.path.join(opt["--replay-dir"], name.upper() + "-py.replay")
        with open(path, "w") as f:
            json.dump(dict(property=name.upper(), case=i, choices=best, message=m, description=ctx.notes), f, indent=1)
        res["violation"], res["message"] = path, m
        break
    res["run_s"] = time.time() - start
    json.dump(res, open(opt["--out"], "w"))
    return 0


if __name__ == "__main__":
    import engine  # (one copy of the classes)
    sys.exit(engine.main())
