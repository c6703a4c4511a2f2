#!/usr/bin/env python3
"""Driver of the checks.

  check.py <ID>             runs the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py --thorough <ID>  the same with the thorough tier
  check.py --build          builds every harness
  check.py --replay FILE    re-runs a replay file against the current tree

The library is always compiled from /repo's working tree.
"""
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("POOYA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
HARNESS = os.path.join(VERIF, "harness")
JOBS = max(1, min(8, os.cpu_count() or 1))

sys.path.insert(0, VERIF)
from plan import PLAN  # noqa: E402

COMMON = ["-std=c++17", "-DEIGEN_MPL_ONLY", "-DEIGEN_NO_DEBUG", "-iquote", REPO, "-isystem", REPO + "/3rdparty",
          "-isystem", "/usr/include/eigen3"]
CONFIGS = {
    # the checked build (the default), under the sanitizers
    "dbg": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                  "-ftrivial-auto-var-init=pattern"], link=[]),
    # the unchecked build
    "rel": dict(cxx="g++", flags=["-O2", "-DNDEBUG"], link=[]),
    # coverage-guided
    "fuzz": dict(cxx="clang++", flags=["-O1", "-g1", "-DPBT_FUZZ", "-fsanitize=fuzzer,address,undefined",
                                       "-fno-sanitize-recover=all"], link=[]),
}
# the unchecked build as a shared object, to be loaded next to the checked one (properties with a "peer")
CONFIGS["so"] = dict(cxx="g++", flags=["-O2", "-DNDEBUG", "-fPIC", "-fvisibility=hidden", "-fno-gnu-unique"], link=["-shared", "-Wl,-Bsymbolic"])
PEER = {}
PYTHON = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
HFLAGS = ["-Wall", "-Wextra", "-Wno-init-list-lifetime", "-iquote", HARNESS]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_files(pat):
    return sorted(glob.glob(os.path.join(REPO, "src", "**", pat), recursive=True))


def compile_one(cxx, flags, src, key):
    os.makedirs(BUILD, exist_ok=True)
    obj = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(src).split(".")[0], key))
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    r = subprocess.run([cxx] + COMMON + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        if os.path.exists(tmp):
            os.remove(tmp)
        raise BuildError("%s does not compile:\n%s" % (src, r.stdout.decode(errors="replace")))
    os.replace(tmp, obj)
    return obj


def build(props, configs):
    """Builds the executables; returns {(prop, config): path}"""
    hdr = sha(*[p + "\0" + sha(read(p)) for p in repo_files("*.hpp") + repo_files("*.h") + sorted(glob.glob(REPO + "/3rdparty/misc/*.h"))])
    hh = sha(*[sha(read(p)) for p in sorted(glob.glob(HARNESS + "/*.hpp"))])
    jobs = {}  # (src, config) -> future
    with ThreadPoolExecutor(JOBS) as ex:
        def submit(src, cfg, harness):
            k = (src, cfg)
            if k in jobs:
                return
            c = CONFIGS[cfg]
            flags = c["flags"] + (HFLAGS if harness else [])
            key = sha(c["cxx"], " ".join(COMMON + flags), hdr, hh if harness else "", src, read(src))
            jobs[k] = ex.submit(compile_one, c["cxx"], flags, src, key)
        libs = repo_files("*.cpp")
        peers = [p for p in props if PLAN[p].get("peer")]
        for p in peers:
            for s in ["lib", "ref", "engine", p.lower()]:
                submit(os.path.join(HARNESS, s + ".cpp"), "so", True)
        for cfg in configs:
            # the slowest first
            for s in ["lib", "ref", "engine"]:
                submit(os.path.join(HARNESS, s + ".cpp"), cfg, True)
            for p in props:
                for s in PLAN[p].get("sources", [p.lower() + ".cpp"]):
                    submit(os.path.join(HARNESS, s), cfg, True)
        for cfg in configs + (["so"] if peers else []):
            for s in libs:
                submit(s, cfg, False)
        objs = {k: f.result() for k, f in jobs.items()}

        def link(p, cfg):
            c = CONFIGS[cfg]
            o = [objs[(os.path.join(HARNESS, s), cfg)] for s in PLAN[p].get("sources", [p.lower() + ".cpp"])]
            o += [objs[(os.path.join(HARNESS, s + ".cpp"), cfg)] for s in ("engine", "ref", "lib")]
            o += [objs[(s, cfg)] for s in libs]
            exe = os.path.join(BUILD, "%s-%s-%s" % (p, cfg, sha(*o)))
            if not os.path.exists(exe):
                tmp = exe + ".%d.tmp" % os.getpid()
                r = subprocess.run([c["cxx"]] + c["flags"] + o + c["link"] + PLAN[p].get("link", []) + ["-ldl", "-o", tmp], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                if r.returncode != 0:
                    raise BuildError("%s does not link:\n%s" % (p, r.stdout.decode(errors="replace")))
                os.replace(tmp, exe)
            return exe
        fs = {(p, cfg): ex.submit(link, p, cfg) for p in props for cfg in configs}
        fs.update({(p, "so"): ex.submit(link, p, "so") for p in peers})
        res = {k: f.result() for k, f in fs.items()}
        for p in peers:
            PEER["path"] = res[(p, "so")]
        return res


def toolchain_works():
    d = tempfile.mkdtemp(prefix="pbt.canary.")
    try:
        src = os.path.join(d, "x.cpp")
        with open(src, "w") as f:
            f.write("#include <eigen3/Eigen/Core>\n#include <functional>\nint main() { return 0; }\n")
        for c in ("dbg", "rel"):
            if subprocess.run([CONFIGS[c]["cxx"]] + CONFIGS[c]["flags"] + ["-I/usr/include", src, "-o", os.path.join(d, "x")],
                              stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                return False
        return True
    finally:
        shutil.rmtree(d)


def env_for(cfg):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:max_malloc_fill_size=65536:malloc_fill_byte=203:max_free_fill_size=65536:"
                         "free_fill_byte=167:allocator_may_return_null=0:hard_rss_limit_mb=3500:quarantine_size_mb=16:"
                         "detect_stack_use_after_return=1:handle_abort=0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    if cfg == "rel":
        e["MALLOC_PERTURB_"] = "205"
    e.pop("PBT_NOASLR_DONE", None)
    if PEER:
        e["PBT_PEER"] = PEER["path"]
    # the listed findings; a harness steps around exactly these and only while they are listed
    e["PBT_KNOWN"] = ",".join(k for k in known_ids())
    return e


def run_engine(exe, cfg, seed, cases, first, wall, extra=()):
    d = tempfile.mkdtemp(prefix="pbt.run.")
    try:
        out, hsh = os.path.join(d, "out.json"), os.path.join(d, "hash")
        cmd = [exe, "--seed", str(seed), "--cases", str(cases), "--first", str(first), "--workers", str(JOBS), "--wall",
               str(int(wall)), "--config", cfg, "--out", out, "--hash-out", hsh, "--replay-dir", REPLAYS]
        cmd += list(extra)
        r = subprocess.run(cmd, env=env_for(cfg), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if not os.path.exists(out):
            raise RuntimeError("%s ended with %d and no result: %s" % (exe, r.returncode, r.stderr.decode(errors="replace")[-2000:]))
        with open(out) as f:
            res = json.load(f)
        data = read(hsh) if os.path.exists(hsh) else b""
        res["hashes"] = set(struct.unpack("<%dQ" % (len(data) // 8), data[:len(data) // 8 * 8]))
        res["stderr"] = r.stderr.decode(errors="replace")
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_ids():
    p = os.path.join(VERIF, "known_findings.txt")
    return re.findall(r"^finding: property=\S+ \[(\w+)\]", open(p).read(), re.M) if os.path.exists(p) else []


def load_findings(prop):
    """Known findings (not repaired): the texts printed"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) (.*)$", l.strip())
        if m and m.group(1) == prop:
            res.append(m.group(2))
    return res


def run_python(prop, seed, cases, wall):
    """the properties of the Python part: the same kind of engine, in Python"""
    d = tempfile.mkdtemp(prefix="pbt.run.")
    try:
        out = os.path.join(d, "out.json")
        r = subprocess.run([PYTHON, os.path.join(VERIF, "py", "engine.py"), prop.lower(), "--repo", REPO, "--seed", str(seed), "--cases", str(cases),
                            "--workers", str(JOBS), "--wall", str(int(wall)), "--out", out, "--replay-dir", REPLAYS],
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"))
        if not os.path.exists(out):
            raise RuntimeError("engine.py ended with %d and no result: %s" % (r.returncode, r.stderr.decode(errors="replace")[-2000:]))
        with open(out) as f:
            res = json.load(f)
        res["hashes"] = set(res["hashes"])
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fuzz_campaign(prop, exe, seed, seconds):
    """libFuzzer over the same property body; returns (runs, path of a failing case or None)"""
    d = tempfile.mkdtemp(prefix="pbt.fuzz.")
    try:
        fail = os.path.join(d, "fail.replay")
        procs = []
        for i in range(JOBS):
            c = os.path.join(d, "c%d" % i)
            os.makedirs(c)
            e = env_for("fuzz")
            e["ASAN_OPTIONS"] = "detect_leaks=0:quarantine_size_mb=16"
            e["PBT_FUZZ_FAIL"] = fail + str(i)
            e["PBT_WORKER_TMP"] = os.path.join(d, "t%d" % i)
            log = open(os.path.join(d, "log%d" % i), "w")
            procs.append((subprocess.Popen([exe, c, "-seed=%d" % (seed * 100 + i + 1), "-max_total_time=%d" % seconds, "-max_len=4096",
                                            "-len_control=20", "-timeout=60", "-rss_limit_mb=3500", "-print_final_stats=1",
                                            "-artifact_prefix=" + c + "-"],
                                           env=e, stdout=subprocess.DEVNULL, stderr=log, cwd=d), i))
        runs, bad, cov = 0, None, 0
        for p, i in procs:
            p.wait()
            t = read(os.path.join(d, "log%d" % i)).decode(errors="replace")
            m = re.search(r"number_of_executed_units:\s*(\d+)", t)
            runs += int(m.group(1)) if m else 0
            m = re.findall(r"cov: (\d+)", t)
            cov = max([cov] + [int(x) for x in m])
            if p.returncode != 0:
                if os.path.exists(fail + str(i)):
                    bad = bad or ("replay", read(fail + str(i)))
                else:
                    art = [x for x in glob.glob(os.path.join(d, "c%d-*" % i)) if "oom" not in x and "timeout" not in x and "slow" not in x]
                    if art and "ERROR: libFuzzer: out-of-memory" not in t:
                        bad = bad or ("bytes", read(art[0]), t[-5000:])
        return runs, cov, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop]
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for f in glob.glob(os.path.join(REPLAYS, prop + "-*")):
        os.remove(f)
    thorough = tier == "thorough"
    python = plan.get("python")
    configs = ["py"] if python else plan.get("configs", ["dbg", "rel"])
    violation, message = None, ""
    results = {}
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[])
    hashes = set()
    try:
        exes = {} if python else build([prop], configs + (["fuzz"] if thorough else []))
    except BuildError as e:
        if not toolchain_works():
            print("the toolchain does not work here: nothing was checked")
            return 2
        violation = os.path.join(REPLAYS, prop + "-build.log")
        with open(violation, "w") as f:
            f.write("The documented interface of the library cannot be compiled.\n" + str(e))
        message = "the library's documented interface does not compile: " + str(e).splitlines()[0]
        cov["rule"] = "the harness could not be built against the current tree"
        cov["samples"] = [str(e)[:3000]]
        exes = {}
    build_s = time.time() - t0
    n = plan["thorough" if thorough else "quick"]
    wall = 2400 if thorough else 300
    for k, cfg in enumerate(configs):
        if violation:
            break
        if python:
            r = run_python(prop, seed, n[cfg], wall)
        else:
            r = run_engine(exes[(prop, cfg)], cfg, seed, n[cfg], k * 10 ** 9, wall)
        results[cfg] = r
        hashes |= r["hashes"]
        cov["evaluations"] += r["evaluations"]
        cov["rule"] = r["rule"]
        cov["samples"] += [dict(config=cfg, **s) for s in r["samples"]]
        if r["violation"]:
            violation, message = r["violation"], r["message"]
    if thorough and not violation and not python:
        runs, fcov, bad = fuzz_campaign(prop, exes[(prop, "fuzz")], seed, plan.get("fuzz_s", 180))
        cov["coverage_guided_executions"] = runs
        cov["coverage_guided_edges"] = fcov
        cov["evaluations"] += runs
        if bad:
            rp = os.path.join(REPLAYS, prop + "-fuzz.replay")
            if bad[0] == "replay":
                with open(rp, "wb") as f:
                    f.write(bad[1])
                ok = all(subprocess.run([exes[(prop, "dbg")], "--replay", rp], env=env_for("dbg"), stdout=subprocess.DEVNULL,
                                        stderr=subprocess.DEVNULL).returncode == 1 for _ in range(3))
            else:
                with open(rp, "wb") as f:
                    f.write(bad[1])
                with open(rp + ".log", "w") as f:
                    f.write(bad[2])
                ok = True
                for _ in range(3):
                    e = env_for("fuzz")
                    e["ASAN_OPTIONS"] = "detect_leaks=0"
                    ok = ok and subprocess.run([exes[(prop, "fuzz")], rp], env=e, stdout=subprocess.DEVNULL,
                                               stderr=subprocess.DEVNULL).returncode != 0
            if ok:
                violation, message = rp, "found by coverage-guided fuzzing: see the replay file"
            else:
                cov["fuzz_unreproduced"] = 1
    cov["distinct_nontrivial"] = len(hashes)
    cov["nontrivial"] = sum(r["nontrivial"] for r in results.values())
    cov["discarded"] = sum(r["discarded"] for r in results.values())
    cov["per_config"] = {c: dict(evaluations=r["evaluations"], run_s=round(r["run_s"], 2), unreproduced=r["unreproduced"],
                                 killed=r["killed"]) for c, r in results.items()}
    labels = {}
    for r in results.values():
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    cov["classes"] = labels
    cov["build_s"] = round(build_s, 2)
    findings = load_findings(prop)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=plan.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    if findings:
        ev["coverage"]["known_findings"] = findings
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (prop, tier, cov["evaluations"],
                                                                             cov["distinct_nontrivial"], ev["wall_s"], build_s))
    if violation:
        print(message[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    return 0


def replay(path):
    data = read(path)
    text = data.decode(errors="replace")
    if path.endswith("-py.replay"):
        return subprocess.run([PYTHON, os.path.join(VERIF, "py", "engine.py"), "--replay", path, "--repo", REPO]).returncode
    m = re.search(r"^property (\S+)", text, re.M)
    if text.startswith("pooya-replay") and m:
        cfg = re.search(r"^config (\S+)", text, re.M).group(1)
        exe = build([m.group(1)], [cfg])[(m.group(1), cfg)]
        return subprocess.run([exe, "--replay", path], env=env_for(cfg)).returncode
    m = re.match(r"(C\d\d)-fuzz", os.path.basename(path))
    if m:
        exe = build([m.group(1)], ["fuzz"])[(m.group(1), "fuzz")]
        return int(subprocess.run([exe, path], env=env_for("fuzz")).returncode != 0)
    print(text)
    return 1


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if a and a[0] == "--thorough":
        tier = "thorough"
        a = a[1:]
    if a == ["--build"]:
        build(sorted(p for p in PLAN if not PLAN[p].get("python")), ["dbg", "rel"])
        return 0
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    if len(a) != 1 or a[0] not in PLAN:
        print(__doc__)
        return 2
    return check(a[0], "thorough" if tier == "thorough" else "quick", seed)


if __name__ == "__main__":
    sys.exit(main())
