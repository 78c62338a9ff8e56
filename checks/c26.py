"""C26: a run is a function of its inputs and random draws, and watching it does not change it."""
import os
import time
import numpy as np
from zv import logs, workload, models
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch, BASE_ENV
from checks.c06 import rnd_planes, write_max

N = 3000 if THOROUGH else int(os.environ.get("ZV_N", "1400"))
LOGS = ["stateIndex.log", "backups.log", "boundValues.log", "q.log"]


def cases():
    cs = workload.bench_cases(N, 2626)
    for i, c in enumerate(cs):
        c["cmd"] = "evaluate" if i % 7 == 3 and c["kind"] in ("pomdp", "layered") else "benchmark"
        if c["kind"] in ("pomdp", "layered") and c.get("lb") == "point" and i % 3:
            c.pop("lb"), c.pop("ub", None)
        c["id"] = c["cmd"] + "-" + c["id"]
    return cs


def lines(path):
    """bounds.plot without its first column (time)"""
    return [tuple(l.split()[1:]) for l in open(path) if l.strip() and not l.startswith("#")]


def data(path):
    return [l.rstrip("\n") for l in open(path, encoding="latin1") if not l.startswith("#")]


def noise(rng):
    """an environment that must not matter"""
    fill = int(rng.choice([0x00, 0x01, 0x41, 0x7f, 0xff]))
    return {"ASAN_OPTIONS": BASE_ENV["ASAN_OPTIONS"] + ":malloc_fill_byte=%d:max_malloc_fill_size=300000000:free_fill_byte=%d" % (fill, fill),
            "PADDING" + "x" * int(rng.integers(1, 3000)): "y" * int(rng.integers(1, 3000)), "TZ": "Pacific/Chatham",
            "LC_ALL": str(rng.choice(["C", "de_DE.UTF-8", "C.UTF-8"])), "HOME": "/", "TMPDIR": "/nonexistent"}


def run(c, st):
    w = workload.Work(dict(c, strat=c.get("strat", "frtdp")))
    rng = np.random.default_rng([c["seed"], 26])
    files = w.files()
    if c["cmd"] == "evaluate":
        return evaluate(c, st, w, rng, files)
    det = w.strat in ("frtdp", "hsvi")
    pol = w.pomdp and w.lb == "maxPlanes" and w.has_lb
    nb = int(rng.choice([20, 60, 150]))
    prec = "%.17g" % (float(rng.choice([1e-2, 1e-4, 1e-6])) * w.scale())
    limits = ["-p", prec, "--terminateNumBackups", str(nb)]
    seed = {"ZV_SEED": str(c["rs"]), "ZV_CLOCK": "1"}

    def go(d, extra, env, cmd="benchmark", before=None):
        w.write(d)
        a = [cmd] + w.args() + limits + list(extra) + [w.fname]
        r = logs.zmdp(d, a, env=env, timeout=120)
        if r.timeout and before is not None and before < 3:  # the same work took less than 1/40 of the time
            bad("the same run ends in one environment and not in another", "%.2f s, then more than 120 s\n%s" % (before, r.brief()))
        logs.must_end_ok(r, cmd, files)
        st.add("runs")
        return r

    def bad(what, detail=""):
        raise Violation("%s (%s)" % (what, "deterministic strategy" if det else "randomised strategy"), detail,
                        dict(files, args=" ".join(w.args() + limits)))

    def same(what, a, b, name):
        if a == b:
            return
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        bad(what, "%s: %d and %d lines, first difference at line %d: %s | %s" %
            (name, len(a), len(b), i + 1, a[i] if i < len(a) else "(none)", b[i] if i < len(b) else "(none)"))
    out = ["-o", "p"] if pol else []
    full = ["--useLogBackups", "1", "--qValuesOutputFile", "q.log", "--storageOutputFile", "st.log",
            "--evaluationTrialsPerEpoch", "10", "--evaluationMaxStepsPerTrial", "3", "--simulationTracesToLogPerEpoch", "0"]
    late = ["--evaluationFirstEpochWallclockSeconds", "1e15"]
    with Scratch() as d, Scratch() as e:
        t0 = time.time()
        go(d, full + late + out, seed)
        took = time.time() - t0
        base = lines(os.path.join(d, "bounds.plot"))
        idx = logs.state_index(os.path.join(d, "stateIndex.log"), w.dim)
        x0 = w.start()
        root = [i for i, x in idx.items() if np.abs(x - x0).max() < 1e-12]
        bv = logs.id_values(os.path.join(d, "boundValues.log"), 1, 2)
        D = {n: data(os.path.join(d, n)) for n in LOGS + out[1:] + ["st.log", "scores.plot"]}
        st.add("bound lines", len(base))
        st.add("logged states", len(D["boundValues.log"]))
        # the same again: other memory contents, addresses, environment, working directory, clock
        sub = os.path.join(e, "a b", "c" * int(rng.integers(1, 60)))
        os.makedirs(sub)
        go(sub, full + late + out, dict(seed, ZV_CLOCK=str(rng.choice(["1", "3", "0.5", "40", "2e5"])), **noise(rng)), before=took)
        same("the same run gives other bounds where memory, environment or clock differ", base, lines(os.path.join(sub, "bounds.plot")), "bounds.plot")
        for n in D:
            x, y = D[n], data(os.path.join(sub, n))
            if n == "st.log":  # its first column is the time
                x, y = [l.split()[1:] for l in x], [l.split()[1:] for l in y]
            same("the same run gives other results where memory, environment or clock differ", x, y, n)
        st.add("runs repeated under other conditions")
    if det:
        with Scratch() as d:  # random draws have no part in the search
            go(d, full + late + out, dict(seed, ZV_SEED=str(c["rs"] + 77), ZV_RAND=str(rng.choice(["", "max", "zero", "mix5"]))), before=took)
            same("random numbers change the bounds of a deterministic strategy", base, lines(os.path.join(d, "bounds.plot")), "bounds.plot")
            for n in LOGS + out[1:]:
                same("random numbers change the results of a deterministic strategy", D[n], data(os.path.join(d, n)), n)
        with Scratch() as d:  # nor have logs, evaluation epochs and policies written on the way
            watch = ["--evaluationTrialsPerEpoch", str(int(rng.choice([1, 7, 40]))), "--evaluationMaxStepsPerTrial",
                     str(int(rng.choice([1, 6]))), "--simulationTracesToLogPerEpoch", str(int(rng.choice([-1, 0, 1]))),
                     "--evaluationFirstEpochWallclockSeconds", "0.0005", "--evaluationEpochsPerMagnitude", str(int(rng.choice([3, 1000]))),
                     "--useEvaluationCache", str(int(rng.integers(2)))]
            go(d, watch + out, seed)
            same("evaluation epochs or logging change the bounds", base, lines(os.path.join(d, "bounds.plot")), "bounds.plot")
            if out:
                same("evaluation epochs or logging change the policy", D["p"], data(os.path.join(d, "p")), "policy")
            st.add("epochs watched", sum(1 for l in open(os.path.join(d, "inc.plot")) if l.strip()))
        if w.has_lb:
            with Scratch() as d:
                r = go(d, ["--useLogBackups", "0"] + (["-o", "p"] if pol else []), seed, cmd="solve")
                got = logs.solve_lines(r.out)
                if not got:
                    bad("solve prints no final bounds", r.brief())
                # the values in the bound log are what solve reports; the stored ones of bounds.plot may be looser
                lb, ub = bv[root[0]] if len(root) == 1 and root[0] in bv else (got[-1][2], got[-1][3])
                st.add("start state found in the logs", len(root))
                tol = 1.01e-4 + 1e-5 * max(abs(lb), abs(ub))
                # solve may stop earlier: it tests the values of the representation, benchmark the stored ones
                early = got[-1][1] < int(base[-1][4]) and got[-1][4] < float(prec)
                st.add("solve stopped earlier", early)
                if not early and got[-1][1] != int(base[-1][4]):
                    bad("solve and benchmark end after different numbers of trials", "solve %s, benchmark %s" % (got[-1], base[-1]))
                if early:
                    lb, ub = got[-1][2], got[-1][3]
                if abs(got[-1][2] - lb) > tol or abs(got[-1][3] - ub) > tol:
                    bad("solve and benchmark end with different bounds", "solve %s, benchmark %s" % (got[-1], base[-1]))
                st.add("solve compared with benchmark")
    st.seen("configurations", (w.kind, w.strat, w.lb, w.ub, tuple(sorted(c["opts"]))))
    return {"case": c["id"], "lines": len(base), "last": base[-1][:2], "states": len(D["boundValues.log"])} if len(base) > 1 else None


def evaluate(c, st, w, rng, files):
    text = write_max(rng, rnd_planes(rng, w.m))
    files = dict(files, policy=text)
    a = ["evaluate", "--policyInputFile", "p", "-i", str(int(rng.choice([3, 40, 200]))), "--evaluationMaxStepsPerTrial", "6",
         "--useEvaluationCache", str(int(rng.integers(2))), w.fname]
    res = []
    for k in range(3):
        with Scratch() as d:
            w.write(d)
            open(os.path.join(d, "p"), "w").write(text)
            env = {"ZV_SEED": str(c["rs"])}
            x = list(a)
            if k == 1:
                env.update(noise(rng), ZV_CLOCK="5")
            if k == 2:  # tracing is watching
                x[1:1] = ["--simulationTracesToLogPerEpoch", str(int(rng.choice([0, 1, -1])))]
            r = logs.zmdp(d, x, env=env, timeout=120)
            logs.must_end_ok(r, "evaluate", files)
            st.add("runs")
            res.append((data(os.path.join(d, "scores.plot")), [l for l in r.out.split("\n") if l.startswith(("REWARD", "batchR"))],
                        data(os.path.join(d, "sim.plot")) if k < 2 else None))
    if res[1] != res[0]:
        raise Violation("the same evaluation gives other results where memory, environment or clock differ", "%s\n%s" % (res[0][1], res[1][1]), files)
    if res[2][:2] != res[0][:2]:
        raise Violation("the number of traces logged changes the results of an evaluation", "%s\n%s" % (res[0][1], res[2][1]), files)
    st.add("evaluations repeated", 2)
    return {"case": c["id"], "report": res[0][1][-1:], "trials": len(res[0][0])}


def main():
    return run_check("C26", cases(), run, "a case is non-trivial when more than one bound line (or an evaluation) was compared")
