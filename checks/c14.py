"""C14: options that only affect speed or representation do not change answers."""
import os
import numpy as np
from zv import logs, workload, models
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch

N = 1500 if THOROUGH else 600
K = 14 if THOROUGH else 9
FLAGS = ["useMaxPlanesMasking", "useMaxPlanesSupportList", "useMaxPlanesCache", "useMaxPlanesExtraPruning",
         "useSawtoothSupportList", "useWeakUpperBoundHeuristic"]


def variant(rng, kind, fam, terminating):
    pom = kind in ("pomdp", "layered")
    a = []
    both = ["frtdp", "hsvi"]
    s = str(rng.choice(both + (["rtdp", "lrtdp", "hdp"] if terminating else [])))
    if kind == "track" and s == "hsvi":
        s = "frtdp"      # HSVI's trials are not guaranteed to end on undiscounted models
    a += ["-s", s]
    if s not in both:
        a += ["--maintainLowerBound", "1"]
    lb, ub = ("maxPlanes", "sawtooth") if pom else ("point", "point")
    if pom and fam != "free":
        if rng.random() < 0.25:
            lb = "point"
        if rng.random() < 0.25:
            ub = "point"
    if rng.random() < 0.5 or lb != "maxPlanes":
        a += ["-l", str(rng.choice(["maxPlanes", "convex"])) if lb == "maxPlanes" else lb]
    if rng.random() < 0.5 or ub != "sawtooth":
        a += ["-u", ub]
    f = {k: int(rng.random() < 0.5) for k in FLAGS}
    if rng.random() < 0.2:
        f = {k: 1 for k in FLAGS}
    if not f["useMaxPlanesMasking"]:
        f["useMaxPlanesSupportList"] = 0
    if not f["useMaxPlanesCache"]:
        f["useMaxPlanesExtraPruning"] = 0
    for k in FLAGS:
        a += ["--" + k, str(f[k])]
    if pom or kind == "mdp":
        if rng.random() < 0.35:
            a += ["-f"]
    if rng.random() < 0.3:
        a += ["--useTimeWithoutHeuristic", "0"]
    if rng.random() < 0.2 and s in both:
        a += ["--maintainLowerBound", "1"]
    return s, lb, ub, a


def cases():
    rng = np.random.default_rng([SEED, 1414])
    cs = []
    for i in range(N):
        k = ["pomdp", "layered", "pomdp", "mdp", "pomdp", "track", "layered", "custom"][i % 8]
        c = {"id": "%s-%d" % (k, i), "kind": k, "seed": int(rng.integers(1, 2 ** 31)), "hz": 1,
             "discount": float(rng.choice([1.0, 0.95])) if k == "layered" else None, "n": int(rng.integers(2, 9))}
        if k == "pomdp":
            c["family"] = models.POMDP_FAMILIES[int(rng.integers(len(models.POMDP_FAMILIES)))]
        if k == "mdp":
            c["family"] = models.MDP_FAMILIES[int(rng.integers(len(models.MDP_FAMILIES)))]
        if not c["discount"]:
            del c["discount"]
        cs.append(c)
    return cs


def run(c, st):
    w = workload.Work(dict(c, strat="frtdp"))
    rng = np.random.default_rng(c["seed"] + 3)
    term = c["kind"] in ("layered", "track", "custom") or (c["kind"] == "mdp" and c["family"] != "mdp_ergodic")
    sc = w.scale()
    if c["kind"] == "track":
        sc = 1 + abs(w.ref().V[w.ref().idx[(-1)]] if False else w.interval(w.start())[0])
    prec = 0.02 * sc
    res = []
    files = w.files()
    for j in range(K):
        s, lb, ub, a = variant(rng, c["kind"], c.get("family"), term)
        with Scratch() as d:
            w.write(d)
            base = [x for x in w.args()[2:]]
            cap = 6000 if "point" in (lb, ub) and c["kind"] == "pomdp" else 40000
            r = logs.zmdp(d, ["solve"] + a + base + ["-p", "%.17g" % prec, "--terminateNumBackups", str(cap), "-o", "none",
                                                     w.fname], env={"ZV_SEED": c["seed"] % 99991 + j, "ZV_CLOCK": "11000"}, timeout=60)
            if r.timeout:
                st.add("runs cut off by the watchdog")
                continue
            if not r.ok:
                raise Violation("a valid combination of options made the run fail: %s" % r.sig(), r.brief(), files)
            L = logs.solve_lines(r.out)
            if not L:
                raise Violation("a run reported no bounds", r.brief(), files)
            conv = L[-1][4] <= prec
            res.append((L[-1][2], L[-1][3], conv, r.args[1:], (s, lb, ub)))
            st.seen("option combinations", tuple(a))
            st.add("converged runs", int(conv))
    lo, up = w.interval(w.start())
    dig = 1.01e-4
    for x in res:
        for y in res:
            if x[0] > y[1] + dig + 1e-6 * sc:
                raise Violation("two runs on the same model report intervals that do not overlap",
                                "[%r, %r] with %s\n[%r, %r] with %s" % (x[0], x[1], x[3], y[0], y[1], y[3]), files)
    con = [x for x in res if x[2]]
    for x in con:
        if x[0] > up + dig + 1e-6 * sc or x[1] < lo - dig - 1e-6 * sc:
            raise Violation("a converged interval does not contain the optimal value",
                            "[%r, %r] with %s, optimal in [%r, %r]" % (x[0], x[1], x[3], lo, up), files)
        for y in con:
            if x[0] < y[0] - prec - dig - 1e-6 * sc or x[1] > y[1] + prec + dig + 1e-6 * sc:
                raise Violation("two converged runs differ by more than the regret target",
                                "[%r, %r] with %s\n[%r, %r] with %s" % (x[0], x[1], x[3], y[0], y[1], y[3]), files)
    if len(con) < 2:
        return None
    return {"case": c["id"], "runs": len(res), "converged": len(con), "intervals": [x[:2] for x in con[:3]],
            "optimal": [lo, up]}


def main():
    return run_check("C14", cases(), run,
                     "a model is non-trivial when at least two of its runs with different options converged")
