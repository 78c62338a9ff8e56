"""C16: simulated trajectories are executions of the model."""
import os
import numpy as np
from zv import logs, workload, simcheck, models
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch
from checks.c06 import rnd_planes, write_max

N = 12000 if THOROUGH else 2400


def cases():
    rng = np.random.default_rng([SEED, 1616])
    cs = []
    for i in range(N):
        c = {"front": ["evaluate", "benchmark", "evaluate2", "benchmark"][i % 4], "seed": int(rng.integers(1, 2 ** 31))}
        if c["front"] == "benchmark":
            c.update(workload.bench_cases(1, 16160 + i, kinds=[["pomdp", "mdp", "track", "layered", "custom", "mdp_layered"][i // 2 % 6]],
                                          strats=None)[0])
            c["front"] = "benchmark"
        else:
            c["kind"] = "pomdp" if i % 5 else "layered"
            c["hz"] = 1
            c["family"] = models.POMDP_FAMILIES[int(rng.integers(len(models.POMDP_FAMILIES)))]
        c["cache"] = int(rng.random() < 0.6)
        c["rand"] = [None, None, None, None, "max", "zero", "mix5", "mix2", "mix50"][int(rng.integers(9))]
        c["rs"] = int(rng.integers(1, 10 ** 6))
        c["steps"] = int(rng.choice([1, 2, 3, 5, 8, 13, 30, 100]))
        c["i"] = int(rng.choice([1, 2, 7, 29, 30, 31, 45, 60, 100, 150]))
        c["logn"] = int(rng.choice([-1, -1, -1, 0, 1, 3, 10, 1000]))
        c["id"] = "%s-%s-%s-%d" % (c["front"], c["kind"], c["rand"], i)
        cs.append(c)
    return cs


def perturbed(rng, m):
    """the same supports with other numbers: what the planner believes"""
    def mix(A):
        B = A * rng.uniform(0.5, 1.5, A.shape)
        return B / B.sum(-1, keepdims=True)
    q = models.Pomdp(mix(m.T), mix(m.Z), m.R * rng.uniform(0.5, 1.5, m.R.shape), m.b0, m.discount, "planner")
    return q


def simulate(c, st, d, w, extra=(), timeout=120):
    """runs the simulation; returns (result, traces, file texts)"""
    files = w.files()
    rng = np.random.default_rng(c["seed"] + 3)
    sim = ["--evaluationMaxStepsPerTrial", str(c["steps"]), "--simulationTracesToLogPerEpoch", str(c["logn"]),
           "--useEvaluationCache", str(c["cache"]), "-i", str(c["i"])] + list(extra)
    env = {"ZV_SEED": c["rs"]}
    if c["rand"]:
        env["ZV_RAND"] = c["rand"]
    w.write(d)
    if c["front"] == "benchmark":
        env["ZV_CLOCK"] = "1"
        a = ["benchmark"] + w.args() + ["--evaluationFirstEpochWallclockSeconds", "1e15" if c["seed"] % 3 else "0.01",
                                        "-p", "%.17g" % (1e-3 * w.scale()), "--terminateNumBackups", str(20 + c["seed"] % 150)]
        a += sim + [w.fname]
    else:
        planes = rnd_planes(rng, w.m)
        files["policy"] = write_max(rng, planes)
        open(os.path.join(d, "p"), "w").write(files["policy"])
        a = ["evaluate", "--policyInputFile", "p"] + sim
        if c["front"] == "evaluate2":
            pm = perturbed(rng, w.m)
            files["planner.pomdp"] = pm.text()
            # names that are easily taken for the simulator model's
            name = ["planner.pomdp", "sub/" + w.fname, "x" + w.fname, w.fname.upper()[:-6] + ".pomdp",
                    w.fname[:-6] + "2.pomdp", "sub/../sub/" + w.fname][c["seed"] // 7 % 6]
            os.makedirs(os.path.join(d, "sub"), exist_ok=True)
            open(os.path.join(d, name), "w").write(files["planner.pomdp"])
            a += ["--plannerModel", name]
            c["planner"] = pm
            if max(w.m.T.shape[1], 1) != pm.nS:
                raise Inconclusive("sizes")
        c["planes"] = planes
        a += [w.fname]
    r = logs.zmdp(d, a, env=env, timeout=timeout)
    logs.must_end_ok(r, c["front"].replace("2", ""), files)
    return r, logs.sim_traces(os.path.join(d, "sim.plot")), files


def run(c, st):
    w = workload.Work(dict(c, strat=c.get("strat", "frtdp")))
    c = dict(c)
    with Scratch() as d:
        r, tr, files = simulate(c, st, d, w)

        def bad(what, detail=""):
            raise Violation(what, "%s\n%s" % (detail, r.brief()), files)
        want = c["i"] if c["logn"] < 0 else min(c["i"], c["logn"])
        if len(tr) != want:
            bad("the number of traces logged is not the number requested", "%d logged, %d expected" % (len(tr), want))
        sim = simcheck.Sim(w)
        fr = simcheck.Freq()
        pairs = set()
        steps = 0
        for n, t in enumerate(tr):
            e = simcheck.exact_trace(sim, t, n, c["steps"], fr if c["rand"] is None else None, bad)
            if e is None:
                st.add("traces not followed to the end")
                continue
            steps += len(t["steps"])
            st.add("traces that reached a terminal state", t["terminated"])
            st.add("traces that reached the step limit", not t["terminated"])
            pairs |= {(sim.key(x), a) for x, a in e[1]}
        st.add("traces", len(tr))
        st.add("steps", steps)
        st.add("distinct state-action pairs", len(pairs))
        if c["rand"]:
            st.add("steps under extreme random draws", steps)
        b = fr.bad()
        if b:
            bad("outcomes do not occur with their model frequencies", "%s: excess %.1f, variance %.1f" % b)
        for k in fr.s:
            st.add("excess of " + k, fr.s[k])
            st.add("variance of " + k, fr.v[k])
        if not steps:
            return None
        return {"case": c["id"], "traces": len(tr), "steps": steps, "pairs": len(pairs)}


def finish(st):
    for k in [k for k in st if k.startswith("excess of ")]:
        v = st["variance of " + k[10:]]
        if abs(st[k]) > 6.5 * np.sqrt(v) + 12:
            raise Violation("over all runs outcomes do not occur with their model frequencies",
                            "%s: excess %.1f, variance %.1f" % (k[10:], st[k], v))


def main():
    return run_check("C16", cases(), run, "a case is non-trivial when at least one simulated step was followed",
                     finish=finish)
