"""C28: benchmark trials follow one-step lookahead on the bound they are asked to follow."""
import os, re
import numpy as np
from zv import logs, workload, simcheck
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch
from checks.c06 import decide

N = 9000 if THOROUGH else 4000


def cases():
    rng = np.random.default_rng([SEED, 2828])
    cs = workload.bench_cases(N, 2828)
    for i, c in enumerate(cs):
        both = c["strat"] in ("frtdp", "hsvi") or bool(c.get("mlb"))
        c["sel"] = [None, "upper", "lower", "upper", "-"][int(rng.integers(5))]
        if c["sel"] == "lower" and not both:
            c["sel"] = "upper"
        c["nb"] = int(rng.choice([1, 2, 3, 5, 10, 25, 60, 150]))
        c["cache"] = int(rng.random() < 0.5)
        c["i"] = int(rng.choice([1, 30, 60, 120]))
        c["steps"] = int(rng.choice([2, 4, 8, 25]))
        # how the run ends, and so what the last epoch is taken from
        c["end"] = ["backups", "backups", "backups", "time", "epochs"][int(rng.integers(5))]
        if c["family" if "family" in c else "kind"] == "rare":
            c["family"] = "plain"
        c["id"] += "-%s-%s" % (c["sel"], c["end"])
    return cs


def run(c, st):
    w = workload.Work(c)
    files = w.files()
    sim = simcheck.Sim(w)
    planes_used = w.pomdp and w.lb == "maxPlanes" and w.has_lb
    extra = ["--evaluationTrialsPerEpoch", str(c["i"]), "--evaluationMaxStepsPerTrial", str(c["steps"]),
             "--simulationTracesToLogPerEpoch", "-1", "--useEvaluationCache", str(c["cache"])]
    if c["sel"]:
        extra += ["--runTimeActionSelection", c["sel"]]
    if planes_used:
        extra += ["-o", "o.policy"]
    if c["end"] == "time":
        # the virtual clock moves by calls, so this is some number of trials
        extra += ["--terminateWallclockSeconds", "%.3g" % (1e-4 * (1 + c["seed"] % 40))]
    if c["end"] == "epochs":
        extra += ["--evaluationFirstEpochWallclockSeconds", "0.0005", "--evaluationEpochsPerMagnitude", "20"]
    with Scratch() as d:
        r = workload.run_bench(w, d, c["nb"] if c["end"] != "time" else 3000, 1e-4 * w.scale(), extra=extra)
        logs.must_end_ok(r, "benchmark", files)

        def bad(what, detail=""):
            raise Violation(what, "%s\n%s" % (detail, r.brief()), files)
        tr = logs.sim_traces(os.path.join(d, "sim.plot"))
        idx = logs.state_index(os.path.join(d, "stateIndex.log"), w.dim)
        q = logs.id_values(os.path.join(d, "q.log"), 2, 2)
        rows = logs.bounds_plot(os.path.join(d, "bounds.plot"))
        inc = [l for l in open(os.path.join(d, "inc.plot")) if l.strip()]
        if not inc:
            bad("a benchmark that ended did not evaluate the policy it ended with")
        if rows and c["end"] != "time":
            # the last line is the evaluation of what the run ended with
            last = float(inc[-1].split()[0])
            if last < rows[-1][0] * (1 - 1e-5) - 1e-9:
                bad("the last evaluation is older than the end of the planning", "%r, planning ended at %r" % (last, rows[-1][0]))
        pf = None
        if planes_used:
            p = os.path.join(d, "o.policy")
            if not os.path.exists(p):
                bad("a benchmark that ended normally left no policy")
            n, pl, body = logs.read_policy(p)
            files["o.policy"] = open(p).read()[:200000]
            pf = logs.PolicyFile(pl, w.m.nS)
            # the policy is worth the logged lower bound, at the start state and at every other indexed belief
            if not rows or pf.best(w.start())[1] < rows[-1][1] - 6e-6 * abs(rows[-1][1]) - 1e-9 * w.scale():
                bad("the policy a benchmark leaves is worth less than the last lower bound",
                    "policy is worth %s, last lower bound %s" % (pf.best(w.start()), rows[-1:]))
            bv = logs.id_values(os.path.join(d, "boundValues.log"), 1, 2)
            for i, b in list(idx.items())[:200]:
                if w.is_term(b) or ((b > 0) & (b < 1e-8)).any():
                    continue
                got = pf.best(b)
                if got is None or abs(got[1] - bv[i][0]) > 1e-9 * w.scale() + 1e-9 * abs(bv[i][0]):
                    bad("the policy a benchmark leaves is not the one it ended with",
                        "belief %s: policy is worth %s, logged lower bound %r" % (b, got, bv[i][0]))
                st.add("beliefs at which the policy is worth the logged bound")
            st.add("policies compared with the last lower bound")
    k = 0 if c["sel"] in (None, "-", "lower") and w.has_lb else 1
    if k == 0:
        st.add("runs following the lower bound")
    else:
        st.add("runs following the upper bound")
    key = {}
    for i, v in idx.items():
        key[tuple(np.round(v, 10) + 0.0)] = i
    sc = w.scale()
    qs = [abs(x) for v in q.values() for x in v]
    sc = max(sc, max(qs, default=0.0))
    seen, byq, byp, unique = {}, 0, 0, 0
    for t, trace in enumerate(tr):
        e = simcheck.exact_trace(sim, trace, t, c["steps"], None, lambda *x: bad(*x))
        if e is None:
            continue
        for x, a in e[1]:
            kk = sim.key(x)
            if (kk, a) in seen:
                continue
            seen[(kk, a)] = 1
            if w.pomdp:
                vec = np.asarray(x)
                if ((vec > 0) & (vec < 1e-7)).any() or any(p_ < 1e-7 for b in range(w.nA) for _, p_, _ in sim.succ(x, b)):
                    continue
            elif w.kind == "track":
                vec = None
            else:
                vec = np.array([float(x)])
            if w.kind == "track":
                i = next((i for i, v in idx.items() if same_track(v, x)), None)
            else:
                i = key.get(tuple(np.round(vec, 10) + 0.0))
            if i is not None and (i, 0) in q:
                v = np.array([q[(i, b)][k] for b in range(w.nA)])
                tol = 1e-9 * sc
                if v[a] < v.max() - tol:
                    bad("a trial took an action other than the best by one-step lookahead on the %s bound" % ("lower", "upper")[k],
                        "state %s: action %d, values %s" % (idx[i], a, list(v)))
                byq += 1
                if len(v) > 1 and np.sort(v)[-2] < v.max() - tol:
                    unique += 1
            if pf is not None and k == 0:
                dv = decide(w.m, pf, vec)
                if dv is None:
                    continue
                # whether terminal beliefs count as worth zero or what the planes say
                if all(np.array(u)[a] < max(u) - 1e-7 * sc for u in dv):
                    bad("a trial took an action other than the best by one-step lookahead on the policy the run wrote",
                        "belief %s: action %d, values %s" % (vec, a, dv[0]))
                byp += 1
    st.add("decisions compared with logged action values", byq)
    st.add("decisions compared with lookahead on the written policy", byp)
    st.add("decisions with a single best action", unique)
    st.seen("configurations", (w.kind, w.strat, w.lb, w.ub, c["sel"], c["cache"], c["end"]))
    if not byq + byp:
        raise Inconclusive("no decision at a logged state")
    return {"case": c["id"], "decisions": byq, "by policy": byp, "single": unique, "bound": ("lower", "upper")[k]}


def same_track(v, x):
    from zv import racetrack
    try:
        return racetrack.state_of_vec(v) == x
    except Exception:
        return False


def main():
    return run_check("C28", cases(), run,
                     "a case is non-trivial when at least one action taken in a trial was compared with the bounds")
