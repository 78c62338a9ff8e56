"""C02: every logged state and action bound brackets that state's or action's optimal value."""
import os
import numpy as np
from zv import logs, workload
from zv.check import run_check, Violation, Inconclusive, THOROUGH
from zv.run import Scratch

N = 1600 if THOROUGH else 900


def cases():
    cs = workload.bench_cases(N, 202)
    for i, c in enumerate(cs):
        c["nb"] = [400, 150, 60, 900][i // 4 % 4] if THOROUGH else [150, 60, 220][i // 4 % 3]
    return cs


def run(c, st):
    w = workload.Work(c)
    with Scratch() as d:
        r = workload.run_bench(w, d, c["nb"], 1e-4 * w.scale())
        logs.must_end_ok(r, "benchmark", w.files())
        idx = logs.state_index(os.path.join(d, "stateIndex.log"), w.dim)
        bv = logs.id_values(os.path.join(d, "boundValues.log"), 1, 2)
        qv = logs.id_values(os.path.join(d, "q.log"), 2, 2)
        bk = logs.backups(os.path.join(d, "backups.log"))
        rng = np.random.default_rng(c["seed"] + 1)
        if set(bv) != set(idx):
            raise Violation("bound log and state index list different states", "%d vs %d" % (len(bv), len(idx)), w.files())
        for i in set(bk):
            if i not in bv:
                raise Violation("a backed-up state has no bound entry", str(i), w.files())
        want = {(i, a) for i in idx for a in range(w.nA)}
        if set(qv) != want:
            miss = sorted(want ^ set(qv))[:5]
            raise Violation("action-value log does not list every state and action once", "%s" % miss, w.files())
        ids = sorted(idx)
        if w.explorable:
            # tighten the reference around the root and a sample of nodes
            w.refine(w.start(), 1e-4 * w.scale(), 400)
            some = rng.permutation(len(ids))[:25 if not THOROUGH else 80]
            for j in some:
                w.refine(idx[ids[j]], 1e-4 * w.scale(), 60)
        if w.kind == "track":
            w.ref()
        tol = 2e-6 * w.scale()
        gaps = []
        for i in ids:
            s = idx[i]
            lo, up = w.interval(s)
            gaps.append(up - lo)
            l, u = bv[i]
            term = w.is_term(s)
            if term:
                lo = up = 0.0
            if w.has_lb and l > up + tol:
                raise Violation("a state's lower bound exceeds its optimal value (%s)" % w.kind,
                                "state %d %s: [%r, %r], optimal in [%r, %r]" % (i, s, l, u, lo, up), w.files())
            if u < lo - tol:
                raise Violation("a state's upper bound is below its optimal value (%s)" % w.kind,
                                "state %d %s: [%r, %r], optimal in [%r, %r]" % (i, s, l, u, lo, up), w.files())
            if w.has_lb and l > u + tol:
                raise Violation("a state's lower bound exceeds its upper bound", "state %d [%r, %r]" % (i, l, u), w.files())
            for a in range(w.nA):
                ql, qu = qv[(i, a)]
                if term:
                    continue
                qlo, qup = w.q_interval(s, a)
                if w.has_lb and ql > qup + tol:
                    raise Violation("an action's lower bound exceeds its optimal value (%s)" % w.kind,
                                    "state %d %s action %d: [%r, %r], optimal in [%r, %r]" % (i, s, a, ql, qu, qlo, qup), w.files())
                if qu < qlo - tol:
                    raise Violation("an action's upper bound is below its optimal value (%s)" % w.kind,
                                    "state %d %s action %d: [%r, %r], optimal in [%r, %r]" % (i, s, a, ql, qu, qlo, qup), w.files())
        st.add("states judged", len(ids))
        st.add("state-actions judged", len(qv))
        st.add("states whose reference gap is below 1e-3 of scale", int((np.array(gaps) < 1e-3 * w.scale()).sum()))
        st.seen("configurations", (w.kind, w.strat, w.lb, w.ub, str(c.get("opts"))))
        return {"case": c["id"], "states": len(ids), "backups": len(bk), "median reference gap": float(np.median(gaps))}


def main():
    return run_check("C02", cases(), run,
                     "a run is non-trivial when its state, bound and action-value logs were complete and every entry was "
                     "compared with the reference value", assumptions=[
                         "reference values are exact (MDP, racetrack, layered and two-state POMDPs) or certified intervals"])
