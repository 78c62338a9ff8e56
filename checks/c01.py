"""C01: every reported pair of bounds brackets the optimal value of the start state."""
import os
import numpy as np
from zv import logs, workload
from zv.check import run_check, Violation, Inconclusive, THOROUGH
from zv.run import Scratch

N = 2400 if THOROUGH else 1600


def cases():
    cs = workload.bench_cases(N, 101)
    for i, c in enumerate(cs):
        c["front"] = "solve" if i % 4 == 3 else "benchmark"
        c["nb"] = [400, 150, 60, 900][i // 4 % 4] if THOROUGH else [200, 80, 300][i // 4 % 3]
    return cs


def judge(w, rows, st, digits_abs=0.0, rel=6e-6):
    """rows: (lb, ub) pairs; None when a bound is not maintained"""
    b = w.start()
    w.refine(b, 1e-4 * w.scale(), 3000 if THOROUGH else 600)
    lo, up = w.interval(b)
    st.mx("reference gap", float(up - lo))
    tol = 1e-6 * w.scale() + digits_abs
    gap = None
    for i, (l, u) in enumerate(rows):
        if l is not None and l > up + tol + rel * abs(l):
            raise Violation("reported lower bound exceeds the optimal value (%s)" % w.kind,
                            "line %d: lower %r upper %r, optimal value in [%r, %r]" % (i, l, u, lo, up), w.files())
        if u is not None and u < lo - tol - rel * abs(u):
            raise Violation("reported upper bound is below the optimal value (%s)" % w.kind,
                            "line %d: lower %r upper %r, optimal value in [%r, %r]" % (i, l, u, lo, up), w.files())
        if l is not None and u is not None and not (l <= u + tol + rel * max(abs(l), abs(u))):
            raise Violation("reported lower bound exceeds the reported upper bound", repr((l, u)), w.files())
        if not np.isfinite([x for x in (l, u) if x is not None]).all():
            raise Violation("reported bound is not a number", repr((l, u)), w.files())
    st.add("bound lines judged", len(rows))
    return lo, up


def run(c, st):
    w = workload.Work(c)
    with Scratch() as d:
        prec = 1e-4 * w.scale()
        if c["front"] == "benchmark":
            r = workload.run_bench(w, d, c["nb"], prec, logs_on=False)
            logs.must_end_ok(r, "benchmark", w.files())
            rows = [(x[1] if w.has_lb else None, x[2]) for x in logs.bounds_plot(os.path.join(d, "bounds.plot"))]
            lo, up = judge(w, rows, st)
        else:
            w.write(d)
            r = logs.zmdp(d, ["solve"] + w.args() + ["-p", "%.17g" % prec, "--terminateNumBackups", str(c["nb"]), w.fname],
                          env={"ZV_SEED": c["rs"], "ZV_CLOCK": "11000"}, timeout=120)
            logs.must_end_ok(r, "solve", w.files())
            rows = [(x[2] if w.has_lb else None, x[3]) for x in logs.solve_lines(r.out)]
            lo, up = judge(w, rows, st, 5.1e-5)
        if not rows:
            raise Inconclusive("no bound lines")
        st.add("runs by " + w.strat)
        st.add("runs on " + w.kind)
        st.seen("configurations", (w.kind, w.strat, w.lb, w.ub, str(c.get("opts")), c["front"]))
        l, u = rows[-1]
        close = (l is not None and u is not None and u - l < 0.01 * w.scale())
        if close:
            st.add("runs ending within 1% of the value scale")
        return {"case": c["id"], "lines": len(rows), "first": rows[0], "last": rows[-1], "optimal": [lo, up]}


def main():
    return run_check("C01", cases(), run,
                     "a run is non-trivial when it reported at least one pair of bounds and the reference value of its "
                     "start state was computed", assumptions=[
                         "reference values are exact (MDP, racetrack, layered and two-state POMDPs) or certified intervals"])
