"""C21: finite-horizon undiscounted POMDPs are solved correctly with maxHorizon."""
import os
import numpy as np
from zv import logs, workload, models, refsolve
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch
from checks.c01 import judge
from checks.c05 import judge_policy

N = 6000 if THOROUGH else 2500


def cases():
    rng = np.random.default_rng([SEED, 2121])
    cs = []
    for i in range(N):
        c = {"kind": "layered", "seed": int(rng.integers(1, 2 ** 31)), "discount": float(rng.choice([1.0, 1.0, 1.0, 0.95, 0.5])),
             "sign": ["mixed", "positive", "negative", "last step only", "mixed", "alike"][i // 2 % 6], "strat": ["frtdp", "hsvi", "hdp", "frtdp", "lrtdp", "rtdp"][i % 6],
             "slack": int(rng.choice([0, 0, 1, 3, 10, 100])), "rs": int(rng.integers(1, 10 ** 6)), "front": ["benchmark", "solve"][i % 2],
             "hz": 1, "opts": workload.OPT_FAMILIES[int(rng.integers(len(workload.OPT_FAMILIES)))]}
        u = int(rng.integers(6))
        if u == 1:
            c["ub"] = "point"
        if u == 2:
            c["lb"] = c["ub"] = "point"
            c["opts"] = {o: v for o, v in c["opts"].items() if "MaxPlanes" not in o}
        if c["strat"] not in ("frtdp", "hsvi"):
            c["mlb"] = 1
        c["id"] = "%s-%g-%s-%s-%d" % (c["strat"], c["discount"], c["sign"], c["front"], i)
        cs.append(c)
    return cs


def finite(c):
    """every trajectory ends within m.horizon steps; states in any order, several absorbing states, ambiguous endings"""
    rng = np.random.default_rng(c["seed"] + 21)
    m = models.layered_pomdp(rng, c["discount"], int(rng.integers(1, 6)), int(rng.integers(1, 4)))
    nS, nA, nO = m.T.shape[1], m.T.shape[0], m.Z.shape[2]
    T, Z, R, b0, H = m.T.copy(), m.Z.copy(), m.R.copy(), m.b0.copy(), m.horizon
    g = nS - 1
    if c["sign"] == "positive":
        R = np.abs(R)
    elif c["sign"] == "negative":
        R = -np.abs(R)
    elif c["sign"] == "last step only":
        k = (nS - 1) // H
        R[:k * (H - 1)] = 0
    elif c["sign"] == "alike":  # worst case and optimum are (nearly) the same
        R[:] = -rng.integers(1, 9)
        if rng.random() < 0.3:
            R[:, int(rng.integers(nA))] *= 2
    R[g] = 0
    if rng.random() < 0.4:  # the ending cannot be told from other states
        for a in range(nA):
            Z[a, g] = models.dist(rng, nO, nO)
    if rng.random() < 0.3:  # starts in several layers
        b0 = models.dist(rng, nS, int(rng.integers(1, nS + 1)))
        if b0[g] > 0.999:
            b0 = m.b0
    if rng.random() < 0.3:  # a second absorbing state
        T2 = np.zeros((nA, nS + 1, nS + 1))
        T2[:, :nS, :nS] = T
        half = rng.random()
        T2[:, :nS, nS] = T2[:, :nS, g] * half
        T2[:, :nS, g] *= 1 - half
        T2[:, g, :] = 0
        T2[:, g, g] = 1
        T2[:, nS, nS] = 1
        Z = np.concatenate([Z, Z[:, g:g + 1]], 1)
        R = np.concatenate([R, np.zeros((1, nA))], 0)
        b0 = np.append(b0, 0.0)
        T = T2
        nS += 1
    if rng.random() < 0.6:
        p = rng.permutation(nS)
        T, Z, R, b0 = T[:, p][:, :, p], Z[:, p], R[p], b0[p]
    q = models.Pomdp(T, Z, R, b0, c["discount"], "finite")
    q.horizon = H
    return q


def run(c, st):
    w = workload.Work(c)
    m = w.m = finite(c)
    w.text, w.dim, w._ref = m.text(), m.nS, None
    w.extra = ["--maxHorizon", str(m.horizon + c["slack"])]
    v = w.ref()
    prec = 1e-5 * w.scale()
    with Scratch() as d:
        if m.discount >= 1 and c["seed"] % 8 == 0:
            w.write(d)
            r = logs.zmdp(d, ["solve", "--searchStrategy", c["strat"], "-o", "none", w.fname], timeout=60)
            if r.rc == 0 or r.san or r.timeout:
                raise Violation("an undiscounted POMDP without maxHorizon is not refused", r.brief(), w.files())
            st.add("undiscounted without maxHorizon refused")
        pol = w.lb != "point"
        if c["front"] == "benchmark":
            r = workload.run_bench(w, d, 4000, prec, extra=["-o", "o.policy"] if pol else [], logs_on=bool(c["seed"] % 2))
            logs.must_end_ok(r, "benchmark", w.files())
            rows = [(x[1], x[2]) for x in logs.bounds_plot(os.path.join(d, "bounds.plot"))]
            digits = 6e-6 * max(abs(rows[-1][0]), abs(rows[-1][1])) if rows else 0
            backups = logs.bounds_plot(os.path.join(d, "bounds.plot"))[-1][6]
        else:
            w.write(d)
            r = logs.zmdp(d, ["solve"] + w.args() + ["-p", "%.17g" % prec, "--terminateNumBackups", "4000", "-o",
                                                     "o.policy" if pol else "none", w.fname],
                          env={"ZV_SEED": c["rs"], "ZV_CLOCK": "11000"}, timeout=120)
            logs.must_end_ok(r, "solve", w.files())
            rows = [(x[2], x[3]) for x in logs.solve_lines(r.out)]
            digits = 5.1e-5
            backups = None
        if not rows:
            raise Inconclusive("no bound lines")
        lo, up = judge(w, rows, st, 5.1e-5 if c["front"] == "solve" else 0.0)
        l, u = rows[-1]
        hit = "limit of 4000 backups" in r.out or (backups is not None and backups >= 4000)
        done = u - l <= prec + 2 * digits
        if c["strat"] in ("frtdp", "hsvi") and not done and not hit:
            raise Violation("a run ends before it has converged", "bounds [%r, %r], precision %g\n%s" % (l, u, prec, r.brief()), w.files())
        if c["strat"] in ("frtdp", "hsvi", "hdp", "lrtdp") and hit and v_small(m):
            raise Violation("a small finite-horizon problem is not solved within 4000 backups",
                            "bounds [%r, %r], optimal [%r, %r]" % (l, u, lo, up), w.files())
        st.add("runs converged", int(done))
        # lrtdp and hdp stop when the upper bound has converged
        if c["strat"] in ("hdp", "lrtdp") and not hit and abs(u - lo) > 2 * prec * max(2, m.horizon) + digits + 1e-6 * w.scale():
            raise Violation("the upper bound has not converged to the optimal value when the run says so",
                            "upper %r, optimal [%r, %r]" % (u, lo, up), w.files())
        s = {"case": c["id"], "horizon": m.horizon, "maxHorizon": m.horizon + c["slack"], "first": rows[0], "last": rows[-1], "optimal": [lo, up]}
        if pol:
            s.update(judge_policy(w, os.path.join(d, "o.policy"), l, digits, st, prec, walk=300))
        st.seen("configurations", (c["strat"], c["sign"], m.discount, c["slack"], w.lb, w.ub, str(c["opts"])))
        return s


def v_small(m):
    return (m.nA * m.nO) ** min(m.horizon, 8) < 250


def main():
    return run_check("C21", cases(), run,
                     "a run is non-trivial when its bounds were judged against the exact finite-horizon optimum")
