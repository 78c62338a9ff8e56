"""C05: the written policy earns the lower bound it claims."""
import os
import numpy as np
from zv import logs, workload, refsolve
from zv.check import run_check, Violation, Inconclusive, THOROUGH
from zv.run import Scratch

N = 2000 if THOROUGH else 900
WALK = 4000 if THOROUGH else 700


def cases():
    cs = workload.bench_cases(N, 505, kinds=["pomdp"] * 3 + ["layered"])
    for i, c in enumerate(cs):
        if c.get("lb") == "point":
            c.pop("lb"), c.pop("ub", None)
        if c["strat"] not in ("frtdp", "hsvi"):
            c["mlb"] = 1
        if i % 2 and c.get("opts", {}).get("useMaxPlanesExtraPruning", 1):
            c["opts"] = dict(c.get("opts") or {}, useMaxPlanesExtraPruning=0)
        c["front"] = "solve" if i % 3 == 2 else "benchmark"
        c["nb"] = [400, 100, 40, 1200][i // 4 % 4] if THOROUGH else [150, 60, 25, 300][i // 4 % 4]
        c["id"] += "-" + c["front"]
    return cs


class BadPolicy(Exception):
    pass


def judge_policy(w, path, lb, digits, st, prec, walk=WALK, states=None):
    """The policy in path against the model: lb is the lower bound the run reported last.  states: the beliefs the search
    touched; planes are compared belief by belief with what they earn only when none has an entry near the 1e-10 below
    which zmdp treats probabilities as zero (a plane calculated where a successor's entry was dropped refers to planes
    that do not apply where it was not)."""
    m = w.m
    n, planes, body = logs.read_policy(path)

    def bad(what, detail=""):
        raise Violation(what, "%s\n%s" % (detail, ""), dict(w.files(), policy=open(path).read()[:20000]))
    if n != len(planes) or n < 1:
        bad("the written policy is not complete", "numPlanes %d, %d planes found" % (n, len(planes)))
    for a, e, k in planes:
        if k != len(e) or not 0 <= a < m.nA or any(not 0 <= s < m.nS for s in e):
            bad("a plane of the written policy is malformed", str((a, e, k))[:300])
    pf = logs.PolicyFile(planes, m.nS)
    scale = w.scale()
    slack = 0.011 * prec / max(1 - m.discount, 0.01) + 1e-7 * scale + digits
    strict = not w.spec.get("opts", {}).get("useMaxPlanesExtraPruning", 1)
    b0 = m.b0
    r = pf.best(b0)
    if r is None:
        bad("no plane of the written policy applies to the start belief")
    if r[1] < lb - 1e-6 * abs(lb) - 1e-7 * scale - digits:
        bad("the written policy claims less than the reported lower bound", "best plane %r, reported %r" % (r[1], lb))
    w.refine(b0, 1e-4 * scale, 300)
    lo, up = w.interval(b0)
    if r[1] > up + 1e-6 * scale:
        bad("the best plane at the start belief exceeds the optimal value", "%r > %r" % (r[1], up))
    # every belief reachable under the policy: a plane applies, it does not exceed V*, it is locally earned
    seen, todo, worst = {}, [b0], 0.0
    local = strict and states is not None and all((b[b > 0] > 1e-6).all() for b in states)
    if local:
        st.add("policies checked belief by belief")
    while todo and len(seen) < walk:
        b = todo.pop(0)
        k = tuple(np.round(b, 10))
        if k in seen or m.is_term(b):
            continue
        r = pf.best(b)
        if r is None:
            bad("no plane of the written policy applies to a belief reachable under it", str(b))
        seen[k] = r
        l, u = w.interval(b)
        if r[1] > u + 2e-6 * scale:
            bad("a plane's value exceeds the optimal value at a belief it applies to",
                "belief %s: plane %r, optimal at most %r" % (b, r[1], u))
        a = r[0]
        earn = float(m.R[:, a] @ b)
        for _, p, y in m.succ(b, a):
            if m.is_term(y):
                continue
            ry = pf.best(y)
            if ry is None:
                bad("no plane of the written policy applies to a belief reachable under it", str(y))
            earn += m.discount * p * ry[1]
            todo.append(y)
        worst = max(worst, r[1] - earn)
        if local and r[1] - earn > slack:
            bad("a plane promises more than its action earns at a belief reachable under the policy",
                "belief %s: plane of action %d promises %.10g, earns %.10g" % (b, a, r[1], earn))
    st.add("beliefs reached", len(seen))
    v = refsolve.policy_value(m, lambda b: pf.best(b)[0], b0, eps=1e-4 * scale, limit=3000 if not THOROUGH else 20000)
    if v is not None:
        st.add("policies executed to the end")
        if strict and v[1] < lb - slack / max(1 - m.discount, 0.05) - 1e-6 * scale:
            bad("executing the written policy earns less than the reported lower bound",
                "earns at most %.10g, reported %.10g" % (v[1], lb))
        if v[0] > up + 2e-6 * scale:
            raise Exception("reference disagrees: policy earns %r, optimal %r" % (v, (lo, up)))
    # what evaluate and benchmark execute: one-step lookahead on the planes
    def look(b):
        best = None
        for a in range(m.nA):
            q = float(m.R[:, a] @ b)
            for _, p, y in m.succ(b, a):
                if not m.is_term(y):
                    ry = pf.best(y)
                    if ry is None:
                        q = -np.inf
                        break
                    q += m.discount * p * ry[1]
            if best is None or q > best[0] + 1e-12 * scale:
                best = (q, a)
        return best[1]
    v2 = refsolve.policy_value(m, look, b0, eps=1e-3 * scale, limit=1500 if not THOROUGH else 8000)
    if v2 is not None:
        st.add("lookahead policies executed to the end")
        if strict and v2[1] < lb - slack / max(1 - m.discount, 0.05) - 1e-6 * scale:
            bad("executing the policy by one-step lookahead earns less than the reported lower bound",
                "earns at most %.10g, reported %.10g" % (v2[1], lb))
    st.mx("promise not earned, relative to scale", worst / scale)
    if not strict:
        st.add("policies with extra pruning (judged against V* and applicability)")
    return {"planes": n, "claims": float(pf.best(b0)[1]), "optimal": [lo, up], "earns": v and [float(v[0]), float(v[1])]}


def run(c, st):
    w = workload.Work(c)
    with Scratch() as d:
        prec = 1e-3 * w.scale()
        if c["front"] == "benchmark":
            r = workload.run_bench(w, d, c["nb"], prec, extra=["-o", "o.policy"])
            logs.must_end_ok(r, "benchmark", w.files())
            rows = logs.bounds_plot(os.path.join(d, "bounds.plot"))
            if not rows:
                raise Inconclusive("no bounds line")
            lb, digits = rows[-1][1], 6e-6 * abs(rows[-1][1])
            states = list(logs.state_index(os.path.join(d, "stateIndex.log"), w.dim).values())
        else:
            w.write(d)
            r = logs.zmdp(d, ["solve"] + w.args() + ["-p", "%.17g" % prec, "--terminateNumBackups", str(c["nb"]),
                                                     "-o", "o.policy", w.fname],
                          env={"ZV_SEED": c["rs"], "ZV_CLOCK": "11000"}, timeout=120)
            logs.must_end_ok(r, "solve", w.files())
            rows = logs.solve_lines(r.out)
            if not rows:
                raise Inconclusive("no bounds line")
            lb, digits = rows[-1][2], 5.1e-5
            states = None
        p = os.path.join(d, "o.policy")
        if not os.path.exists(p):
            raise Violation("the run ended without writing the requested policy", r.brief(), w.files())
        s = judge_policy(w, p, lb, digits, st, prec, states=states)
        st.seen("configurations", (w.kind, w.strat, w.ub, str(c.get("opts")), c["front"]))
        s.update(case=c["id"], reported=lb)
        return s


def main():
    return run_check("C05", cases(), run,
                     "a run is non-trivial when it wrote a policy and the policy was executed over its reachable beliefs",
                     assumptions=["with useMaxPlanesExtraPruning=1, which discards planes heuristically, the value actually "
                                  "earned is not compared with the bound; plane validity and applicability still are",
                                  "planes inherit the residual of the blind-policy initialisation (0.01 x precision)"])
