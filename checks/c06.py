"""C06: a policy file means the same thing when it is read back."""
import os
import numpy as np
from zv import logs, workload, models
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch

N = 6000 if THOROUGH else 1600


def cases():
    rng = np.random.default_rng([SEED, 606])
    cs = []
    for i in range(N):
        cs.append({"id": "p%d" % i, "kind": "pomdp" if i % 5 else "layered",
                   "family": models.POMDP_FAMILIES[int(rng.integers(len(models.POMDP_FAMILIES)))], "hz": 1,
                   "seed": int(rng.integers(1, 2 ** 31)), "src": ["random", "alpha", "random", "solved"][i % 4],
                   "opts": [{}, {"useMaxPlanesMasking": 0, "useMaxPlanesSupportList": 0},
                            {"useMaxPlanesSupportList": 0}, {"useMaxPlanesCache": 0, "useMaxPlanesExtraPruning": 0}][int(rng.integers(4))],
                   "cache": int(rng.integers(2)), "rs": int(rng.integers(1, 10 ** 6)), "fast": int(rng.random() < 0.2)})
    return cs


def num(rng, v):
    return [lambda: "%.17g" % v, lambda: "%.17e" % v, lambda: "%+.17g" % v, lambda: repr(float(v))][int(rng.integers(4))]()


def rnd_planes(rng, m):
    """random planes, the first of them complete so that every belief is covered"""
    n = int(rng.integers(1, 14))
    sc = float(rng.choice([1e-3, 1.0, 1.0, 50.0, 1e6]))
    out = []
    for i in range(n):
        k = m.nS if i == 0 or rng.random() < 0.3 else int(rng.integers(1, m.nS + 1))
        idx = sorted(rng.choice(m.nS, k, replace=False))
        style = rng.integers(3)
        e = {}
        for s in idx:
            v = float(np.round(rng.normal() * sc, 17)) if style else float(rng.integers(-3, 4)) * sc
            e[int(s)] = v if rng.random() > 0.1 else 0.0
        if i == 0:
            e = {s: v - 0.5 * sc for s, v in e.items()}
        out.append((int(rng.integers(m.nA)), e, k))
    order = rng.permutation(n)
    return [out[j] for j in order]


def write_max(rng, planes, nA=None):
    L = []
    if rng.random() < 0.5:
        L += ["# a comment", "#", "# numPlanes => 77, action => 3"]
    ind = "  " * int(rng.integers(3))
    L += ["{", ind + 'policyType => "MaxPlanesLowerBound",', ind + "numPlanes => %d," % len(planes), ind + "planes => ["]
    for j, (a, e, k) in enumerate(planes):
        L += [ind * 2 + "{", ind * 3 + "action => %d," % a, ind * 3 + "numEntries => %d," % len(e), ind * 3 + "entries => ["]
        it = list(e.items())
        for q, (s, v) in enumerate(it):
            L.append(ind * 4 + "%d, %s%s" % (s, num(rng, v), "," if q + 1 < len(it) else ""))
        L += [ind * 3 + "]", ind * 2 + ("}," if j + 1 < len(planes) else "}")]
    L += [ind + "]", "}"]
    return "\n".join(L) + ("\n" if rng.random() < 0.9 else "")


def write_alpha(rng, planes, nS):
    L = []
    for a, e, k in planes:
        L.append("%d" % a)
        L.append((" " if rng.random() < 0.7 else "\n").join(num(rng, e[s]) for s in range(nS)) + (" " if rng.random() < 0.5 else ""))
        if rng.random() < 0.8:
            L.append("")
    return "\n".join(L) + ("\n" if rng.random() < 0.8 else "")


def run(c, st):
    w = workload.Work(dict(c, strat="frtdp"))
    m = w.m
    rng = np.random.default_rng(c["seed"] + 9)
    with Scratch() as d:
        w.write(d)
        opts = []
        for k, v in c["opts"].items():
            opts += ["--" + k, str(v)]
        if c["src"] == "solved":
            r = logs.zmdp(d, ["solve"] + w.args() + ["-p", "%.17g" % (1e-2 * w.scale()), "--terminateNumBackups", "60", "-o", "p",
                                                     w.fname], env={"ZV_SEED": c["rs"], "ZV_CLOCK": "11000"})
            logs.must_end_ok(r, "solve", w.files())
            n, planes, _ = logs.read_policy(os.path.join(d, "p"))
            if n != len(planes):
                raise Violation("the written policy is not complete", "", w.files())
        else:
            planes = rnd_planes(rng, m)
            if c["src"] == "alpha":
                planes = [(a, {s: e.get(s, float(rng.normal())) for s in range(m.nS)}, m.nS) for a, e, k in planes]
            text = write_alpha(rng, planes, m.nS) if c["src"] == "alpha" else write_max(rng, planes)
            open(os.path.join(d, "p"), "w").write(text)
        ptext = open(os.path.join(d, "p")).read()
        files = dict(w.files(), policy=ptext)
        steps = int(rng.integers(3, 14))
        a = ["evaluate", "--policyInputFile", "p", "-i", "40", "--evaluationMaxStepsPerTrial", str(steps),
             "--simulationTracesToLogPerEpoch", "-1", "--useEvaluationCache", str(c["cache"])] + opts
        if c["src"] == "alpha":
            a += ["--policyType", "cassandraAlpha"]
        if c["fast"]:
            a += ["-f"]
        r = logs.zmdp(d, a + [w.fname], env={"ZV_SEED": c["rs"]})
        if r.rc == 1 and not r.san:
            raise Violation("a well-formed policy is refused", r.brief(), files)
        logs.must_end_ok(r, "evaluate", files)
        tr = logs.sim_traces(os.path.join(d, "sim.plot"))
        if len(tr) != 40:
            raise Violation("evaluate did not log every trial it ran", "%d of 40" % len(tr), files)
        pf = logs.PolicyFile(planes, m.nS)
        psc = float(np.abs(pf.A).max() + np.abs(m.R).max()) + 1e-9
        memo = {}
        clear = n = 0
        for t in tr:
            b = m.b0
            for step in t["steps"]:
                key = tuple(np.round(b, 12))
                if key not in memo:
                    memo[key] = decide(m, pf, b)
                if memo[key] is None:
                    st.add("beliefs with negligible entries, not judged")
                    break
                ok = set()
                for q in memo[key]:
                    top = max(q)
                    ok |= {i for i in range(m.nA) if q[i] >= top - 1e-7 * psc}
                act = step[1]
                n += 1
                clear += len(ok) == 1
                if act not in ok:
                    raise Violation("an action was taken that is not the one the policy file denotes (%s)" % c["src"],
                                    "belief %s: action %d taken, file denotes %s (values %s)\n%s" %
                                    (b, act, sorted(ok), memo[key], r.brief()), files)
                if m.is_term(b):
                    break
                o = step[3]
                nz = [oo for oo in range(m.nO) if (b @ m.TZ[act, oo]).sum() > 0]
                u = b @ m.TZ[act, o] if 0 <= o < m.nO else np.zeros(m.nS)
                if u.sum() <= 1e-11:
                    break
                b = u / u.sum()
        st.add("decisions judged", n)
        st.add("decisions with a single right answer", clear)
        st.seen("policies", ptext)
        if not clear:
            return None
        return {"case": c["id"], "source": c["src"], "planes": len(planes), "decisions": n, "clear": clear, "beliefs": len(memo)}


def decide(m, pf, b):
    """Action values under the two readings of a plane at beliefs that are terminal: None when the belief or a successor
    has entries too small to tell whether a plane applies."""
    out = []
    def tiny(x):
        return ((x > 0) & (x < 1e-8)).any()
    if tiny(b):
        return None
    for zero in (True, False):
        q = []
        for a in range(m.nA):
            v = float(m.R[:, a] @ b)
            for _, p, y in m.succ(b, a):
                if p < 1e-8 or tiny(y):
                    return None
                if zero and m.is_term(y):
                    continue
                r = pf.best(y)
                v += m.discount * p * r[1]
            q.append(v)
        out.append(q)
    return out


def main():
    return run_check("C06", cases(), run,
                     "a case is non-trivial when at least one executed decision had a single right answer")
