"""C11: beliefs follow Bayes' rule and model outcomes form distributions."""
import os
import numpy as np
from zv import logs, models, walk, workload
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch

RULE = ("Walks: a probe explores beliefs of a real Pomdp object from the start belief (random order, long paths) and prints "
        "observation probabilities, rewards, terminal flags and successors; each is compared with a dense Bayes update of the very "
        "belief it came from. Logs: after a benchmark run every logged belief must be a distribution, be listed once, and be the "
        "start belief or the Bayes successor of another logged belief. One evaluation is one walk or one run.")
FAMS = list(models.POMDP_FAMILIES) + ["sharp", "sharp", "sparse60", "sharp60"]


def sharpen(rng, row):
    """some entries many orders of magnitude smaller"""
    k = rng.random(len(row)) < 0.5
    row = row * np.where(k, 10.0 ** -rng.integers(1, 9, len(row)), 1.0)
    row = np.where((row > 0) & (row < 2e-9), 2e-9, row)
    return row / row.sum()


def model(rng, fam):
    if fam in models.POMDP_FAMILIES:
        return models.rnd_pomdp(rng, fam)
    if fam == "sharp":
        nS, nA, nO = int(rng.integers(2, 9)), int(rng.integers(1, 4)), int(rng.integers(2, 6))
        k = nS
    else:
        nS, nA, nO = int(rng.integers(25, 61)), int(rng.integers(1, 4)), int(rng.integers(2, 9))
        k = int(rng.integers(1, 4))
    T = np.array([[models.dist(rng, nS, int(rng.integers(1, k + 1))) for s in range(nS)] for a in range(nA)])
    Z = np.array([[models.dist(rng, nO, int(rng.integers(1, nO + 1))) for s in range(nS)] for a in range(nA)])
    if fam.startswith("sharp"):
        for M in (T, Z):
            for a in range(nA):
                for s in range(nS):
                    M[a, s] = sharpen(rng, M[a, s])
    R = np.round(rng.normal(size=(nS, nA)) * rng.choice([1, 10, 1000]), 3)
    for s in range(nS):
        if rng.random() < 0.1:
            T[:, s, :] = 0
            T[:, s, s] = 1
            if rng.random() < 0.7:
                R[s] = 0
    b0 = models.dist(rng, nS, int(rng.integers(1, nS + 1 if nS < 10 else 5)))
    if fam == "sharp":
        b0 = sharpen(rng, b0)
    return models.Pomdp(T, Z, R, b0, float(rng.choice([0.5, 0.9, 0.99])))


def walked(c, st):
    rng = np.random.default_rng(c["seed"])
    m = model(rng, c["fam"])
    files = {"m.pomdp": m.text()}
    with Scratch() as d:
        open(os.path.join(d, "m.pomdp"), "w").write(files["m.pomdp"])
        r = walk.walk(d, "pomdp", "m.pomdp", c["seed"], 40, "dump", "useFastModelParser %d" % (c["seed"] % 2), files)
        D = walk.Dump(r.out)
        if not D.complete:
            raise Violation("the walk did not finish", r.brief(), files)

    def bad(what, detail):
        raise Violation(what, detail, files)
    if D.nA != m.nA or abs(D.discount - m.discount) > 1e-12 or D.dim != m.nS:
        bad("model parameters differ", "%s %s %s" % (D.nA, D.discount, D.dim))
    if np.abs(D.states[0] - m.b0).max() > 2e-10:
        bad("initial belief differs", "%s vs %s" % (D.states[0], m.b0))
    n = unlikely = 0
    for i, b in D.states.items():
        if (b < 0).any() or abs(b.sum() - 1) > 1e-8:
            bad("a reached belief is not a distribution", "%s sums to %.17g" % (b, b.sum()))
    scale = max(1e-9, np.abs(m.R).max())
    for i, (term, acts) in D.exp.items():
        b = D.states[i]
        mass = b[~m.terminal].sum()
        if (mass > 1e-9 and term) or (mass < 1e-11 and not term):
            bad("wrong terminal flag", "belief %s flag %d non-terminal mass %g" % (b, term, mass))
        for a in range(m.nA):
            rew, nout, outs = acts[a]
            if abs(rew - b @ m.R[:, a]) > 1e-9 * scale:
                bad("expected reward is not linear in the belief", "belief %s action %d: %.17g, expected %.17g" % (b, a, rew, b @ m.R[:, a]))
            if nout != m.nO:
                bad("wrong number of observations", "%d" % nout)
            ev = np.array([(b @ m.TZ[a, o]).sum() for o in range(m.nO)])
            got = np.zeros(m.nO)
            for o, p, t in outs:
                got[o] = p
            if np.abs(got - ev).max() > 1e-9:
                bad("observation probabilities differ from the evidence", "belief %s action %d: %s, expected %s" % (b, a, got, ev))
            if (got < 0).any() or abs(got.sum() - b.sum()) > 1e-9:
                bad("observation probabilities are not a distribution", "%s" % got)
            mix = np.zeros(m.nS)
            for o, p, t in outs:
                if t < 0:
                    continue
                u = b @ m.TZ[a, o]
                u = u / u.sum()
                if np.abs(D.states[t] - u).max() > 1e-8:
                    bad("successor belief is not the Bayes posterior",
                        "belief %s action %d observation %d (probability %g): %s, expected %s" % (b, a, o, p, D.states[t], u))
                mix += p * D.states[t]
                n += 1
                unlikely += p < 1e-6
            if np.abs(mix - b @ m.T[a]).max() > 2e-8:
                bad("the predicted state distribution is not conserved", "belief %s action %d: %s vs %s" % (b, a, mix, b @ m.T[a]))
    st.add("Bayes updates compared", n)
    st.add("updates on observations with probability below 1e-6", unlikely)
    st.seen("families", c["fam"])
    return {"case": c["id"], "beliefs": len(D.states), "updates": n, "unlikely": int(unlikely)}


def logged(c, st):
    w = workload.Work(c)
    m = w.m
    files = w.files()
    with Scratch() as d:
        r = workload.run_bench(w, d, c["nb"], 1e-4 * w.scale())
        logs.must_end_ok(r, "benchmark", files)
        idx = logs.state_index(os.path.join(d, "stateIndex.log"), w.dim)
        bk = logs.backups(os.path.join(d, "backups.log"))
        files["stateIndex.log"] = open(os.path.join(d, "stateIndex.log")).read()[:100000]
    seen = {}
    for i, b in idx.items():
        if (b < 0).any() or abs(b.sum() - 1) > 1e-8:
            raise Violation("a logged belief is not a distribution", "state %d: %s" % (i, b), files)
    ids = sorted(idx)
    M = np.array([idx[i] for i in ids])
    if np.abs(M - m.b0).max(1).min() > 2e-10:
        raise Violation("the start belief is not among the logged states", "%s" % m.b0, files)
    # neighbours through rounding to a grid, both ways
    def keys(v):
        a = np.floor(v * 1e6 + 0.25).astype(int)
        b = np.floor(v * 1e6 + 0.75).astype(int)
        return (0,) + tuple(a), (1,) + tuple(b)
    grid = {}
    for j, v in enumerate(M):
        for k in keys(v):
            for q in grid.get(k, ()):
                if np.abs(M[q] - v).max() < 2e-11:
                    raise Violation("a belief is listed twice", "states %d and %d: %s" % (ids[q], ids[j], v), files)
            grid.setdefault(k, []).append(j)
    reached = np.zeros(len(M), bool)
    reached[np.abs(M - m.b0).max(1) < 1e-8] = True
    for j, v in enumerate(M):
        for a in range(m.nA):
            for o, p, u in m.succ(v, a):
                for k in keys(u):
                    for q in grid.get(k, ()):
                        if np.abs(M[q] - u).max() < 1e-8:
                            reached[q] = True
    # a belief whose successors straddle both grids is looked up exhaustively before it is called unreachable
    for j in np.nonzero(~reached)[0][:20]:
        for v in M:
            for a in range(m.nA):
                for o, p, u in m.succ(v, a):
                    if np.abs(M[j] - u).max() < 1e-7:
                        reached[j] = True
        if not reached[j]:
            raise Violation("a logged belief is not a Bayes successor of any logged belief", "state %d: %s" % (ids[j], M[j]), files)
    st.add("logged beliefs judged", len(M))
    st.seen("configurations", (w.kind, w.strat, w.lb, w.ub))
    return {"case": c["id"], "logged": len(M), "backups": len(bk)}


def run(c, st):
    return walked(c, st) if c["what"] == "walk" else logged(c, st)


def main():
    n = 6000 if THOROUGH else 2500
    rng = np.random.default_rng([SEED, 11])
    cases = [{"id": "c11-%d" % i, "what": "walk", "fam": FAMS[i % len(FAMS)], "seed": int(rng.integers(1, 2 ** 31))}
             for i in range(n)]
    for i, c in enumerate(workload.bench_cases(2000 if THOROUGH else 600, 1111, kinds=["pomdp", "pomdp", "layered"])):
        c["what"] = "log"
        c["nb"] = [40, 120, 10][i % 3]
        cases.append(c)
    return run_check("C11", cases, run, RULE, probes=["modelwalk"], assumptions=[
        "entries up to 1e-10 may be dropped from a belief; posteriors are compared to 1e-8"])
