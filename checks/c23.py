"""C23: a tabulated copy of a model behaves exactly like the model."""
import os
import numpy as np
from zv import models, racetrack, walk
from zv.check import run_check, Violation, SEED, THOROUGH
from zv.run import Scratch
from checks import c11

RULE = ("A probe builds a CacheMDP over a real model object (POMDP beliefs, generic MDP, racetrack, custom chain) and walks both in "
        "lockstep from the initial state in a random order with revisits, comparing terminal flags, rewards, outcome "
        "probabilities, successors (through translateState) and the one-to-one correspondence of states and labels, "
        "under ASan/UBSan. One evaluation is one walk; it is non-trivial when states were reached again after being labelled.")


def run(c, st):
    rng = np.random.default_rng(c["seed"])
    k = c["kind"]
    extra = ""
    if k == "pomdp":
        m = c11.model(rng, c["fam"])
        text, name = m.text(), "m.pomdp"
    elif k == "mdp":
        n = int(rng.integers(30, 1500)) if c["big"] else int(rng.integers(2, 30))
        m = models.rnd_mdp(rng, str(rng.choice(models.MDP_FAMILIES))) if not c["big"] else None
        if m is None:
            text = big_mdp(rng, n)
        else:
            text = m.text()
        name = "m.mdp"
    elif k == "track":
        m = racetrack.rnd_track(rng, small=not c["big"])
        text, name = m.text(), "m.racetrack"
    else:
        n = int(rng.integers(2, 3000))
        extra = "customMDPNumStates %d" % n
        text, name = None, "custom"
    files = {name: text} if text else {}
    with Scratch() as d:
        if text:
            open(os.path.join(d, name), "w").write(text)
        r = walk.walk(d, k, name, c["seed"], c["n"], "cache", extra, files)
        bad = [l for l in r.out.splitlines() if l.startswith("MISMATCH")]
        if bad:
            raise Violation("table and model disagree: " + bad[0].split(" :: ")[0][9:], "\n".join(bad[:6])[:3000], files)
        if "END 0" not in r.out:
            raise Violation("the walk did not finish", r.brief(), files)
        w = [l for l in r.out.splitlines() if l.startswith("CACHE")][0].split()
    st.add("states tabulated", int(w[2]))
    st.add("answers compared", int(w[4]))
    st.add("states reached again", int(w[6]))
    st.mx("states in one table", int(w[2]))
    st.seen("kinds", k)
    return {"case": c["id"], "states": int(w[2]), "questions": int(w[4]), "revisits": int(w[6])}


def big_mdp(rng, n):
    L = ["discount: 0.9", "values: reward", "states: %d" % n, "actions: 2", "start: %d" % rng.integers(n)]
    for a in range(2):
        for s in range(n):
            ts = rng.choice(n, size=int(rng.integers(1, 4)), replace=False)
            p = rng.dirichlet(np.ones(len(ts)))
            for t, q in zip(ts, p):
                L.append("T: %d : %d : %d %.17g" % (a, s, t, q))
            L.append("R: %d : %d : * %.6g" % (a, s, rng.normal()))
    return "\n".join(L) + "\n"


def main():
    n = 6000 if THOROUGH else 2000
    rng = np.random.default_rng([SEED, 23])
    kinds = ["pomdp", "mdp", "track", "pomdp", "custom", "track", "pomdp", "mdp"]
    cases = []
    for i in range(n):
        cases.append({"id": "c23-%d-%s" % (i, kinds[i % 8]), "kind": kinds[i % 8], "seed": int(rng.integers(1, 2 ** 31)),
                      "fam": c11.FAMS[i // 8 % len(c11.FAMS)], "big": bool(i // 8 % 3 == 0), "n": [300, 1500, 4000][i // 8 % 3]})
    return run_check("C23", cases, run, RULE, probes=["modelwalk"], assumptions=[
        "belief components that differ by less than 2e-9 may share a label (the table keys states by nine decimals)"])
