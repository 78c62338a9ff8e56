"""C07: the Cassandra parser loads the model the file denotes."""
import os
import numpy as np
from zv import build, cassandra
from zv.check import Violation, run_check, SEED, THOROUGH
from zv.run import Scratch, zrun

RULE = ("Random POMDP/MDP files using every statement form of the format (names or numbers, wildcards, singles, rows, "
        "matrices, uniform, identity, reset, start forms, cost values, overrides, comments, free layout) are parsed by "
        "the real parser under ASan/UBSan; a probe dumps every matrix through both access paths the solver uses and each "
        "entry is compared with an independent evaluation of the statements. Variants broken in one place (row sums, "
        "unknown names, indices, entry counts, start sums) must be refused with a failure status and no crash. One "
        "evaluation is one file; it is conclusive when the probe ended and the comparison was made.")


def damage(rng, g):
    """(what, text) of a file that must be refused"""
    t = g.text.rstrip("\n") + "\n"
    a, s = int(rng.integers(g.nA)), int(rng.integers(g.nS))
    k = int(rng.integers(9))
    if k == 0:
        return "transition row sum", t + "T: %d : %d\n%s\n" % (a, s, " ".join(
            cassandra.fmt(x) for x in cassandra.dist(rng, g.nS) * float(rng.choice([0.5, 0.999, 0.9999]))))
    if k == 1:
        if not g.pomdp:
            return "transition row of zeros", t + "T: %d : %d : * 0\n" % (a, s)
        return "observation row sum", t + "O: %d : %d\n%s\n" % (a, s, " ".join(
            cassandra.fmt(x) for x in cassandra.dist(rng, g.nO) * float(rng.choice([0.5, 0.999, 0.9999]))))
    if k == 2:
        return "unknown state name", t + "T: %d : nosuchstate : %d 1\n" % (a, s)
    if k == 3:
        return "state number out of range", t + "T: %d : %d : %d 0\n" % (a, g.nS, s)
    if k == 4:
        return "action number out of range", t + "T: %d : %d : %d 0\n" % (g.nA, s, s)
    if k == 5:
        return "too few row entries", t + ("T: %d : %d\n%s\n" % (a, s, "1 " + "0 " * (g.nS - 2)) if g.nS > 1 else "T: 0 : 0\n")
    if k == 6:
        return "too many row entries", t + "T: %d : %d\n%s\n" % (a, s, "1 " + "0 " * g.nS)
    if k == 7:
        return "probability above one", t + "T: %d : %d : %d 1.5\n" % (a, s, s)
    return "trailing garbage", t + "Q: 1\n"


def case(c, st):
    rng = np.random.default_rng(c["seed"])
    g = cassandra.Gen(rng, c["kind"], c.get("big"))
    text = g.text
    bad = None
    if c["bad"]:
        bad, text = damage(rng, g)
    files = {"m." + c["kind"]: text}
    with Scratch() as d:
        f = os.path.join(d, "m." + c["kind"])
        open(f, "w").write(text)
        r = zrun([build.ensure("san").probe("dumpmodel"), "std", c["kind"], f], d, timeout=60)
        if r.san or r.timeout:
            raise Violation("parser crashed or hung: " + r.sig(), r.brief(), files)
        if bad:
            if r.rc == 0:
                raise Violation("file accepted despite: " + bad, r.err[-500:], files)
            st.add("malformed files refused")
            st.seen("kinds of damage", bad)
            return {"seed": c["seed"], "refused": bad}
        if not g.rows_ok():
            raise AssertionError("generator made a bad file")
        if r.rc != 0:
            kept = not np.array_equal(g.T, g.Tkept)
            raise Violation("well-formed MDP file refused whose 'reset' lines override earlier entries of their rows" if kept
                            else "well-formed file refused", r.brief(), files)
        dump = cassandra.parse_dump(r.out)
        if dump is None:
            raise Violation("probe output incomplete", r.brief(), files)
        diff = cassandra.compare(dump, c["kind"], g.nS, g.nA, g.nO, g.T, g.O, g.ER, g.b0 if g.pomdp else g.s0,
                                 g.discount, g.rscale, rtol=3e-5 if g.digits else None)
        if diff:
            raise Violation("loaded model differs: " + diff[0], diff[1], files)
    st.add("models compared")
    st.add("matrix entries compared", int(g.nA * (2 * g.nS ** 2 + g.nS * g.nO) + g.nS * g.nA))
    for x in g.features:
        st.seen("statement forms", x)
    return {"seed": c["seed"], "kind": c["kind"], "size": [g.nS, g.nA, g.nO], "forms": len(g.features)}


def main():
    n = 12000 if THOROUGH else 5000
    rng = np.random.default_rng([SEED, 7])
    cases = [{"id": "c07-%d" % i, "kind": "mdp" if i % 3 == 0 else "pomdp", "seed": int(rng.integers(1, 2 ** 31)),
              "bad": bool(i % 5 == 4), "big": bool(i % 7 == 0)} for i in range(n)]
    return run_check("C07", cases, case, RULE, probes=["dumpmodel"], assumptions=[
        "probability and reward entries compared to 1e-9 relative to the file's largest reward",
        "terminal flags judged only for states whose self-loop and rewards are not within rounding of the threshold"])
