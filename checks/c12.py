"""C12: sparse linear algebra agrees with dense reference arithmetic."""
import os
import numpy as np
from zv import build
from zv.check import run_check, Violation, SEED, THOROUGH
from zv.run import Scratch, zrun

RULE = ("A probe linked with the solver's own headers draws operands of random shape, density and value range (ties, "
        "huge/tiny values, explicit zeros, unsorted and repeated coordinate entries, stale result objects), applies every "
        "operation of sla.h, sla_mask.h and the vector helpers of MatrixUtils.h, and compares each result entry by entry with "
        "dense loops of its own, under ASan/UBSan. One evaluation is a batch of operand draws.")
PER = 400


def run(c, st):
    with Scratch() as d:
        r = zrun([build.ensure(c["build"]).probe("slaprobe"), str(c["seed"]), str(PER)], d, timeout=300)
        if r.san or r.timeout or r.rc not in (0, 1):
            raise Violation("vector operation crashed: " + r.sig(), r.brief(), {})
        bad = [l for l in r.out.splitlines() if l.startswith("MISMATCH")]
        if bad:
            op = bad[0].split(" :: ")[0][9:]
            raise Violation("operation differs from dense arithmetic: " + op, "\n".join(bad[:8]), {})
        if "END 0" not in r.out:
            raise Violation("vector operation ended the program", r.brief(), {})
        n = 0
        for l in r.out.splitlines():
            if l.startswith("OP "):
                _, k, op = l.split(" ", 2)
                n += int(k)
                st.seen("operations", op)
        st.add("operations compared", n)
        return {"seed": c["seed"], "build": c["build"], "operations": n,
                "shapes": [l for l in r.out.splitlines() if l.startswith("SHAPES")][0]}


def main():
    n = 3000 if THOROUGH else 800
    rng = np.random.default_rng([SEED, 12])
    cases = [{"id": "c12-%d" % i, "seed": int(rng.integers(1, 2 ** 31)), "build": "san"} for i in range(n)]
    return run_check("C12", cases, run, RULE, probes=["slaprobe"], assumptions=[
        "sparse operands hold their entries in increasing index order, as every producer in the code does",
        "conversions into sparse form may drop entries of magnitude up to 1e-10 (SPARSE_EPS)"])
