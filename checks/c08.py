"""C08: the fast parser and the standard parser load the same model."""
import os
import numpy as np
from zv import build, cassandra, models
from zv.check import Violation, run_check, SEED, THOROUGH
from zv.run import Scratch, zrun

RULE = ("Random files in the fast parser's subset (statements in any order, repeated entries, comments, blank lines, "
        "spacing, number spellings, missing rewards) and near-miss files just outside it (wildcards, names, rows, matrices, "
        "continuation lines, out-of-range indices, bad sums, wrong preamble, trailing junk) are given to both real parsers "
        "under ASan/UBSan. Where the fast parser accepts, the standard parser must accept and the two dumps, and the "
        "reference, must agree entry by entry; it must accept every file of the subset; no run may crash.")


def w(rng):
    return str(rng.choice(["", " ", " ", "  ", "\t"]))


def fnum(rng, x, signed=False):
    """spelling both parsers read (no space after a sign: scanf)"""
    t, v = cassandra.num(rng, x, signed)
    t = t.replace("+ ", "").replace("- ", "-").replace("+", "") if "e+" not in t and "E+" not in t else \
        t.replace("+ ", "").replace("- ", "-").lstrip("+")
    return t, v


class FastGen:
    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.pomdp = kind == "pomdp"
        S, A, O = self.nS, self.nA, self.nO = (int(rng.integers(1, 9)), int(rng.integers(1, 5)), int(rng.integers(1, 6)))
        if rng.random() < 0.1:
            self.nS = S = int(rng.integers(20, 60))
        T = np.zeros((A, S, S))
        Z = np.zeros((A, S, O))
        R = np.zeros((S, A))
        self.features = set()
        body = []

        def sp():
            return str(rng.choice([" ", "  ", "\t", " \t "]))

        def colon():
            return w(rng) + ":" + w(rng)

        def line(tag, idx, txt):
            return tag + ":" + w(rng) + colon().join(str(i) for i in idx) + sp() + txt
        rows = [("T", a, s) for a in range(A) for s in range(S)]
        if self.pomdp:
            rows += [("O", a, s) for a in range(A) for s in range(S)]
        absorbing = set(int(x) for x in rng.choice(S, int(rng.integers(0, 2)))) if S > 1 else set()
        singles = []
        for tag, a, s in rows:
            n = S if tag == "T" else O
            p = np.eye(S)[s] if tag == "T" and s in absorbing else cassandra.dist(rng, n)
            p[p < 1e-7] = 0  # entries near the sparsity threshold may be dropped, and the sums are checked to 1e-10
            p /= p.sum()
            idx = [int(i) for i in rng.permutation(n) if p[i] > 0 or rng.random() < 0.1]
            ent = []
            for i in idx:
                txt, v = fnum(rng, float(p[i]))
                (T if tag == "T" else Z)[a, s, i] = v
                if rng.random() < 0.08:
                    # an earlier entry for the same place that the later one overrides
                    ent.append((tag, (a, s, i), fnum(rng, float(rng.random()))[0]))
                    self.features.add("repeat")
                ent.append((tag, (a, s, i), txt))
            singles.append(ent)
        for a in range(A):
            for s in range(S):
                if s in absorbing or rng.random() < 0.4:
                    continue
                x = cassandra.rew(rng)
                txt, v = fnum(rng, x, True)
                R[s, a] = v
                tag = (a, s, "*", "*") if self.pomdp else (a, s, "*")
                ent = []
                if rng.random() < 0.1:
                    ent.append(("R", tag, fnum(rng, cassandra.rew(rng), True)[0]))
                    self.features.add("repeat R")
                ent.append(("R", tag, txt))
                singles.append(ent)
        # interleave the groups, keeping the order within each place
        flat = []
        if rng.random() < 0.5:
            self.features.add("shuffled")
            while singles:
                i = int(rng.integers(len(singles)))
                flat.append(singles[i].pop(0))
                if not singles[i]:
                    singles.pop(i)
        else:
            flat = [e for g in singles for e in g]
        # the R format of the fast parser needs the wildcards spelled as in its documentation, but any blanks
        for tag, idx, txt in flat:
            body.append(line(tag, idx, txt))
        if not flat:
            raise AssertionError
        disc = float(rng.choice([0.5, 0.95, 1.0, 0.0, float(rng.random())]))
        dt, disc = fnum(rng, disc)
        pre = ["discount:" + w(rng) + dt, "values:" + w(rng) + "reward", "states:" + w(rng) + str(S),
               "actions:" + w(rng) + str(A)]
        if self.pomdp:
            pre.append("observations:" + w(rng) + str(O))
        rng.shuffle(pre)
        if self.pomdp:
            p = cassandra.dist(rng, S)
            b = np.zeros(S)
            ts = []
            for i in range(S):
                t, b[i] = fnum(rng, float(p[i]))
                ts.append(t)
            self.start = b
            pre.append("start:" + w(rng) + " ".join(ts))
        else:
            self.start = int(rng.integers(S))
            pre.append("start:" + w(rng) + str(self.start))
        out = []
        for L in list(pre) + body:
            r = rng.random()
            if r < 0.03:
                out.append("# T: 0 : 0 : 0 1")
            elif r < 0.06:
                out.append(str(rng.choice(["", "   ", "\t"])))
            if r > 0.97:
                L += str(rng.choice([" ", "\t", " \r", "  # trailing comment", " #"]))
            out.append(L)
        self.lines = out
        self.T, self.O, self.ER, self.discount = T, Z, R, disc
        self.rscale = 1 + np.abs(R).max()
        self.npre = len(pre)

    def text(self):
        nl = "\r\n" if self.rng.random() < 0.05 else "\n"
        return nl.join(self.lines) + (nl if self.rng.random() < 0.9 else "")


def near_miss(rng, g):
    """(what, text): small edits, most of them outside the fast subset; judged by agreement, not by refusal"""
    L = list(g.lines)
    a, s, t = int(rng.integers(g.nA)), int(rng.integers(g.nS)), int(rng.integers(g.nS))
    body = [i for i, x in enumerate(L) if x[:2] in ("T:", "O:", "R:")]
    i = body[int(rng.integers(len(body)))]
    k = int(rng.integers(24))
    edits = {
        0: ("wildcard from-state", "T: %d : * : %d 0" % (a, t)),
        1: ("wildcard action", "T: * : %d : %d 0" % (s, t)),
        2: ("row", "T: %d : %d %s" % (a, s, " ".join(["1"] + ["0"] * (g.nS - 1)))),
        3: ("row on the next line", "T: %d : %d\n%s" % (a, s, " ".join(["1"] + ["0"] * (g.nS - 1)))),
        4: ("uniform row", "T: %d : %d uniform" % (a, s)),
        5: ("identity", "T: %d identity" % a),
        6: ("state out of range", "T: %d : %d : %d 0" % (a, g.nS, t)),
        7: ("negative state", "T: %d : -1 : %d 0" % (a, t)),
        8: ("action out of range", "T: %d : %d : %d 0" % (g.nA, s, t)),
        9: ("reward for one outcome", "R: %d : %d : %d : * 3" % (a, s, t) if g.pomdp else "R: %d : %d : %d 3" % (a, s, t)),
        10: ("reward for all actions", "R: * : %d : * : * 3" % s if g.pomdp else "R: * : %d : * 3" % s),
        11: ("trailing number", "T: %d : %d : %d 0.5 0.5" % (a, s, t)),
        12: ("statement continued on the next line", "T: %d : %d : %d\n0.5" % (a, s, t)),
        13: ("two statements on a line", "R: %d : %d : * : * 3 R: %d : %d : * : * 4" % (a, s, a, s) if g.pomdp else
             "R: %d : %d : * 3 R: %d : %d : * 4" % (a, s, a, s)),
        14: ("leading blanks", "  R: %d : %d : * : * 7" % (a, s) if g.pomdp else "  R: %d : %d : * 7" % (a, s)),
        15: ("blank before the colon", "R : %d : %d : * : * 7" % (a, s) if g.pomdp else "R : %d : %d : * 7" % (a, s)),
        16: ("unknown statement", "Q: 1"),
        17: ("number without leading digit", "R: %d : %d : * : * .5" % (a, s) if g.pomdp else "R: %d : %d : * .5" % (a, s)),
        18: ("infinite reward", "R: %d : %d : * : * inf" % (a, s) if g.pomdp else "R: %d : %d : * nan" % (a, s)),
        19: ("signed reward with a blank", "R: %d : %d : * : * - 5" % (a, s) if g.pomdp else "R: %d : %d : * - 5" % (a, s)),
        20: ("hexadecimal", "R: %d : %d : * : * 0x10" % (a, s) if g.pomdp else "R: %d : %d : * 0x10" % (a, s)),
    }
    if k in edits:
        what, x = edits[k]
        if k in (17, 20):
            # spellings of numbers that only the fast parser reads; they must still mean what they say
            g.ER[s, a] = 0.5 if k == 17 else 16
            L.append(x)
            return what, "\n".join(L) + "\n"
        L.insert(len(L) if rng.random() < 0.5 else i + 1, x)
        return what, "\n".join(L) + "\n"
    if k == 21:
        what = "row sum off"
        sums = [x for x in body if L[x][0] in "TO"]
        L[sums[int(rng.integers(len(sums)))]] = "# removed"
    elif k == 22:
        what = "values: cost"
        L = [("values: cost" if x.startswith("values:") else x) for x in L]
    else:
        what = "preamble statement missing"
        pre = [j for j, x in enumerate(L) if j < body[0] and x and x[0] in "dvsao"]
        L.pop(pre[int(rng.integers(len(pre)))])
    return what, "\n".join(L) + "\n"


def case(c, st):
    rng = np.random.default_rng(c["seed"])
    g = FastGen(rng, c["kind"])
    what = None
    text = g.text()
    if c["near"]:
        what, text = near_miss(rng, g)
    files = {"m." + c["kind"]: text}
    probe = build.ensure("san").probe("dumpmodel")
    res = {}
    with Scratch() as d:
        f = os.path.join(d, "m." + c["kind"])
        open(f, "w", newline="").write(text)
        for p in ("std", "fast"):
            res[p] = zrun([probe, p, c["kind"], f], d, timeout=60)
            if res[p].san or res[p].timeout:
                raise Violation("%s parser crashed or hung: %s" % (p, res[p].sig()), res[p].brief(), files)
    fs, ff = res["std"], res["fast"]
    if what is None:
        for p in ("std", "fast"):
            if res[p].rc != 0:
                raise Violation("%s parser refused a file of the fast subset" % p, res[p].brief(), files)
            dump = cassandra.parse_dump(res[p].out)
            if dump is None:
                raise Violation("probe output incomplete", res[p].brief(), files)
            diff = cassandra.compare(dump, c["kind"], g.nS, g.nA, g.nO, g.T, g.O, g.ER, g.start, g.discount, g.rscale)
            if diff:
                raise Violation("%s parser loads a different model: %s" % (p, diff[0]), diff[1], files)
        st.add("models compared both ways with the reference")
    elif ff.rc == 0:
        st.add("near-miss files the fast parser accepts")
        st.seen("accepted near misses", what)
        if fs.rc != 0:
            if what not in ("number without leading digit", "hexadecimal"):
                raise Violation("only the fast parser accepts: " + what, fs.brief(), files)
            diff = cassandra.compare(cassandra.parse_dump(ff.out), c["kind"], g.nS, g.nA, g.nO, g.T, g.O, g.ER, g.start,
                                     g.discount, g.rscale + 16)
            if diff:
                raise Violation("fast parser misreads a " + what, diff[1], files)
    else:
        st.add("near-miss files the fast parser refuses")
        st.seen("refused near misses", what)
    if ff.rc == 0 and fs.rc == 0:
        A, B = cassandra.parse_dump(fs.out), cassandra.parse_dump(ff.out)
        if A is None or B is None or set(map(str, A)) != set(map(str, B)):
            raise Violation("the parsers' dumps have different parts", "", files)
        for k in A:
            for via in ("AC" if isinstance(A[k], dict) else [None]):
                x, y = (A[k][via], B[k][via]) if via else (np.array(A[k]), np.array(B[k]))
                if x.shape != y.shape or (x.size and np.abs(x - y).max() > 1e-9 * g.rscale):
                    raise Violation("the parsers disagree on " + str(k if isinstance(k, str) else k[0]),
                                    "%r\n%r" % (x.tolist(), y.tolist()), files)
        st.add("pairs of dumps compared")
    for x in g.features:
        st.seen("features", x)
    return {"seed": c["seed"], "kind": c["kind"], "near": what, "size": [g.nS, g.nA, g.nO]}


def main():
    n = 9000 if THOROUGH else 4000
    rng = np.random.default_rng([SEED, 8])
    cases = [{"id": "c08-%d" % i, "kind": "mdp" if i % 3 == 0 else "pomdp", "seed": int(rng.integers(1, 2 ** 31)),
              "near": bool(i % 5 >= 3)} for i in range(n)]
    return run_check("C08", cases, case, RULE, probes=["dumpmodel"], assumptions=[
        "a single integer as POMDP start is a documented extension of the fast parser and not generated",
        "numbers without a leading digit and hexadecimal numbers, which only the fast parser reads, are compared with "
        "the reference instead of the standard parser",
        "the start statement closes the preamble, as the standard format requires"])
