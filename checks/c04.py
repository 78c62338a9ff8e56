"""C04: bounds only tighten along a run and the work counters agree with what was done."""
import os
import numpy as np
from zv import logs, workload
from zv.check import run_check, Violation, Inconclusive, THOROUGH
from zv.run import Scratch

N = 2400 if THOROUGH else 2500


def cases():
    cs = workload.bench_cases(N, 404)
    for i, c in enumerate(cs):
        c["nb"] = [600, 150, 60, 1200][i // 4 % 4] if THOROUGH else [220, 80, 350][i // 4 % 3]
        if i % 5 == 4:
            c["jump"] = 3 + i // 5 % 40  # few lines are printed after this, but the last one has to be
    return cs


def storage(w, d, c, idx, bk, bad, st):
    """the storage log's last line against the final state of the run"""
    ln = [l.split() for l in open(os.path.join(d, "st.log"))]
    if not ln:
        bad("a finished run wrote no line to the storage log", "")
    v = dict(zip(("total", "lbe", "lbn", "lbte", "lbtn", "ube", "ubn", "ubte", "ubtn"), [int(x) for x in ln[-1][1:]]))
    if v["total"] != v["lbn"] + v["lbtn"] + v["ubn"] + v["ubtn"] or min(v.values()) < 0:
        bad("the total of the storage log is not the sum of its parts", str(v))
    nS = len(next(iter(idx.values())))
    exp = set(bk)
    for b, kind, used in (("lb", w.lb, w.has_lb), ("ub", w.ub, True)):
        e, n, te, tn = (v[b + x] for x in ("e", "n", "te", "tn"))
        if not used:
            if e or n or te or tn:
                bad("storage is reported for a bound that is not kept", str(v))
        elif kind not in ("maxPlanes", "sawtooth"):
            # an MDP state 0 is a vector with a stored zero
            want = (len(exp), sum(int((np.asarray(idx[i]) != 0).sum()) + 1 for i in exp))
            if te != want[0] or not want[1] <= tn <= want[1] + (0 if w.kind in ("pomdp", "layered") else len(exp)):
                bad("the tabular storage differs from the number of expanded states and their entries", "%s vs %s" % (v, want))
            st.add("tabular storage lines judged")
        elif kind == "maxPlanes":
            np_, planes, _ = logs.read_policy(os.path.join(d, "out.policy"))
            E = sum(p[2] for p in planes)
            Z = sum(sum(x != 0 for x in p[1].values()) for p in planes)
            mask = str((c.get("opts") or {}).get("useMaxPlanesMasking", 1)) == "1"
            lo, hi = (E + Z, 2 * E) if mask else (Z, nS * len(planes))
            if e != len(planes) or te or tn or not lo <= n <= hi:
                bad("the storage of the lower bound differs from the written policy's planes", "%s vs %d planes, %d..%d entries" % (v, len(planes), lo, hi))
            st.add("maxPlanes storage lines judged")
        else:
            p = e - nS
            if not 0 <= p <= len(bk) or te or tn or not nS + 2 * p <= n <= nS + p * (nS + 1):
                bad("the storage of the upper bound is impossible for its points", "%s with %d states, %d backups" % (v, nS, len(bk)))
            st.add("sawtooth storage lines judged")


def run(c, st):
    w = workload.Work(c)
    with Scratch() as d:
        r = workload.run_bench(w, d, c["nb"], 1e-5 * w.scale(), extra=["-o", "out.policy"] if w.lb == "maxPlanes" and w.has_lb else [],
                               env={"ZV_CLOCK_JUMP": c["jump"]} if "jump" in c else None)
        logs.must_end_ok(r, "benchmark", w.files())
        rows = logs.bounds_plot(os.path.join(d, "bounds.plot"))
        idx = logs.state_index(os.path.join(d, "stateIndex.log"), w.dim)
        bv = logs.id_values(os.path.join(d, "boundValues.log"), 1, 2)
        bk = logs.backups(os.path.join(d, "backups.log"))
        if not rows:
            raise Violation("a finished benchmark run reported no bounds", "", w.files())

        def bad(what, detail):
            raise Violation(what, "%s\n%s" % (detail, r.brief()), w.files())
        dig = 6e-6
        for i, (a, b) in enumerate(zip(rows, rows[1:])):
            if w.has_lb and b[1] < a[1] - dig * (abs(a[1]) + abs(b[1])) - 1e-7 * w.scale():
                bad("the lower bound at the start state decreased", "%s then %s" % (a, b))
            if b[2] > a[2] + dig * (abs(a[2]) + abs(b[2])) + 1e-7 * w.scale():
                bad("the upper bound at the start state increased", "%s then %s" % (a, b))
            for j, name in ((3, "touched"), (4, "expanded"), (5, "trials"), (6, "backups")):
                if b[j] < a[j]:
                    bad("the %s count decreased" % name, "%s then %s" % (a, b))
            if b[5] <= a[5] and w.strat != "hdp":
                bad("the trial count did not grow between two trials", "%s then %s" % (a, b))
            if b[6] - a[6] < b[5] - a[5] and w.strat in ("frtdp", "hsvi", "rtdp"):
                bad("a trial performed no backup", "%s then %s" % (a, b))
            if b[0] < a[0]:
                bad("time ran backwards", "%s then %s" % (a, b))
        for a in rows:
            if a[4] > a[3]:
                bad("more states expanded than touched", str(a))
            if a[4] > a[6]:
                bad("more states expanded than backups performed", str(a))
        last = rows[-1]
        if "jump" in c and len(bk) < c["nb"] and w.strat not in ("frtdp", "hsvi"):
            # the driver, not the search, found that the run is over: the line may be left out for lack of progress in time
            if last[6] > len(bk) or last[4] > len(set(bk)) or last[3] > len(idx):
                bad("a reported count exceeds the final one", str(last))
            return
        if last[6] != len(bk):
            bad("the backup count differs from the number of logged backups", "%d vs %d" % (last[6], len(bk)))
        if last[4] != len(set(bk)):
            bad("the expanded count differs from the number of distinct states backed up", "%d vs %d" % (last[4], len(set(bk))))
        if last[3] != len(idx):
            bad("the touched count differs from the number of states in the search graph", "%d vs %d" % (last[3], len(idx)))
        storage(w, d, c, idx, bk, bad, st)
        # the root's entry
        s0 = w.start()
        root = [i for i in idx if np.abs(idx[i] - s0).max() < 1e-9]
        if not root:
            bad("the start state is missing from the state index", "")
        l, u = bv[min(root)]
        # the log evaluates the bound representation, which later backups elsewhere may have tightened at the root
        for name, x, y, used in (("lower", -l, -last[1], w.has_lb), ("upper", u, last[2], True)):
            loose = x - y if (w.lb if name == "lower" else w.ub) in ("maxPlanes", "sawtooth") else abs(x - y)
            if used and loose > dig * abs(y) + 1e-6 * w.scale():
                bad("the last reported %s bound is tighter than, or for point bounds differs from, the start state's entry in the bound log" % name, "%r vs %r" % (x, y))
        st.add("consecutive line pairs", len(rows) - 1)
        if "jump" in c:
            st.add("runs whose clock nearly stood still")
        st.add("backups", len(bk))
        st.add("strict improvements", sum((b[1] > a[1]) + (b[2] < a[2]) for a, b in zip(rows, rows[1:])))
        st.seen("configurations", (w.kind, w.strat, w.lb, w.ub, str(c.get("opts"))))
        return {"case": c["id"], "lines": len(rows), "backups": len(bk), "touched": last[3], "expanded": last[4]}


def main():
    return run_check("C04", cases(), run,
                     "a run is non-trivial when it reported at least one line and all three logs were read back")
