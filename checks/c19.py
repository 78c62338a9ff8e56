"""C19: replaying a logged backup sequence reproduces the logged run."""
import os
import numpy as np
from zv import logs, workload
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch
from checks.c14 import FLAGS

N = 4000 if THOROUGH else 1500


def cases():
    cs = workload.bench_cases(N, 1919)
    rng = np.random.default_rng([SEED, 1920])
    for i, c in enumerate(cs):
        c["nb"] = [200, 60, 15, 400][i // 4 % 4]
        c["again"] = ["same", "same", "other"][i % 3]
        c["u"] = int(rng.integers(1, 2 ** 31))
        c["id"] += "-" + c["again"]
    return cs


def run(c, st):
    w = workload.Work(c)
    rng = np.random.default_rng(c["u"])
    files = w.files()
    prec = 1e-5 * w.scale()
    with Scratch() as d:
        r = workload.run_bench(w, d, c["nb"], prec)
        logs.must_end_ok(r, "benchmark", files)

        def load(sub=""):
            p = os.path.join(d, sub)
            return (logs.state_index(os.path.join(p, "stateIndex.log"), w.dim),
                    logs.id_values(os.path.join(p, "boundValues.log"), 1, 2), logs.backups(os.path.join(p, "backups.log")))
        idx, bv, bk = load()
        rows1 = logs.bounds_plot(os.path.join(d, "bounds.plot"))
        os.makedirs(os.path.join(d, "in"))
        keep = {}
        for n in ("stateIndex.log", "backups.log", "boundValues.log", "q.log"):
            os.rename(os.path.join(d, n), os.path.join(d, "in", n))
            keep[n] = open(os.path.join(d, "in", n)).read()[:50000]
        files.update(keep)
        a = w.args()
        a[1] = "script"
        if w.has_lb and "--maintainLowerBound" not in a:
            a += ["--maintainLowerBound", "1"]
        if c["again"] == "other":
            f = {k: int(rng.random() < 0.5) for k in FLAGS}
            f["useMaxPlanesSupportList"] &= f["useMaxPlanesMasking"]
            f["useMaxPlanesExtraPruning"] &= f["useMaxPlanesCache"]
            # the other settings come last and win
            for k in FLAGS:
                a += ["--" + k, str(f[k])]
            if w.pomdp:
                a += ["-l", str(rng.choice(["point", "maxPlanes"])), "-u", str(rng.choice(["point", "sawtooth"]))]
        extra = ["--backupScriptInputDir", "in"]
        args = ["benchmark"] + a + workload.BENCH_FAST + ["-p", "%.17g" % prec] + logs.LOGARGS + extra + [w.fname]
        r2 = logs.zmdp(d, args, env={"ZV_SEED": "5", "ZV_CLOCK": "1"}, timeout=120)
        if r2.rc == 1 and not r2.san:
            raise Violation("the logs of a run could not be replayed", r2.brief(), files)
        logs.must_end_ok(r2, "script", files)
        idx2, bv2, bk2 = load()
        rows2 = logs.bounds_plot(os.path.join(d, "bounds.plot"))

        def bad(what, detail=""):
            raise Violation(what, "%s\nfirst: %s\nthen: %s" % (detail, " ".join(r.args[1:]), r2.brief()), files)
        # the first run's log of touched states is complete (q log on), so ids are comparable through the vectors
        done = rows2 and w.has_lb and rows2[-1][2] - rows2[-1][1] <= prec + 6e-6 * (abs(rows2[-1][1]) + abs(rows2[-1][2]))
        early = len(bk2) < len(bk) and done
        if early:
            # (trials are cut at other places, so the regret target can be noticed some backups earlier)
            st.add("replays that reached the regret target before the end of the script")
            bk = bk[:len(bk2)]
        if len(bk2) != len(bk):
            bad("the replay performed another number of backups than the log lists", "%d vs %d" % (len(bk2), len(bk)))
        for n, (i, j) in enumerate(zip(bk, bk2)):
            if np.abs(idx[i] - idx2[j]).max() > 1e-12:
                bad("the replay backed up another state than the log lists", "backup %d: %s vs %s" % (n, idx[i], idx2[j]))
        if rows2 and rows2[-1][6] != len(bk):
            bad("the replay reports another number of backups than the log lists", "%s" % (rows2[-1],))
        sc = w.scale()
        both = c["strat"] in ("frtdp", "hsvi", "rtdp")
        if c["again"] == "same" and both and not early:
            if len(idx2) != len(idx):
                bad("the replay touched another number of states", "%d vs %d" % (len(idx2), len(idx)))
            key = {tuple(np.round(v, 11)): k for k, v in idx2.items()}
            n = 0
            for i, v in idx.items():
                j = key.get(tuple(np.round(v, 11)))
                if j is None:
                    continue
                n += 1
                for q, name in ((0, "lower"), (1, "upper")):
                    if q == 0 and not w.has_lb:
                        continue
                    x, y = bv[i][q], bv2[j][q]
                    if abs(x - y) > 1e-9 * (abs(x) + abs(y)) + 1e-10 * sc:
                        bad("the replay ended with another %s bound" % name, "state %s: %.17g vs %.17g" % (v, x, y))
            if n < 0.9 * len(idx):
                bad("states of the first run are missing from the replay's index", "%d of %d" % (n, len(idx)))
            st.add("states with equal bounds", n)
            if rows1 and rows2:
                for q in (1, 2) if w.has_lb else (2,):
                    if abs(rows1[-1][q] - rows2[-1][q]) > 2e-5 * (1e-9 + abs(rows1[-1][q])) + 1e-9 * sc:
                        bad("the replay reports other bounds at the start state", "%s vs %s" % (rows1[-1], rows2[-1]))
        else:
            w.refine(w.start(), 1e-3 * sc, 200)
            ids = sorted(idx2)
            for i in ids[:: max(1, len(ids) // 60)]:
                s = idx2[i]
                lo, up = (0.0, 0.0) if w.is_term(s) else w.interval(s)
                l, u = bv2[i]
                if (w.has_lb and l > up + 2e-6 * sc) or u < lo - 2e-6 * sc:
                    bad("a replay with other settings logged a bound that does not bracket the optimal value",
                        "%s: [%r, %r], optimal in [%r, %r]" % (s, l, u, lo, up))
                st.add("states judged against the optimal value")
        st.add("backups replayed", len(bk))
        st.seen("configurations", (w.kind, w.strat, w.lb, w.ub, str(c.get("opts")), c["again"]))
        return {"case": c["id"], "backups": len(bk), "states": len(idx), "trials": rows1 and [rows1[-1][5], rows2 and rows2[-1][5]]}


def main():
    return run_check("C19", cases(), run,
                     "a case is non-trivial when a logged run was replayed and every one of its backups was compared")
