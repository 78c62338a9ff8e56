"""C03: a run stops exactly when a requested termination condition holds."""
import os, re
import numpy as np
from zv import logs, workload
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch

N = 5000 if THOROUGH else 2000
CAP = 150000


def w_lb(c):
    return c["strat"] in ("frtdp", "hsvi") or bool(c.get("mlb"))


def exact(c, st):
    """a condition that holds with equality holds: a second, equal run is given the exact value a first one ended with"""
    w = workload.Work(c)
    files = w.files()
    with Scratch() as d:
        w.write(d)
        base = ["benchmark"] + w.args() + workload.BENCH_FAST + ["--useLogBackups", "1"]
        env = {"ZV_SEED": c["rs"], "ZV_CLOCK": "1"}
        prec = 1e-9 * w.scale()
        r1 = logs.zmdp(d, base + ["-p", "%.17g" % prec, "--terminateNumBackups", str(c["nb"]), w.fname], env=env, timeout=60)
        logs.must_end_ok(r1, "benchmark", files)
        n1 = len(logs.backups(os.path.join(d, "backups.log")))
        idx = logs.state_index(os.path.join(d, "stateIndex.log"), w.dim)
        root = [i for i in idx if np.abs(idx[i] - w.start()).max() < 1e-9]
        if not root:
            if n1:
                raise Violation("the start state is missing from the state index", r1.brief(), files)
            return None
        L, U = logs.id_values(os.path.join(d, "boundValues.log"), 1, 2)[min(root)]
        k = c["conds"][0]
        a = {"ub": ["-p", "%.17g" % prec, "--terminateUpperBoundValue", "%.17g" % U],
             "lb": ["-p", "%.17g" % prec, "--terminateLowerBoundValue", "%.17g" % L],
             "regret": ["-p", "%.17g" % (U - L)]}[k]
        if (k == "ub" and U == -999) or (k == "lb" and L == -999) or (k == "regret" and not U - L > 0):
            return None
        r2 = logs.zmdp(d, base + a + ["--terminateNumBackups", str(n1 + 400), w.fname], env=env, timeout=60)
        logs.must_end_ok(r2, "benchmark", files)
        n2 = len(logs.backups(os.path.join(d, "backups.log")))
        if n2 > n1 and k == "regret":
            # (the initial bounds depend on the precision asked for: judge the bounds this run had at that time)
            r3 = logs.zmdp(d, base + a + ["--terminateNumBackups", str(c["nb"]), w.fname], env=env, timeout=60)
            logs.must_end_ok(r3, "benchmark", files)
            idx = logs.state_index(os.path.join(d, "stateIndex.log"), w.dim)
            root = [i for i in idx if np.abs(idx[i] - w.start()).max() < 1e-9]
            L3, U3 = logs.id_values(os.path.join(d, "boundValues.log"), 1, 2)[min(root)] if root else (0, 9e99)
            if len(logs.backups(os.path.join(d, "backups.log"))) >= n2 or U3 - L3 > U - L:
                return None
        if n2 > n1:
            raise Violation("the run went on after its %s condition held with equality" % k,
                            "%d backups, condition held after %d\n%s\n%s" % (n2, n1, a, r2.brief()), files)
        st.add("conditions that held with equality")
        st.seen("conditions that ended a run", ("exact", c["strat"], k))
        return {"case": c["id"], "backups": (n1, n2), "bounds": (L, U)}


def cases():
    cs = workload.bench_cases(N, 303)
    rng = np.random.default_rng([SEED, 304])
    for i, c in enumerate(cs):
        c["front"] = "solve" if i % 4 == 1 else "benchmark"
        c["prec"] = float(rng.choice([3e-2, 1e-2, 1e-1]))
        c["conds"] = [["regret"], ["lb"], ["ub"], ["backups"], ["time"], ["regret", "backups"], ["lb", "ub", "backups"],
                      ["regret", "time"], ["regret"]][int(rng.integers(9))]
        if c["kind"] == "pomdp" and "point" in (c.get("lb"), c.get("ub")):
            c["prec"] = 0.2
        if c["kind"] in ("mdp", "mdp_layered", "track", "custom") and i % 3 and c["strat"] in ("frtdp", "hsvi"):
            c["prec"] = float(rng.choice([1e-3, 1e-5, 1e-6]))
            if c["kind"] == "mdp" and i % 3 == 2:
                c["family"], c["prec"], c["conds"] = "mdp_rare", float(rng.choice([1e-4, 1e-6])), ["regret"]
            elif c["kind"] == "mdp" and i % 3 == 1 and i % 6 != 4:
                c["family"], c["prec"], c["conds"] = "mdp_long", float(rng.choice([1e-2, 1e-4, 1e-5])), ["regret"]
        if c["kind"] == "mdp" and c["strat"] in ("lrtdp", "hdp", "rtdp") and i % 3 == 2:
            c["family"], c["prec"], c["conds"] = "mdp_long", float(rng.choice([1e-2, 1e-4, 1e-5])), ["regret"]
        if c.get("family") == "mdp_long":
            c["id"] = "long-" + c["id"]
        if c["front"] == "solve":
            c["conds"] = [x for x in c["conds"] if x not in ("lb", "ub")] or ["regret"]
        c["u"] = [float(rng.random()) for _ in range(4)]
        c["nb"] = int(rng.choice([1, 2, 10, 40, 150]))
        c["T"] = float(rng.choice([0.02, 0.05, 0.15, 0.4]))
        if i % 6 == 4:
            c["front"], c["nb"] = "exact", int(rng.choice([1, 3, 10, 40, 120]))
            if c["kind"] in ("pomdp", "layered"):
                c["lb"] = c["ub"] = "point"
                c["opts"] = {o: v for o, v in (c.get("opts") or {}).items() if "MaxPlanes" not in o and "Sawtooth" not in o}
            c["conds"] = [["ub"], ["lb"] if w_lb(c) else ["ub"], ["regret"] if c["strat"] == "rtdp" and w_lb(c) else ["ub"]][int(rng.integers(3))]
        c["id"] += "-" + c["front"] + "-" + "+".join(c["conds"])
    return cs


def run(c, st):
    if c["front"] == "exact":
        return exact(c, st)
    w = workload.Work(c)
    b0 = w.start()
    w.refine(b0, 1e-3 * w.scale(), 500)
    lo, up = w.interval(b0)
    sc = w.scale()
    if w.kind == "track":
        sc = 1 + abs(lo)
    conds = set(c["conds"])
    both = w.has_lb
    if not both:
        conds -= {"lb"}
    # regret cannot end an upper-bound-only run except by labelling
    labelling = c["strat"] in ("lrtdp", "hdp")
    if "regret" in conds and not both and not labelling:
        conds -= {"regret"}
    if not conds - {"regret"} and "regret" not in conds:
        conds = {"backups"}
    prec = c["prec"] * sc if "regret" in conds else 1e-9 * sc
    a = ["-p", "%.17g" % prec]
    L = U = NB = T = None
    if "lb" in c["conds"] and not both:
        # (there is no lower bound that could reach it)
        a += ["--terminateLowerBoundValue", "%.17g" % (lo - 10 * sc)]
        st.add("lower bound targets of runs without a lower bound")
    if "lb" in conds:
        L = lo - sc * (0.02 + 0.5 * c["u"][0] ** 2)
        a += ["--terminateLowerBoundValue", "%.17g" % L]
    if "ub" in conds:
        U = up + sc * (0.02 + 0.5 * c["u"][1] ** 2)
        a += ["--terminateUpperBoundValue", "%.17g" % U]
    if "time" in conds:
        T = c["T"] if "point" not in (c.get("lb"), c.get("ub")) else min(c["T"], 0.15)
        a += ["-t", "%.17g" % T]
    NB = c["nb"] if "backups" in conds else (CAP if T is None else None)
    if NB:
        a += ["--terminateNumBackups", str(NB)]
    files = w.files()
    with Scratch() as d:
        w.write(d)
        if c["front"] == "benchmark":
            r = logs.zmdp(d, ["benchmark"] + w.args() + workload.BENCH_FAST + a + [w.fname],
                          env={"ZV_SEED": c["rs"], "ZV_CLOCK": "1"}, timeout=60)
            logs.must_end_ok(r, "benchmark", files)
            rows = logs.bounds_plot(os.path.join(d, "bounds.plot"))
            if not rows:
                raise Violation("a finished run reported no bounds", r.brief(), files)
            tr = [(x[0], x[1] if both else None, x[2], x[6], 6e-6 * (abs(x[1]) + abs(x[2]))) for x in rows]
        else:
            slow = "time" not in conds
            r = logs.zmdp(d, ["solve"] + w.args() + a + ["-o", "none", w.fname],
                          env={"ZV_SEED": c["rs"], "ZV_CLOCK": "11000" if slow else "1"}, timeout=60)
            logs.must_end_ok(r, "solve", files)
            tr = [(x[0], x[2] if both else None, x[3], None, 1.1e-4) for x in logs.solve_lines(r.out)]
            if not tr:
                raise Violation("a finished run reported no bounds", r.brief(), files)

        def stuck():
            """whether not having reached the target regret by CAP backups is a failure"""
            if c.get("family") == "mdp_long":
                # (many trials may be needed, but each of them learns something)
                h = [x[1:3] for x in tr[len(tr) // 2:]]
                return both and len(h) > 100 and all(x == h[0] for x in h)
            return c["strat"] != "hsvi" or w.m.discount < 1

        inc = 0.0
        if c["front"] == "benchmark":
            il = [l.split() for l in open(os.path.join(d, "inc.plot")) if not l.startswith("#")]
            inc = float(il[-1][0]) if il else 0.0
            if tr[-1][0] > 8e8:  # (the planner's own clock; the rest went by between its calls)
                raise Inconclusive("virtual clock used up")

        def bad(what, detail):
            raise Violation(what, "%s\nconditions %s\n%s" % (detail, a, r.brief()), files)

        def state(row):
            """per condition: True, False or None when rounding of the report leaves it open"""
            t, l, u, nb, dig = row
            out = {}
            if both:
                g = u - l
                out["regret"] = True if g <= prec - dig else False if g > prec + dig else None
            if L is not None:
                out["lb"] = True if l >= L + dig else False if l < L - dig else None
            if U is not None:
                out["ub"] = True if u <= U - dig else False if u > U + dig else None
            if NB and nb is not None:
                out["backups"] = nb >= NB
            if T is not None and c["front"] == "benchmark":
                # the solver's own clock excludes the time between its calls, so it only gives a lower bound here
                out["time"] = True if t >= 1.001 * T + 0.002 else None if row is tr[-1] and inc >= T * 0.999 else False
            return out
        for i, row in enumerate(tr[:-1]):
            s = state(row)
            hit = [k for k, v in s.items() if v]
            if hit:
                bad("the run went on after its %s condition held" % hit[0], "line %d of %d: %s" % (i, len(tr), row))
        s = state(tr[-1])
        may = [k for k, v in s.items() if v in (True, None)]
        if c["front"] == "solve":
            m = re.search(r"terminating run; (reached target|reached limit|passed specified|caught|upper bound converged)", r.out)
            if not m:
                bad("the run does not say why it ended", r.out[-300:])
            why = m.group(1)
            st.seen("reasons", why)
            if why == "caught":
                bad("the run claims an interruption that did not happen", "")
            if why == "reached target" and both and s["regret"] is False:
                bad("the run claims to have reached the target regret without having reached it", str(tr[-1]))
            if why == "reached limit" and "backups" not in conds:
                if NB == CAP and not stuck():
                    pass
                elif NB == CAP:
                    bad("the run did not reach its target regret on a small model", str(tr[-1]))
                else:
                    bad("the run claims to have reached a backup limit that was not requested", "")
            if why == "reached limit" and both and s["regret"]:
                bad("the run reached the target regret but says it reached the backup limit", str(tr[-1]))
            if why == "passed specified":
                if T is None:
                    bad("the run claims a timeout that was not requested", "")
                if tr[-1][0] + 1 < T:
                    bad("the run ended before its time limit", str(tr[-1]))
            if why == "upper bound converged" and not (both and labelling and s["regret"] is not True):
                bad("a run that bounds its regret was ended without reaching the target regret", str(tr[-1]))
            if why == "reached target" and not both and not labelling:
                bad("a run with an upper bound only claims to know its regret", str(tr[-1]))
        else:
            why = may[0] if may else None
            if not may and not labelling:
                bad("the run ended before any of its conditions held", str(tr[-3:]))
            if may == ["backups"] and NB == CAP and stuck():
                bad("the run did not reach its target regret on a small model", str(tr[-1]))
            if labelling and not may:
                why = "solved"
        if labelling and not (both and s["regret"]) and why in ("solved", "reached target", "upper bound converged"):
            # the root was labelled solved: residuals below the precision along the greedy policy
            g = w.m.discount
            steps = 1 / (1 - g) if g < 1 else (w.m.horizon + 1 if w.kind == "layered" else
                                                {"mdp_layered": 20}.get(w.kind, 20 * (1 + abs(lo))))
            u = tr[-1][2]
            if u > up + prec * steps + tr[-1][4] + 1e-6 * sc:
                bad("the run ended as solved although its upper bound is far from the optimal value",
                    "upper bound %r, optimal in [%r, %r]" % (u, lo, up))
            st.add("runs ended by labelling")
        st.seen("conditions that ended a run", (c["front"], c["strat"], str(why)))
        st.add("trial lines judged", len(tr))
        if "regret" in conds and NB == CAP and tr[-1][3] and tr[-1][3] < CAP:
            st.mx("backups needed to converge", tr[-1][3])
        return {"case": c["id"], "lines": len(tr), "last": tr[-1][:4], "ended by": why}


def main():
    return run_check("C03", cases(), run,
                     "a run is non-trivial when it reported at least one line and each of its lines was compared with "
                     "every requested condition")
