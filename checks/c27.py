"""C27: answers do not depend on how a model is presented; larger structured POMDPs."""
import os
import numpy as np
from zv import logs, workload, models, bigger
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch

N = 700 if THOROUGH else int(os.environ.get("ZV_N", "320"))
V = 5 if THOROUGH else 3
POOL = 400 if THOROUGH else 160


def cases():
    rng = np.random.default_rng([SEED, 2727])
    cs = []
    for i in range(N):
        k = sorted(bigger.KINDS)[i % 3]
        cs.append({"id": "%s-%d" % (k, i), "model": k, "seed": int(rng.integers(1, 2 ** 31))})
    return cs


def options(rng):
    s = str(rng.choice(["frtdp", "hsvi"]))
    a = ["--searchStrategy", s]
    j = int(rng.integers(6))
    lb, ub = ("maxPlanes", "sawtooth") if j > 1 else (("point", "point"), ("maxPlanes", "point"))[j]
    a += ["-l", lb] if lb == "point" else []
    a += ["-u", ub] if ub == "point" else []
    o = dict(workload.OPT_FAMILIES[int(rng.integers(len(workload.OPT_FAMILIES)))])
    for k, v in o.items():
        if lb == "maxPlanes" or "MaxPlanes" not in k:
            a += ["--" + k, str(v)]
    return s, lb, ub, a


def run(c, st):
    rng = np.random.default_rng([c["seed"], 27])
    m = bigger.KINDS[c["model"]](rng)
    names = sorted(bigger.WAYS)
    R = []
    sc = np.abs(m.R).max() / (1 - m.discount)
    files = {"m.pomdp": m.text()}
    for j in range(V + 1):
        way = names[int(rng.integers(len(names)))] if j else "as it is"
        n, k, sh, back, fwd = bigger.WAYS[way](rng, m) if j else (m, 1.0, 0.0, bigger.ident, bigger.ident)
        s, lb, ub, opt = options(rng)
        size = 40 if c["model"] == "rocks" else 90
        nb = int(rng.integers(10, size))
        with Scratch() as d:
            text = n.text()
            open(os.path.join(d, "n.pomdp"), "w").write(text)
            a = ["benchmark"] + opt + workload.BENCH_FAST + logs.LOGARGS + [
                "-p", "%.17g" % (abs(k) * 1e-3 * sc), "--terminateNumBackups", str(nb)]
            pol = lb == "maxPlanes"
            a += ["-o", "p"] if pol else []
            r = logs.zmdp(d, a + ["n.pomdp"], env={"ZV_SEED": str(c["seed"] % 9973 + j), "ZV_CLOCK": "1"}, timeout=200)
            f = dict(files, **{"n%d.pomdp" % j: text})
            logs.must_end_ok(r, "a run on a larger POMDP", f)
            idx = logs.state_index(os.path.join(d, "stateIndex.log"), n.nS)
            bv = logs.id_values(os.path.join(d, "boundValues.log"), 1, 2)
            rows = logs.bounds_plot(os.path.join(d, "bounds.plot"))
            planes = None
            if pol:
                cnt, pl, _ = logs.read_policy(os.path.join(d, "p"))
                if cnt != len(pl):
                    raise Violation("the written policy is not complete", "", f)
                planes = logs.PolicyFile(pl, n.nS)
                st.mx("planes in a policy", cnt)
        pts = []
        for i, x in idx.items():
            if i in bv:
                y = back(x)
                if y is not None:
                    l, u = bv[i]
                    pts.append((y, (l - sh) / k, (u - sh) / k))
        what = "%s: %s" % (way, " ".join(opt))
        R.append((what, pts, planes, k, sh, fwd, rows, f))
        st.add("runs")
        st.seen("ways", way)
        st.add("logged beliefs", len(pts))
        st.mx("states", n.nS)
        st.mx("backups", rows[-1][6])
    # a pool of beliefs of all runs
    pool, seen = [m.b0], {tuple(np.round(m.b0, 9))}
    allp = [p[0] for r in R for p in r[1]]
    for i in rng.permutation(len(allp)):
        key = tuple(np.round(allp[i], 9))
        if key not in seen:
            seen.add(key)
            pool.append(allp[i])
        if len(pool) >= POOL:
            break
    ref = bigger.Ref(m, pool, 15)
    tol = 2e-6 * sc
    X = np.array(allp)
    lo, up = ref.lower(X), ref.upper(X)
    st.mx("relative reference gap at the start (%s)" % c["model"], float((ref.upper(m.b0[None, :]) - ref.lower(m.b0[None, :]))[0] / sc))
    pos = 0
    for what, pts, planes, k, sh, fwd, rows, f in R:
        L = np.array([p[1] for p in pts])
        U = np.array([p[2] for p in pts])
        a, b = lo[pos:pos + len(pts)], up[pos:pos + len(pts)]
        pos += len(pts)
        for bad, txt, v, w in ((L > b + tol, "lower bound is above the optimal value", L, b), (U < a - tol, "upper bound is below the optimal value", U, a)):
            if bad.any():
                i = int(np.argmax(bad))
                raise Violation("a %s of a larger POMDP" % txt, "%s\nbelief %s: %r, reference %r" % (what, np.round(pts[i][0], 5), v[i], w[i]), f)
        l0, u0 = ref.lower(m.b0[None, :])[0], ref.upper(m.b0[None, :])[0]
        for r in rows:
            if (r[1] - sh) / k > u0 + tol + 6e-6 * abs(r[1] / k) or (r[2] - sh) / k < l0 - tol - 6e-6 * abs(r[2] / k):
                raise Violation("reported bounds do not bracket the optimal value of the start state of a larger POMDP", "%s\n%r, reference [%r, %r]" % (what, r, l0, u0), f)
        st.add("beliefs judged", len(pts))
    # runs against each other, at corresponding beliefs and with each other's policies
    best = {}
    for what, pts, *_ in R:
        for x, l, u in pts:
            key = tuple(np.round(x, 10) + 0.0)
            b = best.setdefault(key, [(-np.inf, ""), (np.inf, ""), 0])
            b[0] = max(b[0], (l, what))
            b[1] = min(b[1], (u, what))
            b[2] += 1
    for key, (l, u, n) in best.items():
        if l[0] > u[0] + tol:
            raise Violation("bounds of two presentations of one model contradict each other", "belief %s\nlower %r with %s\nupper %r with %s" % (key, l[0], l[1], u[0], u[1]), files)
    st.add("beliefs compared between runs", sum(1 for v in best.values() if v[2] > 1))
    for what, pts, planes, k, sh, fwd, rows, f in R:
        if planes is None:
            continue
        for x, l, u in [(x, l, u) for r in R for x, l, u in r[1]][::3]:
            v = planes.best(fwd(x), 0.0)
            if v is not None:
                st.add("plane values judged")
                if (v[1] - sh) / k > u + tol:
                    raise Violation("a policy plane of one presentation exceeds the upper bound of another", "%s\nbelief %s: plane %r, upper %r" % (what, np.round(x, 5), (v[1] - sh) / k, u), f)
    return {"case": c["id"], "states": m.nS, "beliefs": len(allp), "start": [float(l0), float(u0)], "runs": [r[0] for r in R]}


def main():
    return run_check("C27", cases(), run, "a case is non-trivial when runs on several presentations were compared")
