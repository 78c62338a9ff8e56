"""C15: policy evaluation reports the true expected reward of the policy."""
import os, re
import numpy as np
from zv import logs, workload, simcheck, models
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch
from checks.c06 import decide
from checks.c16 import simulate, perturbed

N = 6000 if THOROUGH else 800


def cases():
    rng = np.random.default_rng([SEED, 1515])
    cs = []
    for i in range(N):
        c = {"front": ["evaluate", "benchmark", "evaluate", "evaluate2"][i % 4], "seed": int(rng.integers(1, 2 ** 31))}
        if c["front"] == "benchmark":
            c.update(workload.bench_cases(1, 15150 + i, kinds=[["pomdp", "mdp", "track", "layered", "custom", "mdp_layered"][i // 4 % 6]])[0])
        else:
            c["kind"] = "pomdp" if i % 5 else "layered"
            c["hz"] = 1
            c["family"] = models.POMDP_FAMILIES[int(rng.integers(len(models.POMDP_FAMILIES)))]
        if c.get("family") == "rare":  # rewards no sample of this size can estimate
            c["family"] = "plain"
        c["cache"] = int(rng.random() < 0.5)
        c["rand"] = None
        c["rs"] = int(rng.integers(1, 10 ** 6))
        c["steps"] = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 12]))
        c["i"] = int(rng.choice([1, 2, 7, 29, 30, 31, 45, 100, 300, 900, 900])) if rng.random() < 0.5 else (6000 if c["cache"] else 1500)
        c["logn"] = -1 if c["i"] < 6000 or not c["cache"] else int(rng.choice([0, 50, 300]))
        if c["front"] != "benchmark" and c["kind"] == "pomdp" and i % 7 == 3:
            # trials of many steps
            c["family"], c["steps"], c["i"], c["logn"] = "corridor", [40, 70, 120, 200][i // 7 % 4], [30, 100, 300][i // 28 % 3], -1
        c["id"] = "%s-%s-%d-%d-%d" % (c["front"], c["kind"], c["cache"], c["i"], i)
        cs.append(c)
    return cs


REPORT = re.compile(r"^REWARD_MEAN_CONF95MIN_CONF95MAX (\S+) (\S+) (\S+)", re.M)


def boot(vals, rng):
    n = len(vals)
    m = np.sort(vals[rng.integers(0, n, (4000, n))].mean(1))
    return m[99], m[3899]


def moments(sim, choose, steps, limit=20000):
    """exact mean and second moment of the truncated discounted return under a deterministic policy"""
    memo = {}
    g = sim.m.discount

    def f(x, k):
        if k == 0:
            return 0.0, 0.0
        key = (sim.key(x), k)
        if key in memo:
            return memo[key]
        if len(memo) > limit:
            raise Inconclusive("too many beliefs")
        a = choose(x)
        r = sim.reward(x, a)
        m1 = m2 = 0.0
        for _, p, y in sim.succ(x, a):
            if p < 1e-12:
                continue
            e1, e2 = (0.0, 0.0) if sim.term(y) else f(y, k - 1)
            m1 += p * e1
            m2 += p * e2
        memo[key] = (r + g * m1, r * r + 2 * r * g * m1 + g * g * m2)
        return memo[key]
    return f(sim.start(), steps)


def run(c, st):
    w = workload.Work(dict(c, strat=c.get("strat", "frtdp")))
    c = dict(c)
    with Scratch() as d:
        r, tr, files = simulate(c, st, d, w)

        def bad(what, detail=""):
            raise Violation("%s (%s, cache %d)" % (what, c["front"], c["cache"]), "%s\n%s" % (detail, r.brief()), files)
        scores = np.array([float(l) for l in open(os.path.join(d, "scores.plot")) if l.strip()])
        m = re.findall(r"^batchRewards: (.*)$", r.out, re.M)
        if not m:
            bad("the batch means are not reported")
        batches = np.array([float(x) for x in m[-1].split()])
        if c["front"] == "benchmark":
            rows = [[float(x) for x in l.split()] for l in open(os.path.join(d, "inc.plot")) if l.strip()]
            mean, lo, hi = rows[-1][1:4]
            succ = rows[-1][4]
            digits = 6e-6 * max(abs(mean), abs(lo), abs(hi))
            if len(rows) != len(m):
                bad("the evaluation output does not have one line per evaluation epoch", "%d lines, %d epochs" % (len(rows), len(m)))
        else:
            q = REPORT.findall(r.out)
            if len(q) != 1:
                bad("no evaluation report")
            mean, lo, hi = [float(x) for x in q[0]]
            succ = None
            digits = 5.1e-4
        n = c["i"]
        if len(scores) != n:
            bad("the scores file does not have one line per trial", "%d lines, %d trials" % (len(scores), n))
        sc = float(np.abs(scores).max()) + 1e-9
        spread = float(scores.max() - scores.min())
        rd = digits + 6e-6 * sc + 1e-12
        # the report against the scores file and the batch means
        slack = rd + (0 if n % len(batches) == 0 else 2 * spread * len(batches) / n)
        if abs(mean - scores.mean()) > slack:
            bad("the reported mean is not the mean of the scores file", "%r, scores %r" % (mean, scores.mean()))
        if abs(mean - batches.mean()) > slack + 1e-4:
            bad("the reported mean is not the mean of the batch means", "%r, batches %r" % (mean, batches.mean()))
        if not (lo - rd <= mean <= hi + rd):
            bad("the confidence interval does not contain the mean", "%r not in [%r, %r]" % (mean, lo, hi))
        se = batches.std() / np.sqrt(len(batches))
        if len(batches) >= 20:
            ql, qh = boot(batches, np.random.default_rng(c["seed"]))
            tol = 0.35 * se + 2 * digits + 1.1e-4 + 1.1 * float(batches.max() - batches.min()) / len(batches)
            if abs(ql - lo) > tol or abs(qh - hi) > tol:
                bad("the confidence interval does not have the width the sample spread warrants",
                    "[%r, %r], the batch means give [%r, %r]" % (lo, hi, ql, qh))
            st.add("confidence intervals compared")
            if len(set(batches)) == len(batches) and se > 200 * digits:
                st.add("interval ends compared closely", 1)
                st.add("excess of the lower end", float((lo - ql) / se))
                st.add("excess of the upper end", float((hi - qh) / se))
        if n >= 300 and len(batches) >= 20 and not c["cache"]:
            raw = scores.std() / np.sqrt(n)
            if not 0.45 * raw - rd <= se <= 1.8 * raw + rd and raw > 10 * rd:
                bad("the spread of the batch means is not that of the mean", "%r, scores give %r" % (se, raw))
        # each trial against the model
        sim = simcheck.Sim(w)
        rets, done, followed, acts = [], 0, True, {}
        for k, t in enumerate(tr):
            e = simcheck.exact_trace(sim, t, k, c["steps"], None, lambda *x: bad(*x))
            if e is None:
                followed = False
                rets.append(np.nan)
                continue
            rets.append(e[0])
            done += t["terminated"]
            for x, a in e[1]:
                acts[sim.key(x)] = a
        rets = np.array(rets)
        st.add("trials followed", int(np.isfinite(rets).sum()))
        if not c["cache"] or c["front"] == "evaluate2":
            err = np.abs(rets - scores[:len(rets)])
            if np.nanmax(np.append(err, 0)) > 1e-5 * sc + 1e-9 + 1e-6 * w.scale() * 0:
                k = int(np.nanargmax(err))
                bad("a trial's score is not the discounted reward of its trajectory",
                    "trial %d: score %r, trajectory %r" % (k, scores[k], rets[k]))
            st.add("scores compared exactly", len(rets))
        elif len(rets) == n and followed:
            sd = rets.std()
            if abs(rets.mean() - scores.mean()) > 7 * sd / np.sqrt(n) + 7 * se + sc / (n / len(batches)) + 8 * (rets.max() - rets.min()) / n + rd:
                bad("reweighted scores have another mean than the trajectories", "%r, trajectories %r" % (scores.mean(), rets.mean()))
            st.add("reweighted means compared with raw means")
        if succ is not None and len(tr) == n and abs(succ - done / n) > 1e-5:
            bad("the reported success rate is not the fraction of trials that reached a terminal state", "%r, %r" % (succ, done / n))
        # the exact value of the policy
        z = None
        if c["front"] != "benchmark":
            try:
                z = against_exact(c, w, sim, acts, scores, n, rd, bad, st, se, len(batches))
            except Inconclusive as e:
                st.add("policies not valued: %s" % e)
        return {"case": c["id"], "mean": mean, "ci": [lo, hi], "z": z, "batches": len(batches)}


def against_exact(c, w, sim, acts, scores, n, rd, bad, st, se_batch, nbatch):
    pf = logs.PolicyFile(c["planes"], w.m.nS)
    pm = c.get("planner", w.m)
    psc = float(np.abs(pf.A).max() + np.abs(pm.R).max()) + 1e-9
    memo = {}

    def act(b, key, seen):
        if key not in memo:
            q = decide(pm, pf, b)
            if q is None:
                raise Inconclusive("tiny entries")
            ok = set(range(pm.nA))
            for v in q:
                ok &= {i for i in range(pm.nA) if v[i] >= max(v) - 1e-7 * psc}
            if len(ok) != 1 or any(sorted(v)[-2] > max(v) - 1e-7 * psc for v in q if len(v) > 1):
                if seen is None:
                    raise Inconclusive("ties")
                ok = {seen}
            memo[key] = ok.pop()
        return memo[key]
    if c["front"] == "evaluate2":
        m1, m2 = moments2(sim, pm, act, c["steps"])
    else:
        m1, m2 = moments(sim, lambda x: act(x, sim.key(x), acts.get(sim.key(x))), c["steps"])
    sd = np.sqrt(max(m2 - m1 * m1, 0.0))
    se = sd / np.sqrt(n)
    rng_ = float(scores.max() - scores.min())
    dev = scores.mean() - m1
    st.add("policies valued exactly")
    lim = 6.5 * se + 12 * max(rng_, sd) / n + rd + 1e-6 * abs(m1)
    if c["cache"] and c["front"] == "evaluate":
        # reweighting can add variance (seen in the batch means) and has a bias of the order of one trial per batch
        lim += 7 * se_batch + float(np.abs(scores).max()) / (n / nbatch)
    if abs(dev) > lim:
        bad("the reported mean is not the exact value of the policy", "mean %r, exact %r, standard error %r, %d trials" %
            (scores.mean(), m1, se, n))
    if sd > 1e-6 * (abs(m1) + 1e-9) + 10 * rd:
        zz = float(dev / max(se, se_batch))
        if n >= 29:
            k = "cached" if c["cache"] and c["front"] == "evaluate" else "plain"
            st.add("z sum " + k, zz)
            st.add("z count " + k)
        return zz
    return 0.0


def moments2(sim, pm, act, steps, limit=20000):
    """as moments, but the policy tracks its own belief under the planner's model"""
    memo = {}
    g = sim.m.discount

    def f(x, b, k):
        if k == 0:
            return 0.0, 0.0
        kb = tuple(np.round(b, 9))
        key = (sim.key(x), kb, k)
        if key in memo:
            return memo[key]
        if len(memo) > limit:
            raise Inconclusive("too many beliefs")
        a = act(b, kb, None)
        r = sim.reward(x, a)
        m1 = m2 = 0.0
        for o, p, y in sim.succ(x, a):
            if p < 1e-12:
                continue
            e1, e2 = 0.0, 0.0
            if not sim.term(y) and k > 1:
                u = b @ pm.TZ[a, o]
                if u.sum() < 1e-9:
                    raise Inconclusive("observation impossible to the planner")
                e1, e2 = f(y, u / u.sum(), k - 1)
            m1 += p * e1
            m2 += p * e2
        memo[key] = (r + g * m1, r * r + 2 * r * g * m1 + g * g * m2)
        return memo[key]
    return f(sim.start(), pm.b0, steps)


def finish(st):
    n = st.get("interval ends compared closely", 0)
    for e in ("lower", "upper"):
        # each comparison has a spread of about 0.1 standard errors
        x = st.get("excess of the %s end" % e, 0) / max(n, 1)
        if n >= 40 and abs(x) > 0.04 + 0.6 / np.sqrt(n):
            raise Violation("over all runs the %s end of the confidence interval is off" % e,
                            "by %.3f standard errors on average over %d runs" % (x, n))
    for k in ("plain", "cached"):
        n = st.get("z count " + k, 0)
        if n and abs(st["z sum " + k]) > 6.5 * np.sqrt(n) + (5 if k == "plain" else 0.3 * n):
            raise Violation("over all runs the reported means are biased (%s)" % k,
                            "sum of z scores %.1f over %d runs" % (st["z sum " + k], n))


def main():
    return run_check("C15", cases(), run,
                     "a case is non-trivial when its report was judged against its trials", finish=finish)
