"""C24: a program that executes policies through the library gets exact beliefs and the policy's actions."""
import os
import numpy as np
from checks.c06 import decide, rnd_planes, write_alpha, write_max
from zv import build, logs, walk, workload, models
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch, zrun

N = 6000 if THOROUGH else 3500
NCALLS = 260


def cases():
    rng = np.random.default_rng([SEED, 2424])
    cs = []
    for i in range(N):
        ex = []
        for j in range(1 + int(rng.integers(3) if i % 2 else 0)):
            ex.append({"kind": "pomdp" if rng.random() < 0.75 else "layered", "hz": 1,
                       "family": models.POMDP_FAMILIES[int(rng.integers(len(models.POMDP_FAMILIES)))],
                       "seed": int(rng.integers(1, 2 ** 31)), "alpha": int(rng.random() < 0.3), "fast": int(rng.random() < 0.2)})
        cs.append({"id": "e%d" % i, "ex": ex, "rs": int(rng.integers(1, 10 ** 6))})
    return cs


def posterior(m, b, a, o):
    u = b @ m.TZ[a, o]
    return u / u.sum() if u.sum() > 0 else None


def run(c, st):
    ws, pfs, files = [], [], {}
    with Scratch() as d:
        args = []
        for j, e in enumerate(c["ex"]):
            w = workload.Work(dict(e, strat="frtdp"))
            rng = np.random.default_rng(e["seed"] + 7)
            planes = rnd_planes(rng, w.m)
            if e["alpha"]:
                planes = [(a, {s: x.get(s, float(rng.normal())) for s in range(w.m.nS)}, w.m.nS) for a, x, k in planes]
            text = write_alpha(rng, planes, w.m.nS) if e["alpha"] else write_max(rng, planes)
            mf, pf = "m%d.pomdp" % j, "p%d" % j
            open(os.path.join(d, mf), "w").write(w.text)
            open(os.path.join(d, pf), "w").write(text)
            files[mf], files[pf] = w.text, text
            args += [mf, pf, "cassandraAlpha" if e["alpha"] else "maxPlanes", str(e["fast"])]
            ws.append(w)
            pfs.append(logs.PolicyFile(planes, w.m.nS))
        open(os.path.join(d, "c.config"), "w").write(walk.config_text())
        r = zrun([build.ensure("san").probe("execwalk"), "c.config", str(c["rs"]), str(NCALLS)] + args, d,
                 env={"ZV_SEED": str(c["rs"])}, timeout=120)
        if r.oom:
            raise Inconclusive("out of memory")
        refused = r.rc == 1 and not r.san and "\nIMPOSSIBLE" in r.out and "ERROR" in r.err
        if r.san or r.timeout or r.rc != 0 and not refused:
            raise Violation("a program driving executives ended abnormally: " + r.sig(), r.brief(), files)
        bs = [None] * len(ws)
        past = [[] for _ in ws]
        memo = {}
        i, last, n, clear, ended = None, None, 0, 0, False

        def bad(what, detail):
            raise Violation(what, "executive %s of %d: %s" % (i, len(ws), detail), files)
        tail = r.out[r.out.find("\nON "):].splitlines()
        for l in tail:
            f = l.split()
            if not f:
                continue
            t = f[0]
            if t == "ON":
                i = int(f[1])
                m, pf = ws[i].m, pfs[i]
                psc = float(np.abs(pf.A).max() + np.abs(m.R).max()) + 1e-9
            elif t == "RESET":
                bs[i] = m.b0
            elif t == "SET":
                v = np.zeros(m.nS)
                for x in f[3:]:
                    k, y = x.split(":")
                    v[int(k)] = float(y)
                bs[i] = v
            elif t == "TERMINAL":
                mass = bs[i][~m.terminal].sum()
                if (mass < 1e-11 and f[1] != "1") or (mass > 1e-9 and f[1] != "0"):
                    bad("the terminal flag is wrong", "belief %s: %s" % (bs[i], l))
                n += 1
            elif t == "CHOOSE":
                key = (i, tuple(np.round(bs[i], 12)))
                if key not in memo:
                    memo[key] = decide(m, pf, bs[i])
                if memo[key] is None:
                    st.add("beliefs with negligible entries, not judged")
                    continue
                ok = set()
                for q in memo[key]:
                    top = max(q)
                    ok |= {a for a in range(m.nA) if q[a] >= top - 1e-7 * psc}
                n += 1
                clear += len(ok) == 1
                if int(f[1]) not in ok:
                    bad("an action was advised that is not the one the policy denotes", "belief %s: %s, expected %s of values %s"
                        % (bs[i], l, sorted(ok), memo[key]))
            elif t == "DRAW":
                a, o = int(f[1]), int(f[2])
                if not (0 <= o < m.nO) or (bs[i] @ m.TZ[a, o]).sum() <= 0:
                    bad("an impossible observation was drawn", "belief %s: %s" % (bs[i], l))
                n += 1
            elif t == "ADVANCE":
                p = posterior(m, bs[i], int(f[1]), int(f[2]))
                if p is None:
                    bad("an impossible observation was given a probability", "belief %s: %s" % (bs[i], l))
                bs[i] = p
                n += 1
            elif t == "NOOUTCOME":
                bad("an action has no possible observation", "belief %s: %s" % (bs[i], l))
            elif t == "STATE":
                if int(f[2]) != m.nS:
                    bad("the belief has the wrong size", l)
                v = np.zeros(m.nS)
                for x in f[3:]:
                    k, y = x.split(":")
                    v[int(k)] = float(y)
                if np.abs(v - bs[i]).max() > 1e-7:
                    bad("the belief held differs from the Bayes posterior of what happened", "%s, expected %s" % (v, bs[i]))
                bs[i] = v  # rounding does not pile up
            elif t == "END":
                ended = True
            elif t == "IMPOSSIBLE":
                i = int(f[1])
                m = ws[i].m
                possible = (bs[i] @ m.TZ[int(f[2]), int(f[3])]).sum() > 0
                st.add("observations the model excludes", not possible)
            elif t == "ADVICE" and not possible:
                bad("advice is given after an observation the model excludes", "belief %s" % bs[i])
        if not ended:
            raise Violation("a program driving executives did not come to its end", r.brief(), files)
        st.add("answers judged", n)
        st.add("advised actions with a single right answer", clear)
        st.add("executives", len(ws))
        if len(ws) > 1:
            st.add("programs with several executives at once")
        if not clear:
            return None
        return {"case": c["id"], "executives": len(ws), "answers": n, "clear": clear}


def main():
    return run_check("C24", cases(), run,
                     "a case is non-trivial when at least one advised action had a single right answer")
