"""C29: the RockExplore program implements the domain and the policies it describes."""
import os, re
import numpy as np
from checks.c06 import decide
from zv import build, cassandra, logs, models, rockexplore as re_
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch, zrun, zrun_limited

RULE = ("zmdpRockExplore is built with its own makefile under ASan/UBSan and driven through its menus. The written model is loaded by "
        "zmdp and compared entry by entry with an independent model of the domain; every map, marginal, observation, reward and "
        "total of simulator sessions, every action of each policy type and every cell of the displayed policy is judged by that "
        "model; evaluation results are compared with the same policies simulated independently. One evaluation is one program run "
        "or one batch of sessions; it is non-trivial when at least ten steps were judged (or it is one of the others).")
SUB = "pomdpModels/RockExplore"


def exe():
    return build.ensure("san").program(SUB, "zmdpRockExplore")


def go(d, text, seed, files, what, env=None, timeout=240, rcs=(0,)):
    r = zrun([exe()], d, env=dict({"ZV_SEED": str(seed)}, **(env or {})), timeout=timeout, stdin=text)
    f = dict(files, stdin=text)
    if r.oom:
        raise Inconclusive("out of memory")
    if r.san or r.timeout or r.rc not in rcs:
        raise Violation("%s ended abnormally: %s" % (what, r.sig()), r.brief(), f)
    return r


def write_model(d, seed, files):
    go(d, "1\n", seed, files, "writing the model")
    p = os.path.join(d, "RockExplore.pomdp")
    if not os.path.exists(p):
        raise Violation("the model was not written", "", files)
    return open(p).read()


def names(text, what):
    m = re.search(r"^%s:(.*)$" % what, text, re.M)
    return m.group(1).split() if m else []


def load(d, text, files, how="std"):
    """the model as zmdp reads it, with the domain's order of states: (index of (p, c) in the file, dump)"""
    from zv import walk
    S, A, O = names(text, "states"), names(text, "actions"), names(text, "observations")
    want = {re_.name(p, c) for p in re_.CELLS for c in range(16)} | {"st"}
    if sorted(S) != sorted(want) or sorted(A) != sorted(re_.ACTS) or sorted(O) != ["o0", "o1"]:
        raise Violation("the written model has other states, actions or observations", "%d states %s %s" % (len(S), A, O), files)
    r = zrun([build.ensure("san").probe("dumpmodel"), how, "pomdp", "RockExplore.pomdp"], d, timeout=200, maxout=1 << 28)
    D = cassandra.parse_dump(r.out)
    if D is None:
        raise Violation("the written model cannot be read (%s parser)" % how, r.brief(), files)
    return S, A, O, D


def reference(S, A, O):
    """the domain as dense arrays in the file's order"""
    ix = {s: i for i, s in enumerate(S)}
    n, na = len(S), len(A)
    T, Z, R = np.zeros((na, n, n)), np.zeros((na, n, 2)), np.zeros((n, na))
    b = np.zeros(n)
    start = re_.b0()
    for c in range(16):
        b[ix[re_.name(re_.START, c)]] = start[c]
    for k, an in enumerate(A):
        a = re_.ACTS.index(an)
        for p, c in [(None, 0)] + [(p, c) for p in re_.CELLS for c in range(16)]:
            i = ix[re_.name(p, c)]
            q, e, r = re_.step(p, c, a)
            T[k, i, ix[re_.name(q, e)]] = 1
            R[i, k] = r
            z = re_.p_obs1(p, c, a)
            Z[k, i, O.index("o1")] = z
            Z[k, i, O.index("o0")] = 1 - z
    return T, Z, R, b


def run_model(c, st):
    with Scratch() as d:
        files = {}
        text = write_model(d, c["seed"], files)
        files["RockExplore.pomdp"] = text
        for how in ("std",):  # the fast parser documents that it takes no named actions
            S, A, O, D = load(d, text, files, how)
            T, Z, R, b = reference(S, A, O)
            bad = cassandra.compare(D, "pomdp", len(S), len(A), 2, T, Z, R, b, re_.GAMMA, 1.0, tol=2e-8)
            if bad:
                raise Violation("the written model is not the domain: " + bad[0], "%s parser: %s" % (how, bad[1]), files)
            st.add("model entries compared", T.size + Z.size + R.size + b.size)
    return {"case": c["id"], "states": len(S)}


def run_full(c, st):
    """the model does not fit the disk, or its directory cannot be written"""
    with Scratch() as d:
        n = len(write_model(d, 1, {}))
        os.unlink(os.path.join(d, "RockExplore.pomdp"))
        open(os.path.join(d, "in"), "w").write("1\n")
        lim = int(c["frac"] * n)
        r = zrun_limited(["/bin/sh", "-c", "%s <in" % exe()], d, max(lim, 1), timeout=120)
        if r.rc == 0 and not r.timeout:
            raise Violation("a model that could not be written completely was reported as written", "limit %d of %d bytes\n%s" % (lim, n, r.brief()), {})
        if r.timeout or r.san and "killed" not in r.san:
            raise Violation("writing the model ended abnormally: " + r.sig(), r.brief(), {})
        os.mkdir(os.path.join(d, "no"))
        os.mkdir(os.path.join(d, "no", "RockExplore.pomdp"))
        r = zrun([exe()], os.path.join(d, "no"), stdin="1\n", timeout=60)
        if r.rc != 1 or r.san:
            raise Violation("a model that cannot be created is not refused cleanly", r.brief(), {})
        st.add("writes that had to fail", 2)
    return {"case": c["id"], "limit": lim}


def run_policy(c, st):
    with Scratch() as d:
        r = go(d, "6\n", c["seed"], {}, "displaying the policy")
        V, Q = re_.values()
        seen = 0
        blocks = re.findall(r"^r([01]{4}):\n((?:  [^\n]*\n){4})", r.out, re.M)
        for bits, rows in blocks:
            k = int(bits, 2)
            for y, row in zip(range(3, -1, -1), rows.splitlines()):
                f = row.split()
                if len(f) != 4:
                    raise Violation("a row of the displayed policy has not four cells", row, {"out": r.out})
                for x in range(4):
                    ok = re_.firsts(Q[(x, y)][k])
                    if f[x] not in [re_.ACTS[a] for a in ok]:
                        raise Violation("the displayed policy is not the optimal one of the observable problem",
                                        "rocks %s cell (%d,%d): %s, expected %s of values %s" % (
                                            bits, x, y, f[x], [re_.ACTS[a] for a in ok], Q[(x, y)][k]), {"out": r.out})
                    seen += 1
        if seen != 256:
            raise Violation("the displayed policy is incomplete", "%d of 256 cells" % seen, {"out": r.out})
        st.add("policy cells judged", seen)
    return {"case": c["id"], "cells": seen}


class Zmdp:
    """A policy file in the hands of an independent reader."""

    def __init__(self, d, files, seed):
        text = write_model(d, seed, files)
        S, A, O = names(text, "states"), names(text, "actions"), names(text, "observations")
        T, Z, R, b = reference(S, A, O)
        self.m = models.Pomdp(T, Z, R, b, re_.GAMMA)
        self.S, self.A = S, A
        r = zrun([build.ensure("san").exe(), "solve", "RockExplore.pomdp", "-t", "2", "-o", "out.policy"], d,
                 env={"ZV_SEED": str(seed), "ZV_CLOCK": "2"}, timeout=240)
        if r.rc != 0 or not os.path.exists(os.path.join(d, "out.policy")):
            raise Violation("the written model cannot be solved: " + r.sig(), r.brief(), files)
        n, planes, _ = logs.read_policy(os.path.join(d, "out.policy"))
        self.pf = logs.PolicyFile(planes, len(S))
        self.memo = {}

    def choose(self, p, b):
        v = np.zeros(len(self.S))
        for c in range(16):
            v[self.S.index(re_.name(p, c))] = b[c]
        v[v < 1e-13] = 0
        k = (p, b.round(11).tobytes())
        if k not in self.memo:
            self.memo[k] = decide(self.m, self.pf, v)
        if self.memo[k] is None:
            return set(range(9))
        ok = set()
        for q in self.memo[k]:
            ok |= {re_.ACTS.index(self.A[i]) for i in range(9) if q[i] >= max(q) - 1e-7 * 100}
        return ok


def session(d, text, seed, kind, files, st, zm=None, env=None, pauses=None):
    """one simulator session; kind 0: actions from the user (text), otherwise of a policy"""
    r = go(d, text, seed, files, "a simulator session", env=env, rcs=(0, 1))
    f = dict(files, stdin=text, out=r.out)
    acts = [t for t in text.split()[1:] if t in re_.ACTS] if kind == 0 else None

    def bad(what, detail):
        raise Violation(what, "step %d: %s" % (n, detail), f)
    s = re_.Session(r.out.splitlines())
    n, b, p, c, tot, hist = 0, re_.b0(), re_.START, None, 0.0, not env
    try:
        while True:
            m = s.map()
            if m is None:
                bad("a session ended early", r.out[-300:])
            pos, rocks, pr = m
            if pos != p or c is not None and rocks != c:
                bad("the state shown is not the result of the actions", "at %s rocks %s, expected %s %s" % (pos, re_.GOOD[rocks], p, c))
            if c is None:
                if hist:
                    st.add("rocks at the start", 4)
                    st.add("good rocks at the start", int(re_.GOOD[rocks].sum()))
                st.seen("initial states", rocks)
                c = rocks
            e = re_.GOOD.T.astype(float) @ b
            if len(pr) != 4 or np.abs(np.array(pr) - e).max() > 0.000501:
                bad("the rock probabilities shown are not the Bayes posterior", "%s, expected %s" % (pr, e))
            if kind == 0:
                if n == len(acts):
                    if r.rc != 1:
                        bad("end of input was not noticed", "rc %s" % r.rc)
                    return n
                a = re_.ACTS.index(acts[n])
            else:
                x = s.find("Policy selects action ")
                if x is None or x[x.index("Policy selects"):].split()[3] not in re_.ACTS:
                    bad("no action was selected", str(x))
                x = x[x.index("Policy selects action "):]
                a = re_.ACTS.index(x.split()[3])
                ok = zm.choose(p, b) if zm else re_.choose(kind, p, b)
                if n == pauses:
                    if r.rc != 1:
                        bad("end of input was not noticed", "rc %s" % r.rc)
                    return n
                st.add("policy actions judged", int(len(ok) < 9))
                if a not in ok:
                    bad("an action is not the one of the %s policy" % ["", "QMDP", "voting", "most likely state", "dual-mode", "zmdp"][kind],
                        "at %s belief %s: %s, expected %s" % (p, b, re_.ACTS[a], [re_.ACTS[k] for k in ok]))
            st.seen("actions taken", a)
            x = s.find("Observation = ")
            g = re.search(r"Observation = o(\d+), immediate reward = (\S+)", x or "")
            if not g:
                bad("no observation was shown", str(x))
            o, rew = int(g.group(1)), float(g.group(2))
            q, c2, want = re_.step(p, c, a)
            if abs(rew - want) > 1e-6:
                bad("the reward is not the domain's", "%s at %s rocks %s: %s, expected %s" % (re_.ACTS[a], p, re_.GOOD[c], rew, want))
            z = re_.p_obs1(q, c2, a)
            if o not in (0, 1) or (z if o else 1 - z) <= 0:
                bad("an impossible observation", "%s at %s rocks %s: o%d" % (re_.ACTS[a], p, re_.GOOD[c], o))
            if 0 < z < 1 and hist:
                st.add("noisy checks")
                st.add("noisy checks that were right", int((o == 1) == (z > 0.5)))
            tot += re_.GAMMA ** n * want
            n += 1
            if q is None:
                x = s.find("Reached terminal state")
                g = re.search(r"reward = (-?[0-9.]+)\.$", x or "")
                if not g or abs(float(g.group(1)) - tot) > 0.00051 + 1e-9 * abs(tot):
                    bad("the total discounted reward is wrong", "%s, expected %.6f" % (x, tot))
                if r.rc != 0:
                    bad("a finished session reported failure", "rc %s" % r.rc)
                st.add("sessions that reached the end")
                return n
            if n > 4000:
                raise Inconclusive("endless session")
            p, b = re_.advance(p, b, a, o)
            c = c2
    except ValueError as e:
        bad("a map is malformed", str(e))


def script(rng):
    """actions for a manual session: some random, some sensible, in the end mostly leaving"""
    w = np.array([1, 1.2, 1, 1, 1, 1, 1, 1, 1]) if rng.random() < 0.5 else np.array([2, 2.2, 2, 2, 3, 1, 1, 1, 1])
    a = [re_.ACTS[int(k)] for k in rng.choice(9, size=int(rng.integers(1, 60)), p=w / w.sum())]
    if rng.random() < 0.8:
        a += ["ame"] * 4
    out = []
    for x in a:
        if rng.random() < 0.05:
            out.append(str(rng.choice(["x", "AMN", "ac9", "7", "am", "-", "amnn", "ac4", "q" * 400])))
        out.append(x)
    return "2\n" + "".join(x + ("\n" if rng.random() < 0.9 else " ") for x in out) + "\n"


def run_manual(c, st):
    rng = np.random.default_rng(c["seed"])
    n = 0
    with Scratch() as d:
        for i in range(c["n"]):
            env = [None] * 8 + [{"ZV_RAND": "max"}, {"ZV_RAND": "zero"}, {"ZV_RAND": "mix3"}]
            n += session(d, script(rng), int(rng.integers(1, 10 ** 9)), 0, {}, st, env=env[i % len(env)])
    st.add("manual steps judged", n)
    return {"case": c["id"], "steps": n} if n >= 10 else None


def run_visual(c, st):
    rng = np.random.default_rng(c["seed"])
    n = 0
    with Scratch() as d:
        files = {}
        zm = Zmdp(d, files, c["seed"]) if c["kind"] == 5 else None
        for i in range(c["n"]):
            # some policies never leave in some situations: the end of input ends such a session
            pre = "".join(rng.choice(["0\n", "x\n", "6 \n" if False else "9\n", "-1\n", "\n"]) for _ in range(int(rng.integers(3))))
            env = [None] * 6 + [{"ZV_RAND": "mix3"}]
            text = "3\n" + pre + "%d\n" % c["kind"] + "\n" * 40
            n += session(d, text, int(rng.integers(1, 10 ** 9)), c["kind"], files, st, zm, env=env[i % len(env)], pauses=40)
    st.add("visualised steps judged", n)
    return {"case": c["id"], "policy": c["kind"], "steps": n} if n >= 10 else None


NAMES = [None, "qmdp", "voting", "mostLikely", "dualMode", "zmdpSolve"]


def run_eval(c, st):
    rng = np.random.default_rng(c["seed"])
    with Scratch() as d:
        files = {}
        kinds = [c["kind"]] if c["kind"] else [1, 2, 3, 4, 5]
        zm = Zmdp(d, files, c["seed"]) if 5 in kinds else None
        text = "4\n%d\n" % c["kind"] if c["kind"] else "5\n"
        r = go(d, text, int(rng.integers(1, 10 ** 9)), files, "an evaluation", timeout=400)
        f = dict(files, stdin=text, out=r.out)
        tab = dict((x, (float(y), float(z))) for x, y, z in re.findall(r"^  (\w+) +(-?[\d.]+) \+/- +([\d.]+)$", r.out, re.M))
        for k in kinds:
            g = re.search(r"Evaluating %s\.\.\.(\.*) (-?[\d.]+) \+/- ([\d.]+)" % NAMES[k], r.out)
            if not g or len(g.group(1)) != 100 or NAMES[k] not in tab:
                raise Violation("an evaluation is incomplete", r.out[-800:], f)
            mean, conf = tab[NAMES[k]]
            if abs(mean - float(g.group(2))) > 0.0011 or abs(conf - float(g.group(3))) > 0.0011:
                raise Violation("the summary differs from the results above it", r.out[-800:], f)
            pick = None
            if k == 5:
                def pick(p, b):
                    return min(zm.choose(p, b))
            x = re_.simulate(k, rng, 1500 if k != 5 else 500, pick=pick)
            sd = x.std(ddof=1)
            tol = 6 * sd * np.sqrt(1 / 100 + 1 / len(x)) + 0.01
            if abs(mean - x.mean()) > tol:
                raise Violation("the evaluated mean is not the policy's value", "%s: %.3f +/- %.3f, simulated independently %.3f (sd %.3f)" % (
                    NAMES[k], mean, conf, x.mean(), sd), f)
            half = 1.96 * sd / 10
            if not 0.35 * half - 0.01 < conf < 1.9 * half + 0.01:
                raise Violation("the confidence interval does not fit the spread of rewards", "%s: %.3f, expected about %.3f" % (
                    NAMES[k], conf, half), f)
            st.add("evaluation runs compared", 100)
            st.seen("policies evaluated", k)
            st.add("evaluated means")
    return {"case": c["id"], "results": tab}


def run_junk(c, st):
    """whatever is typed, the program answers or ends; it does not crash, and it does not go on after the end of input"""
    rng = np.random.default_rng(c["seed"])
    with Scratch() as d:
        for i in range(c["n"]):
            toks = ["", "0", "7", "-3", "99999999999999999999", "x", "1e3", "%s%n", "a" * 255, "b" * 256, "c" * 3000, " 2x", "\0", "\xff"]
            k = int(rng.integers(0, 8))
            text = "".join(str(rng.choice(toks)) + "\n" for _ in range(k))
            end = int(rng.integers(4))
            if end == 1:
                text += "6\n"
            elif end == 2:
                text += "3\n" + "".join(str(rng.choice(["0", "6", "zz", ""])) + "\n" for _ in range(3))
            elif end == 3:
                text += "2\n" + " ".join(str(rng.choice(["no", "ac5", "as as", "\xff"])) for _ in range(4))
            elif k and rng.random() < 0.5:
                text = text[:-1]
            if re.search(r"^\s*[2-5]", text, re.M) and end == 0:
                rcs = (0, 1)
            else:
                rcs = (0,) if end == 1 and not re.search(r"^ *2", text, re.M) else (0, 1)
            r = zrun([exe()], d, env={"ZV_SEED": str(i + 1)}, timeout=60, stdin=text.encode("latin1"))
            if r.timeout or len(r.out) > 3000000:
                raise Violation("the program does not end although its input did", "output of %d bytes" % len(r.out), {"stdin": text})
            if r.san or r.rc not in rcs:
                raise Violation("unexpected input ended the program abnormally: " + r.sig(), r.brief(), {"stdin": text})
            st.add("unexpected inputs")
    return {"case": c["id"], "sessions": c["n"]}


def run(c, st):
    return {"model": run_model, "full": run_full, "policy": run_policy, "manual": run_manual, "visual": run_visual,
            "eval": run_eval, "junk": run_junk}[c["what"]](c, st)


def finish(st):
    """draws over all sessions with ordinary random numbers"""
    for n, k, p, what in (("rocks at the start", "good rocks at the start", 0.7, "rocks are good with another probability than 0.7"),
                          ("noisy checks", "noisy checks that were right", 0.95, "distant checks are right with another probability than 0.95")):
        x, y = st.get(n, 0), st.get(k, 0)
        if x > 300 and abs(y / x - p) > 6 * np.sqrt(p * (1 - p) / x):
            raise Violation("frequencies: " + what, "%d of %d" % (y, x), {})


def main():
    rng = np.random.default_rng([SEED, 29])
    F = 6 if THOROUGH else 1
    cs = []

    def add(what, count=1, **kw):
        for i in range(count):
            cs.append(dict(kw, what=what, seed=int(rng.integers(1, 2 ** 31)), id="c29-%s-%d" % (what, len(cs))))
    add("model", 2)
    for fr in (0.0, 0.3, 0.95):
        add("full", 1, frac=fr)
    add("policy", 2)
    add("manual", 24 * F, n=25)
    for k in (1, 2, 3, 4, 5):
        add("visual", 3 * F, kind=k, n=36 if k < 5 else 12)
        add("eval", 2 * F, kind=k)
    add("eval", 1 * F, kind=0)
    add("junk", 8 * F, n=12)
    return run_check("C29", cs, run, RULE, probes=["dumpmodel"], programs=[(SUB, "zmdpRockExplore")], finish=finish, assumptions=[
        "frequencies of random draws are judged at six standard deviations"])
