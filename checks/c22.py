"""C22: generated LifeSurvey models implement the survey rules; the LifeSurvey tools and policies agree with them."""
import os, re
import numpy as np
from zv import build, logs, lifesurvey
from zv.check import run_check, Violation, Inconclusive, SEED, THOROUGH
from zv.run import Scratch, zrun

N = 9000 if THOROUGH else 2000
MAXS = 6000
ACTS = ["ane", "ae", "ase", "anes", "aes", "ases", "alook"]


def cases():
    rng = np.random.default_rng([SEED, 2222])
    cs = []
    for i in range(N):
        cs.append({"seed": int(rng.integers(1, 2 ** 31)), "mode": ["prior", "prior", "targets", "path"][i % 4], "rs": int(rng.integers(1, 10 ** 6))})
        cs[-1]["id"] = "%s-%d" % (cs[-1]["mode"], i)
    return cs


def parse(name, k):
    if name == "sterminal":
        return None
    m = re.match(r"^sx(-?\d+)y(-?\d+)d(\d)u(\d)n(\d)(\d)(\d)r(\d+)$", name)
    if not m or len(m.group(8)) != k:
        return False
    g = [int(m.group(i)) for i in range(1, 8)]
    return (g[0], g[1], g[2], g[3], tuple(g[4:7]), tuple(int(x) for x in m.group(8)))


def close(a, b, tol=2e-15):
    return all(abs(a.get(k, 0.0) - b.get(k, 0.0)) <= tol for k in set(a) | set(b))


def near(u, v):
    try:
        return abs(float(u) - float(v)) <= 1e-9 * (1 + abs(float(u)))
    except ValueError:
        return False


def run(c, st):
    rng = np.random.default_rng(c["seed"])
    m = lifesurvey.random_map(rng, 1.0 if c["mode"] != "path" else float(rng.choice([1.0, 2.0, 3.0, 6.0])))
    files = {"m.lifeSurvey": m.text(rng)}
    tree = build.ensure("san")
    with Scratch() as d:
        p = (lambda n: os.path.join(d, n))
        open(p("m.lifeSurvey"), "w").write(files["m.lifeSurvey"])

        def bad(what, detail=""):
            raise Violation(what, str(detail)[:3000], files)

        def tool(name, *args, **kw):
            r = zrun([tree.exe(name)] + list(args), d, timeout=kw.get("timeout", 120), env=kw.get("env"))
            if r.timeout:
                raise Inconclusive("watchdog: " + name)
            if not r.ok:
                bad("%s ended abnormally on a valid map: %s" % (name, r.sig()), r.brief())
            return r
        # the map itself
        tool("dumpMap", "m.lifeSurvey", "dump")
        got = sorted(tuple(int(x) for x in l.split()) for l in open(p("dump")))
        if got != sorted((x, y, r) for (x, y), r in m.cells.items()):
            bad("dumpMap lists cells that are not those of the map", got)
        st.add("maps")
        st.add("map cells compared", len(got))
        targets(c, st, m, d, rng, tool, bad)
        res = {"case": c["id"], "cells": len(got)}
        if c["mode"] == "path":
            r = path_of(c, st, m, d, tool, bad, res)
            return res if r else None
        targ = []
        if c["mode"] == "targets":
            cells = sorted(m.cells)
            m.targets = {q for q in cells if rng.random() < 0.4} | {(99, 99), (-1, 0)}
            files["t"] = "# targets\n" + "".join("%d %d\n" % q for q in sorted(m.targets))
            open(p("t"), "w").write(files["t"])
            targ = ["-t", "t"]
        # enumerate the reference first: its size decides whether the case is affordable
        start = {}
        for s, q in m.initial().items():
            s = m.canon(s)
            start[s] = start.get(s, 0) + q
        ref, todo = {}, list(start)
        while todo:
            s = todo.pop()
            if s in ref:
                continue
            ref[s] = []
            for a in range(7):
                o, r, _ = m.step(s, a)
                q = {}
                for s2, pr in o.items():
                    s2 = m.canon(s2)
                    q[s2] = q.get(s2, 0) + pr
                ref[s].append((q, r))
                todo += [x for x in q if x not in ref]
            if len(ref) > MAXS:
                raise Inconclusive("more than %d states" % MAXS)
        tool("gen_LifeSurvey", *targ, "-f", "m.lifeSurvey", "full.pomdp")
        if c["seed"] % 2:
            tool("gen_LifeSurvey", *targ, "m.lifeSurvey", "num.pomdp")
        else:
            tool("gen_LifeSurvey", *targ, "m.lifeSurvey")
            os.rename(p("m.pomdp"), p("num.pomdp"))
        try:
            names, acts, obs, b0, disc, T, O, R = lifesurvey.read_full(open(p("full.pomdp")).read())
        except (ValueError, IndexError, KeyError) as e:
            bad("the generated model is not well formed", repr(e))
        if acts != ACTS or len(obs) != 28 or len(set(obs)) != 28 or obs[27] != "onull" or disc != 0.999:
            bad("actions, observations or discount of the generated model are wrong", (acts, obs, disc))
        for i in range(27):
            if obs[i] != "o%d%d%d" % (i // 9, i // 3 % 3, i % 3):
                bad("the observations of the generated model are misnamed", obs)
        if len(set(names)) != len(names) or len(b0) != len(names):
            bad("the states of the generated model are listed wrongly", names[:20])
        S = [parse(n, len(m.priors)) for n in names]
        if any(s is False for s in S):
            bad("a state of the generated model has a malformed name", [n for n, s in zip(names, S) if s is False][:5])
        # names that denote the same situation up to levels of regions that are out of reach denote the same state
        C = [m.canon(s) for s in S]
        lost = set(ref) - set(C)
        if lost:
            bad("a reachable situation is missing from the generated model", sorted(map(str, lost))[:5])
        idx = dict(zip(names, C))
        q = {}
        for s, x in zip(C, b0):
            if x:
                q[s] = q.get(s, 0) + x
        if not close(q, start):
            bad("the start distribution is not the one the map specifies", "generated %s\nspecified %s" % (q, start))
        n = 0
        for i, name in enumerate(names):
            if C[i] not in ref:
                continue  # not reachable, so of no consequence
            for a in range(7):
                k = (ACTS[a], name)
                q = {}
                for s2, pr in T.get(k, {}).items():
                    if s2 not in idx:
                        bad("a transition leads to a state that is not declared", (k, s2))
                    q[idx[s2]] = q.get(idx[s2], 0) + pr
                if not close(q, ref[C[i]][a][0]):
                    bad("a transition of the generated model is not the one the rules give",
                        "%s\ngenerated %s\nrules %s" % (k, q, ref[C[i]][a][0]))
                r = R.get(k, 0.0)
                if abs(r - ref[C[i]][a][1]) > 1e-12:
                    bad("a reward of the generated model is not the one the rules give", "%s: %r, rules %r" % (k, r, ref[C[i]][a][1]))
                o = {obs.index(x): pr for x, pr in O.get(k, {}).items()}
                if not close(o, m.observe(C[i], a)):
                    bad("an observation probability of the generated model is not the one the rules give",
                        "%s\ngenerated %s\nrules %s" % (k, o, m.observe(C[i], a)))
                n += 1
        st.add("state-action pairs compared", n)
        st.mx("states", len(names))
        # numeric mode: the same statements with numbers for names
        num = {x: str(i) for i, x in enumerate(names)}
        num.update({x: str(i) for i, x in enumerate(ACTS)})
        num.update({x: str(i) for i, x in enumerate(obs)})
        full = []
        for line in open(p("full.pomdp")):
            f = line.split()
            if f and f[0] in ("states:", "actions:", "observations:"):
                f = [f[0], str(len(f) - 1)]
            elif f and f[0][0] in "TOR":
                f = [num.get(x, x) if j in (1, 3, 5) else x for j, x in enumerate(f)]
            if f:
                full.append(f)
        got = [l.split() for l in open(p("num.pomdp")) if l.strip()]
        if sorted(full) != sorted(got):
            bad("the two output modes denote different models", [(x, y) for x, y in zip(full, got) if x != y][:3])
        # both parsers read it, to the same model
        if len(names) <= 800:
            dumps = []
            for how, f in (("std", "full.pomdp"), ("std", "num.pomdp"), ("fast", "num.pomdp")):
                r = zrun([tree.probe("dumpmodel"), how, "pomdp", f], d, timeout=100)
                if not r.ok or "BEGIN" not in r.out:
                    bad("the %s parser refuses the generated model" % how, r.brief())
                dumps.append(r.out[r.out.index("BEGIN"):].split())
            for x in dumps[1:]:
                if len(x) != len(dumps[0]) or any(u != v and not near(u, v) for u, v in zip(dumps[0], x)):
                    bad("parsers or output modes disagree on the generated model", "")
            st.add("models loaded three ways")
        res["states"] = len(names)
        if not m.exit(m.start) and len(names) <= 1500:
            policies(c, st, m, d, names, C, bad, files)
        if c["mode"] == "targets":
            st.add("models with known targets")
            if m.base == 1 and m.look == 5:
                for k in range(5):
                    bumps(c, st, m, d, np.random.default_rng([c["rs"], 5, k]), bad)
        return res


def targets(c, st, m, d, rng, tool, bad):
    """genTargetLocations: the list is a subset of the cells and equals the picture; frequencies are judged over all runs"""
    noise = float(rng.choice([0, 0, 0.5]))
    r = tool("genTargetLocations", "-s", str(c["rs"]), "-n", repr(noise), "m.lifeSurvey", env={"ZV_SEED": str(c["rs"])})
    head, body = r.out.split("--\n", 1) if "--\n" in r.out else r.out.split("--", 1)
    listed = {(int(a), int(b)) for a, b in re.findall(r"(\d+),\s*(\d+)", body)}
    n = len(re.findall(r"(\d+),\s*(\d+)", body))
    said = int(re.search(r"numTargets=(\d+)", head).group(1))
    if len(listed) != n or n != said or not listed <= set(m.cells):
        bad("genTargetLocations lists targets that are not distinct map cells", r.out)
    pic = head.split("\n")[2:2 + m.h]
    for y0, line in enumerate(pic):
        y = m.h - 1 - y0
        row = line[2:2 + 2 * 200]
        row = re.sub(r" +%d$" % (y % 10), "", row)
        for (x, yy), _ in m.cells.items():
            if yy == y:
                col = 2 * x - y
                ch = row[col] if col < len(row) else "?"
                if ch != ("O" if (x, y) in listed else "*"):
                    bad("the picture and the list of genTargetLocations differ", r.out)
    for q, reg in m.cells.items():
        pr = m.priors[reg]
        if pr == 0 and q in listed or pr == 1 and noise == 0 and q not in listed:
            bad("genTargetLocations places targets against certain priors", r.out)
        if noise == 0 and 0 < pr < 1:
            st.add("target excess", float(q in listed) - pr)
            st.add("target variance", pr * (1 - pr))
    st.add("target lists")


def path_of(c, st, m, d, tool, bad, res):
    """the planned path is legal, complete and has the largest value"""
    open(os.path.join(d, "x.pomdp"), "w").write(
        "discount: 0.9\nvalues: reward\nstates: 1\nactions: 7\nobservations: 28\nstart: 1\nT: * identity\nO: * : * : 27 1.0\nR: * : * : * : * 0\n")
    best = m.best_path_value()
    if best == "large":
        raise Inconclusive("too many paths")
    if m.exit(m.start):
        return False
    r = logs.zmdp(d, ["evaluate", "--policyType", "lspath", "--customModel", "m.lifeSurvey", "-i", "1",
                      "--evaluationMaxStepsPerTrial", "1", "x.pomdp"], timeout=100)
    if r.timeout:
        raise Inconclusive("watchdog: lspath")
    v = re.search(r"best path value \(expected number of life samples\): (\S+)", r.out)
    if not v:
        bad("the path planner reports no path", r.brief())
    if r.san:
        bad("the path planner ended abnormally: " + r.sig(), r.brief())
    v = float(v.group(1))
    path = [(int(a), int(b)) for a, b in re.findall(r"\(\s*(-?\d+),\s*(-?\d+)\)", r.out[r.out.index("best path:"):].split("LSPath")[0].split("\n\n")[0])]
    if best is None:
        if path:
            bad("a path is planned though no legal path leads to an exit", r.brief())
        st.add("maps without a path")
        return False
    mine = m.path_value(path)
    if mine is None:
        bad("the planned path is not a legal way from the start to an exit", path)
    if abs(mine - v) > 1e-6 or abs(best - v) > 1e-6:
        bad("the planned path does not have the largest expected number of regions with life",
            "reported %r, value of the path %r, best %r\n%s" % (v, mine, best, path))
    st.add("paths judged")
    st.mx("path length", len(path))
    res["path"] = [len(path), v]
    return True


def policies(c, st, m, d, names, C, bad, files):
    kind = ["lspath", "lsblind"][c["seed"] // 2 % 2]
    extra = ["--customModel", "m.lifeSurvey"] if kind == "lspath" else []
    steps = [5, 40][c["seed"] // 4 % 2]
    r = logs.zmdp(d, ["evaluate", "--policyType", kind] + extra + ["-i", "40", "--evaluationMaxStepsPerTrial", str(steps),
                  "--simulationTracesToLogPerEpoch", "-1", "num.pomdp"], env={"ZV_SEED": str(c["rs"])}, timeout=200)
    if r.timeout:
        raise Inconclusive("watchdog: " + kind)
    path = None
    if kind == "lspath" and "best path:" in r.out:
        path = [(int(a), int(b)) for a, b in re.findall(r"\(\s*(-?\d+),\s*(-?\d+)\)", r.out[r.out.index("best path:"):])]
        path = path if m.path_value(path) is not None else None
    if not r.ok:
        if kind == "lspath" and "there are no legal moves" in r.err and r.rc == 1:
            g = re.search(r"in pos \((-?\d+),(-?\d+)\)", r.err)
            q = (int(g.group(1)), int(g.group(2)))
            # after entering q by some direction no move is legal
            if not any(not any(m.legal(q, last, e) for e in range(3)) for last in range(3)):
                bad("the path policy gives up where it has legal moves", r.brief())
            st.add("path policies that met a dead end")
            return
        bad("evaluate --policyType %s ended abnormally: %s" % (kind, r.sig()), r.brief())
    ending = []
    for t in logs.sim_traces(os.path.join(d, "sim.plot")):
        b = {}
        for s, x in m.initial().items():
            s = m.canon(s)
            b[s] = b.get(s, 0) + x
        sensed, pos, last, used = (0, 0, 0), m.start, 1, 0
        done = False
        acts = []
        lv = [0] * len(m.priors)
        lv[m.cells[pos]] = 1
        for sv, a, tv, o in t["steps"]:
            if done:
                bad("a trace goes on after the survey has ended", r.brief())
            for i, x in sv.items():
                if abs(b.get(C[i], 0) - x) > 1e-5:
                    bad("a simulated belief is not the exact one", "%s: %r, exact %r" % (names[i], x, b.get(C[i], 0)))
            if kind == "lsblind" and a != 4:
                bad("the blind policy takes another action than its sampling move east", a)
            if kind == "lspath":
                if a == 6:
                    if used:
                        bad("the path policy looks twice in a cell", acts)
                else:
                    if not used:
                        bad("the path policy moves before it looked", acts)
                    if not m.legal(pos, last, a % 3):
                        bad("the path policy makes an illegal move", "at %s, last %d: %d; %s" % (pos, last, a, acts))
                    good = [e for e in range(3) if m.legal(pos, last, e) and sensed[e] and
                            lv[m.cells[(pos[0] + lifesurvey.DIRS[e][0], pos[1] + lifesurvey.DIRS[e][1])]] < 3]
                    if (a >= 3) != bool(good):
                        bad("the path policy samples exactly when a promising cell lies ahead, but here it did not",
                            "at %s, sensed %s, levels %s: action %d" % (pos, sensed, lv, a))
                    if good and a % 3 not in good:
                        bad("the path policy passes a promising cell", "at %s, sensed %s, levels %s: action %d" % (pos, sensed, lv, a))
                    if path:
                        e = pick(m, pos, last, good, path)
                        if a % 3 not in e:
                            bad("the path policy does not take the move its rules prefer",
                                "at %s, sensed %s, levels %s: action %d, preferred %s" % (pos, sensed, lv, a, e))
            acts.append((a, o))
            # exact Bayes filter over the reference model
            b2, ev = {}, 0.0
            for s, x in b.items():
                for s2, pr in m.step(s, a)[0].items():
                    z = m.observe(s2, a).get(o, 0.0)
                    if z:
                        s2 = m.canon(s2)
                        b2[s2] = b2.get(s2, 0) + x * pr * z
                        ev += x * pr * z
            if ev <= 0:
                bad("an observation occurred that the rules exclude", "%s after %s" % (o, acts))
            b = {s: x / ev for s, x in b2.items() if x / ev > 1e-14}
            if a == 6:
                if not used:
                    used = 1
                    if o != 27:
                        sensed = tuple(int(v == 2) for v in (o // 9, o // 3 % 3, o % 3))
            elif m.legal(pos, last, a % 3):
                pos = (pos[0] + lifesurvey.DIRS[a % 3][0], pos[1] + lifesurvey.DIRS[a % 3][1])
                reg = m.cells[pos]
                lv[reg] = max(lv[reg], (3 if a >= 3 else 2) if sensed[a % 3] else 1)
                last, used, sensed = a % 3, 0, (0, 0, 0)
            done = set(b) == {None}
            if not done and None in b:
                bad("the exact belief is undecided about the end", b)
            st.add("policy steps judged")
        if t["terminated"] != done or (not done and len(t["steps"]) != steps):
            bad("a trace does not end exactly at an exit or the step limit", "terminated %s, exact %s, %d steps" % (t["terminated"], done, len(t["steps"])))
        st.add("%s traces" % kind)
        if m.targets is not None and kind == "lspath" and done and m.base == 1 and m.look == 5:
            ending.append([a for a in acts])
    if ending:
        stats(c, st, m, d, ending[0], bad)


def pick(m, pos, last, good, path):
    """moves with the highest preference: promising, then near the path, then NE > SE > E"""
    best, arg = None, []
    for e in range(3):
        if not m.legal(pos, last, e):
            continue
        q = (pos[0] + lifesurvey.DIRS[e][0], pos[1] + lifesurvey.DIRS[e][1])
        dist = min((abs(q[0] - z[0]) + abs(q[1] - z[1])) if (q[0] - z[0]) * (q[1] - z[1]) < 0 else
                   max(abs(q[0] - z[0]), abs(q[1] - z[1])) for z in path)
        k = (e in good, -dist, {0: 2, 2: 1, 1: 0}[e])
        if best is None or k > best:
            best, arg = k, [e]
    return arg


def stats(c, st, m, d, acts, bad):
    """calcLSTrialStats agrees with the model on a trace and known targets"""
    open(os.path.join(d, "tr"), "w").write("# trace\n" + "".join("%d %d\n" % x for x in acts))
    r = zrun([build.ensure("san").exe("calcLSTrialStats")] + (["-v"] if c["seed"] % 2 else []) + ["m.lifeSurvey", "t", "tr"], d)
    if not r.ok:
        bad("calcLSTrialStats ended abnormally: " + r.sig(), r.brief())
    s = [x for x in m.initial()]
    if len(s) != 1:
        raise Inconclusive("start not deterministic")
    s, tot, alt, disc, looks, samples, good, illegal = s[0], 0.0, 0.0, 1.0, 0, 0, 0, 0
    for a, o in acts:
        n, rew, ok = m.step(s, a)
        looks += a == 6
        if 3 <= a < 6 and ok:
            samples += 1
            good += s[4][a % 3]
        illegal += not ok
        tot += disc * rew
        disc_used = disc
        disc *= 0.999
        alt += disc_used * ((5 if a >= 3 else 1) if not ok else 0)
        (s,) = n
    want = {"ACTIONS_LOOK_TOTAL": [looks, len(acts)], "SAMPLES_GOOD_TOTAL": [good, samples], "ILLEGAL_ACTIONS": [illegal]}
    for k, v in want.items():
        g = re.search(r"^%s (.*)$" % k, r.out, re.M)
        if not g or [int(x) for x in g.group(1).split()] != v:
            bad("calcLSTrialStats counts wrongly", "%s: %s, expected %s\n%s" % (k, g and g.group(1), v, acts))
    g = re.search(r"^REWARD (\S+)$", r.out, re.M)
    # an illegal move costs 100; whether the price of the attempt is charged as well is not specified for this tool
    if not g or min(abs(float(g.group(1)) - tot), abs(float(g.group(1)) - (tot - alt))) > 6e-4:
        bad("calcLSTrialStats reports another reward than the model gives", "%s, expected %r\n%s" % (g and g.group(1), tot, acts))
    st.add("trial statistics compared")


def bumps(c, st, m, d, rng, bad):
    """a random trace, with moves against obstacles, for calcLSTrialStats"""
    (s,), acts, last, used = list(m.initial()), [], 1, False
    hit = 0
    while s is not None and len(acts) < 60:
        ways = [a for a in range(6) if {last, a % 3} != {0, 2}] + ([6, 6] if not used else [])
        a = int(rng.choice(ways))
        (s2,), _, ok = m.step(s, a)
        acts.append((a, 27))
        hit += not ok
        if a == 6:
            used = True
        elif ok:
            last, used = a % 3, False
        s = s2
    if acts:
        stats(c, st, m, d, acts, bad)
        st.add("illegal moves in trial statistics", hit)


def finish(st):
    v = st.get("target variance", 0)
    if abs(st.get("target excess", 0)) > 6.5 * np.sqrt(v) + 3:
        raise Violation("genTargetLocations does not place targets with the prior probabilities",
                        "excess %.1f, variance %.1f" % (st["target excess"], v))


def main():
    return run_check("C22", cases(), run,
                     "a case is non-trivial when a generated model was compared state by state with the rules, or a planned path judged",
                     probes=("dumpmodel",), finish=finish)
