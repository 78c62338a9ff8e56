"""C13: racetrack and custom models have the documented dynamics."""
import os
import numpy as np
from zv import racetrack, walk
from zv.check import run_check, Violation, SEED, THOROUGH
from zv.run import Scratch

RULE = ("A probe explores a real RaceTrack (or CustomMDP) object from its initial state, preferring long paths so that high speeds "
        "occur, and prints outcome probabilities, successors, rewards and terminal flags. Each state and action is compared, as a "
        "distribution over successors, with an independent model: exact rational segment/cell intersection on the map, slip and "
        "wind errors, crash restarts, finish, costs. One evaluation is one map (or chain length).")


def wide_track(rng):
    """long straights, thin walls, map edges that are open, start and finish cells anywhere"""
    w, h = int(rng.integers(4, 41)), int(rng.integers(1, 21))
    fill = float(rng.choice([0.0, 0.03, 0.1, 0.3]))
    g = [["@" if rng.random() < fill else str(rng.choice([" ", ".", "-"])) for x in range(w)] for y in range(h)]
    if rng.random() < 0.5 and h > 2:
        for y in range(h):
            for x in range(w):
                if x in (0, w - 1) or y in (0, h - 1):
                    g[y][x] = "@"
    for ch, n in (("s", int(rng.integers(1, 6))), ("f", int(rng.integers(0, 6)))):
        for _ in range(n):
            g[int(rng.integers(h))][int(rng.integers(w))] = ch
    if not any("s" in r for r in g):
        g[h // 2][w // 2] = "s"
    # a row that starts with '#' would be a comment, one of length 0 would be skipped
    disc = float(rng.choice([1.0, 1.0, 0.95, 0.5, 0.999, 0.99999, rng.random(), 1e-3]))
    return racetrack.Track(["".join(r) for r in g], disc, float(rng.choice([0, 0.1, 0.25, 1.0])), int(rng.integers(2)),
                           float(rng.choice([50, 1000])), int(rng.integers(2)))


def run(c, st):
    rng = np.random.default_rng(c["seed"])
    if c["kind"] == "custom":
        return chain(c, st)
    t = wide_track(rng) if c["kind"] == "wide" else racetrack.rnd_track(rng, small=c["seed"] % 2 == 0)
    text = t.text()
    if rng.random() < 0.3:
        text = "# a comment\n" + text.replace("\n---\n", "\n# another\n---\n# and one more\n\n")
    files = {"m.racetrack": text}
    with Scratch() as d:
        open(os.path.join(d, "m.racetrack"), "w").write(text)
        r = walk.walk(d, "track", "m.racetrack", c["seed"], c["n"], "dump", "", files)
        D = walk.Dump(r.out)
    if not D.complete:
        raise Violation("the walk did not finish", r.brief(), files)

    def bad(what, detail):
        raise Violation(what, detail, files)
    if D.nA != 9 or D.dim != 4 or abs(D.discount - t.discount) > 1e-15:
        bad("model parameters differ", "%s %s %s" % (D.nA, D.dim, D.discount))
    ref = {i: racetrack.state_of_vec(v) for i, v in D.states.items()}
    if ref[0] != racetrack.START:
        bad("wrong initial state", "%s" % D.states[0])
    for i, v in D.states.items():
        if len(v) != 4 or (v != np.round(v)).any():
            bad("not a racetrack state", "%s" % v)
    n = fast = 0
    ends = {"finish": 0, "crash": 0}
    for i, (term, acts) in D.exp.items():
        s = ref[i]
        if term != (s == racetrack.FINISH):
            bad("wrong terminal flag", "state %s: %d" % (s, term))
        if len(s) == 4:
            fast = max(fast, abs(s[2]), abs(s[3]))
        for a in range(9):
            rew, nout, outs = acts[a]
            if abs(rew - t.reward(s, a)) > 1e-12:
                bad("wrong reward", "state %s action %d: %g, expected %g" % (s, a, rew, t.reward(s, a)))
            got = {}
            for o, p, k in outs:
                if p < 0:
                    bad("negative outcome probability", "state %s action %d outcome %d" % (s, a, o))
                if k >= 0:
                    got[ref[k]] = got.get(ref[k], 0.0) + p
            if abs(sum(got.values()) - 1) > 1e-9:
                bad("outcome probabilities do not sum to one", "state %s action %d: %s" % (s, a, got))
            want = t.outcomes(s, a)
            for q in set(got) | set(want):
                if abs(got.get(q, 0) - want.get(q, 0)) > 1e-9:
                    bad("outcome distribution differs from the map's dynamics",
                        "state %s action %d: %s, expected %s" % (s, a, got, want))
            n += 1
            if len(s) == 4:
                ends["finish"] += racetrack.FINISH in want
                ends["crash"] += racetrack.START in want
    st.add("state-actions compared", n)
    st.add("with a finish outcome", ends["finish"])
    st.add("with a crash outcome", ends["crash"])
    st.mx("speed reached", fast)
    st.seen("rules", (t.wind, t.discount == 1, t.err))
    return {"case": c["id"], "states": len(D.exp), "state-actions": n, "max speed": int(fast)}


def chain(c, st):
    N = c["n"]
    with Scratch() as d:
        r = walk.walk(d, "custom", "custom", c["seed"], 4 * N + 10, "dump", "customMDPNumStates %d" % N)
        D = walk.Dump(r.out)

    def bad(what, detail):
        raise Violation("custom model: " + what, "%d states: %s" % (N, detail), {})
    if not D.complete:
        bad("the walk did not finish", r.brief())
    if D.nA != 2 or D.dim != 1 or D.discount != 1.0:
        bad("parameters differ", "%s %s %s" % (D.nA, D.dim, D.discount))
    x = {i: int(v[0]) for i, v in D.states.items()}
    if x[0] != 0 or sorted(x.values()) != list(range(N)) or len(D.exp) != N:
        bad("wrong set of states", "%s" % sorted(x.values()))
    for i, (term, acts) in D.exp.items():
        s = x[i]
        if term != (s == N - 1):
            bad("wrong terminal flag", "%d: %d" % (s, term))
        for a, dx in ((0, -1), (1, 1)):
            rew, nout, outs = acts[a]
            if abs(rew - (0 if s == N - 1 else -1)) > 1e-12:
                bad("wrong reward", "%d %d: %g" % (s, a, rew))
            want = {}
            for q, p in (((min(max(s + dx, 0), N - 1)), 0.9), (s, 0.1)) if s < N - 1 else ((s, 1.0),):
                want[q] = want.get(q, 0) + p
            got = {}
            for o, p, k in outs:
                got[x[k]] = got.get(x[k], 0) + p
            if any(abs(got.get(q, 0) - want.get(q, 0)) > 1e-9 for q in set(got) | set(want)):
                bad("wrong transitions", "%d %d: %s, expected %s" % (s, a, got, want))
    st.add("chain states compared", N)
    return {"case": c["id"], "chain": N}


def main():
    n = 3000 if THOROUGH else 900
    rng = np.random.default_rng([SEED, 13])
    cases = [{"id": "c13-%d" % i, "kind": "wide" if i % 2 else "track", "n": [60, 400, 1500][i // 2 % 3],
              "seed": int(rng.integers(1, 2 ** 31))} for i in range(n)]
    for i, N in enumerate(list(range(1, 25)) + [50, 100, 333]):
        cases.append({"id": "c13-chain-%d" % N, "kind": "custom", "n": N, "seed": i + 1})
    return run_check("C13", cases, run, RULE, probes=["modelwalk"], assumptions=[
        "cells outside the map are closed; a path only touches the cells whose interior it crosses"])
