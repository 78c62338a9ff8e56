"""Judges simulation traces step by step against the model."""
import numpy as np

from . import racetrack
from .check import Violation


class Sim:
    """The simulator's model: states are beliefs (POMDP), state numbers (MDP) or cars (track)."""

    def __init__(self, w):
        self.w, self.m = w, w.m
        self.memo = {}

    def start(self):
        if self.w.pomdp:
            return self.m.b0
        if self.w.kind == "track":
            return racetrack.START
        return int(self.m.s0)

    def key(self, x):
        return tuple(np.round(x, 9)) if self.w.pomdp else x

    def printed(self, x):
        if self.w.pomdp:
            return {i: float(v) for i, v in enumerate(x) if v > 0}
        if self.w.kind == "track":
            return None
        return {0: float(x)}

    def same(self, pr, x, delta=0.0):
        """does the printed (4 largest entries, 6 digits) state agree with x?"""
        if self.w.pomdp:
            TOL = 2e-5 + 2 * delta
            for i, v in pr.items():
                if not 0 <= i < len(x) or abs(v - x[i]) > TOL + 1e-5 * abs(v):
                    return False
            rest = sorted((v for i, v in enumerate(x) if i not in pr), reverse=True)
            if len(pr) < 4:
                return not rest or rest[0] < 1e-6 + delta
            return rest == [] or rest[0] <= min(pr.values()) + TOL
        if self.w.kind == "track":
            try:
                return racetrack.state_of_vec(np.array([pr.get(i, 0.0) for i in range(4)])) == x
            except Exception:
                return False
        return pr in ({0: float(x)},) or (x == 0 and not pr)

    def succ(self, x, a):
        """list of (label, prob, successor); label None where the log's outcome number has no fixed meaning"""
        k = (np.asarray(x).tobytes() if self.w.pomdp else x, a)
        if k not in self.memo:
            if self.w.pomdp:
                out = []
                for o in range(self.m.nO):
                    u = x @ self.m.TZ[a, o]
                    p = float(u.sum())
                    if p > 0:
                        out.append((o, p, u / p))
                self.memo[k] = out
            elif self.w.kind == "track":
                self.memo[k] = [(None, p, t) for t, p in self.m.outcomes(x, a).items()]
            else:
                self.memo[k] = [(None, float(p), int(t)) for t, p in enumerate(self.m.T[a, x]) if p > 0]
        return self.memo[k]

    def reward(self, x, a):
        if self.w.pomdp:
            return float(self.m.R[:, a] @ x)
        if self.w.kind == "track":
            return self.m.reward(x, a)
        return float(self.m.R[x, a])

    def term(self, x):
        if self.w.pomdp:
            return self.m.is_term(x)
        if self.w.kind == "track":
            return x == racetrack.FINISH
        return bool(self.m.terminal[x])

    def parse(self, pr):
        """exact state named by a printed one (not for beliefs)"""
        if self.w.kind == "track":
            return racetrack.state_of_vec(np.array([pr.get(i, 0.0) for i in range(4)]))
        return int(round(pr.get(0, 0.0)))


class Freq:
    """Sums of (indicator - probability) over steps, a martingale under the model, for several indicators."""

    def __init__(self):
        self.s, self.v, self.n = {}, {}, 0

    def step(self, probs, hit):
        if len(probs) < 2:
            return
        self.n += 1
        big = int(np.argmax(probs))
        small = int(np.argmin(probs))
        rare = {i for i, p in enumerate(probs) if p < 0.08}
        sets = {"most likely outcome": {big}, "least likely outcome": {small}, "first outcome": {0},
                "last outcome": {len(probs) - 1}, "outcomes below 8 %": rare}
        for name, g in sets.items():
            p = min(1.0, sum(probs[i] for i in g))
            self.s[name] = self.s.get(name, 0.0) + (hit in g) - p
            self.v[name] = self.v.get(name, 0.0) + p * (1 - p)

    def bad(self):
        for k in self.s:
            if abs(self.s[k]) > 6.5 * np.sqrt(self.v[k]) + 12:
                return k, self.s[k], self.v[k]
        return None


def exact_trace(sim, t, trace_no, limit, freq, bad):
    """follows one logged trace; returns (discounted reward, list of (state, action)) or None when beliefs get too small
    to follow.  Raises through bad()."""
    x = sim.start()
    steps = t["steps"]
    total, disc = 0.0, 1.0
    visited = []
    delta = 0.0  # what probabilities dropped as negligible can have grown to
    if not steps:
        bad("a trace has no steps", "trace %d" % trace_no)
    for j, (s, a, s2, o) in enumerate(steps):
        if not sim.same(s, x, delta):
            bad("a trace starts at a state other than the start state" if j == 0 else
                "a trace step does not start where the previous one ended",
                "trace %d step %d: logged %s, model %s" % (trace_no, j, s, sim.printed(x) or x))
        if not 0 <= a < sim.w.nA:
            bad("a trace contains an action that does not exist", "trace %d step %d: %d" % (trace_no, j, a))
        if j > 0 and sim.term(x) and not near_term(sim, x):
            bad("a trace continues after a terminal state", "trace %d step %d" % (trace_no, j))
        visited.append((x, a))
        total += disc * sim.reward(x, a)
        disc *= sim.m.discount
        out = sim.succ(x, a)
        hit = [i for i, (l, p, y) in enumerate(out) if (l == o if l is not None else sim.same(s2, y))]
        if not hit and delta > 0:
            return None  # possible only through probabilities the simulator may have rounded either way
        if not hit:
            bad("a trace contains an outcome of probability zero",
                "trace %d step %d: state %s action %d -> %s outcome %d" % (trace_no, j, sim.printed(x) or x, a, s2, o))
        l, p, y = out[hit[0]]
        if freq is not None:
            freq.step([q for _, q, _ in out], hit[0])
        if sim.w.pomdp:
            if ((y > 0) & (p * y < 1.5e-10)).any() or ((x > 0) & (x < 1.5e-10)).any():
                delta += 1.5e-10 * len(x)
            delta /= p
            if delta > 1e-4:
                return None
        if not sim.same(s2, y, delta):
            bad("a trace step leads to a state that is not the successor for its outcome",
                "trace %d step %d: state %s action %d outcome %d logged %s, model %s" %
                (trace_no, j, sim.printed(x) or x, a, o, s2, sim.printed(y) or y))
        if p < 1e-8:
            return None
        x = y
    T = sim.term(x)
    if T != t["terminated"] and not near_term(sim, x):
        bad("a trace that ended at a terminal state is not marked so" if T else
            "a trace is marked terminated at a state that is not terminal", "trace %d: %s" % (trace_no, sim.printed(x) or x))
    if limit > 0 and len(steps) > limit:
        bad("a trace is longer than the step limit", "trace %d: %d steps, limit %d" % (trace_no, len(steps), limit))
    if not t["terminated"] and (limit <= 0 or len(steps) < limit):
        bad("a trace ends before a terminal state and before the step limit", "trace %d: %d steps" % (trace_no, len(steps)))
    return total, visited


def near_term(sim, x):
    """non-terminal mass close to the threshold below which a belief counts as terminal"""
    if not sim.w.pomdp:
        return False
    q = 1 - float(x[np.asarray(sim.m.terminal, bool)].sum()) if np.any(sim.m.terminal) else 1.0
    return 1e-14 < q < 1e-7
