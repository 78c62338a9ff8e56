"""Workload: model x strategy x representation x options, with the reference that judges it."""
import os
import numpy as np

from . import models, racetrack, refsolve, logs
from .check import Inconclusive, Violation, SEED, THOROUGH

OPT_FAMILIES = [
    {}, {}, {},
    {"useMaxPlanesMasking": 0, "useMaxPlanesSupportList": 0},
    {"useMaxPlanesSupportList": 0},
    {"useMaxPlanesCache": 0, "useMaxPlanesExtraPruning": 0},
    {"useMaxPlanesExtraPruning": 0},
    {"useSawtoothSupportList": 0},
    {"useMaxPlanesMasking": 0, "useMaxPlanesSupportList": 0, "useMaxPlanesCache": 0, "useMaxPlanesExtraPruning": 0,
     "useSawtoothSupportList": 0},
    {"useWeakUpperBoundHeuristic": 1},
]
LB = {"maxPlanes": "convex", "point": "point"}


def chain_model(n):
    """The custom model as documented: a chain, actions left and right, success 0.9, cost 1 per step, undiscounted."""
    T = np.zeros((2, n, n))
    R = np.zeros((n, 2))
    for s in range(n - 1):
        for a, d in ((0, -1), (1, 1)):
            t = min(max(s + d, 0), n - 1)
            T[a, s, t] += 0.9
            T[a, s, s] += 0.1
            R[s, a] = -1
    T[:, n - 1, n - 1] = 1
    return models.Mdp(T, R, 0, 1.0, "chain")


class Work:
    """One run: .text/.fname the model file, .args options, .dim, and the reference values."""

    def __init__(self, spec):
        self.spec = spec
        rng = self.rng = np.random.default_rng(spec["seed"])
        k = self.kind = spec["kind"]
        self.strat = spec.get("strat", "frtdp")
        self.extra = []
        self.custom = None
        if k == "pomdp":
            self.m = models.rnd_pomdp(rng, spec["family"])
        elif k == "layered":
            self.m = models.layered_pomdp(rng, spec.get("discount", 0.9))
            self.extra += ["--maxHorizon", str(self.m.horizon)] if spec.get("discount", 0.9) >= 1 or spec.get("hz") else []
        elif k == "mdp":
            self.m = models.rnd_mdp(rng, spec["family"])
            if self.m.discount >= 1:
                self.m.discount = 0.95
        elif k == "mdp_layered":
            p = models.layered_pomdp(rng, spec.get("discount", 1.0))
            s0 = int(np.argmax(p.b0))
            self.m = models.Mdp(p.T, p.R, s0, p.discount, "mdp_layered")
            self.extra += ["--maxHorizon", str(p.horizon)]
        elif k == "track":
            self.m = racetrack.rnd_track(rng)
            if spec.get("discount"):
                self.m.discount = spec["discount"]
                self.m.usemax = 1 if self.m.discount >= 1 else self.m.usemax
        elif k == "custom":
            self.m = chain_model(spec["n"])
            self.extra += ["--customMDPNumStates", str(spec["n"]), "--modelType", "custom"]
        else:
            raise KeyError(k)
        self.pomdp = k in ("pomdp", "layered")
        self.fname = {"track": "m.racetrack", "custom": "custom"}.get(k, "m.pomdp" if self.pomdp else "m.mdp")
        self.text = None if k == "custom" else self.m.text()
        self.dim = {"track": 4}.get(k, self.m.nS if self.pomdp else 1)
        self._ref = None
        self.lb, self.ub = spec.get("lb", "maxPlanes" if self.pomdp else "point"), spec.get("ub", "sawtooth" if self.pomdp else "point")

    def write(self, d):
        if self.text is not None:
            with open(os.path.join(d, self.fname), "w") as f:
                f.write(self.text)

    def args(self):
        a = ["--searchStrategy", self.strat] + self.extra
        if self.spec.get("lb"):
            a += ["-l", LB[self.lb]]
        if self.spec.get("ub"):
            a += ["-u", self.ub]
        if self.spec.get("mlb"):
            a += ["--maintainLowerBound", "1"]
        for k, v in self.spec.get("opts", {}).items():
            a += ["--" + k, str(v)]
        return a

    @property
    def has_lb(self):
        return self.strat in ("frtdp", "hsvi") or bool(self.spec.get("mlb"))

    # ---- reference
    def ref(self):
        if self._ref is None:
            m = self.m
            if self.kind == "layered":
                self._ref = refsolve.TreeSolver(m)
            elif self.kind == "pomdp":
                self._ref = refsolve.pomdp_reference(m)
            elif self.kind == "track":
                if m.solve() is None:
                    raise Inconclusive("reference could not solve the track")
                self._ref = m
            else:
                self._ref = refsolve.ExactMdp(m)
        return self._ref

    @property
    def explorable(self):
        return isinstance(self.ref(), refsolve.RefPomdp)

    def start(self):
        if self.pomdp:
            return self.m.b0
        if self.kind == "track":
            return np.array([-1.0, 0, 0, 0])
        return np.array([float(self.m.s0)])

    def refine(self, vec, eps, n):
        if self.explorable:
            return self.ref().explore(vec, eps, n)
        return 0

    def interval(self, vec):
        r = self.ref()
        if self.pomdp:
            return r.interval(vec)
        if self.kind == "track":
            i = r.idx.get(racetrack.state_of_vec(vec))
            if i is None:
                raise Violation("a logged racetrack state cannot be reached in the model", str(vec))
            return r.V[i], r.V[i]
        i = int(round(vec[0]))
        return r.V[i], r.V[i]

    def q_interval(self, vec, a):
        r = self.ref()
        m = self.m
        if self.pomdp:
            if m.is_term(vec):
                return 0.0, 0.0
            base = float(m.R[:, a] @ vec)
            lo = up = base
            for _, p, y in m.succ(vec, a):
                l, u = (0.0, 0.0) if m.is_term(y) else r.interval(y)
                lo += m.discount * p * l
                up += m.discount * p * u
            return lo, up
        if self.kind == "track":
            i = r.idx[racetrack.state_of_vec(vec)]
            return r.Q[i, a], r.Q[i, a]
        i = int(round(vec[0]))
        return r.Q[i, a], r.Q[i, a]

    @property
    def nA(self):
        return 9 if self.kind == "track" else self.m.nA

    def is_term(self, vec):
        if self.pomdp:
            return self.m.is_term(vec)
        if self.kind == "track":
            return racetrack.state_of_vec(vec) == racetrack.FINISH
        return bool(self.m.terminal[int(round(vec[0]))])

    def scale(self):
        if self.kind == "track":
            return 1.0 + abs(self.ref().V).max()
        g = self.m.discount
        r = np.abs(self.m.R).max() + 1e-9
        return r / (1 - g) if g < 1 else r * self.m.nS

    def files(self):
        return {self.fname: self.text} if self.text else {}


def bench_cases(n, seed_salt=0, kinds=None, strats=None, seed=None):
    """n case descriptions spread over model kinds, strategies, representations and options."""
    rng = np.random.default_rng([SEED if seed is None else seed, seed_salt])
    kinds = kinds or ["pomdp"] * 8 + ["layered"] * 4 + ["mdp"] * 3 + ["mdp_layered"] + ["track"] * 3 + ["custom"]
    out = []
    for i in range(n):
        k = kinds[i % len(kinds)]
        c = {"kind": k, "seed": int(rng.integers(1, 2 ** 31))}
        both = ["frtdp", "hsvi"]
        if k == "pomdp":
            c["family"] = models.POMDP_FAMILIES[int(rng.integers(len(models.POMDP_FAMILIES)))]
            c["strat"] = both[int(rng.integers(2))]
            if c["family"] == "goal" and rng.random() < 0.3:
                c["strat"] = "rtdp"
        elif k == "layered":
            c["discount"] = float(rng.choice([1.0, 0.95, 0.8]))
            c["hz"] = int(rng.random() < 0.5)
            c["strat"] = str(rng.choice(["frtdp", "hsvi", "rtdp", "lrtdp", "hdp"]))
        elif k == "mdp":
            c["family"] = models.MDP_FAMILIES[int(rng.integers(len(models.MDP_FAMILIES)))]
            c["strat"] = str(rng.choice(both if c["family"] == "mdp_ergodic" else both + ["rtdp", "lrtdp", "hdp"]))
        elif k == "custom":
            c["n"] = int(rng.integers(2, 12))
            c["strat"] = str(rng.choice(both + ["rtdp", "lrtdp", "hdp"]))
        else:
            if k == "mdp_layered":
                c["discount"] = float(rng.choice([1.0, 0.9]))
            c["strat"] = str(rng.choice(both + ["rtdp", "lrtdp", "hdp"]))
        if strats and c["strat"] not in strats:
            c["strat"] = strats[int(rng.integers(len(strats)))]
        if k in ("pomdp", "layered"):
            j = int(rng.integers(6))
            if j == 0:
                c["lb"], c["ub"] = "point", "point"
            elif j == 1:
                c["lb"] = "point"
            elif j == 2:
                c["ub"] = "point"
            c["opts"] = OPT_FAMILIES[int(rng.integers(len(OPT_FAMILIES)))]
            if c.get("lb") == "point":
                c["opts"] = {o: v for o, v in c["opts"].items() if "MaxPlanes" not in o}
        else:
            c["opts"] = {"useWeakUpperBoundHeuristic": 1} if rng.random() < 0.3 else {}
        if c["strat"] not in both and rng.random() < 0.6:
            c["mlb"] = 1
        c["rs"] = int(rng.integers(1, 10 ** 6))
        c["id"] = "%s-%s-%s-%d" % (k, c.get("family", ""), c["strat"], i)
        out.append(c)
    return out


BENCH_FAST = ["--evaluationTrialsPerEpoch", "30", "--evaluationMaxStepsPerTrial", "4",
              "--evaluationFirstEpochWallclockSeconds", "1e15", "--simulationTracesToLogPerEpoch", "0"]


def run_bench(w, d, nb, prec=1e-3, extra=(), timeout=120, logs_on=True, clock="1", seed=None, env=None):
    """benchmark run with every trial logged; returns the result"""
    w.write(d)
    a = ["benchmark"] + w.args() + BENCH_FAST + ["-p", "%.17g" % prec]
    if nb is not None:
        a += ["--terminateNumBackups", str(nb)]
    if logs_on:
        a += logs.LOGARGS
    a += list(extra) + [w.fname]
    return logs.zmdp(d, a, env=dict({"ZV_SEED": str(seed if seed is not None else w.spec.get("rs", 1)), "ZV_CLOCK": clock},
                                    **(env or {})), timeout=timeout)
